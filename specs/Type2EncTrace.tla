--------------------------- MODULE Type2EncTrace ----------------------------
(***************************************************************************)
(* C04.  A record is one glyph of a font which the real writer has         *)
(* compiled: the glyph description, the charstring and the width           *)
(* parameters found in the file, and the glyph as the real reader sees it. *)
(* The charstring must be well formed, must use every byte, and must       *)
(* represent the description.                                              *)
(***************************************************************************)
EXTENDS Type2Enc, TraceLib

VARIABLE l

Verdict(r) ==
  IF r.t = "refused"     \* Write has returned an error for the font
  THEN IF \A k \in 1..Len(r.glyphs) : Representable(r.glyphs[k]) THEN {"representable glyph refused"} ELSE {}
  ELSE
  LET P == [main |-> r.code, ls |-> r.ls, gs |-> r.gs, nl |-> r.nl, ng |-> r.ng, dw |-> r.dw, nwi |-> r.nwi, nwf |-> r.nwf]
      m == Run(P, Start0(P), 100000)
  IN (IF m.s # "ok" THEN {"charstring is not well formed"}
      ELSE (IF AllUsed(m) THEN {} ELSE {"bytes after endchar"}) \cup Diff(m, r.g))
     \cup (IF ~r.rdok THEN {"file not readable"} ELSE {x \o " as read back" : x \in Diff(r.rd, r.g)})

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
