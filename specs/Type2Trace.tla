---------------------------- MODULE Type2Trace -----------------------------
(***************************************************************************)
(* C05.  A record of type "font" is a CFF file assembled by the harness    *)
(* around charstrings and subroutine INDEXes, together with what the real  *)
(* reader made of it.  It is accepted iff                                  *)
(*  - every glyph is well formed and the reader returns exactly the        *)
(*    outlines, stems and widths of the Type 2 machine, or                 *)
(*  - some glyph is malformed and the reader returns an error, or          *)
(*  - TN5177 leaves the result open.                                       *)
(***************************************************************************)
EXTENDS Type2, TraceLib, FiniteSets

VARIABLE l

Prog(r, g) == LET d == r.fds[g.fd] IN
  [main |-> g.main, ls |-> d.ls, gs |-> r.gs, nl |-> d.nl, ng |-> r.ng, dw |-> d.dw, nwi |-> d.nwi, nwf |-> d.nwf]

Fuel == 20000

GlyphDiff(f, o) ==
  (IF f.cmds # o.cmds THEN {"outline"} ELSE {}) \cup
  (IF f.h # o.h \/ f.v # o.v THEN {"stems"} ELSE {}) \cup
  (IF f.w # o.w THEN {"width"} ELSE {})

Verdict(r) ==
  LET n == Len(r.glyphs)
      f == [k \in 1..n |-> Run(Prog(r, r.glyphs[k]), Start0(Prog(r, r.glyphs[k])), Fuel)]
      st == {f[k].s : k \in 1..n}
  IN
  IF r.ok
  THEN (IF "reject" \in st /\ "any" \notin st THEN {"malformed charstring accepted"} ELSE {}) \cup
       (IF Len(r.out) # n THEN {"number of glyphs"}
        ELSE UNION {IF f[k].s = "ok" THEN GlyphDiff(f[k], r.out[k]) ELSE {} : k \in 1..n})
  ELSE IF st = {"ok"} THEN {"well-formed charstring rejected"} ELSE {}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
