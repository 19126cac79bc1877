-------------------------- MODULE GlyphNamesTrace --------------------------
(***************************************************************************)
(* C20.  Acceptance of recorded names.  Records:                           *)
(*  names   given, cms (character maps), agl: <<code, glyph-list name>>    *)
(*          for the mapped codes, rules; outs: results of repeated calls;  *)
(*          got, after: the names of the single glyphs, and the result of  *)
(*          another call, once the names are installed;                    *)
(*  simple  given, text: glyph-list names of the texts of the glyphs; outs:*)
(*          names after each of two conversions; cid: still CID-keyed;     *)
(*          file: names read back from a file (<<>>: not tested);          *)
(*  ps      out: codes of the characters of the PostScript name.           *)
(***************************************************************************)
EXTENDS GlyphNames, TraceLib

PL == INSTANCE Pipeline
VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

NamesV(r) ==
  LET B == PL!BestSubs(r.cms)
      n == Len(r.given)
      Alt == IF B = {} THEN {<<>>} ELSE
             {LET m == PL!Mapping(r.cms[i]) IN [k \in 1..Len(r.agl) |-> PL!Lookup(m, r.agl[k][1])] : i \in B}
      F(gids) ==
        LET AA == [i \in 1..n |-> {r.agl[k][2] : k \in {k \in DOMAIN gids : gids[k] + 1 = i}}]
            A(i) == AA[i]
        IN Failures(r.given, r.outs[1], A, r.rules)
      FF == {F(a) : a \in Alt}
  IN (IF {} \in FF THEN {} ELSE CHOOSE f \in FF : TRUE) \cup
     C(\A k \in 1..Len(r.outs) : r.outs[k] = r.outs[1], "different names when asked again") \cup
     C(r.got = r.outs[1], "installed names not found") \cup
     C(r.after = r.outs[1], "different names once installed")

SimpleV(r) ==
  LET B(i) == r.text[i] IN
  SimpleFailures(r.given, r.outs[1], B) \cup
  C(\A k \in 1..Len(r.outs) : r.outs[k] = r.outs[1], "different names when converted again") \cup
  C(~r.cid, "still CID-keyed") \cup
  C(r.file = <<>> \/ r.file = r.outs[1], "names lost in the file")

Verdict(r) == CASE r.t = "names" -> NamesV(r)
                [] r.t = "simple" -> SimpleV(r)
                [] r.t = "ps" -> NameFailures(r.out)
                [] r.t = "panic" -> {"panic"}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
