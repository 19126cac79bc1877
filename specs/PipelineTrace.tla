--------------------------- MODULE PipelineTrace ---------------------------
(***************************************************************************)
(* C15.  Acceptance of recorded layouts.  Records:                         *)
(*  lay   a font: cms, w (advance widths), gs, gp, gd, sg, sp (switches),  *)
(*        read (it was read from a file), kern (bytes of the kern table),  *)
(*        runs: [text, out] in the order of the calls on one layouter;     *)
(*  sel   a layout table and switches; res: results of repeated calls;     *)
(*  kern  bytes of a kern table; got: <<left, right, value, x>>: kerning   *)
(*        by the font read from the file, and by another reader;           *)
(*  kenc  pairs, the bytes written for them, and the pairs read back.      *)
(***************************************************************************)
EXTENDS Pipeline, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

\* [q, over]: runs whose rules nest too deeply, or which lead to values
\* outside of the range of the number type, are outside of the specified domain
OutOf(r, m, lks, lkp, rev, kt, av, text) ==
  LET M(c) == Lookup(m, c)
      q1 == Chars(text, M)
      a == IF r.gs.has THEN Apply(r.gs.ll, r.gd, lks, q1, rev)
           ELSE [seq |-> IF av # <<>> THEN Ligate(av, M, q1, 1) ELSE q1, over |-> FALSE]
      q3 == Widths(a.seq, r.gd, r.w)
      K(x, y) == KernValue(kt, x, y)
      b == IF r.gp.has THEN Apply(r.gp.ll, r.gd, lkp, q3, FALSE)
           ELSE [seq |-> IF kt # <<>> THEN Kern(q3, K) ELSE q3, over |-> FALSE]
      Out16(v) == v < -32768 \/ v > 32767
      big == \E i \in 1..Len(b.seq) : Out16(b.seq[i].x) \/ Out16(b.seq[i].y) \/ Out16(b.seq[i].w)
  IN [q |-> b.seq, over |-> a.over \/ b.over \/ big]

Field(a, b, f) == [i \in 1..Len(a) |-> a[i][f]] # [i \in 1..Len(b) |-> b[i][f]]
Diff(want, got) ==
  IF Len(want) # Len(got) THEN {"length"}
  ELSE {c \in {"glyphs", "text", "offsets", "advances"} :
          CASE c = "glyphs" -> Field(want, got, "g")
            [] c = "text" -> Field(want, got, "t")
            [] c = "offsets" -> Field(want, got, "x") \/ Field(want, got, "y")
            [] c = "advances" -> Field(want, got, "w")}

Explains(r, m, lks, lkp, rev, kt, av, k) ==
  LET o == OutOf(r, m, lks, lkp, rev, kt, av, r.runs[k].text) IN o.over \/ o.q = r.runs[k].out

LayV(r) ==
  LET B == BestSubs(r.cms)
      Maps == {Mapping(r.cms[i]) : i \in B}
      LS == IF r.gs.has THEN LookupChoices(r.gs, Enabled(r.sg, GsubDefault)) ELSE {<<>>}
      LP == IF r.gp.has THEN LookupChoices(r.gp, Enabled(r.sp, GposDefault)) ELSE {<<>>}
      kt == IF r.read /\ "kern" \in Enabled(r.sp, GposDefault) THEN KernTable(r.kern) ELSE <<>>
      Av(m) == LET M(c) == Lookup(m, c) IN
               IF r.read /\ "liga" \in Enabled(r.sg, GsubDefault) /\ ~FixedPitch(r.w) THEN Available(M) ELSE <<>>
      Revs == IF r.gs.has /\ Sh!HasReverse([ll |-> r.gs.ll]) THEN {FALSE, TRUE} ELSE {FALSE}
      Ok(m, lks, lkp) == LET av == Av(m) IN
        \A k \in 1..Len(r.runs) : \E rev \in Revs : Explains(r, m, lks, lkp, rev, kt, av, k)
  IN IF B = {} THEN C(~r.ok, "layout without a usable cmap")
     ELSE IF ~r.ok THEN {"font cannot be used for layout"}
     ELSE IF \E m \in Maps, lks \in LS, lkp \in LP : Ok(m, lks, lkp) THEN {}
     ELSE LET m == CHOOSE x \in Maps : TRUE
              lks == CHOOSE x \in LS : TRUE
              lkp == CHOOSE x \in LP : TRUE
          IN {"layout differs"} \cup
             UNION {Diff(OutOf(r, m, lks, lkp, FALSE, kt, Av(m), r.runs[k].text).q, r.runs[k].out) : k \in 1..Len(r.runs)}

SelV(r) ==
  LET on == Enabled(r.sw, IF r.gpos THEN GposDefault ELSE GsubDefault)
      Ch == IF r.sys = <<>> THEN {<<>>} ELSE {Selected(r.sys[i], r.feats, r.n, on) : i \in Candidates(r.sys)}
  IN C(\A i \in 1..Len(r.res) : r.res[i] = r.res[1], "selection is not repeatable") \cup
     C(r.res[1] \in Ch, "wrong lookups selected")

KernV(r) ==
  LET subs == KernTable(r.b) IN
  IF ~r.ok THEN {"kern table not readable"}
  ELSE IF \E i \in 1..Len(subs) : Odd(subs[i]) THEN {}
  ELSE C(\A i \in 1..Len(r.got) : r.got[i][3] = KernValue(subs, r.got[i][1], r.got[i][2]), "wrong kerning") \cup
       C(\A i \in 1..Len(r.got) : r.got[i][4] = 99999 \/ r.got[i][4] = KernValue(subs, r.got[i][1], r.got[i][2]), "other reader: wrong kerning")

KencV(r) ==
  LET P == Elems(r.pairs) IN
  C(KernWf(r.b), "kern table malformed") \cup
  (IF ~KernWf(r.b) THEN {} ELSE C(KernTable(r.b)[1].pairs = P, "wrong kerning pairs written")) \cup
  C(Elems(r.back) = P, "wrong kerning pairs read back")

Verdict(r) == CASE r.t = "lay" -> LayV(r)
                [] r.t = "sel" -> SelV(r)
                [] r.t = "kern" -> KernV(r)
                [] r.t = "kenc" -> KencV(r)
                [] r.t = "panic" -> {"panic"}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
