------------------------------ MODULE GlyfTrace -----------------------------
(***************************************************************************)
(* C11.  Acceptance of recorded executions of the glyf package.            *)
(***************************************************************************)
EXTENDS Glyf, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

\* run-length encoded sequences of indices <<index, count>>
Unrle(rr) == FlattenSeq([i \in 1..Len(rr) |-> [j \in 1..rr[i][2] |-> rr[i][1]]])

SetV(r) ==
  LET n == LocaN(r.fmt, r.loca)
      wf == LocaWf(r.fmt, r.loca, Len(r.glyf))
      Slice(i) == SubSeq(r.glyf, LocaOff(r.fmt, r.loca, i - 1) + 1, LocaOff(r.fmt, r.loca, i))
  IN IF ~r.foreign
     THEN IF \E i \in 1..Len(r.in) : ~GlyphWf(r.in[i]) THEN {"harness: not in the domain"}
          ELSE
          LET ix == Unrle(r.ix)
              norm == [i \in 1..Len(r.in) |-> NormGlyph(r.in[i])]
          IN IF ~wf THEN {"loca is not well-formed"}
             ELSE C(LocaEven(r.fmt, r.loca), "odd offset") \cup
                  C(n = Len(ix) + 1, "number of loca entries") \cup
                  (IF n # Len(ix) + 1 THEN {} ELSE
                   C(\A i \in 1..(n - 1) : LET p == ParseGlyph(Slice(i)) IN p.ok /\ p.g = norm[ix[i]],
                     "encoded glyph differs")) \cup
                  (IF ~r.ok THEN {"own encoding rejected"}
                   ELSE LET ox == Unrle(r.ox) IN
                        C(Len(ox) = Len(ix) /\ \A i \in 1..Len(ix) : r.out[ox[i]] = norm[ix[i]],
                          "decoded glyphs differ"))
     ELSE IF ~wf THEN {}
     ELSE LET p == [i \in 1..(n - 1) |-> ParseGlyph(Slice(i))] IN
          IF \E i \in 1..(n - 1) : ~p[i].ok THEN {}
          ELSE IF ~r.ok THEN C(~LocaEven(r.fmt, r.loca), "well-formed glyphs rejected")
          ELSE LET ox == Unrle(r.ox) IN
               C(Len(ox) = n - 1 /\ \A i \in 1..(n - 1) : r.out[ox[i]] = p[i].g, "glyphs decoded differently")

PtsV(r) ==
  LET m == SimpleMachine(r.nc, r.e) IN
  IF ~m.ok THEN {}
  ELSE IF ~r.ok THEN {"well-formed contours rejected"}
  ELSE C(r.cc = m.cc, "contours differ") \cup C(r.ins = m.ins, "instructions differ")

CompV(r) ==
  LET To(i) == r.map[CHOOSE k \in 1..Len(r.map) : r.map[k][1] = i][2] IN
  C(r.after = r.g, "original modified") \cup
  (IF r.g.k # 2 THEN C(r.comps = <<>>, "components of a glyph without components") \cup C(r.fixed = r.g, "glyph changed")
   ELSE C(r.comps = [i \in 1..Len(r.g.c) |-> r.g.c[i][2]], "component list") \cup
        C(r.fixed = [r.g EXCEPT !.c = [i \in 1..Len(r.g.c) |-> [r.g.c[i] EXCEPT ![2] = To(r.g.c[i][2])]]],
          "rewritten glyph"))

XiV(r) ==
  IF ~Drawable(r.gg, r.gid, 6) \/ ~(~AnyScaled(r.gg, r.gid) \/ (Mild(r.gg, r.gid) /\ ScaleDepth(r.gg, r.gid) <= 2)) THEN {}
  ELSE IF ~r.ok THEN {"outline rejected"} ELSE C(SameOutline(r.gg, r.gid, r.segs), "outline differs")

Verdict(r) == CASE r.t = "set" -> SetV(r)
                [] r.t = "pts" -> PtsV(r)
                [] r.t = "comp" -> CompV(r)
                [] r.t = "xi" -> XiV(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
