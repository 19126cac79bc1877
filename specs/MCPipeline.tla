----------------------------- MODULE MCPipeline -----------------------------
(***************************************************************************)
(* The layout pipeline as a machine.  A run chooses one of                 *)
(*   lay   a font with four glyphs, rules, marks, switches and a text; the *)
(*         stages are then taken one at a time;                            *)
(*   sel   a layout table and feature switches;                            *)
(*   kern  a kern table and a pair of glyphs;                              *)
(*   lig   the characters present in a font, and a text.                   *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json, IOUtils, CSV

CONSTANTS TextLen, LigLen

VARIABLES c, stage, seq
vars == <<c, stage, seq>>

NoGd == [has |-> FALSE, cls |-> <<>>, hmac |-> FALSE, mac |-> <<>>, sets |-> <<>>]
MarkGd == [has |-> TRUE, cls |-> <<<<1, 1>>, <<3, 3>>>>, hmac |-> FALSE, mac |-> <<>>, sets |-> <<>>]
Fl(m) == [b |-> FALSE, l |-> FALSE, m |-> m, f |-> FALSE, a |-> 0]
LK(m, sub) == [fl |-> Fl(m), mfs |-> 0, subs |-> <<sub>>]
GsubL == {LK(FALSE, [k |-> "s1", cov |-> <<1>>, sub |-> <<3>>]),
          LK(FALSE, [k |-> "s4", cov |-> <<1>>, ligs |-> << <<[inp |-> <<2>>, out |-> 4]>> >>]),
          LK(TRUE, [k |-> "s4", cov |-> <<1, 2>>, ligs |-> << <<[inp |-> <<1>>, out |-> 2]>>, <<[inp |-> <<1>>, out |-> 4]>> >>]),
          LK(FALSE, [k |-> "s2", cov |-> <<2>>, rep |-> << <<1, 3>> >>])}
GposL == {LK(FALSE, [k |-> "p1", fmt |-> 1, cov |-> <<3>>, val |-> << <<1, 0, 7>> >>]),
          LK(FALSE, [k |-> "p2g", pairs |-> <<[l |-> 1, r |-> 2, a |-> <<0, 0, -5>>, b |-> <<>>], [l |-> 4, r |-> 4, a |-> <<0, 0, 9>>, b |-> <<>>]>>]),
          LK(TRUE, [k |-> "p2g", pairs |-> <<[l |-> 2, r |-> 1, a |-> <<0, 0, -5>>, b |-> <<0, 3, 2>>]>>])}
None == [has |-> FALSE, ll |-> <<>>, sys |-> <<>>, feats |-> <<>>]
Sys1 == [conf |-> 0, dflt |-> TRUE, req |-> 65535, opt |-> <<0, 1>>]
Tab(L, a, b) == {None} \cup {[has |-> TRUE, ll |-> <<x>>, sys |-> <<Sys1>>, feats |-> <<[tag |-> a, l |-> <<0>>], [tag |-> b, l |-> <<>>]>>] : x \in L}
                \cup {[has |-> TRUE, ll |-> <<x[1], x[2]>>, sys |-> <<Sys1>>, feats |-> <<[tag |-> b, l |-> <<0>>], [tag |-> a, l |-> <<1, 0>>]>>] : x \in {y \in L \X L : y[1] # y[2]}}
SwS == {[nil |-> TRUE, on |-> <<>>], [nil |-> FALSE, on |-> <<>>], [nil |-> FALSE, on |-> <<"test">>]}
SwP == {[nil |-> TRUE, on |-> <<>>], [nil |-> FALSE, on |-> <<"test">>]}
WW == <<500, 100, 200, 300, 400>>
\* characters 97, 98, 99, 100 have glyphs 1..4; 122 has none
Map(ch) == IF ch \in 97..100 THEN ch - 96 ELSE 0
LayTexts == UNION {[1..k -> {97, 98, 100, 122}] : k \in 0..TextLen}

FeatL == {<<>>, <<0>>, <<1, 0, 1>>, <<2, 1>>}
Opts == {<<>>, <<0>>, <<1, 0>>, <<2, 0, 2>>, <<1, 2>>, <<3, 1>>}
SelSw == {[nil |-> FALSE, on |-> s] : s \in {<<>>, <<"kern">>, <<"test">>, <<"kern", "test">>}} \cup {[nil |-> TRUE, on |-> <<>>]}

KSubs == {[ver |-> 0, fmt |-> f[1], flags |-> f[2], pairs |-> IF v = 99 THEN {} ELSE {<<1, 2, v>>}] :
             f \in {<<0, 1>>, <<0, 3>>, <<0, 9>>, <<0, 0>>, <<0, 5>>, <<2, 1>>}, v \in {-2, 0, 3, 99}}
LigSets == SUBSET {102, 105, 108, 64256, 64257, 64258, 64259, 64260}

Init == c = [kind |-> ""] /\ stage = "start" /\ seq = <<>>
Choose ==
  /\ stage = "start"
  /\ \/ \E gs \in Tab(GsubL, "liga", "test"), gp \in Tab(GposL, "kern", "test"), gd \in {NoGd, MarkGd}, ss \in SwS, sp \in SwP, t \in LayTexts :
          c' = [kind |-> "lay", gs |-> gs, gp |-> gp, gd |-> gd, sg |-> ss, sp |-> sp, text |-> t] /\ stage' = "chars"
     \/ \E l1, l2, l3 \in FeatL, o \in Opts, rq \in {0, 2, 3, 65535}, sw \in SelSw :
          c' = [kind |-> "sel", feats |-> <<[tag |-> "kern", l |-> l1], [tag |-> "test", l |-> l2], [tag |-> "kern", l |-> l3]>>,
                s |-> [conf |-> 3, dflt |-> FALSE, req |-> rq, opt |-> o], sw |-> sw] /\ stage' = "done"
     \/ \E a, b, d \in KSubs : c' = [kind |-> "kern", subs |-> <<a, b, d>>] /\ stage' = "done"
     \/ \E S \in LigSets, t \in UNION {[1..k -> {102, 105, 108}] : k \in 1..LigLen} :
          c' = [kind |-> "lig", cs |-> S, text |-> t] /\ stage' = "done"
  /\ seq' = <<>>
ToGlyphs == stage = "chars" /\ seq' = Chars(c.text, Map) /\ stage' = "subst" /\ UNCHANGED c
SubstL == LookupChoices(c.gs, Enabled(c.sg, GsubDefault))
PosL == LookupChoices(c.gp, Enabled(c.sp, GposDefault))
Subst == /\ stage = "subst" /\ stage' = "widths" /\ UNCHANGED c
         /\ IF c.gs.has THEN \E lk \in SubstL : seq' = Apply(c.gs.ll, c.gd, lk, seq, FALSE).seq ELSE UNCHANGED seq
AddWidths == stage = "widths" /\ seq' = Widths(seq, c.gd, WW) /\ stage' = "position" /\ UNCHANGED c
Position == /\ stage = "position" /\ stage' = "done" /\ UNCHANGED c
            /\ IF c.gp.has THEN \E lk \in PosL : seq' = Apply(c.gp.ll, c.gd, lk, seq, FALSE).seq ELSE UNCHANGED seq
Next == Choose \/ ToGlyphs \/ Subst \/ AddWidths \/ Position
Spec == Init /\ [][Next]_vars

Lay == c.kind = "lay"
\* no character is lost or invented, whatever the rules
TextKept == (Lay /\ stage = "done") => Sh!AllText(seq, 1) = c.text
\* without applicable rules: one glyph per character, with its width
Plain == (Lay /\ stage = "done" /\ (~c.gs.has \/ SubstL = {<<>>}) /\ (~c.gp.has \/ PosL = {<<>>})) =>
  /\ Len(seq) = Len(c.text)
  /\ \A i \in 1..Len(seq) : /\ seq[i].g = Map(c.text[i]) /\ seq[i].t = <<c.text[i]>> /\ seq[i].x = 0 /\ seq[i].y = 0
                            /\ seq[i].w = IF Sh!IsMark(c.gd, seq[i].g) THEN 0 ELSE WW[seq[i].g + 1]
\* widths belong to the glyphs after substitution
AfterWidths == (Lay /\ stage = "position") => \A i \in 1..Len(seq) : seq[i].w \in {0, WW[seq[i].g + 1]} /\ (seq[i].w = 0 <=> Sh!IsMark(c.gd, seq[i].g))
\* positioning does not change the glyphs
PosKeeps == [][(Lay /\ stage = "position") => [i \in 1..Len(seq') |-> seq'[i].g] = [i \in 1..Len(seq) |-> seq[i].g]]_vars
\* a pair adjustment lookup is the same as a kern table
KernIsPairs == (Lay /\ stage = "position") =>
  \A x \in {y \in GposL : y.subs[1].k = "p2g" /\ ~y.fl.m} :
     LET K(a, b) == LET S == {i \in 1..Len(x.subs[1].pairs) : x.subs[1].pairs[i].l = a /\ x.subs[1].pairs[i].r = b} IN
                    IF S = {} THEN 0 ELSE x.subs[1].pairs[CHOOSE i \in S : TRUE].a[3]
     IN Apply(<<x>>, c.gd, <<0>>, seq, FALSE).seq = Kern(seq, K)

SelOk == c.kind = "sel" =>
  LET on == Enabled(c.sw, GposDefault)
      r == Selected(c.s, c.feats, 2, on)
  IN /\ \A i \in 2..Len(r) : r[i - 1] < r[i]
     /\ Elems(r) \subseteq {0, 1}
     /\ c.s.req < 3 => (Elems(c.feats[c.s.req + 1].l) \cap {0, 1}) \subseteq Elems(r)
     /\ \A t \in {"kern", "test"} : Elems(r) \subseteq Elems(Selected(c.s, c.feats, 2, on \cup {t}))
     /\ (on = {} /\ c.s.req >= 3) => r = <<>>

\* the value of a kern table is the value of its last override and the
\* later subtables; minimum subtables never decrease it
KernOk == c.kind = "kern" =>
  LET V(k) == KernFrom(SubSeq(c.subs, 1, k), 1, 0, 1, 2)
      act(k) == Horizontal(c.subs[k]) /\ c.subs[k].pairs # {}
      val(k) == (CHOOSE p \in c.subs[k].pairs : TRUE)[3]
  IN \A k \in 1..3 : LET v == KernFrom(SubSeq(c.subs, 1, k), 1, 0, 1, 2)
                         u == IF k = 1 THEN 0 ELSE KernFrom(SubSeq(c.subs, 1, k - 1), 1, 0, 1, 2) IN
        CASE ~act(k) -> v = u
          [] act(k) /\ c.subs[k].flags = 1 -> v - u = val(k)
          [] act(k) /\ c.subs[k].flags = 3 -> v >= u /\ v >= val(k) /\ v \in {u, val(k)}
          [] act(k) /\ c.subs[k].flags = 9 -> v = val(k)

\* the ligatures of a font as a substitution lookup, longest first
LMap(ch) == IF ch \in c.cs THEN (IF ch < 200 THEN ch - 100 ELSE ch - 64200) ELSE 0
LigLookup ==
  LET av == Available(LMap)
      cov == IF av = <<>> THEN <<>> ELSE <<LMap(102)>>
  IN LK(FALSE, [k |-> "s4", cov |-> cov, ligs |-> << [i \in 1..Len(av) |-> [inp |-> [k \in 1..(Len(av[i]) - 2) |-> LMap(av[i][k + 2])], out |-> LMap(av[i][1])]] >>])
LigOk == c.kind = "lig" =>
  LET q == Chars(c.text, LMap)
      r == Ligate(Available(LMap), LMap, q, 1)
  IN /\ Sh!AllText(r, 1) = c.text
     /\ Apply(<<LigLookup>>, NoGd, <<0>>, q, FALSE).seq = r

J(x) == ToJson(x)
Emit ==
  CASE c.kind = "sel" -> CSVWrite("%1$s", <<J(c)>>, IOEnv.CASES \o "/sel.ndjson")
    [] c.kind = "kern" -> CSVWrite("%1$s", <<J([kind |-> "kern", subs |-> [i \in 1..3 |-> [ver |-> 0, fmt |-> c.subs[i].fmt, flags |-> c.subs[i].flags, pairs |-> SetToSeq(c.subs[i].pairs)]]])>>, IOEnv.CASES \o "/kern.ndjson")
    [] c.kind = "lig" -> IF Len(c.text) = 1 /\ c.text[1] = 102 THEN CSVWrite("%1$s", <<J(SetToSeq(c.cs))>>, IOEnv.CASES \o "/lig.ndjson") ELSE TRUE
    [] c.kind = "lay" -> IF stage = "chars" /\ c.text = <<>> THEN CSVWrite("%1$s", <<J(c)>>, IOEnv.CASES \o "/lay.ndjson") ELSE TRUE
    [] OTHER -> TRUE
=============================================================================
