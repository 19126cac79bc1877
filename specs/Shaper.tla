------------------------------- MODULE Shaper -------------------------------
(***************************************************************************)
(* The OpenType glyph shaping machine (C06, C07).                          *)
(*                                                                         *)
(* A run applies a list of lookups, in order, to a glyph sequence.  The    *)
(* state of a run is a record                                              *)
(*   [seq, li, pos, stack, acts, skip]                                     *)
(* where li is the index into the list of lookups still to be applied, pos *)
(* the position the scan has reached (1-based), and stack the pending      *)
(* contextual rules, innermost last.  A frame of the stack is              *)
(*   [ps, act, e]: the live positions of the rule's input glyphs (in       *)
(*   ascending order), the nested actions still to run, and the position   *)
(*   one past the end of the match.                                        *)
(* Step(T, s) is the only transition; Final(T, s) its fixed point.         *)
(*                                                                         *)
(* Glyphs are [g, t, x, y, w]: glyph id, attached text, offset, advance.   *)
(* Tables T = [ll, gd, lk]: lookup list, glyph definitions, list of        *)
(* (1-based) lookup indices to apply.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Min2(a, b) == IF a < b THEN a ELSE b
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

\* position of g in the sequence c, or 0
RECURSIVE IdxFrom(_, _, _)
IdxFrom(c, g, i) == IF i > Len(c) THEN 0 ELSE IF c[i] = g THEN i ELSE IdxFrom(c, g, i + 1)
Idx(c, g) == IdxFrom(c, g, 1)
Has(c, g) == Idx(c, g) > 0

\* class of g in a list of <<glyph, class>> pairs; 0 if not listed
RECURSIVE ClassFrom(_, _, _)
ClassFrom(cd, g, i) == IF i > Len(cd) THEN 0 ELSE IF cd[i][1] = g THEN cd[i][2] ELSE ClassFrom(cd, g, i + 1)
Class(cd, g) == ClassFrom(cd, g, 1)

---------------------------------------------------------------------------
(* Lookup flags.  A lookup [fl, mfs, subs] has the flag record             *)
(*   fl = [b, l, m, f, a]: ignore bases / ligatures / marks, use the mark  *)
(*   filtering set mfs, mark attachment class a (0 = all).                 *)
(* Glyph definitions gd = [has, cls, hmac, mac, sets].                     *)

Keep(gd, lk, g) ==
  IF ~gd.has THEN TRUE
  ELSE LET c == Class(gd.cls, g) IN
    CASE c = 1 -> ~lk.fl.b
      [] c = 2 -> ~lk.fl.l
      [] c = 3 -> IF lk.fl.m THEN FALSE
                  ELSE IF lk.fl.f THEN lk.mfs < Len(gd.sets) /\ Has(gd.sets[lk.mfs + 1], g)
                  ELSE IF lk.fl.a # 0 THEN gd.hmac /\ Class(gd.mac, g) = lk.fl.a
                  ELSE TRUE
      [] OTHER -> TRUE

IsMark(gd, g) == gd.has /\ Class(gd.cls, g) = 3

\* the first kept position in p..e-1, or e
RECURSIVE NextKept(_, _, _, _, _)
NextKept(gd, lk, q, p, e) ==
  IF p >= e THEN e ELSE IF Keep(gd, lk, q[p].g) THEN p ELSE NextKept(gd, lk, q, p + 1, e)

\* the last kept position in 1..p, or 0
RECURSIVE PrevKept(_, _, _, _)
PrevKept(gd, lk, q, p) ==
  IF p < 1 THEN 0 ELSE IF Keep(gd, lk, q[p].g) THEN p ELSE PrevKept(gd, lk, q, p - 1)

---------------------------------------------------------------------------
(* Contextual matching.  The elements of a rule are glyph ids (kind "g"),  *)
(* classes with respect to a class definition ("c"), or glyph sets ("s").  *)

Test(kind, cd, e, g) == CASE kind = "g" -> g = e
                          [] kind = "c" -> Class(cd, g) = e
                          [] kind = "s" -> Has(e, g)

Fail == <<-1>>

\* positions matching elements els[i..] after position p, before e; or Fail
RECURSIVE MatchFwd(_, _, _, _, _, _, _, _, _)
MatchFwd(gd, lk, q, kind, cd, els, i, p, e) ==
  IF i > Len(els) THEN <<>>
  ELSE LET r == NextKept(gd, lk, q, p + 1, e) IN
       IF r >= e \/ ~Test(kind, cd, els[i], q[r].g) THEN Fail
       ELSE LET t == MatchFwd(gd, lk, q, kind, cd, els, i + 1, r, e) IN
            IF t = Fail THEN Fail ELSE <<r>> \o t

RECURSIVE MatchBack(_, _, _, _, _, _, _, _)
MatchBack(gd, lk, q, kind, cd, els, i, p) ==
  IF i > Len(els) THEN TRUE
  ELSE LET r == PrevKept(gd, lk, q, p - 1) IN
       r >= 1 /\ Test(kind, cd, els[i], q[r].g) /\ MatchBack(gd, lk, q, kind, cd, els, i + 1, r)

LOCAL Last(s) == s[Len(s)]

\* <<f>> with the frame f pushed by the first matching rule, or <<>>
RECURSIVE FirstRule(_, _, _, _, _, _, _, _, _, _)
FirstRule(gd, lk, q, kind, cds, rules, i, a, e, x) ==
  IF i > Len(rules) THEN <<>>
  ELSE LET r == rules[i] IN
       LET m == MatchFwd(gd, lk, q, kind, cds.inp, r.inp, 1, a, e) IN
       IF m = Fail THEN FirstRule(gd, lk, q, kind, cds, rules, i + 1, a, e, x)
       ELSE LET ps == <<a>> \o m IN
            IF /\ MatchBack(gd, lk, q, kind, cds.back, r.back, 1, a)
               /\ MatchFwd(gd, lk, q, kind, cds.look, r.look, 1, Last(ps), Len(q) + 1) # Fail
            THEN <<[ps |-> ps, act |-> r.act, e |-> NextKept(gd, lk, q, Last(ps) + 1, e)]>>
            ELSE FirstRule(gd, lk, q, kind, cds, rules, i + 1, a, e, x)

NoCD == [inp |-> <<>>, back |-> <<>>, look |-> <<>>]

Context(gd, lk, q, st, a, e) ==
  LET g == q[a].g IN
  CASE st.k = "ctx1" -> LET i == Idx(st.cov, g) IN
                        IF i = 0 \/ i > Len(st.rules) THEN <<>>
                        ELSE FirstRule(gd, lk, q, "g", NoCD, st.rules[i], 1, a, e, 0)
    [] st.k = "ctx2" -> LET c == Class(st.cds.inp, g) IN
                        IF ~Has(st.cov, g) \/ c + 1 > Len(st.rules) THEN <<>>
                        ELSE FirstRule(gd, lk, q, "c", st.cds, st.rules[c + 1], 1, a, e, 0)
    [] st.k = "ctx3" -> IF ~Has(st.cov, g) THEN <<>>
                        ELSE FirstRule(gd, lk, q, "s", NoCD, st.rules, 1, a, e, 0)

---------------------------------------------------------------------------
(* How structural changes move the frames' positions.                      *)

\* the glyph at position p is replaced by n glyphs
FrameInsert(f, p, n) ==
  IF f.e <= p THEN f
  ELSE LET RECURSIVE Go(_)
           Go(i) == IF i > Len(f.ps) THEN <<>>
                    ELSE (IF f.ps[i] < p THEN <<f.ps[i]>>
                          ELSE IF f.ps[i] = p THEN [j \in 1..n |-> p + j - 1]
                          ELSE <<f.ps[i] + n - 1>>) \o Go(i + 1)
       IN [f EXCEPT !.ps = Go(1), !.e = f.e + n - 1]

\* The glyphs at positions m (ascending) are merged into one at m[1], the
\* skipped glyphs in between follow it.  The new glyph is an input glyph of
\* the frame iff the first or the last merged glyph was.
FrameMerge(f, m) ==
  IF f.e <= m[1] THEN f
  ELSE LET Before(p) == Cardinality({i \in 2..Len(m) : m[i] < p})
           merged == {m[i] : i \in 1..Len(m)}
           in == Has(f.ps, m[1]) \/ Has(f.ps, Last(m))
           RECURSIVE Go(_)
           Go(i) == IF i > Len(f.ps) THEN <<>>
                    ELSE (IF f.ps[i] \in merged THEN <<>> ELSE <<f.ps[i] - Before(f.ps[i])>>) \o Go(i + 1)
           rest == Go(1)
           lo == SelectSeq(rest, LAMBDA p : p < m[1])
           hi == SelectSeq(rest, LAMBDA p : p > m[1])
       IN [f EXCEPT !.ps = lo \o (IF in THEN <<m[1]>> ELSE <<>>) \o hi,
                    !.e = f.e - (Len(m) - 1)]

---------------------------------------------------------------------------
(* Subtables.  ApplySub(T, lk, st, q, stk, a, e) is <<>> if the subtable   *)
(* does not apply at position a, and otherwise <<[q, stk, n]>>: the new    *)
(* sequence, the new stack and the position following the match.           *)

Glyph(g, t) == [g |-> g, t |-> t, x |-> 0, y |-> 0, w |-> 0]

SetG(q, a, g) == [q EXCEPT ![a].g = g]

\* value record v = <<dx, dy, dadvance>>, or <<>>
AddV(gl, v) == IF v = <<>> THEN gl
               ELSE [gl EXCEPT !.x = @ + v[1], !.y = @ + v[2], !.w = @ + v[3]]

\* the first matching ligature of the set: its index and matched positions
RECURSIVE FirstLig(_, _, _, _, _, _, _)
FirstLig(gd, lk, q, ligs, i, a, e) ==
  IF i > Len(ligs) THEN Fail
  ELSE LET m == MatchFwd(gd, lk, q, "g", <<>>, ligs[i].inp, 1, a, e) IN
       IF m = Fail THEN FirstLig(gd, lk, q, ligs, i + 1, a, e) ELSE <<i, <<a>> \o m>>

RECURSIVE CatText(_, _, _)
CatText(q, m, i) == IF i > Len(m) THEN <<>> ELSE q[m[i]].t \o CatText(q, m, i + 1)

RECURSIVE SumW(_, _, _)
SumW(q, i, j) == IF i > j THEN 0 ELSE q[i].w + SumW(q, i + 1, j)

\* search for the base of a mark at position a: the nearest preceding
\* covered glyph, not looking past a glyph known not to be a mark
RECURSIVE FindBase(_, _, _, _)
FindBase(gd, st, q, p) ==
  IF p < 1 THEN 0
  ELSE IF Has(st.bcov, q[p].g) THEN p
  ELSE IF gd.has /\ ~IsMark(gd, q[p].g) THEN 0
  ELSE FindBase(gd, st, q, p - 1)

Attach(st, q, a, p, bi, add) ==
  LET mk == st.marks[Idx(st.mcov, q[a].g)] IN
  IF mk.c + 1 > Len(st.bases[bi]) THEN <<>>
  ELSE LET an == st.bases[bi][mk.c + 1] IN
       IF an = <<0, 0>> THEN <<>>    \* no anchor
       ELSE LET dx == q[p].x + an[1] - mk.x - SumW(q, p, a - 1)
                dy == q[p].y + an[2] - mk.y
            IN <<[q EXCEPT ![a].x = dx + (IF add THEN @ ELSE 0), ![a].y = dy + (IF add THEN @ ELSE 0)]>>

Done(q, stk, n) == <<[q |-> q, stk |-> stk, n |-> n]>>

ApplySub(T, lk, st, q, stk, a, e) ==
  LET g == q[a].g
      gd == T.gd
  IN
  CASE st.k = "s1d" ->                                   \* GSUB 1.1
         IF Has(st.cov, g) THEN Done(SetG(q, a, (g + st.d) % 65536), stk, a + 1) ELSE <<>>
    [] st.k = "s1" ->                                    \* GSUB 1.2
         LET i == Idx(st.cov, g) IN
         IF i = 0 THEN <<>> ELSE Done(SetG(q, a, st.sub[i]), stk, a + 1)
    [] st.k = "s2" ->                                    \* GSUB 2.1
         LET i == Idx(st.cov, g) IN
         IF i = 0 \/ st.rep[Max2(i, 1)] = <<>> THEN <<>>
         ELSE LET r == st.rep[i]
                  n == Len(r)
                  new == [j \in 1..n |-> IF j = 1 THEN [q[a] EXCEPT !.g = r[1]] ELSE Glyph(r[j], <<>>)]
              IN Done(SubSeq(q, 1, a - 1) \o new \o SubSeq(q, a + 1, Len(q)),
                      [f \in 1..Len(stk) |-> FrameInsert(stk[f], a, n)], a + n)
    [] st.k = "s3" ->                                    \* GSUB 3.1: first alternate
         LET i == Idx(st.cov, g) IN
         IF i = 0 \/ st.rep[Max2(i, 1)] = <<>> THEN <<>> ELSE Done(SetG(q, a, st.rep[i][1]), stk, a + 1)
    [] st.k = "s4" ->                                    \* GSUB 4.1
         LET i == Idx(st.cov, g) IN
         IF i = 0 THEN <<>>
         ELSE LET r == FirstLig(gd, lk, q, st.ligs[i], 1, a, e) IN
              IF r = Fail THEN <<>>
              ELSE LET m == r[2]
                       last == Last(m)
                       ms == {m[j] : j \in 1..Len(m)}
                       new == Glyph(st.ligs[i][r[1]].out, CatText(q, m, 1))
                       RECURSIVE Skipped(_)
                       Skipped(p) == IF p > last THEN <<>>
                                     ELSE IF p \in ms THEN Skipped(p + 1) ELSE <<q[p]>> \o Skipped(p + 1)
                   IN Done(SubSeq(q, 1, a - 1) \o <<new>> \o Skipped(a) \o SubSeq(q, last + 1, Len(q)),
                           [f \in 1..Len(stk) |-> FrameMerge(stk[f], m)],
                           last + 1 - (Len(m) - 1))
    [] st.k = "s8" ->                                    \* GSUB 8.1
         LET i == Idx(st.cov, g) IN
         IF i > 0 /\ MatchBack(gd, lk, q, "s", <<>>, st.back, 1, a)
            /\ MatchFwd(gd, lk, q, "s", <<>>, st.look, 1, a, Len(q) + 1) # Fail
         THEN Done(SetG(q, a, st.sub[i]), stk, a + 1) ELSE <<>>
    [] st.k \in {"ctx1", "ctx2", "ctx3"} ->              \* GSUB 5/6, GPOS 7/8
         LET f == Context(gd, lk, q, st, a, e) IN
         IF f = <<>> THEN <<>> ELSE Done(q, Append(stk, f[1]), f[1].e)
    [] st.k = "p1" ->                                    \* GPOS 1.1, 1.2
         LET i == Idx(st.cov, g) IN
         IF i = 0 THEN <<>> ELSE Done([q EXCEPT ![a] = AddV(@, st.val[i])], stk, a + 1)
    [] st.k \in {"p2g", "p2c"} ->                        \* GPOS 2.1, 2.2
         LET p == NextKept(gd, lk, q, a + 1, e) IN
         IF p >= e THEN <<>>
         ELSE LET h == q[p].g
                  v == IF st.k = "p2g"
                       THEN LET ms == {i \in 1..Len(st.pairs) : st.pairs[i].l = g /\ st.pairs[i].r = h} IN
                            IF ms = {} THEN <<>> ELSE <<st.pairs[CHOOSE i \in ms : TRUE]>>
                       ELSE LET c1 == Class(st.c1, g) + 1
                                c2 == Class(st.c2, h) + 1 IN
                            IF ~Has(st.cov, g) \/ c1 > Len(st.adj) THEN <<>>
                            ELSE IF c2 > Len(st.adj[c1]) THEN <<>> ELSE <<st.adj[c1][c2]>>
              IN IF v = <<>> THEN <<>>
                 ELSE LET q1 == [q EXCEPT ![a] = AddV(@, v[1].a)] IN
                      IF v[1].b = <<>> THEN Done(q1, stk, p)     \* second glyph stays available
                      ELSE Done([q1 EXCEPT ![p] = AddV(@, v[1].b)], stk, p + 1)
    [] st.k = "p3" ->                                    \* GPOS 3.1, left to right
         LET i == Idx(st.cov, g) IN
         IF i = 0 THEN <<>>
         ELSE LET rec == st.recs[i]
                  p == PrevKept(gd, lk, q, a - 1)
                  pi == IF p = 0 THEN 0 ELSE Idx(st.cov, q[p].g)
                  n == NextKept(gd, lk, q, a + 1, e)
                  ni == IF n >= e THEN 0 ELSE Idx(st.cov, q[n].g)
                  q1 == IF pi > 0 /\ rec.en # <<0, 0>> /\ st.recs[Max2(pi, 1)].ex # <<0, 0>>
                        THEN [q EXCEPT ![a].y = q[p].y + st.recs[pi].ex[2] - rec.en[2]] ELSE q
                  q2 == IF ni > 0 /\ rec.ex # <<0, 0>> /\ st.recs[Max2(ni, 1)].en # <<0, 0>>
                        THEN [q1 EXCEPT ![a].w = q1[a].x + rec.ex[1] - q1[n].x - st.recs[ni].en[1]
                                                 - SumW(q1, a + 1, n - 1)] ELSE q1
              IN Done(q2, stk, a + 1)
    [] st.k = "p4" ->                                    \* GPOS 4.1: mark to base
         IF ~Has(st.mcov, g) THEN <<>>
         ELSE LET p == FindBase(gd, st, q, a - 1) IN
              IF p = 0 THEN <<>>
              ELSE LET r == Attach(st, q, a, p, Idx(st.bcov, q[p].g), TRUE) IN
                   IF r = <<>> THEN <<>> ELSE Done(r[1], stk, a + 1)
    [] st.k = "p6" ->                                    \* GPOS 6.1: mark to mark
         IF ~Has(st.mcov, g) THEN <<>>
         ELSE LET p == PrevKept(gd, lk, q, a - 1) IN
              IF p = 0 THEN <<>>
              ELSE IF ~Has(st.bcov, q[p].g) THEN <<>>
              ELSE LET r == Attach(st, q, a, p, Idx(st.bcov, q[p].g), FALSE) IN
                   IF r = <<>> THEN <<>> ELSE Done(r[1], stk, a + 1)

\* the first subtable which applies
RECURSIVE ApplyFrom(_, _, _, _, _, _, _)
ApplyFrom(T, lk, i, q, stk, a, e) ==
  IF i > Len(lk.subs) THEN <<>>
  ELSE LET r == ApplySub(T, lk, lk.subs[i], q, stk, a, e) IN
       IF r # <<>> THEN r ELSE ApplyFrom(T, lk, i + 1, q, stk, a, e)

---------------------------------------------------------------------------
(* The machine.                                                            *)

Begin(q) == [seq |-> q, li |-> 1, pos |-> 1, stack |-> <<>>, acts |-> 0, over |-> FALSE, done |-> FALSE]

\* more nested actions than this in one match leaves the specified domain
Budget == 60

\* Reverse-chaining lookups may be run backwards (rev).
Step(T, s, rev) ==
  IF s.stack # <<>>
  THEN LET k == Len(s.stack)
           f == s.stack[k]
       IN
       IF f.act = <<>>
       THEN [s EXCEPT !.stack = SubSeq(s.stack, 1, k - 1),
                      !.pos = IF k = 1 THEN f.e ELSE s.pos]
       ELSE LET a == f.act[1]
                stk == [s.stack EXCEPT ![k].act = Tail(f.act)]
                s1 == [s EXCEPT !.stack = stk, !.acts = s.acts + 1, !.over = s.over \/ s.acts + 1 > Budget]
            IN
            IF a[1] + 1 > Len(f.ps) \/ a[2] + 1 > Len(T.ll) THEN s1
            ELSE LET lk == T.ll[a[2] + 1]
                     p == f.ps[a[1] + 1]
                 IN IF ~Keep(T.gd, lk, s.seq[p].g) THEN s1
                    ELSE LET r == ApplyFrom(T, lk, 1, s.seq, stk, p, f.e) IN
                         IF r = <<>> THEN s1 ELSE [s1 EXCEPT !.seq = r[1].q, !.stack = r[1].stk]
  ELSE IF s.li > Len(T.lk) THEN [s EXCEPT !.done = TRUE]
  ELSE IF T.lk[s.li] + 1 > Len(T.ll) \/ s.pos > Len(s.seq)
  THEN [s EXCEPT !.li = s.li + 1, !.pos = 1]
  ELSE LET lk == T.ll[T.lk[s.li] + 1]
           back == rev /\ lk.subs # <<>> /\ \A i \in 1..Len(lk.subs) : lk.subs[i].k = "s8"
           p == IF back THEN Len(s.seq) + 1 - s.pos ELSE s.pos
       IN
       IF ~Keep(T.gd, lk, s.seq[p].g) THEN [s EXCEPT !.pos = s.pos + 1]
       ELSE LET r == ApplyFrom(T, lk, 1, s.seq, <<>>, p, Len(s.seq) + 1) IN
            IF r = <<>> THEN [s EXCEPT !.pos = s.pos + 1]
            ELSE [s EXCEPT !.seq = r[1].q, !.stack = r[1].stk, !.acts = 0,
                           !.pos = IF back THEN s.pos + 1 ELSE r[1].n]

RECURSIVE Final(_, _, _)
Final(T, s, rev) == IF s.done \/ s.over THEN s ELSE Final(T, Step(T, s, rev), rev)

HasReverse(T) == \E i \in 1..Len(T.ll) : \E j \in 1..Len(T.ll[i].subs) : T.ll[i].subs[j].k = "s8"

---------------------------------------------------------------------------
(* Invariants of the machine.                                              *)

Ascending(ps) == \A i \in 1..Len(ps) - 1 : ps[i] < ps[i + 1]

\* the live positions of every frame lie inside its range, and the ranges
\* of the frames are nested in the sequence
FramesOK(s) == \A k \in 1..Len(s.stack) :
                 LET f == s.stack[k] IN
                 /\ Ascending(f.ps)
                 /\ \A i \in 1..Len(f.ps) : f.ps[i] \in 1..(f.e - 1)
                 /\ f.e <= Len(s.seq) + 1
                 /\ (k > 1 => f.e <= s.stack[k - 1].e)

RECURSIVE AllText(_, _)
AllText(q, i) == IF i > Len(q) THEN <<>> ELSE q[i].t \o AllText(q, i + 1)

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

Conserved(q0, q) == SameBag(AllText(q0, 1), AllText(q, 1))
=============================================================================
