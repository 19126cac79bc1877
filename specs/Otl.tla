--------------------------------- MODULE Otl ---------------------------------
(***************************************************************************)
(* The binary form of the OpenType layout tables, as decoding machines     *)
(* from bytes to structures: coverage and class definition tables, GDEF,   *)
(* script, feature and lookup lists, and every subtable type and format of *)
(* GSUB and GPOS (including extension lookups).  Positions are 0-based.    *)
(*                                                                         *)
(* Structures are tagged records; glyph sets are sequences of maximal      *)
(* ranges <<first, last>>, class definitions sequences of maximal ranges   *)
(* <<first, last, class>> with non-zero class.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

U16(B, p) == IF p >= 0 /\ p + 1 < Len(B) THEN (256 * B[p + 1]) + B[p + 2] ELSE -1
S16(B, p) == LET v == U16(B, p) IN IF v >= 32768 THEN v - 65536 ELSE v
\* only used for offsets; anything outside of the file is bad
U32(B, p) == IF U16(B, p) < 0 \/ U16(B, p) >= 32768 \/ U16(B, p + 2) < 0 THEN -1 ELSE (65536 * U16(B, p)) + U16(B, p + 2)
Words(B, p, n) == IF p + 2 * n > Len(B) THEN <<-1>> ELSE [i \in 1..n |-> U16(B, p + (2 * (i - 1)))]
\* an array with a 16-bit count
Arr(B, p) == Words(B, p + 2, U16(B, p))

Bad == <<<<-1, -1>>>>
Bad3 == <<<<-1, -1, -1>>>>

(***************************************************************************)
(* Ranges                                                                  *)
(***************************************************************************)
Ascending(R) == /\ \A i \in 1..Len(R) : 0 <= R[i][1] /\ R[i][1] <= R[i][2]
                /\ \A i \in 2..Len(R) : R[i - 1][2] < R[i][1]
Idx(s) == [i \in 1..Len(s) |-> i]
\* join neighbouring ranges of the same class
Merge(R) ==
  LET st == SelectSeq(Idx(R), LAMBDA i : IF i = 1 THEN TRUE ELSE R[i][1] # R[i - 1][2] + 1 \/ R[i][3] # R[i - 1][3])
  IN [k \in 1..Len(st) |-> <<R[st[k]][1], R[IF k = Len(st) THEN Len(R) ELSE st[k + 1] - 1][2], R[st[k]][3]>>]
Two(R) == [i \in 1..Len(R) |-> <<R[i][1], R[i][2]>>]
Size(R) == FoldLeft(LAMBDA a, x : a + x[2] - x[1] + 1, 0, R)

(***************************************************************************)
(* Coverage tables: the covered glyphs are numbered in increasing order.   *)
(***************************************************************************)
Cov(B, p) ==
  LET f == U16(B, p)
      n == U16(B, p + 2)
      S == [i \in 1..n |-> <<U16(B, p + 2 + (2 * i)), U16(B, p + 2 + (2 * i)), 1>>]
      R == [i \in 1..n |-> <<U16(B, p + 6 * i - 2), U16(B, p + 6 * i), 1>>]
  IN CASE f = 1 -> IF Ascending(S) THEN Two(Merge(S)) ELSE Bad
       [] f = 2 -> IF /\ Ascending(R)
                      /\ \A i \in 1..n : U16(B, p + 6 * i + 2) =
                            IF i = 1 THEN 0 ELSE U16(B, p + 6 * i - 4) + R[i - 1][2] - R[i - 1][1] + 1
                   THEN Two(Merge(R)) ELSE Bad
       [] OTHER -> Bad
CovSize(R) == LET a == 4 + 2 * Size(R)
                  b == 4 + 6 * Len(R)
              IN IF a <= b THEN a ELSE b

(***************************************************************************)
(* Class definition tables                                                 *)
(***************************************************************************)
NZ(R) == SelectSeq(R, LAMBDA x : x[3] # 0)
Class(B, p) ==
  LET f == U16(B, p)
      n1 == U16(B, p + 4)
      S == [i \in 1..n1 |-> <<U16(B, p + 2) + i - 1, U16(B, p + 2) + i - 1, U16(B, p + 4 + 2 * i)>>]
      n2 == U16(B, p + 2)
      R == [i \in 1..n2 |-> <<U16(B, p + 6 * i - 2), U16(B, p + 6 * i), U16(B, p + 6 * i + 2)>>]
  IN CASE f = 1 -> IF U16(B, p + 2) + n1 <= 65536 THEN Merge(NZ(S)) ELSE Bad3
       [] f = 2 -> IF Ascending(R) THEN Merge(NZ(R)) ELSE Bad3
       [] OTHER -> Bad3
\* the sizes of the two formats; a 16-bit count must be enough
ClassSize(R) ==
  LET span == R[Len(R)][2] - R[1][1] + 1
      a == 6 + 2 * span
      b == 4 + 6 * Len(R)
  IN IF R = <<>> THEN 4 ELSE IF a <= b /\ span <= 65535 THEN a ELSE b
ClassFits(R) == R = <<>> \/ Len(R) <= 65535 \/ R[Len(R)][2] - R[1][1] + 1 <= 65535

(***************************************************************************)
(* Value records: <<>> or the values of the eight fields.                  *)
(***************************************************************************)
Bit(f, k) == (f \div (2 ^ k)) % 2
RECURSIVE Below(_, _)
Below(f, k) == IF k = 0 THEN 0 ELSE Below(f, k - 1) + Bit(f, k - 1)
VLen(f) == 2 * Below(f, 8)
Zeros == <<0, 0, 0, 0, 0, 0, 0, 0>>
Val(B, p, f) ==
  IF f = 0 THEN <<>>
  ELSE [k \in 1..8 |-> IF Bit(f, k - 1) = 0 THEN 0
                       ELSE IF k <= 4 THEN S16(B, p + 2 * Below(f, k - 1)) ELSE U16(B, p + 2 * Below(f, k - 1))]
\* within one group of records, an absent value is the same as zeros
Norm(v, grp) == IF v # <<>> \/ \A w \in grp : w = <<>> THEN v ELSE Zeros

(***************************************************************************)
(* Anchors: <<0, 0>> is the same as no anchor.                             *)
(***************************************************************************)
Anchor(B, p) == IF U16(B, p) \in 1..3 THEN <<S16(B, p + 2), S16(B, p + 4)>> ELSE <<-99999, U16(B, p)>>
OptAnchor(B, base, offs) == IF offs = 0 THEN <<0, 0>> ELSE Anchor(B, base + offs)
Marks(B, p) == [i \in 1..U16(B, p) |->
                  LET a == Anchor(B, p + U16(B, p + 4 * i)) IN <<U16(B, p + 4 * i - 2), a[1], a[2]>>]
AnchorMatrix(B, p, nr, nc) ==
  [i \in 1..nr |-> [j \in 1..nc |-> OptAnchor(B, p, U16(B, p + 2 + 2 * ((i - 1) * nc + j - 1)))]]

(***************************************************************************)
(* Subtables                                                               *)
(***************************************************************************)
Covs(B, p, offs) == [i \in 1..Len(offs) |-> Cov(B, p + offs[i])]
Actions(B, p, n) == [i \in 1..n |-> <<U16(B, p + 4 * (i - 1)), U16(B, p + 4 * (i - 1) + 2)>>]

\* a list of offset-addressed lists; offset 0 stands for the empty list
Sets(B, p, q, Item(_)) ==
  [i \in 1..U16(B, q) |->
     LET o == U16(B, q + 2 * i) IN
     IF o = 0 THEN <<>>
     ELSE [j \in 1..U16(B, p + o) |-> Item(p + o + U16(B, p + o + 2 * j))]]

Rule(B, p) == LET n == U16(B, p) IN <<Words(B, p + 4, n - 1), Actions(B, p + 4 + 2 * (n - 1), U16(B, p + 2))>>
ChainRule(B, p) ==
  LET nb == U16(B, p)
      p2 == p + 2 + 2 * nb
      ni == U16(B, p2)
      p3 == p2 + 2 * ni
      nl == U16(B, p3)
      p4 == p3 + 2 + 2 * nl
  IN <<Words(B, p + 2, nb), Words(B, p2 + 2, ni - 1), Words(B, p3 + 2, nl), Actions(B, p4 + 2, U16(B, p4))>>

Unknown(t, f) == [k |-> "?", t |-> t, f |-> f]

Context(B, p, f) ==
  CASE f = 1 -> [k |-> "c1", cov |-> Cov(B, p + U16(B, p + 2)), rules |-> Sets(B, p, p + 4, LAMBDA q : Rule(B, q))]
    [] f = 2 -> [k |-> "c2", cov |-> Cov(B, p + U16(B, p + 2)), cd |-> Class(B, p + U16(B, p + 4)),
                 rules |-> Sets(B, p, p + 6, LAMBDA q : Rule(B, q))]
    [] f = 3 -> LET n == U16(B, p + 2) IN
                [k |-> "c3", inp |-> Covs(B, p, Words(B, p + 6, n)), act |-> Actions(B, p + 6 + 2 * n, U16(B, p + 4))]
    [] OTHER -> Unknown(5, f)
Chain(B, p, f) ==
  CASE f = 1 -> [k |-> "h1", cov |-> Cov(B, p + U16(B, p + 2)), rules |-> Sets(B, p, p + 4, LAMBDA q : ChainRule(B, q))]
    [] f = 2 -> [k |-> "h2", cov |-> Cov(B, p + U16(B, p + 2)), bcd |-> Class(B, p + U16(B, p + 4)),
                 icd |-> Class(B, p + U16(B, p + 6)), lcd |-> Class(B, p + U16(B, p + 8)),
                 rules |-> Sets(B, p, p + 10, LAMBDA q : ChainRule(B, q))]
    [] f = 3 -> LET nb == U16(B, p + 2)
                    p2 == p + 4 + 2 * nb
                    ni == U16(B, p2)
                    p3 == p2 + 2 + 2 * ni
                    nl == U16(B, p3)
                    p4 == p3 + 2 + 2 * nl
                IN [k |-> "h3", back |-> Covs(B, p, Arr(B, p + 2)), inp |-> Covs(B, p, Arr(B, p2)),
                    look |-> Covs(B, p, Arr(B, p3)), act |-> Actions(B, p4 + 2, U16(B, p4))]
    [] OTHER -> Unknown(6, f)

Gsub(B, t, p) ==
  LET f == U16(B, p)
      cov == Cov(B, p + U16(B, p + 2))
      lists == [i \in 1..U16(B, p + 4) |-> Arr(B, p + U16(B, p + 4 + 2 * i))]
  IN CASE t = 1 /\ f = 1 -> [k |-> "s11", cov |-> cov, d |-> U16(B, p + 4)]
       [] t = 1 /\ f = 2 -> [k |-> "s12", cov |-> cov, sub |-> Arr(B, p + 4)]
       [] t = 2 /\ f = 1 -> [k |-> "s21", cov |-> cov, rep |-> lists]
       [] t = 3 /\ f = 1 -> [k |-> "s31", cov |-> cov, rep |-> lists]
       [] t = 4 /\ f = 1 -> [k |-> "s41", cov |-> cov,
                             ligs |-> Sets(B, p, p + 4, LAMBDA q : <<U16(B, q)>> \o Words(B, q + 4, U16(B, q + 2) - 1))]
       [] t = 5 -> Context(B, p, f)
       [] t = 6 -> Chain(B, p, f)
       [] t = 8 /\ f = 1 -> LET nb == U16(B, p + 4)
                                p2 == p + 6 + 2 * nb
                                nl == U16(B, p2)
                                p3 == p2 + 2 + 2 * nl
                            IN [k |-> "s81", cov |-> cov, back |-> Covs(B, p, Arr(B, p + 4)),
                                look |-> Covs(B, p, Arr(B, p2)), sub |-> Arr(B, p3)]
       [] OTHER -> Unknown(t, f)

Flat(S) == FoldLeft(LAMBDA a, x : a \o x, <<>>, S)
\* the glyphs of a coverage table
Glyphs(R) == Flat([i \in 1..Len(R) |-> [j \in 1..(R[i][2] - R[i][1] + 1) |-> R[i][1] + j - 1]])

Gpos(B, t, p) ==
  LET f == U16(B, p)
      cov == Cov(B, p + U16(B, p + 2))
      v1 == U16(B, p + 4)
      v2 == U16(B, p + 6)
      size == VLen(v1) + VLen(v2)
      Two2(q) == <<Val(B, q, v1), Val(B, q + VLen(v1), v2)>>
  IN CASE t = 1 /\ f = 1 -> [k |-> "p11", cov |-> cov, val |-> Val(B, p + 6, v1)]
       [] t = 1 /\ f = 2 -> [k |-> "p12", cov |-> cov, vals |-> [i \in 1..U16(B, p + 6) |-> Val(B, p + 8 + (i - 1) * VLen(v1), v1)]]
       [] t = 2 /\ f = 1 ->
            LET gg == Glyphs(cov)
                n == U16(B, p + 8)
                PairSet(i) == LET q == p + U16(B, p + 8 + 2 * i) IN
                   [j \in 1..U16(B, q) |-> LET r == q + 2 + (j - 1) * (2 + size)
                                               w == Two2(r + 2)
                                           IN <<gg[i], U16(B, r), w[1], w[2]>>]
                sets == [i \in 1..n |-> PairSet(i)]
            IN IF n = Len(gg) /\ \A i \in 1..n : \A j \in 2..Len(sets[i]) : sets[i][j - 1][2] < sets[i][j][2]
               THEN [k |-> "p21", pairs |-> Flat(sets)]
               ELSE Unknown(2, 1)
       [] t = 2 /\ f = 2 ->
            LET n1 == U16(B, p + 12)
                n2 == U16(B, p + 14)
            IN [k |-> "p22", cov |-> cov, c1 |-> Class(B, p + U16(B, p + 8)), c2 |-> Class(B, p + U16(B, p + 10)),
                adj |-> [i \in 1..n1 |-> [j \in 1..n2 |-> Two2(p + 16 + ((i - 1) * n2 + j - 1) * size)]]]
       [] t = 3 /\ f = 1 ->
            [k |-> "p31", cov |-> cov,
             recs |-> [i \in 1..U16(B, p + 4) |-> <<OptAnchor(B, p, U16(B, p + 2 + 4 * i)), OptAnchor(B, p, U16(B, p + 4 + 4 * i))>>]]
       [] t \in {4, 6} /\ f = 1 ->
            LET q == p + U16(B, p + 10) IN
            [k |-> IF t = 4 THEN "p41" ELSE "p61", mcov |-> cov, bcov |-> Cov(B, p + U16(B, p + 4)),
             marks |-> Marks(B, p + U16(B, p + 8)), bases |-> AnchorMatrix(B, q, U16(B, q), U16(B, p + 6))]
       [] t = 5 /\ f = 1 ->
            LET q == p + U16(B, p + 10) IN
            [k |-> "p51", mcov |-> cov, bcov |-> Cov(B, p + U16(B, p + 4)),
             marks |-> Marks(B, p + U16(B, p + 8)),
             ligs |-> [i \in 1..U16(B, q) |-> LET a == q + U16(B, q + 2 * i) IN AnchorMatrix(B, a, U16(B, a), U16(B, p + 6))]]
       [] t = 7 -> Context(B, p, f)
       [] t = 8 -> Chain(B, p, f)
       [] OTHER -> Unknown(t, f)

(***************************************************************************)
(* Lookup lists                                                            *)
(***************************************************************************)
ExtType(gpos) == IF gpos THEN 9 ELSE 7
Sub(B, gpos, t, p) == IF gpos THEN Gpos(B, t, p) ELSE Gsub(B, t, p)
Lookup(B, gpos, p) ==
  LET t == U16(B, p)
      f == U16(B, p + 2)
      n == U16(B, p + 4)
      pos == [i \in 1..n |-> p + U16(B, p + 4 + 2 * i)]
      m == IF Bit(f, 4) = 1 THEN U16(B, p + 6 + 2 * n) ELSE 0
      tt == U16(B, pos[1] + 2)
  IN IF t # ExtType(gpos) \/ n = 0
     THEN [t |-> t, f |-> f, m |-> m, subs |-> [i \in 1..n |-> Sub(B, gpos, t, pos[i])]]
     ELSE IF tt # t /\ \A i \in 1..n : U16(B, pos[i]) = 1 /\ U16(B, pos[i] + 2) = tt
     THEN [t |-> tt, f |-> f, m |-> m, subs |-> [i \in 1..n |-> Sub(B, gpos, tt, pos[i] + U32(B, pos[i] + 4))]]
     ELSE [t |-> t, f |-> f, m |-> m, subs |-> <<Unknown(t, 1)>>]
Lookups(B, gpos, p) == [i \in 1..U16(B, p) |-> Lookup(B, gpos, p + U16(B, p + 2 * i))]

(***************************************************************************)
(* Features and scripts.  Tags are numbers.                                *)
(***************************************************************************)
Tag(B, p) == IF U16(B, p) >= 32768 THEN -1 ELSE U32(B, p)
Features(B, p) ==
  [i \in 1..U16(B, p) |-> LET q == p + U16(B, p + 6 * i) IN [tag |-> Tag(B, p + 6 * i - 4), l |-> Arr(B, q + 2)]]
LangSys(B, s, l, p) == [s |-> s, l |-> l, r |-> U16(B, p + 2), o |-> Arr(B, p + 4)]
Script(B, s, p) ==
  (IF U16(B, p) = 0 THEN <<>> ELSE <<LangSys(B, s, 0, p + U16(B, p))>>) \o
  [i \in 1..U16(B, p + 2) |-> LangSys(B, s, Tag(B, p + 6 * i - 2), p + U16(B, p + 6 * i + 2))]
Scripts(B, p) == Flat([i \in 1..U16(B, p) |-> Script(B, Tag(B, p + 6 * i - 4), p + U16(B, p + 6 * i))])
ScriptsSorted(S) == \A i \in 2..Len(S) : \/ S[i - 1].s < S[i].s
                                         \/ S[i - 1].s = S[i].s /\ S[i - 1].l < S[i].l

\* the whole table
Gtab(B, gpos) ==
  IF U16(B, 0) # 1 THEN [ok |-> FALSE]
  ELSE IF U16(B, 4) = 0 \/ U16(B, 8) = 0 THEN [ok |-> TRUE, s |-> <<>>, f |-> <<>>, l |-> <<>>]
  ELSE [ok |-> TRUE, s |-> Scripts(B, U16(B, 4)), f |-> Features(B, U16(B, 6)), l |-> Lookups(B, gpos, U16(B, 8))]

(***************************************************************************)
(* GDEF.  Absent tables are <<>>, present ones <<table>>.                  *)
(***************************************************************************)
Gdef(B) ==
  LET o1 == U16(B, 4)
      o2 == U16(B, 10)
      v == U16(B, 2)
      o3 == IF v >= 2 THEN U16(B, 12) ELSE 0
  IN IF U16(B, 0) # 1 \/ v \notin {0, 2} THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE,
           gc |-> IF o1 = 0 THEN <<>> ELSE <<Class(B, o1)>>,
           mc |-> IF o2 = 0 THEN <<>> ELSE <<Class(B, o2)>>,
           sets |-> IF o3 = 0 THEN <<>>
                    ELSE IF U16(B, o3) # 1 THEN <<<<Bad>>>>
                    ELSE <<[i \in 1..U16(B, o3 + 2) |-> Cov(B, o3 + U32(B, o3 + 4 * i))]>>]

(***************************************************************************)
(* Structures up to the choice between absent and zero values              *)
(***************************************************************************)
NormSub(x) ==
  CASE x.k = "p12" -> LET g == {x.vals[i] : i \in 1..Len(x.vals)}
                      IN [x EXCEPT !.vals = [i \in 1..Len(x.vals) |-> Norm(x.vals[i], g)]]
    [] x.k = "p21" -> LET g1 == {x.pairs[i][3] : i \in 1..Len(x.pairs)}
                          g2 == {x.pairs[i][4] : i \in 1..Len(x.pairs)}
                      IN [x EXCEPT !.pairs = [i \in 1..Len(x.pairs) |->
                            <<x.pairs[i][1], x.pairs[i][2], Norm(x.pairs[i][3], g1), Norm(x.pairs[i][4], g2)>>]]
    [] x.k = "p22" -> LET g1 == UNION {{x.adj[i][j][1] : j \in 1..Len(x.adj[i])} : i \in 1..Len(x.adj)}
                          g2 == UNION {{x.adj[i][j][2] : j \in 1..Len(x.adj[i])} : i \in 1..Len(x.adj)}
                      IN [x EXCEPT !.adj = [i \in 1..Len(x.adj) |-> [j \in 1..Len(x.adj[i]) |->
                            <<Norm(x.adj[i][j][1], g1), Norm(x.adj[i][j][2], g2)>>]]]
    [] OTHER -> x
NormLookups(L) == [i \in 1..Len(L) |-> [L[i] EXCEPT !.subs = [j \in 1..Len(L[i].subs) |-> NormSub(L[i].subs[j])]]]

(***************************************************************************)
(* Upper bounds for the size of the parts, when nothing is shared.         *)
(***************************************************************************)
SumOf(S, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, S)
RuleSize(r) == IF Len(r) = 2 THEN 4 + 2 * Len(r[1]) + 4 * Len(r[2])
               ELSE 8 + 2 * (Len(r[1]) + Len(r[2]) + Len(r[3])) + 4 * Len(r[4])
\* the number of bytes for one value in a group of values
ValSize(grp) == IF \A v \in grp : v = <<>> THEN 0
                ELSE LET n == Cardinality({k \in 1..8 : \E v \in grp : v # <<>> /\ v[k] # 0}) IN IF n = 0 THEN 2 ELSE 2 * n
RulesSize(S) == SumOf(S, LAMBDA s : 4 + SumOf(s, LAMBDA r : 2 + RuleSize(r)))
ListsSize(S) == SumOf(S, LAMBDA s : 4 + 2 * Len(s))
CovsSize(S) == SumOf(S, LAMBDA s : 2 + CovSize(s))
SubSize(x) ==
  12 + (IF "cov" \in DOMAIN x THEN CovSize(x.cov) ELSE 0) +
  CASE x.k = "s11" -> 0
    [] x.k = "s12" -> 2 * Len(x.sub)
    [] x.k \in {"s21", "s31"} -> ListsSize(x.rep)
    [] x.k = "s41" -> SumOf(x.ligs, LAMBDA s : 4 + SumOf(s, LAMBDA g : 6 + 2 * Len(g)))
    [] x.k = "s81" -> CovsSize(x.back) + CovsSize(x.look) + 2 * Len(x.sub)
    [] x.k = "c1" -> RulesSize(x.rules)
    [] x.k = "c2" -> RulesSize(x.rules) + ClassSize(x.cd)
    [] x.k = "c3" -> CovsSize(x.inp) + 4 * Len(x.act)
    [] x.k = "h1" -> RulesSize(x.rules)
    [] x.k = "h2" -> RulesSize(x.rules) + ClassSize(x.bcd) + ClassSize(x.icd) + ClassSize(x.lcd)
    [] x.k = "h3" -> CovsSize(x.back) + CovsSize(x.inp) + CovsSize(x.look) + 4 * Len(x.act)
    [] x.k = "p11" -> 16
    [] x.k = "p12" -> ValSize({x.vals[i] : i \in 1..Len(x.vals)}) * Len(x.vals)
    [] x.k = "p21" -> LET firsts == {x.pairs[i][1] : i \in 1..Len(x.pairs)} IN
                      4 + 6 * Cardinality(firsts) +
                      Len(x.pairs) * (2 + ValSize({x.pairs[i][3] : i \in 1..Len(x.pairs)}) + ValSize({x.pairs[i][4] : i \in 1..Len(x.pairs)}))
    [] x.k = "p22" -> LET m == ValSize(UNION {{x.adj[i][j][1] : j \in 1..Len(x.adj[i])} : i \in 1..Len(x.adj)})
                             + ValSize(UNION {{x.adj[i][j][2] : j \in 1..Len(x.adj[i])} : i \in 1..Len(x.adj)}) IN
                      4 + ClassSize(x.c1) + ClassSize(x.c2) + m * SumOf(x.adj, LAMBDA row : Len(row))
    [] x.k = "p31" -> 16 * Len(x.recs)
    [] x.k \in {"p41", "p61"} -> 4 + CovSize(x.mcov) + CovSize(x.bcov) + 10 * Len(x.marks) + SumOf(x.bases, LAMBDA row : 8 * Len(row))
    [] x.k = "p51" -> 4 + CovSize(x.mcov) + CovSize(x.bcov) + 10 * Len(x.marks)
                       + SumOf(x.ligs, LAMBDA g : 4 + SumOf(g, LAMBDA row : 8 * Len(row)))
\* the part which comes last, and which may extend beyond 64 KiB
LastPart(x) ==
  CASE x.k \in {"h1", "h2"} ->
         (IF x.rules = <<>> \/ x.rules[Len(x.rules)] = <<>> THEN 0
          ELSE LET s == x.rules[Len(x.rules)] IN RuleSize(s[Len(s)]))
    [] x.k = "p21" ->
         (IF x.pairs = <<>> THEN 0
          ELSE LET g == x.pairs[Len(x.pairs)][1] IN
               Cardinality({i \in 1..Len(x.pairs) : x.pairs[i][1] = g})
               * (2 + ValSize({x.pairs[i][3] : i \in 1..Len(x.pairs)}) + ValSize({x.pairs[i][4] : i \in 1..Len(x.pairs)})))
    [] OTHER -> 0
ScriptsSize(S) == 2 + SumOf(S, LAMBDA s : 22 + 2 * Len(s.o))
FeaturesSize(F) == 2 + SumOf(F, LAMBDA f : 10 + 2 * Len(f.l))
LookupsSize(L) == 2 + SumOf(L, LAMBDA x : 10 + 10 * Len(x.subs))
\* Nothing which fits comfortably may be refused: every list and subtable is
\* smaller than 64 KiB, and the lookup list is small enough once all
\* subtables are replaced by extension records.
Fits(x) ==
  /\ 10 + ScriptsSize(x.s) + FeaturesSize(x.f) <= 65535
  /\ LookupsSize(x.l) <= 65535
  /\ \A i \in 1..Len(x.l) : \A j \in 1..Len(x.l[i].subs) : SubSize(x.l[i].subs[j]) - LastPart(x.l[i].subs[j]) <= 65535
=============================================================================
