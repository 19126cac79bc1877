-------------------------------- MODULE MCOtl --------------------------------
(***************************************************************************)
(* The writer's side of the layout tables.                                 *)
(*                                                                         *)
(* 1. The layout of a lookup list.  Offsets from the start of the list to  *)
(*    a lookup and from a lookup to its subtables are bounded by Limit;    *)
(*    the offset in an extension record is not bounded.  The writer keeps  *)
(*    the natural order if this is possible; otherwise lookups whose own   *)
(*    offsets are too large use extension records, the largest other       *)
(*    lookup is moved to the end, and further lookups, largest first, use  *)
(*    extension records until all offsets fit.                             *)
(*    Checked: the plan is correct whenever it is not refused, it is never *)
(*    refused for a list which fits when all subtables are replaced by     *)
(*    records, and data is neither lost nor overlapping.                   *)
(* 2. Coverage and class definition tables, in every legal binary form,    *)
(*    are decoded to what was meant; the format sizes are as specified.    *)
(***************************************************************************)
EXTENDS Otl, NameTables, TLC, Json, IOUtils, CSV

CONSTANTS MaxLookups, MaxSubs, Sizes, Limit, GMax, CMax

VARIABLES ll,     \* sizes of the subtables, by lookup
          plan,   \* [kind |-> "none" | "plain" | "ext" | "refused", ...]
          tab     \* a coverage or class table and one of its binary forms
vars == <<ll, plan, tab>>

None == [kind |-> "none"]
Init == ll = <<>> /\ plan = None /\ tab = None

(***************************************************************************)
(* Layout.  Sizes are in units; headers and records are scaled down.       *)
(***************************************************************************)
Sum(S) == FoldLeft(LAMBDA a, x : a + x, 0, S)
HeadLen(n) == 1 + n              \* of the list, or of a lookup
Rec == 2                      \* extension record
Full(x) == HeadLen(Len(x)) + Sum(x)
Ext(x) == HeadLen(Len(x)) + (Rec * Len(x))
Inner(x) == IF x = <<>> THEN 0 ELSE Full(x) - x[Len(x)]      \* the largest offset inside

\* Chunks in file order: <<"h">>, <<"t", i>>, <<"s", i, j>>, <<"x", i, j>>
ChunkSize(c) == CASE c[1] = "h" -> HeadLen(Len(ll)) [] c[1] = "t" -> HeadLen(Len(ll[c[2]]))
                  [] c[1] = "s" -> ll[c[2]][c[3]] [] c[1] = "x" -> Rec
Pos(cs, k) == Sum([i \in 1..(k - 1) |-> ChunkSize(cs[i])])
At(cs, c) == Pos(cs, CHOOSE k \in 1..Len(cs) : cs[k] = c)
Has(cs, c) == \E k \in 1..Len(cs) : cs[k] = c
Block(i, K) == <<<<"t", i, 0>>>> \o [j \in 1..Len(ll[i]) |-> <<K, i, j>>]
Data(i) == [j \in 1..Len(ll[i]) |-> <<"s", i, j>>]
All(F(_)) == Flat([i \in 1..Len(ll) |-> F(i)])
Plain == <<<<"h", 0, 0>>>> \o All(LAMBDA i : Block(i, "s"))

\* what the binary form demands
OffsetsOk(cs) ==
  /\ \A i \in 1..Len(ll) : At(cs, <<"t", i, 0>>) <= Limit
  /\ \A i \in 1..Len(ll) : \A j \in 1..Len(ll[i]) :
        LET t == At(cs, <<"t", i, 0>>)
            x == IF Has(cs, <<"x", i, j>>) THEN At(cs, <<"x", i, j>>) ELSE At(cs, <<"s", i, j>>)
        IN x > t /\ x - t <= Limit /\ At(cs, <<"s", i, j>>) >= x

Order == LET S == SortSeq([i \in 1..Len(ll) |-> i], LAMBDA a, b : Full(ll[a]) < Full(ll[b]) \/ (Full(ll[a]) = Full(ll[b]) /\ a < b)) IN S

RECURSIVE Extend(_, _, _, _, _)
\* replace lookups, largest first, until the position of the last one fits
Extend(ord, k, big, rep, last) ==
  IF last <= Limit \/ k = 0 THEN rep
  ELSE LET i == ord[k] IN
       IF i = big \/ i \in rep \/ Ext(ll[i]) >= Full(ll[i]) THEN Extend(ord, k - 1, big, rep, last)
       ELSE Extend(ord, k - 1, big, rep \cup {i}, last - (Full(ll[i]) - Ext(ll[i])))

Reorder ==
  LET forced == {i \in 1..Len(ll) : Inner(ll[i]) > Limit}
      ord == Order
      free == {k \in 1..Len(ll) : ord[k] \notin forced}
      big == IF free = {} THEN 0 ELSE ord[CHOOSE k \in free : \A m \in free : m <= k]
      last == HeadLen(Len(ll)) + Sum([i \in 1..Len(ll) |-> IF i = big THEN 0 ELSE IF i \in forced THEN Ext(ll[i]) ELSE Full(ll[i])])
      rep == Extend(ord, Len(ll), big, forced, last)
      cs == <<<<"h", 0, 0>>>> \o
            All(LAMBDA i : IF i = big THEN <<>> ELSE Block(i, IF i \in rep THEN "x" ELSE "s")) \o
            (IF big = 0 THEN <<>> ELSE Block(big, "s")) \o
            All(LAMBDA i : IF i \in rep THEN Data(i) ELSE <<>>)
  IN [kind |-> IF OffsetsOk(cs) THEN "ext" ELSE "refused", cs |-> cs, rep |-> rep, big |-> big, forced |-> forced]

AddLookup == /\ plan = None /\ tab = None /\ Len(ll) < MaxLookups
             /\ \E n \in 0..MaxSubs : \E x \in [1..n -> Sizes] : ll' = Append(ll, x)
             /\ UNCHANGED <<plan, tab>>
MakePlan == /\ plan = None /\ tab = None /\ ll # <<>>
            /\ plan' = IF OffsetsOk(Plain) THEN [kind |-> "plain", cs |-> Plain, rep |-> {}, big |-> 0, forced |-> {}] ELSE Reorder
            /\ UNCHANGED <<ll, tab>>

AllExtFits == HeadLen(Len(ll)) + Sum([i \in 1..Len(ll) |-> Ext(ll[i])]) <= Limit

PlanOk ==
  plan.kind \in {"plain", "ext"} =>
    /\ OffsetsOk(plan.cs)
    /\ Cardinality(ToSet(plan.cs)) = Len(plan.cs)
    /\ \A i \in 1..Len(ll) : \A j \in 1..Len(ll[i]) : Has(plan.cs, <<"s", i, j>>)
    /\ \A i \in 1..Len(ll) : \A j \in 1..Len(ll[i]) : Has(plan.cs, <<"x", i, j>>) <=> i \in plan.rep
NotRefused == plan.kind = "refused" => ~AllExtFits

(***************************************************************************)
(* Coverage and class tables                                               *)
(***************************************************************************)
Be(v) == <<v \div 256, v % 256>>
Cat(S) == FoldLeft(LAMBDA a, x : a \o Be(x), <<>>, S)
Start == 65533 - GMax    \* the glyphs are Start + 1 .. Start + GMax
\* c: class by glyph; the glyphs in K start a new range of their own
ClassOf(c) == [i \in 1..GMax |-> <<Start + i, Start + i, c[i]>>]
Meaning(c) == Merge(NZ(ClassOf(c)))
Starts(c, cut) == SelectSeq([i \in 1..GMax |-> i], LAMBDA i : c[i] # 0 /\ (i = 1 \/ c[i - 1] # c[i] \/ i \in cut))
EndOf(c, st, k) == CHOOSE e \in st[k]..GMax : /\ \A x \in st[k]..e : c[x] = c[st[k]]
                                             /\ IF e = GMax THEN TRUE ELSE c[e + 1] # c[st[k]] \/ (k < Len(st) /\ st[k + 1] = e + 1)
RangeSeq(c, cut) == LET st == Starts(c, cut) IN [k \in 1..Len(st) |-> <<Start + st[k], Start + EndOf(c, st, k), c[st[k]]>>]
Class2(c, cut) == LET R == RangeSeq(c, cut) IN Cat(<<2, Len(R)>>) \o Flat([k \in 1..Len(R) |-> Cat(R[k])])
Class1(c, lo, hi) == Cat(<<1, Start + lo, hi - lo + 1>>) \o Cat([i \in 1..(hi - lo + 1) |-> c[lo + i - 1]])
Cov2(c, cut) == LET R == RangeSeq(c, cut) IN
  Cat(<<2, Len(R)>>) \o Flat([k \in 1..Len(R) |-> Cat(<<R[k][1], R[k][2], Sum([m \in 1..(k - 1) |-> R[m][2] - R[m][1] + 1])>>)])
Cov1(c) == LET g == SelectSeq([i \in 1..GMax |-> i], LAMBDA i : c[i] # 0) IN Cat(<<1, Len(g)>>) \o Cat([k \in 1..Len(g) |-> Start + g[k]])

MakeTab == /\ ll = <<>> /\ tab = None
           /\ \E c \in [1..GMax -> 0..CMax] :
                \/ \E cut \in SUBSET (2..GMax) : tab' = [kind |-> "class", c |-> c, b |-> Class2(c, cut)]
                \/ \E lo \in 1..GMax : \E hi \in lo..GMax :
                      /\ \A i \in 1..GMax : c[i] # 0 => lo <= i /\ i <= hi
                      /\ tab' = [kind |-> "class", c |-> c, b |-> Class1(c, lo, hi)]
                \/ /\ \A i \in 1..GMax : c[i] <= 1
                   /\ \/ \E cut \in SUBSET (2..GMax) : tab' = [kind |-> "cov", c |-> c, b |-> Cov2(c, cut)]
                      \/ tab' = [kind |-> "cov", c |-> c, b |-> Cov1(c)]
           /\ UNCHANGED <<ll, plan>>

TabOk == /\ tab.kind = "class" => Class(tab.b, 0) = Meaning(tab.c) /\ Len(tab.b) >= ClassSize(Meaning(tab.c))
         /\ tab.kind = "cov" => Cov(tab.b, 0) = Two(Meaning(tab.c)) /\ Len(tab.b) >= CovSize(Two(Meaning(tab.c)))
\* the smallest form has exactly the specified size
TabMin == tab.kind # "none" =>
  LET c == tab.c
      nz == {i \in 1..GMax : c[i] # 0}
  IN IF nz = {} THEN TRUE
     ELSE LET lo == CHOOSE i \in nz : \A j \in nz : i <= j
              hi == CHOOSE i \in nz : \A j \in nz : i >= j
              mn(a, b) == IF a <= b THEN a ELSE b
          IN IF tab.kind = "class" THEN ClassSize(Meaning(c)) = mn(Len(Class1(c, lo, hi)), Len(Class2(c, {})))
             ELSE CovSize(Two(Meaning(c))) = mn(Len(Cov1(c)), Len(Cov2(c, {})))

Next == AddLookup \/ MakePlan \/ MakeTab
Spec == Init /\ [][Next]_vars

Put(x, file) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.CASES \o file)
Sig == <<plan.kind, [i \in 1..Len(ll) |-> IF i \in plan.forced THEN "f" ELSE IF i \in plan.rep THEN "x" ELSE IF i = plan.big THEN "b" ELSE IF ll[i] = <<>> THEN "0" ELSE "p"]>>
Emit == /\ plan.kind # "none" => Put([ll |-> ll, lim |-> Limit, sig |-> ToString(Sig)], "/layout.ndjson")
        /\ (ll = <<>> /\ tab = None) => Put([s |-> ScriptTags, l |-> LangTags], "/tags.ndjson")
        /\ tab.kind # "none" => Put([k |-> tab.kind, in |-> Meaning(tab.c), b |-> tab.b], "/tabs.ndjson")
=============================================================================
