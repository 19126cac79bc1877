------------------------------- MODULE MCSubset -------------------------------
(***************************************************************************)
(* The subsetter as a machine: starting from the list, glyphs are appended *)
(* one at a time, first for substitution rules, then for composites, in    *)
(* any order.  When nothing is missing, the tables are renumbered.         *)
(* Checked: the result does not depend on the order, satisfies OrderOk,    *)
(* and shaping commutes with renumbering for all texts over the list.      *)
(***************************************************************************)
EXTENDS Subset, TLC, Json, IOUtils, CSV

CONSTANTS N, MaxLookups, TextLen

VARIABLES font, list, fin, phase
vars == <<font, list, fin, phase>>

Gids == 0..(N - 1)
Single(S, d) == [t |-> 1, f |-> 0, subs |-> << {[g |-> x, alts |-> << [in |-> <<>>, out |-> <<x + d>>] >>] : x \in S} >>]
Lig(g, alts) == [t |-> 4, f |-> 0, subs |-> << {[g |-> g, alts |-> alts]} >>]
Lig2(g, a, h, b) == [t |-> 4, f |-> 0, subs |-> << {[g |-> g, alts |-> a]}, {[g |-> h, alts |-> b], [g |-> g, alts |-> b]} >>]
L(in, out) == [in |-> in, out |-> <<out>>]
Lookups == {
  Single({1}, 1), Single({1, 2}, 1), Single({3}, -1), Single({2, 3}, -2),
  Lig(1, <<L(<<2>>, 3)>>), Lig(1, <<L(<<1, 2>>, 4), L(<<1>>, 2)>>), Lig(2, <<L(<<3>>, 1), L(<<2>>, 4)>>),
  Lig2(1, <<L(<<3>>, 2)>>, 2, <<L(<<1>>, 3)>>), Lig(3, <<L(<<3, 3>>, 4), L(<<4>>, 1)>>)}
Comps == {
  [g \in 0..(N - 1) |-> <<>>],
  [g \in 0..(N - 1) |-> IF g = 4 THEN <<3, 1>> ELSE <<>>],
  [g \in 0..(N - 1) |-> CASE g = 3 -> <<1, 2>> [] g = 4 -> <<3, 3>> [] OTHER -> <<>>],
  [g \in 0..(N - 1) |-> CASE g = 1 -> <<4>> [] g = 4 -> <<2>> [] OTHER -> <<>>],
  [g \in 0..(N - 1) |-> CASE g = 2 -> <<3, 1>> [] g = 1 -> <<4>> [] OTHER -> <<>>]}
Pairs == {{}, {<<1, 2, 10>>, <<2, 1, 20>>, <<3, 3, 30>>, <<2, 4, 40>>}}

Lists == {<<0>> \o s : s \in UNION {{q \in [1..k -> 1..(N - 1)] : Injective(q)} : k \in 0..(N - 1)}}
LookupSeqs == UNION {[1..k -> Lookups] : k \in 0..MaxLookups}

None == [ll |-> <<>>]
Init == font = None /\ list = <<>> /\ fin = <<>> /\ phase = "start"
Choose == /\ phase = "start"
          /\ \E ll \in LookupSeqs, c \in Comps, p \in Pairs : font' = [ll |-> ll, comps |-> [i \in 1..N |-> c[i - 1]], pairs |-> p]
          /\ \E s \in Lists : list' = s /\ fin' = s
          /\ phase' = "rules"
R == RulesOf(font.ll)
NeedRule == UNION {Elems(r.out) : r \in {q \in R : Elems(q.in) \subseteq Elems(fin)}} \ Elems(fin)
NeedComp == UNION {Elems(font.comps[g + 1]) : g \in Elems(fin)} \ Elems(fin)
AddRule == phase = "rules" /\ \E g \in NeedRule : fin' = Append(fin, g) /\ UNCHANGED <<font, list, phase>>
RulesDone == phase = "rules" /\ NeedRule = {} /\ phase' = "comps" /\ UNCHANGED <<font, list, fin>>
AddComp == phase = "comps" /\ \E g \in NeedComp : fin' = Append(fin, g) /\ UNCHANGED <<font, list, phase>>
CompsDone == phase = "comps" /\ NeedComp = {} /\ phase' = "done" /\ UNCHANGED <<font, list, fin>>
Next == Choose \/ AddRule \/ RulesDone \/ AddComp \/ CompsDone
Spec == Init /\ [][Next]_vars

\* shaping
Match(a, text, p) == /\ p + Len(a.in) <= Len(text)
                     /\ \A k \in 1..Len(a.in) : text[p + k] = a.in[k]
Sub1(sub, text, p) ==       \* the new text and position, or <<>>
  LET es == {e \in sub : e.g = text[p]} IN
  IF es = {} THEN <<>>
  ELSE LET e == CHOOSE x \in es : TRUE
           ok == SelectSeq([i \in 1..Len(e.alts) |-> i], LAMBDA i : Match(e.alts[i], text, p))
       IN IF ok = <<>> THEN <<>>
          ELSE LET a == e.alts[ok[1]] IN
               << SubSeq(text, 1, p - 1) \o a.out \o SubSeq(text, p + 1 + Len(a.in), Len(text)), p + Len(a.out) >>
RECURSIVE Try(_, _, _, _)
Try(subs, k, text, p) == IF k > Len(subs) THEN <<text, p + 1>>
                         ELSE LET r == Sub1(subs[k], text, p) IN IF r # <<>> THEN r ELSE Try(subs, k + 1, text, p)
RECURSIVE Run(_, _, _)
Run(l, text, p) == IF p > Len(text) THEN text ELSE LET r == Try(l.subs, 1, text, p) IN Run(l, r[1], r[2])
RECURSIVE Shape(_, _)
Shape(ll, text) == IF ll = <<>> THEN text ELSE Shape(Tail(ll), Run(ll[1], text, 1))
Kern(pairs, text) == [i \in 1..(Len(text) - 1) |-> {p \in pairs : p[1] = text[i] /\ p[2] = text[i + 1]}]

M(g) == New(fin, g)
MS(s) == [i \in 1..Len(s) |-> M(s[i])]
NewLL == LET S == Elems(fin) IN
         [i \in 1..Len(font.ll) |-> Renumber(LookupWithin(font.ll[i], RuleClosure(Elems(list), R)), M, MS)]
NewPairs == {<<M(p[1]), M(p[2]), p[3]>> : p \in {q \in font.pairs : {q[1], q[2]} \subseteq Elems(fin)}}
Texts == UNION {[1..k -> Elems(list)] : k \in 1..TextLen}
\* a rule keeps only the alternatives within the retained glyphs; all others
\* cannot match a text over retained glyphs
Commutes == phase = "done" =>
  \A t \in Texts : LET u == Shape(font.ll, t) IN
     /\ Elems(u) \subseteq Elems(fin)
     /\ Shape(NewLL, MS(t)) = MS(u)
     /\ LET a == Kern(font.pairs, u)  b == Kern(NewPairs, MS(u)) IN
        \A i \in 1..Len(a) : {p[3] : p \in a[i]} = {p[3] : p \in b[i]}
Confluent == phase = "done" =>
  /\ OrderOk(list, fin, R, font.comps)
  /\ Elems(fin) = CompClosure(RuleClosure(Elems(list), R), font.comps)
ClosedComps == phase = "done" => \A g \in Elems(fin) : Elems(font.comps[g + 1]) \subseteq Elems(fin)
Emit == (phase = "rules" /\ fin = list) =>
  CSVWrite("%1$s", <<ToJson([list |-> list, comps |-> font.comps, pairs |-> SetToSeq(font.pairs),
     ll |-> [i \in 1..Len(font.ll) |-> [t |-> font.ll[i].t, subs |-> [j \in 1..Len(font.ll[i].subs) |-> SetToSeq(font.ll[i].subs[j])]]]])>>, IOEnv.CASES \o "/subset.ndjson")
=============================================================================
