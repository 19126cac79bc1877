-------------------------------- MODULE Subset --------------------------------
(***************************************************************************)
(* Subsetting a font (C10).                                                *)
(*                                                                         *)
(* A font has glyphs 0..n-1, each with a sequence of component glyphs,     *)
(* substitution rules [in, out] (all of them, from every lookup) and       *)
(* layout lookups.  The subset for a list of glyphs starts with this list  *)
(* and continues with the glyphs which rules and composites need.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Elems(s) == {s[i] : i \in 1..Len(s)}

\* the glyphs which can be reached by substitutions
RECURSIVE RuleClosure(_, _)
RuleClosure(S, R) ==
  LET N == S \cup UNION {Elems(r.out) : r \in {q \in R : Elems(q.in) \subseteq S}} IN
  IF N = S THEN S ELSE RuleClosure(N, R)

\* comps[g + 1]: the components of glyph g
RECURSIVE CompClosure(_, _)
CompClosure(S, comps) ==
  LET N == S \cup UNION {Elems(comps[g + 1]) : g \in S} IN
  IF N = S THEN S ELSE CompClosure(N, comps)

RECURSIVE JointClosure(_, _, _)
JointClosure(S, R, comps) ==
  LET N == CompClosure(RuleClosure(S, R), comps) IN
  IF N = S THEN S ELSE JointClosure(N, R, comps)

Injective(s) == Cardinality(Elems(s)) = Len(s)

(***************************************************************************)
(* The glyph order of the subset.  Composites which are only needed as     *)
(* components of others need not take part in rules.                       *)
(***************************************************************************)
OrderOk(list, fin, R, comps) ==
  LET need == CompClosure(RuleClosure(Elems(list), R), comps) IN
  /\ Len(fin) >= Len(list) /\ SubSeq(fin, 1, Len(list)) = list
  /\ Injective(fin)
  /\ need \subseteq Elems(fin)
  /\ Elems(fin) \subseteq JointClosure(Elems(list), R, comps)
  /\ CompClosure(Elems(fin), comps) = Elems(fin)

\* the new index of an old glyph
New(fin, g) == (CHOOSE i \in 1..Len(fin) : fin[i] = g) - 1
Old(fin, g) == IF g + 1 \in 1..Len(fin) THEN fin[g + 1] ELSE -1

(***************************************************************************)
(* Lookups.  A subtable is a set of entries [g, alts]: the first glyph,    *)
(* and a sequence of alternatives [in, out] to try, in order.  A pair      *)
(* adjustment is an alternative with the two values as its output.         *)
(***************************************************************************)
\* the part of a subtable which only concerns the glyphs in S
Within(sub, S) ==
  {e \in {[g |-> x.g, alts |-> SelectSeq(x.alts, LAMBDA a : Elems(a.in) \subseteq S)] : x \in {y \in sub : y.g \in S}} : e.alts # <<>>}
NonEmpty(subs) == SelectSeq(subs, LAMBDA s : s # {})
LookupWithin(l, S) == [l EXCEPT !.subs = NonEmpty([i \in 1..Len(l.subs) |-> Within(l.subs[i], S)])]
\* renumber, given a mapping of glyphs; F maps the output
Renumber(l, M(_), F(_)) ==
  [l EXCEPT !.subs = [i \in 1..Len(l.subs) |->
     {[g |-> M(x.g), alts |-> [j \in 1..Len(x.alts) |-> [in |-> [k \in 1..Len(x.alts[j].in) |-> M(x.alts[j].in[k])], out |-> F(x.alts[j].out)]]] : x \in l.subs[i]}]]

\* what a feature does: the lookups which are not empty, in order
Meaning(feature, lookups) == SelectSeq([k \in 1..Len(feature) |-> lookups[feature[k] + 1]], LAMBDA l : l.subs # <<>>)

\* all rules of a lookup list
RulesOf(L) == UNION {UNION {UNION {{[in |-> <<x.g>> \o a.in, out |-> a.out] : a \in Elems(x.alts)} : x \in s} : s \in Elems(l.subs)} : l \in Elems(L)}
=============================================================================
