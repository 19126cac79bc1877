---------------------------- MODULE MCGlyphNames ----------------------------
(***************************************************************************)
(* The naming machine for all small fonts: duplicates are dropped, names   *)
(* are taken from the character map, then from the substitution rules, in  *)
(* any order, and then from the placeholders.  All results are acceptable, *)
(* and the machine stops.                                                  *)
(***************************************************************************)
EXTENDS GlyphNames, Json, IOUtils, CSV

CONSTANTS Zero, Given, MaxRules

VARIABLES c, nn, stage
vars == <<c, nn, stage>>

V(a, b) == [src |-> <<a>>, dst |-> b, lig |-> FALSE]
L(s, b) == [src |-> s, dst |-> b, lig |-> TRUE]
RuleS == {V(1, 2), V(2, 3), V(3, 1), V(1, 3), V(0, 2), L(<<1, 2>>, 3), L(<<2>>, 1), L(<<3, 1, 1>>, 2)}
Maps == {<<>>, <<<<65, 1>>>>, <<<<65, 1>>, <<66, 1>>>>, <<<<65, 1>>, <<66, 2>>>>, <<<<65, 0>>, <<66, 3>>>>, <<<<65, 2>>, <<66, 2>>>>}
AName(code) == IF code = 65 THEN "A" ELSE "B"
A(i) == {AName(c.cm[k][1]) : k \in {k \in 1..Len(c.cm) : c.cm[k][2] + 1 = i}}

Init == c = [k |-> 0] /\ nn = <<>> /\ stage = "start"
Choose ==
  \/ /\ stage = "start"
     /\ \E z \in Zero, g \in [1..3 -> Given] : c' = [given |-> <<z>> \o g]
     /\ nn' = FixZero(c'.given)
     /\ stage' = "given"
  \/ /\ stage = "given"
     /\ \E m \in Maps, rr \in UNION {[1..k -> RuleS] : k \in 0..MaxRules} :
          /\ \A a, b \in DOMAIN rr : rr[a] = rr[b] => a = b
          /\ c' = [given |-> c.given, cm |-> m, rules |-> rr]
     /\ stage' = "dedup" /\ UNCHANGED nn
Drop == /\ stage = "dedup"
        /\ \E f \in Dedup(nn) : nn' = [i \in 1..Len(nn) |-> IF f[i] THEN nn[i] ELSE ""]
        /\ stage' = "chars" /\ UNCHANGED c
Add(S) == \E p \in S : nn' = [nn EXCEPT ![p[1]] = p[2]]
Chars == stage = "chars" /\ Add(FromChars(nn, A)) /\ UNCHANGED <<c, stage>>
CharsDone == stage = "chars" /\ FromChars(nn, A) = {} /\ stage' = "rules" /\ UNCHANGED <<c, nn>>
Rules == stage = "rules" /\ Add(FromRules(nn, c.rules)) /\ UNCHANGED <<c, stage>>
RulesDone == stage = "rules" /\ FromRules(nn, c.rules) = {} /\ stage' = "rest" /\ UNCHANGED <<c, nn>>
Rest == stage = "rest" /\ Add(Fallback(nn)) /\ UNCHANGED <<c, stage>>
Done == stage = "rest" /\ Unnamed(nn) = {} /\ stage' = "done" /\ UNCHANGED <<c, nn>>
Next == Choose \/ Drop \/ Chars \/ CharsDone \/ Rules \/ RulesDone \/ Rest \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Running == stage \notin {"start", "given", "dedup"}
\* names are distinct at all times, and existing names stay
Distinct == Running => \A i, j \in 1..Len(nn) : i # j /\ nn[i] # "" => nn[i] # nn[j]
KeepsUnique == Running => \A i \in 1..Len(nn) : Once(FixZero(c.given), i) => nn[i] = c.given[i] \/ i = 1
Acceptable == stage = "done" => Failures(c.given, nn, A, c.rules) = {}
\* a complete set of names is not changed
Stable == stage = "done" => Dedup(FixZero(nn)) = {[i \in 1..Len(nn) |-> TRUE]}
\* names are only added
Grows == [][Running => \A i \in 1..Len(nn) : nn[i] # "" => nn'[i] = nn[i]]_vars
Stops == <>(stage = "done")
\* acceptance is not vacuous: a result in which two names are exchanged, or in
\* which a name is missing, is rejected
Strict == stage = "done" =>
  /\ \A i \in 2..Len(nn) : Failures(c.given, [nn EXCEPT ![i] = ""], A, c.rules) # {}
  /\ \A i \in 2..Len(nn) : Failures(c.given, [nn EXCEPT ![i] = "x"], A, c.rules) # {} \/ c.given[i] = "x"

Emit == stage = "dedup" =>
  CSVWrite("%1$s", <<ToJson([given |-> c.given, cm |-> c.cm, rules |-> c.rules])>>, IOEnv.CASES \o "/names.ndjson")
=============================================================================
