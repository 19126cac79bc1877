----------------------------- MODULE MCTotality -----------------------------
(***************************************************************************)
(* A reader of structures whose parts are shared.  The input consists of   *)
(* levels; on each level there is a list of mult[i] references which all   *)
(* lead to the same list on the next level, and the last of them lead to a *)
(* record of constant size which stands for leaf items.  The input is of   *)
(* size sum of mult, but there are product of mult ways through it.  The   *)
(* reader visits all of them and pays one unit for every reference and     *)
(* every item; it gives up when it has spent Limit.                        *)
(*                                                                         *)
(* Checked: the reader always ends, with the value or an error; it never   *)
(* spends more than the limit, which is linear in the size of the input;   *)
(* it refuses only what is out of proportion; without the limit there are  *)
(* inputs which break the bound.  After a value the accessors follow.      *)
(***************************************************************************)
EXTENDS Totality, FiniteSets, FiniteSetsExt, TLC, IOUtils, CSV, Json

CONSTANTS Many, Wide, K, PerByte, MaxLevel, Kinds, Accessors

VARIABLES mult, leaf, at, spent, ev
vars == <<mult, leaf, at, spent, ev>>

Shapes == UNION {[1 .. n -> {1, Many}] : n \in 1 .. MaxLevel}
Sum(m) == FoldLeft(LAMBDA a, x : a + x, 0, m)
Size(m) == Sum(m) + 2
Limit(m) == K + (PerByte * Size(m))

\* the cost of reading everything
RECURSIVE Total(_, _)
Total(m, w) == IF m = << >> THEN w ELSE Head(m) * (1 + Total(Tail(m), w))

ASSUME \E m \in Shapes, w \in {1, Wide} : Total(m, w) > Limit(m)
ASSUME \E m \in Shapes, w \in {1, Wide} : Total(m, w) <= Limit(m) /\ Many \in Range(m)

Init == /\ mult \in Shapes
        /\ leaf \in {1, Wide}
        /\ at = << >>          \* the references followed: a position on each level
        /\ spent = 0
        /\ ev = ""

Depth == Len(at)
Running == ev = ""

GiveUp == ev' = "E" /\ UNCHANGED <<mult, leaf, at, spent>>

\* follow the first reference of the next level
Descend == /\ Running /\ Depth < Len(mult)
           /\ IF spent + 1 > Limit(mult) THEN GiveUp
              ELSE at' = Append(at, 1) /\ spent' = spent + 1 /\ UNCHANGED <<mult, leaf, ev>>

\* the levels on which there is another reference
Open == {i \in 1 .. Depth : at[i] < mult[i]}

Items == /\ Running /\ Depth = Len(mult)
         /\ IF spent + leaf > Limit(mult) THEN GiveUp
            ELSE IF Open = {}
            THEN ev' = "V" /\ spent' = spent + leaf /\ UNCHANGED <<mult, leaf, at>>
            ELSE LET i == Max(Open) IN
                 IF spent + leaf + 1 > Limit(mult) THEN GiveUp
                 ELSE /\ at' = Append(SubSeq(at, 1, i - 1), at[i] + 1)
                      /\ spent' = spent + leaf + 1
                      /\ UNCHANGED <<mult, leaf, ev>>

Access == /\ SessionState(ev) = "value"
          /\ Len(ev) <= Accessors
          /\ \E e \in {"v", "e"} : ev' = ev \o e
          /\ UNCHANGED <<mult, leaf, at, spent>>

Next == Descend \/ Items \/ Access
Spec == Init /\ [][Next]_vars /\ WF_vars(Descend \/ Items)

Bounded == spent <= Limit(mult)
Legal == ev # "" => Complete(ev)
Exact == CASE SessionState(ev) = "value" -> spent = Total(mult, leaf)
           [] SessionState(ev) = "error" -> Total(mult, leaf) > Limit(mult)
           [] OTHER -> TRUE
Ends == <>(ev # "")

Case(k) == [kind |-> k, mult |-> mult, leaf |-> leaf]
Emit == (at = << >> /\ ev = "") =>
          \A k \in Kinds : CSVWrite("%1$s", <<ToJson(Case(k))>>, IOEnv.CASES \o "/sessions.ndjson")
=============================================================================
