------------------------------ MODULE MCType2 -------------------------------
(***************************************************************************)
(* C05.  Model-checks the Type 2 machine on every program of the form      *)
(*    prefix, n operands, operator, [endchar]                              *)
(* and emits each program as a case for the real interpreter.              *)
(***************************************************************************)
EXTENDS Type2, Json, CSV, IOUtils, TLC

CONSTANTS MaxN, Values, Deep

Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1

\* small operand values; the pattern selects zeros and signs
Small == <<139, 149, 119, 139, 140, 138, 246, 32, 145, 139, 200, 79>>
Val(k, pat) == Small[1 + ((k * (2 * pat + 1) + pat * 5 + Seed * 7) % 12)]
Operands(n, pat) == [k \in 1..n |-> Val(k, pat)]

Prefixes == <<
  <<>>,                                          \* nothing
  <<149, 150, 22>>,                              \* width, hmoveto
  <<149, 4>>,                                    \* vmoveto
  <<140, 150, 1>>,                               \* hstem
  <<149, 140, 150, 18, 141, 151, 23, 19, 192>>,  \* width, hstemhm, vstemhm, hintmask
  <<149, 149, 21, 140, 141, 5, 12, 34>>          \* an incomplete hflex
>>

Ops == << <<1>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<10>>, <<11>>, <<14>>, <<18>>, <<19, 128>>,
  <<20, 64>>, <<19>>, <<21>>, <<22>>, <<23>>, <<24>>, <<25>>, <<26>>, <<27>>, <<28, 0>>, <<29>>, <<30>>, <<31>>,
  <<12, 3>>, <<12, 4>>, <<12, 5>>, <<12, 9>>, <<12, 10>>, <<12, 11>>, <<12, 12>>, <<12, 14>>, <<12, 15>>,
  <<12, 18>>, <<12, 20>>, <<12, 21>>, <<12, 22>>, <<12, 24>>, <<12, 26>>, <<12, 27>>, <<12, 28>>, <<12, 29>>,
  <<12, 30>>, <<12, 34>>, <<12, 35>>, <<12, 36>>, <<12, 37>>, <<12>>, <<247>>, <<255, 0, 1, 2>>, <<>> >>

Tails == << <<14>>, <<22, 14>>, <<5, 14>>, <<>> >>

VARIABLES idx, m, steps

Main(i) == Prefixes[i.pre] \o Operands(i.n, i.pat) \o Ops[i.op] \o Tails[i.tail]
P(i) == [main |-> Main(i),
         ls |-> <<[i |-> 107, c |-> <<149, 11>>], [i |-> 117, c |-> <<149, 149, 5, 11>>], [i |-> 87, c |-> <<14>>]>>,
         gs |-> <<[i |-> 107, c |-> <<139, 29>>]>>,
         nl |-> 200, ng |-> 108, dw |-> 500 * One, nwi |-> 600, nwf |-> 0]

Ns == 0..MaxN \cup (IF Deep THEN {24, 25, 32, 36, 37, 46, 47, 48, 49, 50} ELSE {47, 48, 49})

Init == /\ idx \in [pre : 1..Len(Prefixes), n : Ns, pat : 1..Values, op : 1..Len(Ops), tail : 1..Len(Tails)]
        /\ (idx.op < 26 => idx.tail \in {1, 4})
        /\ (idx.n > 15 => idx.pat = 1)
        /\ m = Start0(P(idx)) /\ steps = 0

Next == /\ m.s = "run"
        /\ m' = Step(P(idx), m)
        /\ steps' = steps + 1
        /\ UNCHANGED idx

\* Properties of the machine itself
Bounded == Len(m.st) <= MaxStack /\ Len(m.fr) <= MaxDepth + 1 /\ m.maxst <= MaxStack
LastPoint == LET k == {i \in 1..Len(m.cmds) : m.cmds[i][1] < 3} IN
             IF k = {} THEN m.x = 0 /\ m.y = 0 /\ ~m.moved
             ELSE LET c == m.cmds[CHOOSE i \in k : \A j \in k : j <= i]
                  IN m.moved /\ m.x = c[Len(c) - 1] /\ m.y = c[Len(c)]
FirstIsMove == \A i \in 1..Len(m.cmds) : m.cmds[i][1] \in {1, 2} => \E j \in 1..i : m.cmds[j][1] = 0
StemsEven == Len(m.h) % 2 = 0 /\ Len(m.v) % 2 = 0
Terminates == steps <= 400
InRangeAll == InRange(m.x) /\ InRange(m.y)
\* a program without an explicit width has the default width
WidthDef == ~m.wset => m.w = 500 * One

Emit == steps = 0 =>
   CSVWrite("%1$s", <<ToJson(P(idx))>>, IOEnv.CASES \o "/type2.ndjson")
=============================================================================
