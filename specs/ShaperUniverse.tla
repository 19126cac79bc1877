--------------------------- MODULE ShaperUniverse ---------------------------
(* A small universe of glyphs, contextual rules and child lookups, shared  *)
(* by the model-checking modules for C06 and C07.                          *)
EXTENDS Shaper, IOUtils

Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1

A == 1
B == 2
M == 3

NoF == [b |-> FALSE, l |-> FALSE, m |-> FALSE, f |-> FALSE, a |-> 0]
NoMarks == [NoF EXCEPT !.m = TRUE]
NoBase == [NoF EXCEPT !.b = TRUE]

R(i, b, k, act) == [inp |-> i, back |-> b, look |-> k, act |-> act]

\* contextual parents, as functions of the actions
Parent(k, act) ==
  CASE k = 1 -> [k |-> "ctx1", ch |-> FALSE, cov |-> <<A>>, rules |-> <<<<R(<<A>>, <<>>, <<>>, act)>>>>]
    [] k = 2 -> [k |-> "ctx1", ch |-> TRUE, cov |-> <<A>>, rules |-> <<<<R(<<B, A>>, <<>>, <<>>, act), R(<<A>>, <<>>, <<B>>, act)>>>>]
    [] k = 3 -> [k |-> "ctx2", ch |-> FALSE, cov |-> <<A, B>>, rules |-> <<<<>>, <<R(<<1>>, <<>>, <<>>, act)>>>>,
                 cds |-> [inp |-> <<<<A, 1>>, <<B, 1>>>>, back |-> <<>>, look |-> <<>>]]
    [] k = 4 -> [k |-> "ctx3", ch |-> TRUE, cov |-> <<A, B>>, rules |-> <<R(<<<<A, M>>>>, <<<<A, B>>>>, <<>>, act)>>]
    [] k = 5 -> [k |-> "ctx3", ch |-> TRUE, cov |-> <<A>>, rules |-> <<R(<<<<A, B>>, <<A>>>>, <<>>, <<<<A, B, M>>>>, act)>>]
    [] k = 6 -> [k |-> "ctx3", ch |-> FALSE, cov |-> <<A, M>>, rules |-> <<R(<<<<A, M>>>>, <<>>, <<>>, act)>>]
    [] k = 7 -> [k |-> "ctx2", ch |-> TRUE, cov |-> <<A>>, rules |-> <<<<R(<<>>, <<0>>, <<0>>, act), R(<<0>>, <<>>, <<1>>, act)>>>>,
                 cds |-> [inp |-> <<<<M, 1>>>>, back |-> <<<<M, 1>>>>, look |-> <<<<B, 1>>>>]]
NP == 7

Child(k) ==
  CASE k = 1 -> [fl |-> NoF, mfs |-> 0, subs |-> <<[k |-> "s1", cov |-> <<A, B>>, sub |-> <<B, A>>]>>]
    [] k = 2 -> [fl |-> NoF, mfs |-> 0, subs |-> <<[k |-> "s2", cov |-> <<A, M>>, rep |-> <<<<A, M, A>>, <<M, B>>>>]>>]
    [] k = 3 -> [fl |-> NoMarks, mfs |-> 0, subs |-> <<[k |-> "s4", cov |-> <<A, B>>,
                   ligs |-> <<<<[inp |-> <<A, A>>, out |-> B], [inp |-> <<A>>, out |-> B]>>, <<[inp |-> <<A>>, out |-> A]>>>>]>>]
    [] k = 4 -> [fl |-> NoF, mfs |-> 0, subs |-> <<[k |-> "s4", cov |-> <<A, M>>,
                   ligs |-> <<<<[inp |-> <<M>>, out |-> A], [inp |-> <<B>>, out |-> A]>>, <<[inp |-> <<A>>, out |-> M]>>>>]>>]
    [] k = 5 -> [fl |-> NoMarks, mfs |-> 0, subs |-> <<Parent(1, <<<<1, 2>>>>)>>]
    [] k = 6 -> [fl |-> NoF, mfs |-> 0, subs |-> <<Parent(6, <<<<0, 2>>, <<1, 2>>>>)>>]
    [] k = 7 -> [fl |-> NoBase, mfs |-> 0, subs |-> <<[k |-> "s1d", cov |-> <<A, M>>, d |-> 65535]>>]
NC == 7

GD == [has |-> TRUE, cls |-> <<<<A, 1>>, <<B, 1>>, <<M, 3>>>>, hmac |-> FALSE, mac |-> <<>>, sets |-> <<>>]

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

Seq3(n, k) == [j \in 1..n |-> Glyph(1 + ((k \div Pow(3, j - 1)) % 3), <<96 + j>>)]

=============================================================================
