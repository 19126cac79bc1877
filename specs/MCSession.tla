----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* C07.  Design model: a shaping context which is used for several calls.  *)
(* The stack of pending nested actions is part of the context and survives *)
(* the end of a call.  Nested actions may refer to any lookup, including   *)
(* the one they occur in, and to sequence positions and lookups which do   *)
(* not exist; at most MaxActs of them are run per match.                   *)
(*                                                                         *)
(* Checked: every call ends, leaves no pending actions behind, conserves   *)
(* the text, respects the length bound, and gives the result the same      *)
(* input gave before.                                                      *)
(***************************************************************************)
EXTENDS ShaperUniverse, Json, CSV

CONSTANTS MaxActs, MaxLen, Mod

SS == INSTANCE ShaperSession

NoRep == [fl |-> NoF, mfs |-> 0, subs |-> <<[k |-> "s2", cov |-> <<A, B>>, rep |-> <<<<>>, <<A, B>>>>]>>]
Grow == [fl |-> NoF, mfs |-> 0, subs |-> <<[k |-> "s2", cov |-> <<A, M>>, rep |-> <<<<A, A>>, <<M, B, A>>>>]>>]

Kid(k) == IF k <= NC THEN Child(k) ELSE IF k = NC + 1 THEN NoRep ELSE Grow
NK == NC + 2

\* nested actions: positions 0, 1, 5 (never exists), lookups 0 (itself), 1, 2, 9 (does not exist)
Pos3(i) == CASE i = 0 -> 0 [] i = 1 -> 1 [] i = 2 -> 5
Lk4(i) == CASE i = 0 -> 0 [] i = 1 -> 1 [] i = 2 -> 2 [] i = 3 -> 9
Act1(i) == <<Pos3(i \div 4), Lk4(i % 4)>>
ActList(n) == <<Act1(n % 12), Act1((n \div 12) % 12)>> \o (IF n % 5 = 0 THEN <<Act1((n + 7) % 12), <<1, 2>>>> ELSE <<>>)

Tab(i) == [ll |-> <<[fl |-> IF i.p % 2 = 0 THEN NoF ELSE NoMarks, mfs |-> 0, subs |-> <<Parent(i.p, ActList(i.a))>>], Kid(i.c), Kid(i.d)>>,
           gd |-> GD, lk |-> IF i.a % 3 = 0 THEN <<0, 0>> ELSE <<0>>]

VARIABLES idx, ins, call, s, memo, steps
vars == <<idx, ins, call, s, memo, steps>>

Hash(p, a, c, d) == (p * 7919 + a * 1299 + c * 15485 + d * 32452 + Seed * 611953) % 65521

Input(x) == Seq3(x[1], x[2])

Init == \E p \in 1..NP, a \in 0..143, c \in 1..NK, d \in 1..NK :
          /\ Hash(p, a, c, d) % Mod = 0
          /\ \E n \in 1..MaxLen : \E k \in 0..Pow(3, n) - 1 : \E m \in 0..5 :
               /\ (p + a + c + d + k) % 6 = m
               /\ idx = [p |-> p, a |-> a, c |-> c, d |-> d]
               \* the first input is given again at the end
               /\ ins = <<<<n, k>>, <<1 + (m % MaxLen), (k + m) % 3>>, <<n, k>>>>
               /\ s = Begin(Seq3(n, k))
          /\ call = 1 /\ memo = <<>> /\ steps = 0

Abandon == /\ s.stack # <<>> /\ s.acts >= MaxActs
           /\ s' = [s EXCEPT !.stack = <<>>, !.pos = s.stack[1].e, !.acts = 0]
           /\ steps' = steps + 1
           /\ UNCHANGED <<idx, ins, call, memo>>

Run == /\ ~s.done /\ ~(s.stack # <<>> /\ s.acts >= MaxActs)
       /\ s' = Step(Tab(idx), s, FALSE)
       /\ steps' = steps + 1
       /\ UNCHANGED <<idx, ins, call, memo>>

Return == /\ s.done /\ call <= Len(ins)
          /\ memo' = Append(memo, <<ins[call], s.seq>>)
          /\ call' = call + 1
          /\ s' = IF call = Len(ins) THEN s ELSE [Begin(Input(ins[call + 1])) EXCEPT !.stack = s.stack]
          /\ steps' = 0
          /\ UNCHANGED <<idx, ins>>

Next == Abandon \/ Run \/ Return

Clean == s.done => s.stack = <<>>
Frames == FramesOK(s)
Functional == \A i, j \in 1..Len(memo) : memo[i][1] = memo[j][1] => memo[i][2] = memo[j][2]
Texts(q) == [i \in 1..Len(q) |-> q[i].t]
MemoConserves == \A i \in 1..Len(memo) : SS!Conserves(Texts(Input(memo[i][1])), Texts(memo[i][2]))
Running == ~s.done /\ call <= Len(ins) => Conserved(Input(ins[call]), s.seq)
Summary == [n |-> Len(Tab(idx).lk), rep |-> 3, ctx |-> TRUE, lig |-> TRUE, del |-> TRUE]
MemoLength == \A i \in 1..Len(memo) : SS!LengthOK(Summary, memo[i][1][1], Len(memo[i][2]))
\* every top-level step consumes a glyph of the input, every match runs at most MaxActs actions
Terminates == steps <= 2 * (1 + MaxLen * (1 + MaxActs)) * (2 * MaxActs + 4) + 2

Emit == (steps = 0 /\ call = 1) =>
          CSVWrite("%1$s", <<ToJson([ll |-> Tab(idx).ll, gd |-> Tab(idx).gd, lk |-> Tab(idx).lk,
                                     ins |-> [i \in 1..Len(ins) |-> Input(ins[i])]])>>,
                   IOEnv.CASES \o "/session.ndjson")
=============================================================================
