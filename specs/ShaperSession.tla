--------------------------- MODULE ShaperSession ---------------------------
(***************************************************************************)
(* C07.  A session is a history of shaping calls over one set of tables,   *)
(* made through several contexts (fresh ones, re-used ones, layouters).    *)
(* The state is the memo: the results which have been observed so far, as  *)
(* a function of the input.  A call is allowed iff                         *)
(*   - it returned (no panic, no endless loop),                            *)
(*   - the text attached to the glyphs is conserved,                       *)
(*   - the length of the output is one the tables can produce,             *)
(*   - its result is the one in the memo, if there is one.                 *)
(*                                                                         *)
(* The tables enter only through the summary                               *)
(*   [n, rep, ctx, lig, del]: number of lookups applied, longest           *)
(* replacement sequence, does any contextual/ligature lookup exist, is     *)
(* there any empty replacement.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Cap == 1000000
Sat(a, b) == IF a >= Cap \/ b >= Cap THEN Cap ELSE IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Cap \div b THEN Cap ELSE a * b

\* nested actions per match
MaxActions == 64

\* factor by which one lookup can grow a sequence
Factor(t) == IF t.rep <= 1 THEN 1
             ELSE IF t.ctx THEN 1 + Sat(MaxActions, t.rep - 1)
             ELSE t.rep

RECURSIVE PowS(_, _)
PowS(f, n) == IF n = 0 THEN 1 ELSE Sat(f, PowS(f, n - 1))

MaxLength(t, n) == Sat(n, PowS(Factor(t), t.n))
MinLength(t, n) == IF n = 0 THEN 0 ELSE IF t.lig THEN 1 ELSE IF t.del THEN 1 ELSE n

LengthOK(t, in, out) == /\ out <= MaxLength(t, in)
                        /\ out >= MinLength(t, in)

BagOf(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

Conserves(in, out) ==
  LET a == FlattenSeq(in)
      b == FlattenSeq(out)
      sa == ToSet(a)
  IN /\ Len(a) = Len(b)
     /\ sa = ToSet(b)
     /\ (Cardinality(sa) = Len(a) \/ BagOf(a) = BagOf(b))

---------------------------------------------------------------------------
\* the memo, as a sequence of <<key, result>> pairs
Known(memo, k) == {i \in 1..Len(memo) : memo[i][1] = k}

CallOK(t, memo, c) ==
     (IF c.st # "ok" THEN {c.st} ELSE
       (IF Conserves(c.it, c.ot) THEN {} ELSE {"text conserved"})
       \cup (IF LengthOK(t, Len(c.it), Len(c.ot)) THEN {} ELSE {"length"})
       \cup (IF \A i \in Known(memo, c.key) : memo[i][2] = c.out THEN {} ELSE {"history"}))

\* result of a whole session
RECURSIVE Session(_, _, _, _)
Session(t, memo, calls, i) ==
  IF i > Len(calls) THEN {}
  ELSE LET c == calls[i]
           v == CallOK(t, memo, c)
       IN v \cup Session(t, IF c.st = "ok" /\ Known(memo, c.key) = {} THEN Append(memo, <<c.key, c.out>>) ELSE memo,
                         calls, i + 1)
=============================================================================
