-------------------------------- MODULE Fault -------------------------------
(***************************************************************************)
(* Destinations which accept a limited number of bytes, and sources which  *)
(* deliver a limited number of bytes.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MinF(a, b) == IF a < b THEN a ELSE b

\* The destination: cap bytes are accepted.  Modes: 0 the write which exceeds
\* the capacity is accepted in part; 1 it is rejected as a whole; 2 and 3 are
\* like 0 and 1, but later writes succeed; 4 is like 0, but the first short
\* write is not accompanied by an error.
Dest0 == [acc |-> 0, failed |-> FALSE]
Fits(d, cap, len) == ~d.failed /\ len <= cap - d.acc
\* <<bytes accepted, error, new state>>
DestWrite(d, cap, mode, len) ==
  IF d.failed
  THEN IF mode \in {2, 3} \/ (mode = 4 /\ len = 0) THEN <<len, 0, [d EXCEPT !.acc = @ + len]>> ELSE <<0, 1, d>>
  ELSE IF len <= cap - d.acc THEN <<len, 0, [d EXCEPT !.acc = @ + len]>>
  ELSE LET n == IF mode \in {1, 3} THEN 0 ELSE cap - d.acc
       IN <<n, IF mode = 4 THEN 0 ELSE 1, [acc |-> d.acc + n, failed |-> TRUE]>>

\* the calls <<length, accepted, error>> follow the machine
RECURSIVE Replay(_, _, _, _, _)
Replay(calls, i, d, cap, mode) ==
  IF i > Len(calls) THEN d.acc
  ELSE LET w == DestWrite(d, cap, mode, calls[i][1]) IN
       IF w[1] # calls[i][2] \/ w[2] # calls[i][3] THEN -1
       ELSE Replay(calls, i + 1, w[3], cap, mode)

\* The contract of a writer of a file of length len: n is the reported count (-1 = none)
WriteOk(len, cap, n, acc, err, prefix) ==
  /\ err = (IF cap < len THEN 1 ELSE 0)
  /\ n \in {-1, acc}
  /\ prefix = 1
  /\ err = 0 => acc = len

(***************************************************************************)
(* The source: a file whose directory hd lists the tables.                 *)
(***************************************************************************)
U(b, o) == b[o + 1] * 16777216 + b[o + 2] * 65536 + b[o + 3] * 256 + b[o + 4]
DirTables(hd) == {<<U(hd, 20 + 16 * i), U(hd, 24 + 16 * i)>> : i \in 0..(((Len(hd) - 12) \div 16) - 1)}
\* one more than the offset of the last byte of table data
DataEnd(hd) == LET S == {t[1] + t[2] : t \in {t \in DirTables(hd) : t[2] > 0}} IN
               CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
