------------------------------- MODULE MCSfnt -------------------------------
(***************************************************************************)
(* Design check for Sfnt.tla: a nondeterministic writer lays out a set of  *)
(* tables in any physical order; its output has no faults and contains     *)
(* exactly the tables; changing any byte of a file with a head table, and  *)
(* dropping any byte, is noticed.                                          *)
(***************************************************************************)
EXTENDS Sfnt, TLC, IOUtils, CSV, Json

CONSTANTS Tags, Lens, MaxN
HLens == {0, 5, 12, 13, 54}
VARIABLES todo, phys, mode, file

vars == <<todo, phys, mode, file>>

T(k) == CASE k = 1 -> HeadTag
          [] k = 2 -> <<103, 108, 121, 102>>     \* glyf
          [] k = 3 -> <<68, 83, 73, 71>>         \* DSIG
          [] k = 4 -> <<99, 118, 116, 32>>       \* "cvt "
          [] k = 5 -> <<32, 32, 32, 32>>
          [] k = 6 -> <<126, 126, 126, 126>>
Content(k, n) == [i \in 1..n |-> (255 - 37 * i + 11 * k) % 256]

\* phys: the tables in physical order <<k, len>>
Pad4(n) == ((n + 3) \div 4) * 4
W16(v) == <<v \div 256, v % 256>>
W32(p) == W16(p[1]) \o W16(p[2])
N == Len(phys)
RECURSIVE Start(_)
Start(i) == IF i = 1 THEN 12 + 16 * N ELSE Start(i - 1) + Pad4(phys[i - 1][2])
Less(i, j) == TagLess(T(phys[i][1]), T(phys[j][1]))
Sorted == SortSeq([i \in 1..N |-> i], LAMBDA i, j : Less(i, j))
DataOf(i) == LET d == Content(phys[i][1], phys[i][2]) IN Masked(T(phys[i][1]), d)
Raw == LET e == Log2(N)
           hdr == <<0, 1, 0, 0>> \o W16(N) \o W16(16 * Pow2(e)) \o W16(e) \o W16(16 * (N - Pow2(e)))
           dir == FlattenSeq([j \in 1..N |-> LET i == Sorted[j] IN
                    T(phys[i][1]) \o W32(Sum32(DataOf(i))) \o W32(<<0, Start(i)>>) \o W32(<<0, phys[i][2]>>)])
           body == FlattenSeq([i \in 1..N |-> DataOf(i) \o [j \in 1..(Pad4(phys[i][2]) - phys[i][2]) |-> 0]])
       IN hdr \o dir \o body
HeadAt == {i \in 1..N : phys[i][1] = 1 /\ phys[i][2] >= 12}
Written == LET raw == Raw IN IF HeadAt = {} THEN raw
        ELSE LET h == CHOOSE i \in HeadAt : TRUE
                 st == Start(h)
                 adj == W32(Sub32(Magic, Sum32(raw)))
             IN [j \in 1..Len(raw) |-> IF j - st \in 9..12 THEN adj[j - st - 8] ELSE raw[j]]

Init == phys = <<>> /\ todo = Tags /\ mode = "pick" /\ file = <<>>
Pick == /\ mode = "pick" /\ Len(phys) < MaxN
        /\ \E k \in todo : \E n \in (IF k = 1 THEN HLens ELSE Lens) : /\ phys' = Append(phys, <<k, n>>)
                                        /\ todo' = todo \ {k}
        /\ UNCHANGED <<mode, file>>
Done == mode = "pick" /\ phys # <<>> /\ mode' = "done" /\ file' = Written /\ UNCHANGED <<todo, phys>>
Next == Pick \/ Done

Sound == mode = "done" => /\ Faults(file) = {}
                          /\ Tables(file) = {<<T(phys[i][1]), DataOf(i)>> : i \in 1..N}
\* a few positions stand for all: every byte of the header and directory, and
\* the first and last byte of every table
Probes == (1..(12 + 16 * N)) \cup {Start(i) + 1 : i \in {i \in 1..N : phys[i][2] > 0}} \cup {Start(i) + phys[i][2] : i \in {i \in 1..N : phys[i][2] > 0}}
Sensitive == (mode = "done" /\ HeadAt # {} /\ N <= 2) =>
   \A p \in Probes : \A x \in {1, 128} : Faults([file EXCEPT ![p] = (@ + x) % 256]) # {}
NoHeadSensitive == (mode = "done" /\ HeadAt = {} /\ N <= 2) =>
   \A p \in Probes \ (1..4) : (p > 12 + 16 * N) => Faults([file EXCEPT ![p] = (@ + 1) % 256]) # {}
Truncation == (mode = "done" /\ phys[N][2] > 0) => Faults(SubSeq(file, 1, Start(N) + phys[N][2] - 1)) # {}

Emit == mode = "done" =>
  CSVWrite("%1$s", <<ToJson([i \in 1..N |-> [tag |-> T(phys[i][1]), d |-> Content(phys[i][1], phys[i][2])]])>>,
           IOEnv.CASES \o "/tables.ndjson")
=============================================================================
