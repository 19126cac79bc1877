-------------------------------- MODULE MCCff -------------------------------
(***************************************************************************)
(* Design check for Cff.tla: a nondeterministic writer chooses every       *)
(* format for charset, encoding, FDSelect and dictionary integers and      *)
(* reals; the decoding machine recovers the structure from all of them.    *)
(***************************************************************************)
EXTENDS Cff, TLC, IOUtils, CSV, Json

CONSTANTS MaxG, CidSet, CodeSet, Nums

N1 == {0, -1, 107, 108, -108, 1131, 1132, -1132, 32767, -32768}
N2 == (-1200..1200) \cup (32760..32767) \cup (-32768..-32760) \cup {1000 * i : i \in -32..32}
VARIABLES st, g, cids, enc, fd, num, out

vars == <<st, g, cids, enc, fd, num, out>>

\* g glyphs; cids: ascending or not; enc: <<code, gid>> pairs; fd: assignment
Init == /\ st = "pick"
        /\ g \in 1..MaxG
        /\ cids \in {s \in [1..g -> CidSet \cup {0}] : s[1] = 0 /\ \A i, j \in 1..g : i # j => s[i] # s[j]}
        /\ fd \in [1..g -> 0..1]
        /\ enc = <<>> /\ num \in (IF g = 1 THEN Nums ELSE {0}) /\ out = <<>>

Covered == {enc[i][2] : i \in 1..Len(enc)}
AddCode == /\ st = "pick" /\ Len(enc) < 3 /\ g > 1
           /\ \E c \in CodeSet, x \in 1..(g - 1) :
                /\ \A i \in 1..Len(enc) : enc[i][1] < c
                /\ enc' = Append(enc, <<c, x>>)
           /\ UNCHANGED <<st, g, cids, fd, num, out>>
Contig == Covered = 1..Cardinality(Covered)
W16(v) == <<v \div 256, v % 256>>

\* charset formats
Cs0 == <<0>> \o FlattenSeq([i \in 1..(g - 1) |-> W16(cids[i + 1])])
\* splits of 2..g into runs of consecutive numbers
Splits == {S \in SUBSET (3..g) : \A i \in 3..g : cids[i] # cids[i - 1] + 1 => i \in S}
RunsOf(S) == LET starts == IF g = 1 THEN <<>> ELSE SetToSortSeq(S \cup {2}, <) IN
             [k \in 1..Len(starts) |-> <<starts[k], (IF k < Len(starts) THEN starts[k + 1] ELSE g + 1) - starts[k]>>]
CsR(f, S) == <<f>> \o FlattenSeq([k \in 1..Len(RunsOf(S)) |-> W16(cids[RunsOf(S)[k][1]]) \o
                IF f = 1 THEN <<RunsOf(S)[k][2] - 1>> ELSE W16(RunsOf(S)[k][2] - 1)])

\* encoding formats: choose which code of a glyph is the primary one
Codes(x) == {enc[i][1] : i \in {i \in 1..Len(enc) : enc[i][2] = x}}
M == Cardinality(Covered)
Primaries == {f \in [1..M -> CodeSet] : \A x \in 1..M : f[x] \in Codes(x)}
Sup(f) == SelectSeq(enc, LAMBDA e : f[e[2]] # e[1])
Sups(f) == IF Sup(f) = <<>> THEN <<>> ELSE <<Len(Sup(f))>> \o FlattenSeq([i \in 1..Len(Sup(f)) |-> <<Sup(f)[i][1]>> \o W16(cids[Sup(f)[i][2] + 1])])
Hi(f) == IF Sup(f) = <<>> THEN 0 ELSE 128
Enc0(f) == <<Hi(f), M>> \o [x \in 1..M |-> f[x]] \o Sups(f)
ESplits(f) == {S \in SUBSET (2..M) : \A x \in 2..M : f[x] # f[x - 1] + 1 => x \in S}
ERuns(S) == LET starts == IF M = 0 THEN <<>> ELSE SetToSortSeq(S \cup {1}, <) IN
            [k \in 1..Len(starts) |-> <<starts[k], (IF k < Len(starts) THEN starts[k + 1] ELSE M + 1) - starts[k]>>]
Enc1(f, S) == <<Hi(f) + 1, Len(ERuns(S))>> \o FlattenSeq([k \in 1..Len(ERuns(S)) |-> <<f[ERuns(S)[k][1]], ERuns(S)[k][2] - 1>>]) \o Sups(f)
EncWant == [c \in 1..256 |-> IF \E i \in 1..Len(enc) : enc[i][1] = c - 1
                             THEN enc[CHOOSE i \in 1..Len(enc) : enc[i][1] = c - 1][2] ELSE 0]

\* FDSelect formats
Fd0 == <<0>> \o fd
FSplits == {S \in SUBSET (2..g) : \A i \in 2..g : fd[i] # fd[i - 1] => i \in S}
Fd3(S) == LET starts == SetToSortSeq(S \cup {1}, <) IN
          <<3>> \o W16(Len(starts)) \o FlattenSeq([k \in 1..Len(starts) |-> W16(starts[k] - 1) \o <<fd[starts[k]]>>]) \o W16(g)

\* integers and reals
U(v) == IF v < 0 THEN v + 65536 ELSE v
Ints == (IF num \in -107..107 THEN {<<num + 139>>} ELSE {}) \cup
        (IF num \in 108..1131 THEN {<<(num - 108) \div 256 + 247, (num - 108) % 256>>} ELSE {}) \cup
        (IF num \in -1131..-108 THEN {<<(-num - 108) \div 256 + 251, (-num - 108) % 256>>} ELSE {}) \cup
        (IF num \in -32768..32767 THEN {<<28>> \o W16(U(num)), <<29>> \o (IF num < 0 THEN <<255, 255>> ELSE <<0, 0>>) \o W16(U(num))} ELSE {})
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
Sgn == IF num < 0 THEN <<14>> ELSE <<>>
Pack(nn) == LET m == Append(nn, 15)
                m2 == IF Len(m) % 2 = 1 THEN Append(m, 15) ELSE m
            IN <<30>> \o [i \in 1..(Len(m2) \div 2) |-> 16 * m2[2 * i - 1] + m2[2 * i]]
D == Digits(Abs(num))
Reals == {Pack(Sgn \o D), Pack(Sgn \o <<0>> \o D), Pack(Sgn \o D \o <<10>>), Pack(Sgn \o D \o <<10, 0, 0>>),
          Pack(Sgn \o D \o <<11, 0>>), Pack(Sgn \o D \o <<0, 12, 1>>), Pack(Sgn \o <<10>> \o D \o <<11>> \o Digits(Len(D))),
          Pack(Sgn \o <<D[1], 10>> \o Tail(D) \o <<11>> \o Digits(Len(D) - 1))}

Go == /\ st = "pick" /\ Contig
      /\ st' = "done"
      /\ out' = [cs |-> {Cs0} \cup {CsR(f, S) : f \in {1, 2}, S \in Splits},
                 enc |-> UNION {{Enc0(f)} \cup {Enc1(f, S) : S \in ESplits(f)} : f \in Primaries},
                 fd |-> {Fd0} \cup {Fd3(S) : S \in FSplits}]
      /\ UNCHANGED <<g, cids, enc, fd, num>>
Next == AddCode \/ Go

CharsetRight == st = "done" => \A b \in out.cs : Charset(b, 0, g) = [ok |-> TRUE, s |-> cids]
EncodingRight == st = "done" => \A b \in out.enc : Encoding(b, 0, cids) = [ok |-> TRUE, e |-> EncWant]
FdRight == st = "done" => \A b \in out.fd : FDSelect(b, 0, g, 2) = [ok |-> TRUE, s |-> fd]
NumRight == st = "done" => /\ \A b \in Ints : LET q == Dict(b \o <<12, 10>>) IN q.ok /\ IntOf(q.d, 1210, 77) = num
                           /\ \A b \in Ints \cup Reals : LET q == Dict(b \o <<12, 10>>) IN q.ok /\ Num(q.d, 1210, <<>>) = Dec9(num)
\* every strict prefix of an encoding is refused
TruncCs == st = "done" => \A b \in out.cs : \A k \in 0..(Len(b) - 1) : ~Charset(SubSeq(b, 1, k), 0, g).ok
TruncFd == st = "done" => \A b \in out.fd : \A k \in 0..(Len(b) - 1) : ~FDSelect(SubSeq(b, 1, k), 0, g, 2).ok

EmitCid == st = "done" /\ enc = <<>> =>
  CSVWrite("%1$s", <<ToJson([CIDs |-> cids, Enc |-> <<>>, FD |-> fd, Num |-> num])>>, IOEnv.CASES \o "/cff.ndjson")
EmitEnc == (st = "done" /\ enc # <<>> /\ cids = [i \in 1..g |-> i - 1] /\ \A i \in 1..g : fd[i] = 0) =>
  CSVWrite("%1$s", <<ToJson([CIDs |-> <<>>, Enc |-> enc, FD |-> fd, Num |-> num])>>, IOEnv.CASES \o "/cff.ndjson")
=============================================================================
