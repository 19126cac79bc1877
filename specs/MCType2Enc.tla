----------------------------- MODULE MCType2Enc -----------------------------
(***************************************************************************)
(* C04.  A nondeterministic encoder walks over a short path and may use    *)
(* every operator form applicable.  Whatever it chooses, the Type 2        *)
(* machine must draw the path.  Each path is emitted as a case for the     *)
(* real encoder.                                                           *)
(***************************************************************************)
EXTENDS Type2Enc, Json, CSV, IOUtils, TLC

CONSTANTS MaxLen, Mod

Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1

\* segments: lines by zero pattern, curves by zero pattern and magnitude
Bit(i, k) == (i \div (2^k)) % 2
Line(i) == <<Bit(i, 0) * 7, Bit(i, 1) * 5>>
Curve(i) == <<Bit(i, 0) * 3, Bit(i, 1) * 4, 6 * (1 - Bit(i, 4)), IF Bit(i, 5) = 0 THEN 9 ELSE -9, Bit(i, 2) * (-8), Bit(i, 3) * (-4)>>
Seg(i) == IF i < 4 THEN Line(i) ELSE Curve(i - 4)
NSeg == 68

VARIABLES ids, rest, emitted, m

Path0 == [i \in 1..Len(ids) |-> Seg(ids[i])]
RECURSIVE HashSeq(_)
HashSeq(s) == IF s = <<>> THEN Seed ELSE (HashSeq(Tail(s)) * 71 + s[1] * 13 + 5) % 65521

Scale(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p[i]) |-> p[i][j] * One]]
P0 == [main |-> <<>>, ls |-> <<>>, gs |-> <<>>, nl |-> 0, ng |-> 0, dw |-> 0, nwi |-> 0, nwf |-> 0]
M0 == [Start0(P0) EXCEPT !.moved = TRUE, !.wset = TRUE]

Init == /\ \E n \in 1..MaxLen : \E s \in [1..n -> 0..NSeg-1] :
             /\ (n > 2 => HashSeq(s) % Mod = 0)
             /\ ids = s
        /\ rest = Scale(Path0)
        /\ emitted = <<>>
        /\ m = M0

Next == /\ rest # <<>>
        /\ \E e \in LegalEdges(rest) :
             /\ rest' = SubSeq(rest, e.k + 1, Len(rest))
             /\ emitted' = Append(emitted, e.op)
             /\ m' = Exec(P0, [m EXCEPT !.st = e.args], e.op)
        /\ UNCHANGED ids

\* the reference path
Done == Len(ids) - Len(rest)
RECURSIVE Ref(_, _)
Ref(p, mm) == Draw(mm, p)
Faithful == m.s = "run" /\ m.st = <<>> /\ m.cmds = Ref(SubSeq(Scale(Path0), 1, Done), M0).cmds
\* every segment can be encoded
NoDeadEnd == rest # <<>> => LegalEdges(rest) # {}

Emit == (emitted = <<>> /\ rest # <<>>) =>
   CSVWrite("%1$s", <<ToJson(Path0)>>, IOEnv.CASES \o "/paths.ndjson")
=============================================================================
