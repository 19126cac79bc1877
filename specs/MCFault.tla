------------------------------- MODULE MCFault ------------------------------
(***************************************************************************)
(* A writer which hands over a file in arbitrary pieces, stops at the      *)
(* first error or short write, and counts what was accepted, satisfies the *)
(* contract for every destination.  A reader which accesses the data in an *)
(* arbitrary order notices every fault, if it looks at every byte of the   *)
(* data, or at the last one.                                               *)
(***************************************************************************)
EXTENDS Fault, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, MaxPieces
VARIABLES len, cap, mode, left, d, n, err, done, pieces, k, seen, rerr

vars == <<len, cap, mode, left, d, n, err, done, pieces, k, seen, rerr>>
Init == /\ len \in 1..MaxLen /\ cap \in 0..MaxLen /\ mode \in 0..4 /\ cap <= len
        /\ left = len /\ d = Dest0 /\ n = 0 /\ err = 0 /\ done = FALSE /\ pieces = <<>>
        /\ k = cap /\ seen = {} /\ rerr = FALSE
Piece == /\ seen = {} /\ ~done /\ Len(pieces) < MaxPieces
         /\ \E p \in 0..left :
              /\ (Len(pieces) = MaxPieces - 1 => p = left)
              /\ LET w == DestWrite(d, cap, mode, p) IN
                 /\ d' = w[3] /\ n' = n + w[1]
                 /\ err' = (IF w[2] = 1 \/ w[1] < p THEN 1 ELSE 0)
                 /\ left' = left - p
                 /\ pieces' = Append(pieces, p)
                 /\ done' = (err' = 1 \/ left' = 0)
         /\ UNCHANGED <<len, cap, mode, k, seen, rerr>>
\* reading: access the bytes a..b
Access == /\ mode = 0 /\ pieces = <<>> /\ ~rerr /\ Cardinality(seen) < 2
          /\ \E a, b \in 1..len : /\ a <= b
                                  /\ seen' = seen \cup {<<a, b>>}
                                  /\ rerr' = (b > k)
          /\ UNCHANGED <<len, cap, mode, left, d, n, err, done, pieces, k>>
Next == Piece \/ Access
Spec == Init /\ [][Next]_vars

Contract == done => WriteOk(len, cap, n, d.acc, err, IF n = d.acc THEN 1 ELSE 0)
Notices == (\E s \in seen : s[2] = len) => (rerr <=> k < len)
NeverGap == ~done \/ d.acc <= cap \/ mode \in {2, 3}
Emit == "CASES" \notin DOMAIN IOEnv \/ ~done \/ mode # 0 \/ cap # len
        \/ CSVWrite("%1$s", <<ToJson([pieces |-> pieces])>>, IOEnv.CASES \o "/pieces.ndjson")
=============================================================================
