--------------------------- MODULE MCByteViewGen ----------------------------
(***************************************************************************)
(* C17.  Generates, exhaustively, all operation histories of a given       *)
(* length over positions and sizes around the real reader's 1024-byte      *)
(* buffer boundaries, as behaviours of ByteView; each complete history is  *)
(* written as JSON and replayed against the real code.                     *)
(***************************************************************************)
EXTENDS ByteView, TLC, Json, CSV, IOUtils

CONSTANTS Depth

Lens == {0, 1, 1024, 1025, 2049}
Seeks == {0, 1, 1021, 1023, 1024, 1025, 2047, 2049, 3000}
Sizes == {0, 1, 3, 1023, 1024}

Ops == {[op |-> "seek", arg |-> p] : p \in Seeks}
       \cup {[op |-> "discard", arg |-> n] : n \in {1, 1022, 1024}}
       \cup {[op |-> "bytes", arg |-> n] : n \in Sizes}
       \cup {[op |-> "read", arg |-> n] : n \in {1, 1024, 1025, 2048}}
       \cup {[op |-> o, arg |-> 0] : o \in {"u8", "u16", "u32"}}

VARIABLES n, hist
Init == n \in Lens /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : hist' = Append(hist, o)
        /\ UNCHANGED n

Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([n |-> n, ops |-> hist])>>, IOEnv.CASES \o "/byteview.ndjson")
=============================================================================
