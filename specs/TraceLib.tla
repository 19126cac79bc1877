------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Acceptance of recorded executions whose records are self-contained.    *)
(* The instantiating module defines Verdict(r): the set of names of the   *)
(* specification clauses which the record r violates.  Each step of the    *)
(* trace machine consumes one record; a record with a non-empty verdict is *)
(* reported and skipped, so that the rest of the trace is still checked.   *)
(* A record of type "panic" is one the specification has no action for.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Start == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1

Report(l, id, v) == PrintT("REJECT " \o ToString(l) \o " " \o id \o " " \o ToString(v))
=============================================================================
