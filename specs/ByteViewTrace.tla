--------------------------- MODULE ByteViewTrace ----------------------------
(***************************************************************************)
(* C17.  Accepts recorded sessions of the real reader.  A session starts   *)
(* with an "open" event; every following event is one call with its        *)
(* arguments and its result, and is accepted iff it is a ByteView step     *)
(* from the current position.                                              *)
(***************************************************************************)
EXTENDS ByteView, TraceLib

VARIABLES l, base, pos
vars == <<l, base, pos>>

In == [n |-> Trace[base].n, seed |-> Trace[base].seed, d |-> Trace[base].d]

Res(e) == [ok |-> e.ok, val |-> e.val, pos |-> e.pos]

Init == l = Start /\ base = Start /\ pos = 0

StepOK(e) == e.t = "op" /\ e.err \in {"", "eof"} /\ (e.err = "") = e.ok
             /\ Allowed(In, pos, e.op, e.arg, Res(e))

\* the next session after a rejected event
RECURSIVE NextOpen(_)
NextOpen(k) == IF k > Len(Trace) THEN k
               ELSE IF Trace[k].t = "open" THEN k ELSE NextOpen(k + 1)

Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.t = "open" THEN base' = l /\ pos' = 0 /\ l' = l + 1
           ELSE IF StepOK(e) THEN pos' = e.pos /\ l' = l + 1 /\ UNCHANGED base
           ELSE /\ Report(l, e.id, IF e.t = "panic" THEN {"panic"} ELSE {e.op, "at " \o ToString(pos)})
                /\ l' = NextOpen(l + 1) /\ UNCHANGED <<base, pos>>
=============================================================================
