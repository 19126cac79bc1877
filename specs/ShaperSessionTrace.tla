------------------------- MODULE ShaperSessionTrace -------------------------
(* C07.  Every record is one session: table summary and calls in order.    *)
EXTENDS ShaperSession, TraceLib

VARIABLE l

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Session(r.sum, <<>>, r.calls, 1)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v \cup {r.fam})
        /\ l' = l + 1
=============================================================================
