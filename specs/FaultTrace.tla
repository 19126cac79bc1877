------------------------------ MODULE FaultTrace ----------------------------
(***************************************************************************)
(* C18.  Acceptance of recorded writes to failing destinations and reads   *)
(* from failing sources.                                                   *)
(***************************************************************************)
EXTENDS Fault, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

WriteV(r) ==
  C(r.n0 \in {-1, r.len}, "count of a complete file") \cup
  UNION {LET k == r.k[i]
             acc == Replay(r.calls[i], 1, Dest0, k, r.mode)
         IN C(acc = r.acc[i], "destination") \cup
            C(r.err[i] = (IF k < r.len THEN 1 ELSE 0), IF k < r.len THEN "fault not reported" ELSE "spurious error") \cup
            C(r.n[i] \in {-1, r.acc[i]}, "byte count") \cup
            C(r.pre[i] = 1, "bytes after a gap") \cup
            C(WriteOk(r.len, k, r.n[i], r.acc[i], r.err[i], r.pre[i]), "contract")
         : i \in 1..Len(r.k)}

ReadV(r) ==
  LET de == DataEnd(r.hd) IN
  C(r.ok, "complete file rejected") \cup C(r.oks, "complete stream rejected") \cup
  C(\A i \in 1..Len(r.k) : r.k[i] < de => r.err[i] = 1, "damaged source accepted") \cup
  C(\A i \in 1..Len(r.k) : r.err[i] # 2, "neither a font nor an error")

CallsV(r) ==
  C(r.ok, "complete file rejected") \cup
  C(\A i \in 1..Len(r.err) : r.err[i] = 1, "failing source accepted")

Verdict(r) == CASE r.t = "write" -> WriteV(r)
                [] r.t = "read" -> ReadV(r)
                [] r.t = "calls" -> CallsV(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
