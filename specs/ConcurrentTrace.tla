-------------------------- MODULE ConcurrentTrace --------------------------
(***************************************************************************)
(* C16.  Acceptance of recorded uses of one font.  Records:                *)
(*  sched  a schedule forced on the real code: prog, sched as in            *)
(*         Concurrent; ops: for every operation of every goroutine the key  *)
(*         of the call made, res: its result, solo: the result of the same  *)
(*         call on an equal font nobody else uses; held: an operation had    *)
(*         to wait for another one, so that the schedule was left           *)
(*  free   goroutines running freely under the race detector: res, solo as  *)
(*         above; races: reports of the race detector; died: reason if the  *)
(*         process was ended by the runtime                                 *)
(*  both:  before, after: digest of the font                                *)
(***************************************************************************)
EXTENDS Concurrent, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

Results(r) ==
  {"result differs from running alone: " \o r.ops[g][k] : <<g, k>> \in
     {<<g, k>> \in UNION {{<<g, k>> : k \in DOMAIN r.ops[g]} : g \in DOMAIN r.ops} : r.res[g][k] # r.solo[g][k]}} \cup
  C(r.before = r.after, "font modified")

Verdict(r) ==
  CASE r.t = "sched" ->
         C(IsSchedule(r.prog, r.sched), "not a schedule") \cup
         C(\A g \in DOMAIN r.prog : Len(r.ops[g]) = Len(r.prog[g]), "not a schedule") \cup
         Results(r)
    [] r.t = "free" ->
         IF r.died # "" THEN {"process ended: " \o r.died}
         ELSE {"data race: " \o r.races[k] : k \in DOMAIN r.races} \cup Results(r)
    [] r.t = "panic" -> {"panic"}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
