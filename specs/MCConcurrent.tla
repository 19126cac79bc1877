---------------------------- MODULE MCConcurrent ----------------------------
(***************************************************************************)
(* All schedules of all small programs.  Same: in the good design every     *)
(* result is that of the operation alone.  ReadOnly: the font never changes. *)
(* Blind: without overlapping operations no design shows a difference, i.e. *)
(* only the schedules can tell the designs apart.  The schedules which tell *)
(* the good design from at least one other are written to schedules.ndjson. *)
(***************************************************************************)
EXTENDS Concurrent, TLC, Json, IOUtils, CSV

CONSTANTS Gor, MaxOps, MaxSegs, MinOps

Op == [kind : {"write", "read"}, n : 1 .. MaxSegs]
Programs == UNION {[1 .. k -> Op] : k \in MinOps .. MaxOps}

VARIABLES prog, at, mem, log, bad, sched, over
vars == <<prog, at, mem, log, bad, sched, over>>

\* at[g] = <<operation, segments done of it>>
Init == /\ prog \in [1 .. Gor -> Programs]
        /\ at = [g \in 1 .. Gor |-> <<1, 0>>]
        /\ mem = [d \in Designs |-> Mem0]
        /\ log = [d \in Designs |-> [g \in 1 .. Gor |-> << >>]]
        /\ bad = {} /\ sched = << >> /\ over = FALSE

Active(g) == at[g][2] > 0
Finished(g) == at[g][1] > Len(prog[g])

Step(g) ==
  /\ ~Finished(g)
  /\ LET o == prog[g][at[g][1]]
         s == at[g][2] + 1
         q == [d \in Designs |-> Seg(d, g, o, s, mem[d], log[d][g])]
         end == s = o.n
     IN /\ mem' = [d \in Designs |-> q[d].m]
        /\ log' = [d \in Designs |-> [log[d] EXCEPT ![g] = IF end THEN << >> ELSE q[d].log]]
        /\ bad' = IF end THEN bad \cup {d \in Designs : Got(d, q[d].log) # Solo(d, g, o)} ELSE bad
        /\ at' = [at EXCEPT ![g] = IF end THEN <<at[g][1] + 1, 0>> ELSE <<at[g][1], s>>]
  /\ sched' = Append(sched, g)
  /\ over' = (over \/ \E h \in 1 .. Gor : h # g /\ Active(h))
  /\ UNCHANGED prog

Done == \A g \in 1 .. Gor : Finished(g)
Next == \E g \in 1 .. Gor : Step(g)
Spec == Init /\ [][Next]_vars

Same == "good" \notin bad
ReadOnly == mem["good"] = Mem0
Blind == Done /\ ~over => bad = {}
Form == Done => IsSchedule(prog, sched)
Emit == Done /\ bad # {} =>
  CSVWrite("%1$s", <<ToJson([prog |-> prog, sched |-> sched, tells |-> bad])>>, IOEnv.CASES \o "/schedules.ndjson")
=============================================================================
