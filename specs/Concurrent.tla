----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* C16.  Goroutines using one font which nobody modifies.  A goroutine     *)
(* performs a program of operations; an operation consists of segments,    *)
(* between which other goroutines may run (e.g. between two writes to its   *)
(* output, or between the calls made with one layouter).  In the design    *)
(* "good" every operation reads the shared state and keeps what it makes in *)
(* private state.  The other designs are the ways to go wrong:              *)
(*   patch    an output operation changes a shared buffer and puts it back  *)
(*   lazy     the first operation builds a shared index in several steps    *)
(*   scratch  all operations use the same working memory                    *)
(* All designs are run side by side under the same schedule.  The result of *)
(* an operation is what it saw in each of its segments; required is that    *)
(* this equals the result of the same operation running alone.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Designs == {"good", "patch", "lazy", "scratch"}

\* shared state
Mem0 == [head |-> 1, idx |-> 0, scr |-> 0]

\* Segment s of operation o of goroutine g, with shared state m, the private
\* state being the log of what the operation has seen.
Seg(d, g, o, s, m, log) ==
  CASE d = "good" -> [m |-> m, log |-> Append(log, m.head)]
    [] d = "patch" ->
         LET h == IF o.kind = "write" /\ s = 1 THEN 0 ELSE m.head
             k == IF o.kind = "write" /\ s = o.n THEN 1 ELSE h
         IN [m |-> [m EXCEPT !.head = k], log |-> Append(log, h)]
    [] d = "lazy" ->
         LET own == (s = 1 /\ m.idx = 0) \/ (s > 1 /\ log[1] = 3)
             k == IF ~own THEN m.idx ELSE IF s = o.n THEN 2 ELSE 1
         IN [m |-> [m EXCEPT !.idx = k], log |-> Append(log, IF own THEN 3 ELSE m.idx)]
    [] d = "scratch" ->
         LET k == IF s = 1 THEN g ELSE m.scr
         IN [m |-> [m EXCEPT !.scr = k], log |-> Append(log, IF k = g THEN 1 ELSE 0)]

\* what the caller learns from the log: for the index, whether all of it was seen
Result(d, log) == IF d = "lazy" THEN [k \in DOMAIN log |-> log[k] # 1] ELSE [k \in DOMAIN log |-> log[k] = log[1]]

\* an operation alone, starting from a font in its initial state
RECURSIVE Alone(_, _, _, _, _, _)
Alone(d, g, o, s, m, log) ==
  IF s > o.n THEN <<Result(d, log), IF log = << >> THEN 0 ELSE IF d = "lazy" THEN 0 ELSE log[1]>>
  ELSE LET q == Seg(d, g, o, s, m, log) IN Alone(d, g, o, s + 1, q.m, q.log)
Solo(d, g, o) == Alone(d, g, o, 1, Mem0, << >>)
Got(d, log) == <<Result(d, log), IF d = "lazy" THEN 0 ELSE log[1]>>

(***************************************************************************)
(* The form of a schedule: goroutine numbers, one for each segment.         *)
(***************************************************************************)
RECURSIVE SumSegs(_)
SumSegs(p) == IF p = << >> THEN 0 ELSE Head(p).n + SumSegs(Tail(p))

Count(sched, g) == Cardinality({k \in DOMAIN sched : sched[k] = g})
IsSchedule(prog, sched) ==
  /\ \A k \in DOMAIN sched : sched[k] \in DOMAIN prog
  /\ \A g \in DOMAIN prog : Count(sched, g) = SumSegs(prog[g])
=============================================================================
