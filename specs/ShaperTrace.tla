---------------------------- MODULE ShaperTrace ----------------------------
(***************************************************************************)
(* C06.  A record is one call of the real shaper: tables, input sequence,  *)
(* output sequence.  It is accepted iff the output is the final sequence   *)
(* of a run of the Shaper machine.  Runs which exceed the machine's budget *)
(* of nested actions are outside the specified domain.                     *)
(***************************************************************************)
EXTENDS Shaper, TraceLib

VARIABLE l

Field(a, b, f) == [i \in 1..Len(a) |-> a[i][f]] # [i \in 1..Len(b) |-> b[i][f]]

Diff(want, got) ==
  IF Len(want) # Len(got) THEN {"length"}
  ELSE {c \in {"glyphs", "text", "offsets", "advances"} :
          CASE c = "glyphs" -> Field(want, got, "g")
            [] c = "text" -> Field(want, got, "t")
            [] c = "offsets" -> Field(want, got, "x") \/ Field(want, got, "y")
            [] c = "advances" -> Field(want, got, "w")}

Verdict(r) ==
  LET T == [ll |-> r.ll, gd |-> r.gd, lk |-> r.lk]
      f == Final(T, Begin(r.in), FALSE)
  IN
  IF r.t = "doc"      \* the documented examples pin the specification itself
  THEN IF Field(f.seq, r.out, "g") \/ AllText(f.seq, 1) # r.text THEN {"documented example"} ELSE {}
  ELSE IF f.over THEN {}
  ELSE IF f.seq = r.out THEN {}
  ELSE IF HasReverse(T) /\ Final(T, Begin(r.in), TRUE).seq = r.out THEN {}
  ELSE Diff(f.seq, r.out) \cup {r.fam}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
