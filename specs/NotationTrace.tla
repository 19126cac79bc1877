---------------------------- MODULE NotationTrace ----------------------------
(***************************************************************************)
(* C19.  Acceptance of recorded uses of the notation.  Records:            *)
(*  parse   E: font; text; ok: lookups were returned; res: the lookups,    *)
(*          when the text can be understood by the specification (~nul);   *)
(*          line: line number of the error (0: none found); lines: number  *)
(*          of lines of the text; leak: goroutines left running;           *)
(*          hang: no answer in time; same: every repetition, under other   *)
(*          scheduling conditions, gave the same result                    *)
(*  explain as parse, where text was obtained by describing the lookups    *)
(*          ll (same representation).                                      *)
(***************************************************************************)
EXTENDS Notation, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

Total(r) ==
  C(~r.hang, "no answer") \cup
  C(r.leak = 0, "goroutine left running") \cup
  C(r.same, "result depends on scheduling") \cup
  C(r.hang \/ r.ok \/ (r.line >= 1 /\ r.line <= r.lines), "error without line number")

Meaning(r) ==
  IF r.hang \/ r.nul THEN {}
  ELSE LET q == Parse(r.E, r.text) IN
       C(q.ok = r.ok, IF q.ok THEN "valid text refused" ELSE "invalid text accepted") \cup
       C(~(q.ok /\ r.ok) \/ SameList(q.v, r.res), "wrong meaning")

Verdict(r) == CASE r.t = "parse" -> Total(r) \cup Meaning(r)
                [] r.t = "explain" -> Total(r) \cup Meaning(r) \cup
                     C(r.hang \/ r.ok, "description refused") \cup
                     C(r.hang \/ ~r.ok \/ SameList(r.ll, r.res), "description of other lookups")
                [] r.t = "panic" -> {"panic"}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
