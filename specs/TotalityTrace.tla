--------------------------- MODULE TotalityTrace ---------------------------
(***************************************************************************)
(* C02.  Acceptance of recorded decode sessions.  Record:                  *)
(*  decode  kind: decoder; for each of a number of sessions n: length of   *)
(*          the input, kb: memory allocated by the decoder, ms: time used  *)
(*          by the decoder, ev: events; why: the first panic, if any       *)
(***************************************************************************)
EXTENDS Totality, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

Panics(r) == {i \in DOMAIN r.ev : ~Complete(r.ev[i])}

Verdict(r) ==
  CASE r.t = "decode" ->
         LET bad == Panics(r)
             dec == {i \in bad : Len(r.ev[i]) = 1}
         IN C(DOMAIN r.ev = DOMAIN r.n /\ DOMAIN r.kb = DOMAIN r.n /\ DOMAIN r.ms = DOMAIN r.n, "incomplete record") \cup
            C(dec = {}, r.kind \o ": decoder panics: " \o r.why) \cup
            C(bad = dec, r.kind \o ": accessor panics: " \o r.why) \cup
            C(\A i \in DOMAIN r.n : MemOK(r.kind, r.n[i], r.kb[i]), r.kind \o ": memory out of proportion") \cup
            C(\A i \in DOMAIN r.n : TimeOK(r.kind, r.n[i], r.ms[i]), r.kind \o ": time out of proportion")
    [] r.t = "panic" -> {"panic"}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
