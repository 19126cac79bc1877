-------------------------- MODULE RoundTripTrace --------------------------
(***************************************************************************)
(* C01.  Acceptance of recorded generations of fonts and files.  Records:  *)
(*  font  f0: a font value; w0: digests of the file, written twice; and    *)
(*        then as for file                                                 *)
(*  file  f1: the font read from the file; w1: digests of the file written *)
(*        for it, twice; f2: the font read from that file; w2: digest of   *)
(*        the file written for it; f1b: f1 after it has been written       *)
(*        stage: number of completed steps, err: error of the last one     *)
(*  order w0, w: the file written for equal fonts built in different order *)
(***************************************************************************)
EXTENDS RoundTrip, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

\* the names of the fields in which two fonts differ
Diff(f, g) == (DOMAIN f \cup DOMAIN g) \ {k \in DOMAIN f \cap DOMAIN g : f[k] = g[k]}

\* version numbers are kept to three digits
VersionOK(v, u) ==
  IF v[1] = 65535 /\ v[2] >= 65470 THEN u[1] = 65535 /\ u[2] >= 65470
  ELSE /\ Abs(u[1] - v[1]) <= 1
       /\ Abs((u[1] - v[1]) * 65536 + u[2] - v[2]) <= 33

Style(f) == [i |-> f.i, o |-> f.o, b |-> f.b, w |-> f.w, reg |-> f.reg, ang |-> IF f.angz THEN 1 ELSE 0]

\* lengths in quarters of a unit, stored as integers
WholeOK(q, r) == r % 4 = 0 /\ Abs(q - r) <= 2

HeightOK(h, d, r) == r = IF h > 0 THEN h ELSE d

Same == {"family", "text", "w", "width", "o", "serif", "cp", "times", "perm", "upm", "fm", "vert", "ang",
         "n", "kind", "names", "extra", "outlines", "cmap", "gdef", "gpos"}

\* f, written and read, has become g
Kept(f, g) ==
  LET s == Style(f)
  IN UNION {C(k \in DOMAIN f /\ k \in DOMAIN g /\ f[k] = g[k], "changed: " \o k) : k \in Same} \cup
     C(VersionOK(f.ver, g.ver), "changed: version") \cup
     C(g.script = (f.script /\ ~f.serif), "changed: script") \cup
     C(g.i = NormItalic(s), "changed: italic") \cup
     C(g.b = f.b \/ ~Sensible(s) \/ (BoldWeight(f.w) /\ g.b), "changed: bold") \cup
     C(Sensible(s) => g.reg = NormRegular(s) \/ (BoldWeight(f.w) /\ g.reg = f.reg), "changed: regular") \cup
     C(HeightOK(f.cap, f.der[1], g.cap), "changed: cap height") \cup
     C(HeightOK(f.xh, f.der[2], g.xh), "changed: x height") \cup
     C(\A k \in 1 .. 2 : WholeOK(f.ul[k], g.ul[k]), "changed: underline") \cup
     C(DOMAIN f.w16 = DOMAIN g.w16 /\
       \A k \in DOMAIN f.w16 : g.w16[k] % 16 = 0 /\ Abs(f.w16[k] - g.w16[k]) < 16, "changed: widths") \cup
     C((\A k \in DOMAIN f.w16 : f.w16[k] % 16 = 0) => f.widths = g.widths, "changed: widths") \cup
     C(f.gsub = g.gsub \/ (f.gsub = "" /\ f.ligs /\ ~g.fixed), "changed: gsub")

Cycle(r) ==
  IF r.stage = 0 THEN (IF r.t = "font" THEN {"not readable: " \o r.err} ELSE {})
  ELSE C(r.stage = 4 /\ r.err = "", "cycle stops: " \o r.err) \cup
       (IF r.stage < 2 \/ "w1" \notin DOMAIN r THEN {}
        ELSE C(r.w1[1] = r.w1[2], "not reproducible")) \cup
       (IF "f2" \notin DOMAIN r THEN {}
        ELSE {"not a fixed point: " \o k : k \in Diff(r.f1, r.f2)} \cup
             {"font modified by writing: " \o k : k \in Diff(r.f1, r.f1b)}) \cup
       (IF r.stage = 4 THEN C(r.w2 = r.w1[1], "file not a fixed point") ELSE {})

Verdict(r) ==
  CASE r.t = "file" -> C(r.stage > 0 \/ SubSeq(r.err, 1, 5) = "error", "reader: " \o r.err) \cup Cycle(r)
    [] r.t = "font" ->
         IF r.stage = -1 THEN {"not writable: " \o r.err}
         ELSE C(r.w0[1] = r.w0[2], "not reproducible") \cup
              C(Diff(r.f0, r.f0b) = {}, "font modified by writing") \cup
              (IF r.stage > 0 THEN Kept(r.f0, r.f1) ELSE {}) \cup Cycle(r)
    [] r.t = "order" -> C(r.err = "", "write fails") \cup
                        C(\A k \in DOMAIN r.w : r.w[k] = r.w0, "file depends on the order of insertion")
    [] r.t = "panic" -> {"panic"}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
