------------------------------ MODULE CffTrace ------------------------------
(***************************************************************************)
(* C13.  Acceptance of CFF files written by the library (font: the value   *)
(* written and the value read back) and of files in foreign formats.       *)
(***************************************************************************)
EXTENDS Cff, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

Fields(a, b, what) ==
  C(a.name = b.name, what \o "font name") \cup
  C(a.cid = b.cid /\ a.ros = b.ros, what \o "character collection") \cup
  C(a.names = b.names, what \o "glyph names") \cup
  C(a.cids = b.cids, what \o "CIDs") \cup
  C(a.enc = b.enc, what \o "encoding") \cup
  C(a.fd = b.fd, what \o "font dictionary assignment") \cup
  C(a.priv = b.priv, what \o "private dictionaries") \cup
  C(a.mats = b.mats, what \o "font matrices") \cup
  C(a.info.mat = b.info.mat, what \o "font matrix") \cup
  C([a.info EXCEPT !.mat = <<>>] = [b.info EXCEPT !.mat = <<>>], what \o "font information")

\* lo, hi: the 16.16 numbers around the width; at most 1/65536 away from one of them
\* (widths are pairs; the difference is computed in units where it is small)
Near(w, iv) == \E x \in {iv[1], iv[2]} :
   \/ (w[1] = x[1] /\ Abs(w[2] - x[2]) <= 1)
   \/ (w[1] = x[1] + 1 /\ w[2] = 0 /\ x[2] = 65535)
   \/ (w[1] = x[1] - 1 /\ w[2] = 65535 /\ x[2] = 0)
WidthOk(w, iv) == IF iv[1] = iv[2] THEN w = iv[1] ELSE Near(w, iv)

FontV(r) ==
  IF ~r.ok THEN {"write failed"}
  ELSE LET p == Parse(r.out) IN
       (IF ~p.ok THEN {"file is malformed: " \o p.why}
        ELSE Fields(p.f, r.in, "file: ") \cup
             C(\A i \in 1..Len(p.w) : p.w[i].ok => WidthOk(p.w[i].w, r.w[i]), "file: width"))
       \cup
       (IF ~r.rok THEN {"own file rejected"}
        ELSE Fields(r.back, r.in, "") \cup
             C(Len(r.bw) = Len(r.w) /\ \A i \in 1..Len(r.w) : WidthOk(r.bw[i], r.w[i]), "width"))

ForeignV(r) ==
  LET p == Parse(r.out) IN
  IF ~p.ok THEN {"harness: malformed: " \o p.why}
  ELSE IF ~r.rok THEN {"well-formed file rejected"}
  ELSE Fields(r.back, p.f, "") \cup
       C(Len(r.bw) = Len(p.w) /\ \A i \in 1..Len(p.w) : p.w[i].ok => r.bw[i] = p.w[i].w, "width")

Verdict(r) == CASE r.t = "font" -> FontV(r)
                [] r.t = "foreign" -> ForeignV(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
