------------------------------- MODULE OtlTrace -------------------------------
(***************************************************************************)
(* C08.  Acceptance of layout tables written and read by the library.      *)
(***************************************************************************)
EXTENDS Otl, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
RO(S) == [i \in 1..Len(S) |-> <<S[i].r, S[i].o>>]

Bytes(r, in) ==
  LET g == Gtab(r.b, r.gpos) IN
  IF ~g.ok THEN {"malformed header"}
  ELSE C(ScriptsSorted(g.s), "script list not sorted") \cup
       C(SameBag(RO(g.s), RO(in.s)), "bytes do not encode the script list") \cup
       C(g.f = in.f, "bytes do not encode the feature list") \cup
       C(NormLookups(g.l) = NormLookups(in.l), "bytes do not encode the lookup list")

Decoded(r, in) ==
  C(r.err = "", "cannot be read") \cup
  (IF r.err # "" THEN {}
   ELSE C(r.out.s = in.s, "script list changed") \cup
        C(r.out.f = in.f, "feature list changed") \cup
        C(NormLookups(r.out.l) = NormLookups(in.l), "lookup list changed"))

GtabV(r) ==
  IF r.panic THEN C(~Fits(r.in), "refused")
  ELSE LET d == Decoded(r, r.in) \cup C(r.same, "encoding is not a function of the structure")
       IN IF d # {} THEN d ELSE Bytes(r, r.in)      \* (decoding garbage is expensive)

\* a table written by somebody else
AltV(r) == LET b == Bytes(r, r.in) IN IF b # {} THEN {"case out of range"} \cup b ELSE Decoded(r, r.in)

CovV(r) ==
  C(Cov(r.b, 0) = r.in, "bytes do not encode the glyphs") \cup
  C(Len(r.b) = CovSize(r.in), "not the smaller format") \cup
  C(r.n = Len(r.b), "declared size") \cup
  C(r.err = "" /\ r.out = r.in /\ r.set = r.in, "glyphs changed")
CovAltV(r) ==
  IF Cov(r.b, 0) # r.in THEN {"case out of range"}
  ELSE C(r.err = "" /\ r.out = r.in /\ r.set = r.in, "glyphs changed")

ClassV(r) ==
  IF r.panic THEN C(~ClassFits(r.in), "refused")
  ELSE C(Class(r.b, 0) = r.in, "bytes do not encode the classes") \cup
       C(Len(r.b) = ClassSize(r.in), "not the smaller format") \cup
       C(r.n = Len(r.b), "declared size") \cup
       C(r.err = "" /\ r.out = r.in, "classes changed")
ClassAltV(r) ==
  IF Class(r.b, 0) # r.in THEN {"case out of range"}
  ELSE C(r.err = "" /\ r.out = r.in, "classes changed")

GdefSize(x) == 14 + SumOf(x.gc, ClassSize) + SumOf(x.mc, ClassSize)
GdefV(r) ==
  IF r.panic THEN C(GdefSize(r.in) > 65535, "refused")
  ELSE LET g == Gdef(r.b) IN
       C(g.ok, "malformed header") \cup
       (IF ~g.ok THEN {}
        ELSE C(g.gc = r.in.gc /\ g.mc = r.in.mc /\ g.sets = r.in.sets, "bytes do not encode the table")) \cup
       C(r.err = "", "cannot be read") \cup
       (IF r.err # "" THEN {} ELSE C(r.out = r.in, "table changed")) \cup
       C(r.same, "encoding is not a function of the structure")

\* a value which is not a coverage table must be refused
BadCovV(r) == C(r.panic, "corrupt table written")

Verdict(r) == CASE r.t = "gtab" -> GtabV(r)
                [] r.t = "alt" -> AltV(r)
                [] r.t = "cov" -> CovV(r)
                [] r.t = "covalt" -> CovAltV(r)
                [] r.t = "class" -> ClassV(r)
                [] r.t = "classalt" -> ClassAltV(r)
                [] r.t = "gdef" -> GdefV(r)
                [] r.t = "badcov" -> BadCovV(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
