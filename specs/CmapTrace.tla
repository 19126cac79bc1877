------------------------------ MODULE CmapTrace -----------------------------
(***************************************************************************)
(* C09.  Acceptance of recorded executions of the cmap package.            *)
(***************************************************************************)
EXTENDS Cmap, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

\* size of two simple encodings of a mapping in format 4
RECURSIVE SumLen(_, _)
SumLen(rr, i) == IF i = 0 THEN 0 ELSE SumLen(rr, i - 1) + (rr[i][2] - rr[i][1] + 1)
Blocks(rr) == Cardinality({i \in 1..Len(rr) : i = 1 \/ rr[i-1][2] + 1 # rr[i][1]})
MustFit4(rr) == \/ 16 + 8 * (Len(rr) + 1) <= 65535
                \/ Len(rr) <= 40000 /\ 16 + 8 * (Blocks(rr) + 1) + 2 * SumLen(rr, Len(rr)) <= 65535

Enc4(r) ==
  LET m == Canon(r.m) IN
  IF r.refused \/ Len(r.b) > 65535 THEN C(~MustFit4(m), "mapping not encoded")
  ELSE IF ~F4Shape(r.b) THEN {"format 4 header"}
  ELSE C(F4Search(r.b), "binary search fields") \cup
       C(U16(r.b, 4) = r.lang, "language") \cup
       C(U16(r.b, 14 + 2 * F4Seg(r.b)) = 0, "reserved pad") \cup
       (IF ~F4Segments(r.b) THEN {"segments"} ELSE IF ~F4Offsets(r.b) THEN {"glyph array offsets"}
        ELSE C(F4Runs(r.b) = m, "mapping encoded differently") \cup
             C(\A i \in 1..Len(r.probe) : F4Lookup(r.b, r.probe[i][1]) = r.probe[i][2], "search finds another glyph") \cup
             C(r.ok, "library rejects its own encoding") \cup
             (IF r.ok THEN C(r.lib = m, "library decodes another mapping") \cup
                           C(r.sup = <<>>, "supplementary code points mapped") ELSE {}))

Enc12(r) ==
  LET m == Canon(r.m) IN
  IF ~F12Shape(r.b) THEN {"format 12 header"}
  ELSE C(U16(r.b, 10) = r.lang /\ U16(r.b, 8) = 0, "language") \cup
       (IF ~F12Groups(r.b) THEN {"groups"}
        ELSE C(F12Runs(r.b) = m, "mapping encoded differently") \cup
             C(r.ok, "library rejects its own encoding") \cup
             (IF r.ok THEN C(r.lib = m, "library decodes another mapping") \cup
                           C(r.sup = <<>>, "other code points mapped") ELSE {}))

Dec(r) ==
  LET mac == r.p = 1 /\ r.e = 0
      wf == Wf(r.b) /\ (Format(r.b) = 12 => F12Size(r.b) <= 65536) /\ ~(r.p = 1 /\ (r.e # 0 \/ Format(r.b) = 12))
  IN IF ~wf THEN {}
     ELSE LET m == Runs(r.b) IN
          IF mac /\ MaxCode(m) > 255 THEN {}
          ELSE IF ~r.ok THEN {"well-formed subtable rejected"}
          ELSE C(r.sup = <<>>, "other code points mapped") \cup
               (IF mac THEN C(Expand(r.lib) = MacPairs(m), "mapping decoded differently")
                ELSE C(r.lib = m, "mapping decoded differently"))

\* r.keys: sequence of <<platform, encoding, language, index into r.data>>
Tab(r) ==
  IF ~TabLayout(r.b) THEN {"table layout"}
  ELSE LET n == Len(r.keys)
           Slice(k) == LET o == TabOff(r.b, k) IN SubSeq(r.b, o + 1, o + SubLen(r.b, o))
           want == {<<<<r.keys[k][1], r.keys[k][2], r.keys[k][3]>>, r.data[r.keys[k][4]]>> : k \in 1..n}
           got == {<<TabKey3(r.b, k), Slice(k)>> : k \in 1..TabN(r.b)}
           dec == {<<<<r.dkeys[k][1], r.dkeys[k][2], r.dkeys[k][3]>>, IF r.dkeys[k][4] = 0 THEN <<>> ELSE r.data[r.dkeys[k][4]]>> : k \in 1..Len(r.dkeys)}
       IN C(TabN(r.b) = n, "number of subtables") \cup
          C(TabSorted(r.b), "order of subtables") \cup
          C(TabDisjoint(r.b), "overlapping subtables") \cup
          C(got = want, "subtables encoded differently") \cup
          C(r.ok, "library rejects its own table") \cup
          (IF r.ok THEN C(Len(r.dkeys) = n /\ dec = want, "subtables decoded differently") ELSE {})

\* r.subs: sequence of <<platform, encoding, decodable, gid>>; r.got: gid or -1
Best(r) ==
  LET D == {i \in 1..Len(r.subs) : r.subs[i][3] = 1}
      five == {i \in D : <<r.subs[i][1], r.subs[i][2]>> \in {<<3, 10>>, <<0, 4>>, <<3, 1>>, <<0, 3>>, <<1, 0>>}}
      cls(i) == Class(r.subs[i][1], r.subs[i][2])
  IN IF r.got = -1 THEN C(five = {}, "no subtable chosen")
     ELSE LET S == {i \in D : r.subs[i][4] = r.got} IN
          IF S = {} THEN {"chosen subtable does not exist"}
          ELSE C(\A i \in S : \A j \in five : cls(i) <= cls(j), "inferior subtable chosen")

\* the table installed for a mapping
Inst(r) ==
  LET m == Canon(r.m)
      full == MaxCode(m) > 65535
      uni == {i \in 1..Len(r.subs) : r.subs[i][1] = 0}
      win == {i \in 1..Len(r.subs) : r.subs[i][1] = 3}
  IN C(\A i \in 1..Len(r.subs) : full => Class(r.subs[i][1], r.subs[i][2]) = 1, "encoding id too small") \cup
     C(r.best = m, "installed mapping differs")

Verdict(r) == CASE r.t = "enc4" -> Enc4(r) [] r.t = "enc12" -> Enc12(r) [] r.t = "dec" -> Dec(r)
                [] r.t = "tab" -> Tab(r) [] r.t = "best" -> Best(r) [] r.t = "inst" -> Inst(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
