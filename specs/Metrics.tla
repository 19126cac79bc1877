------------------------------- MODULE Metrics ------------------------------
(***************************************************************************)
(* The metrics and header tables hhea/hmtx, head, maxp, OS/2 and post as   *)
(* decoding machines over bytes, and the definitions of the derived        *)
(* fields, written from the OpenType specification.                        *)
(***************************************************************************)
EXTENDS Sfnt

S16(b, o) == LET v == SU16(b, o) IN IF v >= 32768 THEN v - 65536 ELSE v
Bit(v, k) == (v \div Pow2(k)) % 2 = 1
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == LET T == {-x : x \in S} IN -(CHOOSE x \in T : \A y \in T : x <= y)   \* linear in TLC, where sets are sorted
In16(v) == v >= -32768 /\ v <= 32767

(***************************************************************************)
(* hhea and hmtx                                                           *)
(***************************************************************************)
HheaWf(b) == /\ Len(b) = 36
             /\ SubSeq(b, 1, 4) = <<0, 1, 0, 0>>
             /\ \A i \in 25..34 : b[i] = 0       \* reserved, metricDataFormat
Hhea(b) == [asc |-> S16(b, 4), desc |-> S16(b, 6), gap |-> S16(b, 8), awmax |-> SU16(b, 10),
            minlsb |-> S16(b, 12), minrsb |-> S16(b, 14), ext |-> S16(b, 16),
            rise |-> S16(b, 18), run |-> S16(b, 20), off |-> S16(b, 22), n |-> SU16(b, 34)]
\* n long records, then left side bearings only
HmtxWf(d, n, ng) == /\ n <= ng /\ (ng > 0 => n >= 1)
                    /\ Len(d) = 4 * n + 2 * (ng - n)
HmtxW(d, n, ng) == [i \in 1..ng |-> S16(d, 4 * (MinI(i, n) - 1))]
HmtxL(d, n, ng) == [i \in 1..ng |-> IF i <= n THEN S16(d, 4 * i - 2) ELSE S16(d, 4 * n + 2 * (i - n - 1))]

\* boxes: <<llx, lly, urx, ury>>; the zero box belongs to a glyph without outline
Zero4 == <<0, 0, 0, 0>>
NonEmpty(ext) == {i \in 1..Len(ext) : ext[i] # Zero4}
Extreme(S, f(_), m(_)) == IF S = {} THEN 0 ELSE m({f(i) : i \in S})
MinLsb(lsb, ext) == LET g(i) == lsb[i] IN Extreme(NonEmpty(ext), g, MinOf)
MinRsb(w, lsb, ext) == LET g(i) == w[i] - (lsb[i] + ext[i][3] - ext[i][1]) IN Extreme(NonEmpty(ext), g, MinOf)
MaxExtent(lsb, ext) == LET g(i) == lsb[i] + ext[i][3] - ext[i][1] IN Extreme(NonEmpty(ext), g, MaxOf)
Union4(S) == IF S = {} THEN Zero4
             ELSE <<MinOf({x[1] : x \in S}), MinOf({x[2] : x \in S}), MaxOf({x[3] : x \in S}), MaxOf({x[4] : x \in S})>>
UnionBox(ext) == Union4({ext[i] : i \in NonEmpty(ext)})

\* the caret direction <<X, Y>> = <<run, rise>> (up to 60000) against the slope in the file
Dot(rise, run, d) == (d[1] \div 4) * run + (d[2] \div 4) * rise
CaretExact(rise, run, d) == /\ d[1] * rise = d[2] * run
                            /\ (rise # 0 \/ run # 0)
                            /\ d[1] * run >= 0 /\ d[2] * rise >= 0
CaretNear(rise, run, d) ==
  LET p == d[1] * rise
      q == d[2] * run
      bound == (MaxI(AbsI(d[1]), AbsI(d[2])) * MaxI(AbsI(rise), AbsI(run))) \div 20000 + MaxI(AbsI(rise), AbsI(run))
  IN /\ Dot(rise, run, d) > 0
     /\ IF (p >= 0) = (q >= 0) THEN AbsI(p - q) <= bound ELSE AbsI(p) <= bound /\ AbsI(q) <= bound

(***************************************************************************)
(* head.  64 bit times are sequences of 8 bytes.                           *)
(***************************************************************************)
HeadWf(b) == /\ Len(b) = 54
             /\ SubSeq(b, 1, 4) = <<0, 1, 0, 0>>
             /\ SubSeq(b, 13, 16) = <<95, 15, 60, 245>>
             /\ SU16(b, 52) = 0
HeadF(b) == [rev |-> Pair32(b, 4),
            yb |-> Bit(SU16(b, 16), 0), xb |-> Bit(SU16(b, 16), 1),
            nl |-> Bit(SU16(b, 16), 2) \/ Bit(SU16(b, 16), 4),
            upem |-> SU16(b, 18), c |-> SubSeq(b, 21, 28), m |-> SubSeq(b, 29, 36),
            box |-> <<S16(b, 36), S16(b, 38), S16(b, 40), S16(b, 42)>>,
            bold |-> Bit(SU16(b, 44), 0), ital |-> Bit(SU16(b, 44), 1), shad |-> Bit(SU16(b, 44), 4),
            cond |-> Bit(SU16(b, 44), 5), exp |-> Bit(SU16(b, 44), 6),
            ppem |-> SU16(b, 46), loca |-> SU16(b, 50)]

(***************************************************************************)
(* maxp                                                                    *)
(***************************************************************************)
MaxpWf(b) == \/ Len(b) = 6 /\ SubSeq(b, 1, 4) = <<0, 0, 80, 0>>
             \/ Len(b) = 32 /\ SubSeq(b, 1, 4) = <<0, 1, 0, 0>>
Maxp(b) == [n |-> SU16(b, 4), ttf |-> [i \in 1..((Len(b) - 6) \div 2) |-> SU16(b, 4 + 2 * i)]]

(***************************************************************************)
(* OS/2, versions 2 to 5                                                   *)
(***************************************************************************)
Os2Wf(b) == /\ Len(b) >= 96 /\ SU16(b, 0) \in 2..5 /\ (SU16(b, 0) = 5 <=> Len(b) = 100) /\ (SU16(b, 0) # 5 <=> Len(b) = 96)
            /\ LET t == SU16(b, 8) % 16 IN t \in {0, 2, 4, 8}
Perm(t) == CASE t = 0 -> 0 [] t = 8 -> 1 [] t = 4 -> 2 [] t = 2 -> 3
Os2(b) == LET sel == SU16(b, 62) IN
  [avg |-> S16(b, 2), weight |-> SU16(b, 4), width |-> SU16(b, 6),
   perm |-> Perm(SU16(b, 8) % 16), nosub |-> Bit(SU16(b, 8), 8), bmp |-> Bit(SU16(b, 8), 9),
   geom |-> [i \in 1..10 |-> S16(b, 8 + 2 * i)],
   class |-> SU16(b, 30), panose |-> SubSeq(b, 33, 42),
   ur |-> [i \in 1..8 |-> SU16(b, 40 + 2 * i)],
   vendor |-> SubSeq(b, 59, 62),
   ital |-> Bit(sel, 0), bold |-> Bit(sel, 5), reg |-> Bit(sel, 6), obl |-> Bit(sel, 9),
   first |-> SU16(b, 64), last |-> SU16(b, 66),
   asc |-> S16(b, 68), desc |-> S16(b, 70), gap |-> S16(b, 72), wasc |-> S16(b, 74), wdesc |-> S16(b, 76),
   cp |-> [i \in 1..4 |-> SU16(b, 76 + 2 * i)],
   xh |-> S16(b, 86), cap |-> S16(b, 88)]
\* bits which depend on other fields
Os2Normal(r) == [r EXCEPT !.ital = @ /\ ~r.reg, !.bold = @ /\ ~r.reg,
                          !.ur = [i \in 1..8 |-> IF i # 3 THEN @[i]   \* bit 57: word 1, upper half, bit 9
                                                 ELSE IF r.last = 65535 THEN (IF Bit(@[i], 9) THEN @[i] ELSE @[i] + 512)
                                                 ELSE (IF Bit(@[i], 9) THEN @[i] - 512 ELSE @[i])]]

(***************************************************************************)
(* post header                                                             *)
(***************************************************************************)
PostWf(b) == Len(b) >= 32 /\ SubSeq(b, 1, 4) \in {<<0, 1, 0, 0>>, <<0, 2, 0, 0>>, <<0, 3, 0, 0>>}
\* the angle is <<integer part, 1/65536 units>>
Post(b) == [angle |-> <<S16(b, 4), SU16(b, 6)>>, up |-> S16(b, 8), ut |-> S16(b, 10), fixed |-> \E i \in 13..16 : b[i] # 0]

(***************************************************************************)
(* Glyph boxes.  A CFF outline is a sequence of <<op, x1, y1, ...>> with   *)
(* op 1 (moveto), 2 (lineto) or 3 (curveto) and integer coordinates.       *)
(***************************************************************************)
K == 32
Bez(p0, p1, p2, p3, t) ==      \* K^3 times the value at t/K
  (K - t) * (K - t) * (K - t) * p0 + 3 * (K - t) * (K - t) * t * p1 + 3 * (K - t) * t * t * p2 + t * t * t * p3
\* Points which belong to the outline (in coordinate j = 1, 2), times K^3
EndPt(c, j) == c[Len(c) - 2 + j]
OnPts(cc, j) == {K * K * K * EndPt(cc[i], j) : i \in {i \in 1..Len(cc) : cc[i][1] \in 1..3}} \cup
                UNION {{Bez(EndPt(cc[i - 1], j), cc[i][1 + j], cc[i][3 + j], cc[i][5 + j], t) : t \in 1..(K - 1)} : i \in {i \in 2..Len(cc) : cc[i][1] = 3}}
\* an upper bound for the distance between the curve and the polygon through its points
Slack(cc, j) == LET bend(i) == MaxI(AbsI(EndPt(cc[i - 1], j) - 2 * cc[i][1 + j] + cc[i][3 + j]),
                                    AbsI(cc[i][1 + j] - 2 * cc[i][3 + j] + cc[i][5 + j]))
                    S == {bend(i) : i \in {i \in 2..Len(cc) : cc[i][1] = 3}}
                IN IF S = {} THEN 0 ELSE 1 + (6 * MaxOf(S)) \div (8 * K * K)
CeilDiv(a, b) == -((-a) \div b)
\* the box [lo, hi] in coordinate j, in units of which the coordinates have u
RangeOk(cc, j, lo, hi, u) ==
  LET S == OnPts(cc, j)
      s == Slack(cc, j)
      mn == MinOf(S) \div (K * K * K * u)
      mx == CeilDiv(MaxOf(S), K * K * K * u)
  IN IF s = 0 THEN lo = mn /\ hi = mx
     ELSE lo <= mn /\ lo >= mn - 1 - s /\ hi >= mx /\ hi <= mx + 1 + s
\* the transformed outline, in units of which a PDF glyph space unit has 10
Moved(cc, m, u) ==
  [i \in 1..Len(cc) |->
    IF cc[i][1] \notin 1..3 THEN cc[i]
    ELSE LET c == cc[i] IN
         [k \in 1..Len(c) |-> IF k = 1 THEN c[1]
                              ELSE IF k % 2 = 0 THEN c[k] * m[1] + c[k + 1] * m[3] + u * m[5]
                              ELSE c[k - 1] * m[2] + c[k] * m[4] + u * m[6]]]
\* lo and hi in 1/100 of the PDF glyph space unit; coordinates in units of 1/(10 u)
PdfRangeOk(cc, j, lo, hi, u) ==
  LET S == OnPts(cc, j)
      s == Slack(cc, j)
      mn == MinOf(S) \div (K * K * K)
      mx == CeilDiv(MaxOf(S), K * K * K)
  IN IF s = 0 THEN AbsI(lo * u - 10 * mn) <= 2 * u /\ AbsI(hi * u - 10 * mx) <= 2 * u
     ELSE /\ lo * u <= 10 * mn + 10 + 2 * u /\ lo * u >= 10 * (mn - s) - 10 - 2 * u
          /\ hi * u >= 10 * mx - 10 - 2 * u /\ hi * u <= 10 * (mx + s) + 10 + 2 * u
PdfBoxOk(cc, box, m, u) ==
  IF {i \in 1..Len(cc) : cc[i][1] \in 1..3} = {} THEN box = Zero4
  ELSE LET mc == Moved(cc, m, u) IN PdfRangeOk(mc, 1, box[1], box[3], u) /\ PdfRangeOk(mc, 2, box[2], box[4], u)
BoxOk(cc, box, u) == IF {i \in 1..Len(cc) : cc[i][1] \in 1..3} = {} THEN box = Zero4
                     ELSE RangeOk(cc, 1, box[1], box[3], u) /\ RangeOk(cc, 2, box[2], box[4], u)

(***************************************************************************)
(* Averages and fixed pitch                                                *)
(***************************************************************************)
Positive(w) == {i \in 1..Len(w) : w[i] > 0}
Sum(w) == FoldLeft(LAMBDA a, x : a + MaxI(x, 0), 0, w)
Average(w) == LET k == Cardinality(Positive(w)) IN IF k = 0 THEN 0 ELSE (2 * Sum(w) + k) \div (2 * k)
\* widths in units of which a design unit has u
FixedPitch(w, u) == \A i, j \in {i \in 1..Len(w) : w[i] # 0} :
                      (i = MinOf({k \in 1..Len(w) : w[k] # 0})) => 2 * AbsI(w[i] - w[j]) < u

(***************************************************************************)
(* Widths and boxes in PDF units.  Matrices have entries in units of 1/10^4*)
(* and the results are in units of 1/100 of a glyph space unit.            *)
(***************************************************************************)
\* width w8/8, matrix m; v: the result
WidthPdfOk(v, w8, m) ==
  IF m[4] # 0 THEN AbsI(8 * v * m[4] - w8 * (m[1] * m[4] - m[2] * m[3]) * 10) <= 8 * AbsI(m[4])
  ELSE AbsI(8 * v - w8 * m[1] * 10) <= 8
MulM(a, b, u) ==      \* u: the unit of one of the factors is 1/u
  [i \in 1..6 |-> LET s == CASE i = 1 -> a[1] * b[1] + a[2] * b[3]
                             [] i = 2 -> a[1] * b[2] + a[2] * b[4]
                             [] i = 3 -> a[3] * b[1] + a[4] * b[3]
                             [] i = 4 -> a[3] * b[2] + a[4] * b[4]
                             [] i = 5 -> a[5] * b[1] + a[6] * b[3] + u * b[5]
                             [] i = 6 -> a[5] * b[2] + a[6] * b[4] + u * b[6]
                  IN s \div u]
=============================================================================
