-------------------------------- MODULE Cmap --------------------------------
(***************************************************************************)
(* The cmap subtable formats 0, 4, 6 and 12 as decoding machines over      *)
(* bytes, written from the OpenType specification, and the cmap table.     *)
(*                                                                         *)
(* A mapping is a sequence of runs <<first, last, gid>>: code c in         *)
(* first..last has glyph gid + (c - first).  In canonical form the runs    *)
(* are sorted, disjoint, maximal and do not contain glyph 0.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, MacRoman

W16 == 65536
U8(b, o) == b[o + 1]
U16(b, o) == b[o + 1] * 256 + b[o + 2]
\* 32 bit values which do not fit in 31 bits are represented by -1
U32(b, o) == IF b[o + 1] >= 128 THEN -1 ELSE ((b[o + 1] * 256 + b[o + 2]) * 256 + b[o + 3]) * 256 + b[o + 4]

Iota(n) == [i \in 1..n |-> i]

RECURSIVE FlatR(_, _, _)
FlatR(f, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN f[i]
                  ELSE LET m == (i + j) \div 2 IN FlatR(f, i, m) \o FlatR(f, m + 1, j)
Flat(f) == FlatR(f, 1, Len(f))

\* drop glyph 0 and merge adjacent runs
NoZero(r) == IF r[3] = 0 THEN (IF r[1] = r[2] THEN <<>> ELSE << <<r[1] + 1, r[2], 1>> >>) ELSE << r >>
Canon(rr0) ==
  LET rr == Flat([i \in 1..Len(rr0) |-> NoZero(rr0[i])])
      n == Len(rr)
      Cont(i) == rr[i][1] = rr[i-1][2] + 1 /\ rr[i][3] = rr[i-1][3] + (rr[i-1][2] - rr[i-1][1]) + 1
      heads == SelectSeq(Iota(n), LAMBDA i : i = 1 \/ ~Cont(i))
      m == Len(heads)
  IN [j \in 1..m |-> <<rr[heads[j]][1], rr[IF j = m THEN n ELSE heads[j+1] - 1][2], rr[heads[j]][3]>>]

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

----------------------------------------------------------------------------
\* format 4
F4Seg(b) == U16(b, 6) \div 2
F4End(b, k) == U16(b, 14 + 2 * (k - 1))
F4Start(b, k) == U16(b, 16 + 2 * F4Seg(b) + 2 * (k - 1))
F4Delta(b, k) == U16(b, 16 + 4 * F4Seg(b) + 2 * (k - 1))
F4RoPos(b, k) == 16 + 6 * F4Seg(b) + 2 * (k - 1)
F4Ro(b, k) == U16(b, F4RoPos(b, k))
\* byte position of the glyphIdArray entry for code c of segment k
F4Pos(b, k, c) == F4RoPos(b, k) + F4Ro(b, k) + 2 * (c - F4Start(b, k))

F4Shape(b) == /\ Len(b) >= 16
              /\ U16(b, 0) = 4
              /\ U16(b, 2) = Len(b)
              /\ U16(b, 6) % 2 = 0
              /\ F4Seg(b) >= 1
              /\ Len(b) >= 16 + 8 * F4Seg(b)
              /\ Len(b) % 2 = 0
F4Search(b) == LET e == Log2(F4Seg(b)) IN
              /\ U16(b, 8) = 2 * Pow2(e)
              /\ U16(b, 10) = e
              /\ U16(b, 12) = U16(b, 6) - U16(b, 8)
F4Segments(b) == /\ \A k \in 1..F4Seg(b) : /\ F4Start(b, k) <= F4End(b, k)
                                           /\ k > 1 => F4Start(b, k) > F4End(b, k - 1)
                 /\ F4End(b, F4Seg(b)) = 65535
F4Offsets(b) == \A k \in 1..F4Seg(b) : F4Ro(b, k) # 0 =>
                 /\ F4Ro(b, k) % 2 = 0
                 /\ F4Pos(b, k, F4Start(b, k)) >= 16 + 8 * F4Seg(b)
                 /\ F4Pos(b, k, F4End(b, k)) + 2 <= Len(b)
F4Wf(b) == F4Shape(b) /\ F4Search(b) /\ U16(b, 14 + 2 * F4Seg(b)) = 0 /\ F4Segments(b) /\ F4Offsets(b)

\* runs of a segment
F4DeltaRuns(s, e, d) ==
  LET g == (s + d) % W16
      wrap == s + (W16 - g)     \* first code with glyph 0 after the wrap
  IN IF wrap > e THEN << <<s, e, g>> >> ELSE << <<s, wrap - 1, g>>, <<wrap, e, 0>> >>
F4SegRuns(b, k) ==
  LET s == F4Start(b, k)  e == F4End(b, k)  d == F4Delta(b, k) IN
  IF F4Ro(b, k) = 0 THEN F4DeltaRuns(s, e, d)
  ELSE LET p0 == F4Pos(b, k, s) IN
       [i \in 1..(e - s + 1) |-> LET v == U16(b, p0 + 2 * (i - 1)) IN
            <<s + i - 1, s + i - 1, IF v = 0 THEN 0 ELSE (v + d) % W16>>]
F4Runs(b) == Canon(Flat([k \in 1..F4Seg(b) |-> F4SegRuns(b, k)]))

\* the search of the OpenType specification for one code: the first segment
\* whose end code is not smaller than the code
F4Lookup(b, c) ==
  LET k == CHOOSE k \in 1..F4Seg(b) : F4End(b, k) >= c /\ \A j \in 1..(k-1) : F4End(b, j) < c IN
  IF F4Start(b, k) > c THEN 0
  ELSE IF F4Ro(b, k) = 0 THEN (c + F4Delta(b, k)) % W16
  ELSE LET v == U16(b, F4Pos(b, k, c)) IN IF v = 0 THEN 0 ELSE (v + F4Delta(b, k)) % W16

----------------------------------------------------------------------------
\* format 12
F12N(b) == U32(b, 12)
F12G(b, k, j) == U32(b, 16 + 12 * (k - 1) + 4 * j)
F12Shape(b) == /\ Len(b) >= 16
               /\ U16(b, 0) = 12 /\ U16(b, 2) = 0
               /\ U32(b, 4) = Len(b)
               /\ F12N(b) >= 0 /\ F12N(b) < 1000000
               /\ Len(b) = 16 + 12 * F12N(b)
F12Groups(b) == \A k \in 1..F12N(b) :
               /\ F12G(b, k, 0) >= 0 /\ F12G(b, k, 1) >= F12G(b, k, 0)
               /\ F12G(b, k, 1) <= 1114111
               /\ F12G(b, k, 2) >= 0
               /\ F12G(b, k, 2) <= 65535 /\ F12G(b, k, 2) + (F12G(b, k, 1) - F12G(b, k, 0)) <= 65535
               /\ k > 1 => F12G(b, k, 0) > F12G(b, k - 1, 1)
F12Wf(b) == F12Shape(b) /\ F12Groups(b)
F12Runs(b) == Canon([k \in 1..F12N(b) |-> <<F12G(b, k, 0), F12G(b, k, 1), F12G(b, k, 2)>>])
RECURSIVE F12SizeR(_, _)
F12SizeR(b, k) == IF k = 0 THEN 0 ELSE F12SizeR(b, k - 1) + (F12G(b, k, 1) - F12G(b, k, 0) + 1)
F12Size(b) == F12SizeR(b, F12N(b))

----------------------------------------------------------------------------
\* formats 0 and 6
F0Wf(b) == Len(b) = 262 /\ U16(b, 0) = 0 /\ U16(b, 2) = 262
F0Runs(b) == Canon([i \in 1..256 |-> <<i - 1, i - 1, U8(b, 5 + i)>>])

F6Wf(b) == /\ Len(b) >= 10 /\ U16(b, 0) = 6 /\ U16(b, 2) = Len(b)
           /\ Len(b) = 10 + 2 * U16(b, 8)
           /\ U16(b, 6) + U16(b, 8) <= W16
F6Runs(b) == Canon([i \in 1..U16(b, 8) |-> LET c == U16(b, 6) + i - 1 IN <<c, c, U16(b, 8 + 2 * i)>>])

----------------------------------------------------------------------------
Format(b) == U16(b, 0)
Wf(b) == CASE Format(b) = 0 -> F0Wf(b) [] Format(b) = 4 -> F4Wf(b) [] Format(b) = 6 -> F6Wf(b)
           [] Format(b) = 12 -> F12Wf(b) [] OTHER -> FALSE
Runs(b) == CASE Format(b) = 0 -> F0Runs(b) [] Format(b) = 4 -> F4Runs(b) [] Format(b) = 6 -> F6Runs(b)
             [] Format(b) = 12 -> F12Runs(b)

\* the pairs of a mapping with codes below 256, with codes taken as Mac Roman
Expand(rr) == UNION {{<<c, r[3] + (c - r[1])>> : c \in r[1]..r[2]} : r \in {rr[i] : i \in 1..Len(rr)}}
MacPairs(rr) == {<<MacRune(p[1]), p[2]>> : p \in {q \in Expand(rr) : q[1] < 256}}
MaxCode(rr) == IF rr = <<>> THEN -1 ELSE rr[Len(rr)][2]

----------------------------------------------------------------------------
\* the table: keys is the sorted sequence of <<platform, encoding, offset>>
TabN(b) == U16(b, 2)
TabKey(b, k) == <<U16(b, 8 * k - 4), U16(b, 8 * k - 2)>>
TabOff(b, k) == U32(b, 8 * k)
SubLen(b, o) == IF U16(b, o) \in {0, 2, 4, 6} THEN U16(b, o + 2)
                ELSE IF U16(b, o) = 14 THEN U32(b, o + 2) ELSE U32(b, o + 4)
SubLang(b, o) == IF U16(b, o) \in {0, 2, 4, 6} THEN U16(b, o + 4)
                 ELSE IF U16(b, o) = 14 THEN 0 ELSE U16(b, o + 10)
Less(a, c) == \E i \in 1..3 : a[i] < c[i] /\ \A j \in 1..(i-1) : a[j] = c[j]
TabLayout(b) ==
  /\ Len(b) >= 4 /\ U16(b, 0) = 0
  /\ Len(b) >= 4 + 8 * TabN(b)
  /\ \A k \in 1..TabN(b) : LET o == TabOff(b, k) IN
        /\ o >= 4 + 8 * TabN(b) /\ o + 10 <= Len(b)
        /\ SubLen(b, o) >= 10 /\ o + SubLen(b, o) <= Len(b)
TabKey3(b, k) == LET o == TabOff(b, k) IN
   <<TabKey(b, k)[1], TabKey(b, k)[2], IF TabKey(b, k)[1] = 1 THEN SubLang(b, o) ELSE 0>>
\* entries sorted by platform, encoding and language; subtables identical or disjoint
TabSorted(b) == \A k \in 2..TabN(b) : Less(TabKey3(b, k - 1), TabKey3(b, k))
TabDisjoint(b) == \A k, j \in 1..TabN(b) : LET o == TabOff(b, k)  p == TabOff(b, j) IN
   o < p => o + SubLen(b, o) <= p
TabWf(b) == TabLayout(b) /\ TabSorted(b) /\ TabDisjoint(b)

\* the classes of encodings for the choice of the best subtable
Class(p, e) == CASE <<p, e>> \in {<<3, 10>>, <<0, 4>>, <<0, 6>>} -> 1
                 [] <<p, e>> \in {<<3, 1>>, <<0, 3>>, <<0, 0>>, <<0, 1>>, <<0, 2>>} -> 2
                 [] OTHER -> 3
=============================================================================
