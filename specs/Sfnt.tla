-------------------------------- MODULE Sfnt --------------------------------
(***************************************************************************)
(* The sfnt container as a predicate over bytes, written from the OpenType *)
(* specification ("otff").  32 bit sums are pairs <<high, low>> of 16 bit  *)
(* numbers.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SU16(b, o) == b[o + 1] * 256 + b[o + 2]
\* 32 bit offsets and lengths; -1 if they exceed every file considered here
SU32(b, o) == IF b[o + 1] >= 64 THEN -1 ELSE SU16(b, o) * 65536 + SU16(b, o + 2)
Pair32(b, o) == <<SU16(b, o), SU16(b, o + 2)>>

Add32(p, q) == LET s == p[2] + q[2] IN <<(p[1] + q[1] + s \div 65536) % 65536, s % 65536>>
Sub32(p, q) == LET s == p[2] - q[2] IN
               IF s >= 0 THEN <<(p[1] - q[1]) % 65536, s>> ELSE <<(p[1] - q[1] - 1) % 65536, s + 65536>>
ByteAt(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
\* the sum of the zero-padded data; two partial sums stay below 2^31
Sum32(d) ==
  LET n == (Len(d) + 3) \div 4
      full == Len(d) \div 4
      acc == FoldLeft(LAMBDA a, i :
               LET o == 4 * i - 3
                   lo == a[2] + d[o + 2] * 256 + d[o + 3]
               IN <<(a[1] + d[o] * 256 + d[o + 1] + lo \div 65536) % 65536, lo % 65536>>,
             <<0, 0>>, [i \in 1..full |-> i])
  IN IF n = full THEN acc
     ELSE LET o == 4 * n - 3 IN
          Add32(acc, <<ByteAt(d, o) * 256 + ByteAt(d, o + 1), ByteAt(d, o + 2) * 256 + ByteAt(d, o + 3)>>)

HeadTag == <<104, 101, 97, 100>>
Magic == <<45488, 44986>>        \* 0xB1B0AFBA

TagLess(s, t) == \E k \in 1..4 : s[k] < t[k] /\ \A j \in 1..(k - 1) : s[j] = t[j]
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

NumTables(b) == SU16(b, 4)
Rec(b, i) == LET o == 12 + 16 * (i - 1) IN
  [tag |-> SubSeq(b, o + 1, o + 4), sum |-> Pair32(b, o + 4), off |-> SU32(b, o + 8), len |-> SU32(b, o + 12)]
Dir(b) == [i \in 1..NumTables(b) |-> Rec(b, i)]
Body(b, r) == SubSeq(b, r.off + 1, r.off + r.len)

\* the data over which the checksum of a table is computed
SumData(r, d) == IF r.tag = HeadTag /\ Len(d) >= 12
                 THEN [i \in 1..Len(d) |-> IF i \in 9..12 THEN 0 ELSE d[i]]
                 ELSE d

\* Faults: the ways in which b is not a well-formed container
Faults(b) ==
  IF Len(b) < 12 THEN {"no header"}
  ELSE LET n == NumTables(b) IN
  IF n = 0 THEN {"no tables"}
  ELSE IF Len(b) < 12 + 16 * n THEN {"directory incomplete"}
  ELSE
  LET dir == Dir(b)
      e == Log2(n)
      search == IF SU16(b, 6) = 16 * Pow2(e) /\ SU16(b, 8) = e /\ SU16(b, 10) = 16 * (n - Pow2(e)) THEN {} ELSE {"search fields"}
      order == IF \A i \in 1..(n - 1) : TagLess(dir[i].tag, dir[i + 1].tag) THEN {} ELSE {"tags not ascending"}
      inside == IF \A i \in 1..n : dir[i].off >= 12 + 16 * n /\ dir[i].len >= 0 /\ dir[i].off + dir[i].len <= Len(b)
                THEN {} ELSE {"table outside the file"}
      align == IF \A i \in 1..n : dir[i].off % 4 = 0 THEN {} ELSE {"table not aligned"}
  IN IF inside # {} THEN search \cup order \cup inside \cup align
  ELSE
  LET byOff == SortSeq(SelectSeq(dir, LAMBDA r : r.len > 0), LAMBDA r, s : r.off < s.off)
      m == Len(byOff)
      overlap == IF \A i \in 1..(m - 1) : byOff[i].off + byOff[i].len <= byOff[i + 1].off THEN {} ELSE {"tables overlap"}
      GapZero(i) == LET from == IF i = 0 THEN 12 + 16 * n ELSE byOff[i].off + byOff[i].len
                        to == IF i = m THEN Len(b) ELSE byOff[i + 1].off
                    IN \A k \in (from + 1)..to : b[k] = 0
      pads == IF \A i \in 0..m : GapZero(i) THEN {} ELSE {"padding not zero"}
      sums == IF \A i \in 1..n : Sum32(SumData(dir[i], Body(b, dir[i]))) = dir[i].sum THEN {} ELSE {"table checksum"}
      head == SelectSeq(dir, LAMBDA r : r.tag = HeadTag /\ r.len >= 12)
      total == IF head = <<>> \/ Sum32(b) = Magic THEN {} ELSE {"file checksum"}
  IN search \cup order \cup inside \cup align \cup overlap \cup pads \cup sums \cup total

\* the tables of the container, as a set of <<tag, data>>; the checksum
\* adjustment is not part of the contents
Masked(tag, d) == IF tag = HeadTag /\ Len(d) >= 12
                  THEN [i \in 1..Len(d) |-> IF i \in 9..12 THEN 0 ELSE d[i]] ELSE d
Tables(b) == LET dir == Dir(b) IN {<<dir[i].tag, Masked(dir[i].tag, Body(b, dir[i]))>> : i \in 1..Len(dir)}
=============================================================================
