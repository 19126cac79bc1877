--------------------------------- MODULE Cff --------------------------------
(***************************************************************************)
(* CFF font files as a decoding machine over bytes, written from Adobe     *)
(* technical note 5176: INDEX, DICT (integers and reals), charsets,        *)
(* encodings, FDSelect, private dictionaries, and the advance widths of    *)
(* charstrings without subroutine calls.                                   *)
(*                                                                         *)
(* A real number is <<m, e>> = m * 10^(e-8), where m has nine digits, or   *)
(* <<0, 0>>.  A fixed point number is <<integer part, 1/65536 units>>.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, CffTables

B(b, p) == IF p < Len(b) THEN b[p + 1] ELSE 0       \* byte at offset p
U16(b, p) == B(b, p) * 256 + B(b, p + 1)
I16(v) == IF v >= 32768 THEN v - 65536 ELSE v
I32(b, p) == I16(U16(b, p)) * 65536 + U16(b, p + 2)
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
RECURSIVE NDigits(_)
NDigits(n) == IF n < 10 THEN 1 ELSE 1 + NDigits(n \div 10)
Abs(n) == IF n < 0 THEN -n ELSE n

\* an integer as a real number with nine digits
Dec9(n) == IF n = 0 THEN <<0, 0>>
           ELSE IF n = -2147483647 - 1 THEN <<-214748365, 9>>
           ELSE IF Abs(n) >= 1000000000
           THEN LET q == Abs(n) \div 10      \* rounded, ties to even
                    t == Abs(n) % 10
                    r == IF t > 5 \/ (t = 5 /\ q % 2 = 1) THEN q + 1 ELSE q
                IN <<IF n < 0 THEN -r ELSE r, 9>>
           ELSE LET k == NDigits(Abs(n)) IN <<n * P10(9 - k), k - 1>>

(***************************************************************************)
(* INDEX                                                                   *)
(***************************************************************************)
BadIndex == [ok |-> FALSE, items |-> <<>>, end |-> 0]
RECURSIVE Off(_, _, _)
Off(b, p, n) == IF n = 0 THEN 0 ELSE Off(b, p, n - 1) * 256 + B(b, p + n - 1)
Index(b, p) ==
  IF p + 2 > Len(b) THEN BadIndex
  ELSE LET n == U16(b, p) IN
  IF n = 0 THEN [ok |-> TRUE, items |-> <<>>, end |-> p + 2]
  ELSE LET sz == B(b, p + 2)
           base == p + 3 + (n + 1) * sz - 1
       IN IF sz \notin 1..4 \/ base + 1 > Len(b) THEN BadIndex
          ELSE IF sz = 4 /\ \E i \in 0..n : B(b, p + 3 + i * 4) >= 64 THEN BadIndex
          ELSE LET o == [i \in 1..(n + 1) |-> Off(b, p + 3 + (i - 1) * sz, sz)] IN
               IF o[1] # 1 \/ (\E i \in 1..n : o[i] > o[i + 1]) \/ base + o[n + 1] > Len(b) THEN BadIndex
               ELSE [ok |-> TRUE, end |-> base + o[n + 1],
                     items |-> [i \in 1..n |-> SubSeq(b, base + o[i] + 1, base + o[i + 1])]]

(***************************************************************************)
(* DICT data.  Operands are <<0, n, 0>> or <<1, m, e>>.                    *)
(***************************************************************************)
RECURSIVE Nibbles(_, _, _)
Nibbles(d, p, acc) ==      \* the nibbles before the terminator, and the end
  IF p >= Len(d) THEN [ok |-> FALSE, n |-> acc, end |-> p]
  ELSE LET h == B(d, p) \div 16
           lo == B(d, p) % 16
       IN IF h = 15 THEN [ok |-> TRUE, n |-> acc, end |-> p + 1]
          ELSE IF lo = 15 THEN [ok |-> TRUE, n |-> Append(acc, h), end |-> p + 1]
          ELSE Nibbles(d, p + 1, acc \o <<h, lo>>)

RealStep(s, x) ==
  IF x = 10 THEN [s EXCEPT !.dot = TRUE]
  ELSE IF x = 14 THEN [s EXCEPT !.neg = TRUE]
  ELSE IF x = 11 THEN [s EXCEPT !.inexp = TRUE]
  ELSE IF x = 12 THEN [s EXCEPT !.inexp = TRUE, !.eneg = TRUE]
  ELSE IF s.inexp THEN [s EXCEPT !.exp = IF s.exp > 9999 THEN s.exp ELSE 10 * s.exp + x]
  ELSE IF s.m = 0 /\ x = 0 THEN [s EXCEPT !.frac = IF s.dot THEN @ + 1 ELSE @]
  ELSE IF s.k < 9 THEN [s EXCEPT !.m = 10 * @ + x, !.k = @ + 1, !.frac = IF s.dot THEN @ + 1 ELSE @]
  ELSE \* more than nine digits: truncate
       [s EXCEPT !.frac = IF s.dot THEN @ ELSE @ - 1]
RealValue(nn) ==
  LET s == FoldLeft(RealStep, [m |-> 0, k |-> 0, frac |-> 0, dot |-> FALSE, neg |-> FALSE, inexp |-> FALSE, eneg |-> FALSE, exp |-> 0], nn)
      x == (IF s.eneg THEN -s.exp ELSE s.exp) - s.frac
      m9 == s.m * P10(9 - s.k)
  IN IF s.m = 0 THEN <<0, 0>> ELSE <<IF s.neg THEN -m9 ELSE m9, x + s.k - 1>>
\* a well-formed real number: optional sign, digits with at most one point, optional exponent
RealWf(nn) ==
  LET Pos(S) == {i \in 1..Len(nn) : nn[i] \in S} IN
  /\ Pos({13}) = {}
  /\ Pos({14}) \subseteq {1}
  /\ Cardinality(Pos({10})) <= 1
  /\ Cardinality(Pos({11, 12})) <= 1
  /\ \A i \in Pos({11, 12}) : (\A j \in Pos({10}) : j < i) /\ i < Len(nn) /\ \E j \in 1..(i - 1) : nn[j] < 10
  /\ Pos(0..9) # {}

RECURSIVE DictFrom(_, _, _, _)
DictFrom(d, p, args, acc) ==
  IF p >= Len(d) THEN [ok |-> args = <<>>, d |-> acc]
  ELSE LET b0 == B(d, p) IN
  CASE b0 = 12 -> IF p + 1 >= Len(d) THEN [ok |-> FALSE, d |-> acc]
                  ELSE DictFrom(d, p + 2, <<>>, Append(acc, <<1200 + B(d, p + 1), args>>))
    [] b0 <= 21 /\ b0 # 12 -> DictFrom(d, p + 1, <<>>, Append(acc, <<b0, args>>))
    [] b0 = 28 -> IF p + 2 >= Len(d) THEN [ok |-> FALSE, d |-> acc]
                  ELSE DictFrom(d, p + 3, Append(args, <<0, I16(U16(d, p + 1)), 0>>), acc)
    [] b0 = 29 -> IF p + 4 >= Len(d) THEN [ok |-> FALSE, d |-> acc]
                  ELSE DictFrom(d, p + 5, Append(args, <<0, I32(d, p + 1), 0>>), acc)
    [] b0 = 30 -> LET r == Nibbles(d, p + 1, <<>>) IN
                  IF ~r.ok \/ ~RealWf(r.n) THEN [ok |-> FALSE, d |-> acc]
                  ELSE LET v == RealValue(r.n) IN DictFrom(d, r.end, Append(args, <<1, v[1], v[2]>>), acc)
    [] b0 >= 32 /\ b0 <= 246 -> DictFrom(d, p + 1, Append(args, <<0, b0 - 139, 0>>), acc)
    [] b0 >= 247 /\ b0 <= 250 -> IF p + 1 >= Len(d) THEN [ok |-> FALSE, d |-> acc]
                  ELSE DictFrom(d, p + 2, Append(args, <<0, (b0 - 247) * 256 + B(d, p + 1) + 108, 0>>), acc)
    [] b0 >= 251 /\ b0 <= 254 -> IF p + 1 >= Len(d) THEN [ok |-> FALSE, d |-> acc]
                  ELSE DictFrom(d, p + 2, Append(args, <<0, -(b0 - 251) * 256 - B(d, p + 1) - 108, 0>>), acc)
    [] OTHER -> [ok |-> FALSE, d |-> acc]
Dict(d) == DictFrom(d, 0, <<>>, <<>>)

Has(d, op) == \E i \in 1..Len(d) : d[i][1] = op
Args(d, op) == d[CHOOSE i \in 1..Len(d) : d[i][1] = op /\ \A j \in (i + 1)..Len(d) : d[j][1] # op][2]
IsInt(d, op) == Has(d, op) /\ Len(Args(d, op)) = 1 /\ Args(d, op)[1][1] = 0
IntOf(d, op, def) == IF IsInt(d, op) THEN Args(d, op)[1][2] ELSE def
Real(x) == IF x[1] = 0 THEN Dec9(x[2]) ELSE <<x[2], x[3]>>
Num(d, op, def) == IF Has(d, op) /\ Len(Args(d, op)) = 1 THEN Real(Args(d, op)[1]) ELSE def
Delta(d, op) ==
  IF ~Has(d, op) THEN <<>>
  ELSE LET a == Args(d, op)
           sum == FoldLeft(LAMBDA acc, x : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + x[2]), <<>>, a)
       IN sum

Str(strs, sid) == IF sid >= 0 /\ sid < 391 THEN StdStrings[sid + 1]
                  ELSE IF sid - 390 \in 1..Len(strs) THEN strs[sid - 390] ELSE <<-1>>
StrOf(d, op, strs) == IF IsInt(d, op) THEN Str(strs, IntOf(d, op, 0)) ELSE <<>>

(***************************************************************************)
(* Charset: SIDs or CIDs of all glyphs                                     *)
(***************************************************************************)
RECURSIVE Ranges(_, _, _, _, _)
Ranges(b, p, w, n, acc) ==   \* w: bytes of nLeft
  IF Len(acc) >= n THEN acc
  ELSE IF p + 2 + w > Len(b) THEN <<>>
  ELSE LET first == U16(b, p)
           left == Off(b, p + 2, w)
       IN Ranges(b, p + 2 + w, w, n, acc \o [i \in 1..(left + 1) |-> first + i - 1])
Charset(b, p, n) ==
  LET f == B(b, p)
      s == CASE f = 0 -> <<0>> \o [i \in 1..(n - 1) |-> U16(b, p + 2 * i - 1)]
             [] f = 1 -> Ranges(b, p + 1, 1, n, <<0>>)
             [] f = 2 -> Ranges(b, p + 1, 2, n, <<0>>)
             [] OTHER -> <<>>
  IN [ok |-> Len(s) = n /\ p < Len(b) /\ (f = 0 => p + 2 * n - 1 <= Len(b)), s |-> s]

(***************************************************************************)
(* Encoding: glyph index for each of the 256 codes                         *)
(***************************************************************************)
GidOf(charset, sid) == IF \E g \in 1..Len(charset) : charset[g] = sid
                       THEN (CHOOSE g \in 1..Len(charset) : charset[g] = sid) - 1 ELSE 0
Predefined(tab, charset) ==
  LET rel == [g \in 1..Len(charset) |-> charset[g]] IN
  [c \in 1..256 |-> IF tab[c] = 0 THEN 0 ELSE GidOf(charset, tab[c])]
\* the codes of glyphs 1, 2, 3, ...
RECURSIVE CodeRanges(_, _, _, _)
CodeRanges(b, p, k, acc) == IF k = 0 THEN acc
                            ELSE CodeRanges(b, p + 2, k - 1, acc \o [i \in 1..(B(b, p + 1) + 1) |-> B(b, p) + i - 1])
Encoding(b, p, charset) ==
  LET f == B(b, p) % 128
      k == B(b, p + 1)
      codes == IF f = 0 THEN [i \in 1..k |-> B(b, p + 1 + i)] ELSE CodeRanges(b, p + 2, k, <<>>)
      q == IF f = 0 THEN p + 2 + k ELSE p + 2 + 2 * k
      nsup == IF B(b, p) >= 128 THEN B(b, q) ELSE 0
      sup == [i \in 1..nsup |-> <<B(b, q + 3 * i - 2), U16(b, q + 3 * i - 1)>>]
      all == [i \in 1..Len(codes) |-> codes[i]] \o [i \in 1..nsup |-> sup[i][1]]
      pri == FoldLeft(LAMBDA e, i : [e EXCEPT ![codes[i] + 1] = i], [c \in 1..256 |-> 0], [i \in 1..Len(codes) |-> i])
      res == FoldLeft(LAMBDA e, i : [e EXCEPT ![sup[i][1] + 1] = GidOf(charset, sup[i][2])], pri, [i \in 1..nsup |-> i])
      ok == /\ f \in {0, 1}
            /\ q + (IF B(b, p) >= 128 THEN 1 + 3 * nsup ELSE 0) <= Len(b)
            /\ \A i \in 1..Len(all) : all[i] <= 255
            /\ \A i, j \in 1..Len(all) : i < j => all[i] # all[j]
            /\ Len(codes) < Len(charset)
  IN IF ok THEN [ok |-> TRUE, e |-> res] ELSE [ok |-> FALSE, e |-> <<>>]

(***************************************************************************)
(* FDSelect: index of the font dictionary of every glyph                   *)
(***************************************************************************)
FDSelect(b, p, n, nfd) ==
  LET f == B(b, p)
      k == U16(b, p + 1)
      First(i) == U16(b, p + 3 * i)
      Fd(i) == B(b, p + 3 * i + 2)
      s == IF f = 0 THEN [i \in 1..n |-> B(b, p + i)]
           ELSE FlattenSeq([i \in 1..k |-> [j \in 1..(First(i + 1) - First(i)) |-> Fd(i)]])
      ok == /\ f \in {0, 3}
            /\ (f = 0) => (p + 1 + n <= Len(b))
            /\ (f = 3) => /\ p + 5 + 3 * k <= Len(b) /\ k >= 1 /\ First(1) = 0
                          /\ \A i \in 1..k : First(i) < First(i + 1)
                          /\ First(k + 1) = n
  IN IF ~ok THEN [ok |-> FALSE, s |-> <<>>]
     ELSE [ok |-> \A i \in 1..n : s[i] < nfd, s |-> s]

(***************************************************************************)
(* Widths                                                                  *)
(***************************************************************************)
FixOf(r) ==       \* a real number with a fractional part which is a multiple of 1/8
  LET m == r[1]
      e == r[2]
      a == Abs(m)
      n == IF m = 0 THEN 0
           ELSE IF e >= 8 THEN 999999
           ELSE IF e >= 0 THEN (a \div P10(8 - e)) * 8 + ((((a % P10(8 - e)) \div 10) * 8) \div P10(7 - e))
           ELSE IF e >= -2 THEN ((a \div 100000) * 8) \div P10(3 - e) ELSE 0
      v == IF m < 0 THEN -n ELSE n
  IN <<v \div 8, (v % 8) * 8192>>
FixAdd(x, y) == <<x[1] + y[1] + (x[2] + y[2]) \div 65536, (x[2] + y[2]) % 65536>>
\* the operands before the first operator, and the operator
RECURSIVE Numbers(_, _, _)
Numbers(c, p, acc) ==
  IF p >= Len(c) THEN [op |-> -1, n |-> acc]
  ELSE LET b0 == B(c, p) IN
  CASE b0 = 28 -> Numbers(c, p + 3, Append(acc, <<I16(U16(c, p + 1)), 0>>))
    [] b0 >= 32 /\ b0 <= 246 -> Numbers(c, p + 1, Append(acc, <<b0 - 139, 0>>))
    [] b0 >= 247 /\ b0 <= 250 -> Numbers(c, p + 2, Append(acc, <<(b0 - 247) * 256 + B(c, p + 1) + 108, 0>>))
    [] b0 >= 251 /\ b0 <= 254 -> Numbers(c, p + 2, Append(acc, <<-(b0 - 251) * 256 - B(c, p + 1) - 108, 0>>))
    [] b0 = 255 -> Numbers(c, p + 5, Append(acc, <<I16(U16(c, p + 1)), U16(c, p + 3)>>))
    [] OTHER -> [op |-> b0, n |-> acc]
\* the width of a charstring; ok only if no subroutine or arithmetic comes first
Width(c, dw, nw) ==
  LET r == Numbers(c, 0, <<>>)
      k == Len(r.n)
      has == CASE r.op \in {1, 3, 18, 23, 19, 20} -> k % 2 = 1
               [] r.op = 21 -> k > 2
               [] r.op \in {4, 22} -> k > 1
               [] r.op = 14 -> k \in {1, 5}
               [] OTHER -> FALSE
  IN [ok |-> r.op \in {1, 3, 18, 23, 19, 20, 21, 4, 22, 14}, w |-> IF has THEN FixAdd(nw, r.n[1]) ELSE dw]

(***************************************************************************)
(* The font                                                                *)
(***************************************************************************)
Identity == <<<<100000000, 0>>, <<0, 0>>, <<0, 0>>, <<100000000, 0>>, <<0, 0>>, <<0, 0>>>>
Milli == <<<<100000000, -3>>, <<0, 0>>, <<0, 0>>, <<100000000, -3>>, <<0, 0>>, <<0, 0>>>>
Matrix(d, def) == IF Has(d, 1207) /\ Len(Args(d, 1207)) = 6
                  THEN [i \in 1..6 |-> Real(Args(d, 1207)[i])] ELSE def

Private(b, d) ==
  IF ~Has(d, 18) \/ Len(Args(d, 18)) # 2 THEN [ok |-> FALSE]
  ELSE LET sz == Args(d, 18)[1][2]
           off == Args(d, 18)[2][2]
       IN IF sz < 0 \/ off < 4 \/ off + sz > Len(b) THEN [ok |-> FALSE]
          ELSE LET q == Dict(SubSeq(b, off + 1, off + sz)) IN
               IF ~q.ok THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE,
                     p |-> [bv |-> Delta(q.d, 6), ob |-> Delta(q.d, 7),
                            bs |-> Num(q.d, 1209, <<396250000, -2>>),
                            bsh |-> IntOf(q.d, 1210, 7), bf |-> IntOf(q.d, 1211, 1),
                            hw |-> Num(q.d, 10, <<0, 0>>), vw |-> Num(q.d, 11, <<0, 0>>),
                            fb |-> IntOf(q.d, 1214, 0) # 0],
                     dw |-> FixOf(Num(q.d, 20, <<0, 0>>)), nw |-> FixOf(Num(q.d, 21, <<0, 0>>)),
                     subrs |-> IF Has(q.d, 19) THEN LET x == Index(b, off + IntOf(q.d, 19, 0)) IN x.ok ELSE TRUE]

Bad(why) == [ok |-> FALSE, why |-> why]
Parse(b) ==
  IF Len(b) < 4 \/ b[1] # 1 THEN Bad("header")
  ELSE
  LET nameIdx == Index(b, b[3]) IN
  IF ~nameIdx.ok \/ Len(nameIdx.items) # 1 THEN Bad("name INDEX") ELSE
  LET topIdx == Index(b, nameIdx.end) IN
  IF ~topIdx.ok \/ Len(topIdx.items) # 1 THEN Bad("top DICT INDEX") ELSE
  LET strIdx == Index(b, topIdx.end)
      top == Dict(topIdx.items[1]) IN
  IF ~strIdx.ok \/ ~top.ok THEN Bad("string INDEX or top DICT") ELSE
  LET strs == strIdx.items
      gs == Index(b, strIdx.end)
      d == top.d
      isCID == Has(d, 1230)
      cs == Index(b, IntOf(d, 17, 0))
  IN IF ~gs.ok \/ ~cs.ok \/ cs.items = <<>> THEN Bad("subrs or charstrings")
  ELSE
  LET n == Len(cs.items)
      csOff == IntOf(d, 15, 0)
      charset == IF isCID \/ csOff > 2 THEN Charset(b, csOff, n)
                 ELSE LET tab == CASE csOff = 0 -> IsoAdobe [] csOff = 1 -> ExpertCharset [] csOff = 2 -> ExpertSubset
                      IN [ok |-> n <= Len(tab), s |-> SubSeq(tab, 1, n)]
      fda == IF isCID THEN Index(b, IntOf(d, 1236, 0)) ELSE [ok |-> TRUE, items |-> <<>>, end |-> 0]
      fdd == [i \in 1..Len(fda.items) |-> Dict(fda.items[i])]
  IN IF ~charset.ok \/ ~fda.ok \/ (\E i \in 1..Len(fdd) : ~fdd[i].ok) THEN Bad("charset or font DICT INDEX")
  ELSE
  LET priv == IF isCID THEN [i \in 1..Len(fdd) |-> Private(b, fdd[i].d)] ELSE <<Private(b, d)>>
      fds == IF isCID THEN FDSelect(b, IntOf(d, 1237, 0), n, Len(fdd)) ELSE [ok |-> TRUE, s |-> [i \in 1..n |-> 0]]
      encOff == IntOf(d, 16, 0)
      enc == IF isCID THEN [ok |-> TRUE, e |-> <<>>]
             ELSE IF encOff = 0 THEN [ok |-> TRUE, e |-> Predefined(StdEncoding, charset.s)]
             ELSE IF encOff = 1 THEN [ok |-> TRUE, e |-> Predefined(ExpertEncoding, charset.s)]
             ELSE Encoding(b, encOff, charset.s)
  IN IF \E i \in 1..Len(priv) : ~priv[i].ok \/ ~priv[i].subrs THEN Bad("private DICT")
  ELSE IF ~fds.ok THEN Bad("FDSelect")
  ELSE IF ~enc.ok THEN Bad("encoding")
  ELSE
  LET ww == [i \in 1..n |-> Width(cs.items[i], priv[fds.s[i] + 1].dw, priv[fds.s[i] + 1].nw)]
      ros == IF isCID THEN LET a == Args(d, 1230) IN <<Str(strs, a[1][2]), Str(strs, a[2][2]), <<a[3][2]>>>> ELSE <<>>
  IN [ok |-> TRUE, why |-> "",
      f |-> [name |-> nameIdx.items[1], cid |-> isCID, ros |-> ros,
             names |-> IF isCID THEN <<>> ELSE [i \in 1..n |-> Str(strs, charset.s[i])],
             cids |-> IF isCID THEN charset.s ELSE <<>>,
             enc |-> enc.e, fd |-> fds.s,
             priv |-> [i \in 1..Len(priv) |-> priv[i].p],
             mats |-> [i \in 1..Len(fdd) |-> Matrix(fdd[i].d, Milli)],
             info |-> [version |-> StrOf(d, 0, strs), notice |-> StrOf(d, 1, strs), copyright |-> StrOf(d, 1200, strs),
                       full |-> StrOf(d, 2, strs), family |-> StrOf(d, 3, strs), weight |-> StrOf(d, 4, strs),
                       fixed |-> IntOf(d, 1201, 0) # 0, angle |-> Num(d, 1202, <<0, 0>>),
                       upos |-> Num(d, 1203, <<-100000000, 2>>), uth |-> Num(d, 1204, <<500000000, 1>>),
                       mat |-> Matrix(d, IF isCID THEN Identity ELSE Milli)]],
      w |-> ww]
=============================================================================
