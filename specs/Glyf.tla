-------------------------------- MODULE Glyf --------------------------------
(***************************************************************************)
(* The TrueType "loca" and "glyf" tables as decoding machines over bytes,  *)
(* written from the OpenType specification, and the outlines described by  *)
(* the decoded glyphs.                                                     *)
(*                                                                         *)
(* A glyph is a record                                                     *)
(*   [k |-> 0]                                    empty                    *)
(*   [k |-> 1, bb |-> <<llx,lly,urx,ury>>, nc |-> n, e |-> bytes]   simple *)
(*   [k |-> 2, bb |-> .., c |-> comps, hi |-> bool, ins |-> bytes]         *)
(* where a component is the sequence <<flags, gid>> \o (argument bytes).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

GU16(b, o) == b[o + 1] * 256 + b[o + 2]
GS16(b, o) == LET v == GU16(b, o) IN IF v >= 32768 THEN v - 65536 ELSE v
Bit(x, m) == (x \div m) % 2 = 1

----------------------------------------------------------------------------
\* loca
LocaN(fmt, b) == IF fmt = 0 THEN Len(b) \div 2 ELSE Len(b) \div 4
LocaOff(fmt, b, i) == IF fmt = 0 THEN 2 * GU16(b, 2 * i)
                      ELSE IF b[4 * i + 1] >= 64 THEN -1
                      ELSE GU16(b, 4 * i) * 65536 + GU16(b, 4 * i + 2)
LocaWf(fmt, b, size) ==
  /\ fmt \in {0, 1}
  /\ Len(b) % (IF fmt = 0 THEN 2 ELSE 4) = 0
  /\ LocaN(fmt, b) >= 2
  /\ \A i \in 0..(LocaN(fmt, b) - 1) :
        LET o == LocaOff(fmt, b, i) IN
        /\ o >= 0 /\ o <= size
        /\ i > 0 => LocaOff(fmt, b, i - 1) <= o
LocaEven(fmt, b) == \A i \in 0..(LocaN(fmt, b) - 1) : LocaOff(fmt, b, i) % 2 = 0

----------------------------------------------------------------------------
\* simple glyphs: the bytes following the 10 byte header
Bad == [ok |-> FALSE]

EndPt(e, i) == GU16(e, 2 * (i - 1))
NPts(nc, e) == IF nc = 0 THEN 0 ELSE EndPt(e, nc) + 1

\* the flag stream: from position pos, with the flags f known so far
RECURSIVE FlagsR(_, _, _, _)
FlagsR(e, pos, f, n) ==
  IF Len(f) = n THEN [ok |-> TRUE, f |-> f, pos |-> pos]
  ELSE IF pos >= Len(e) THEN Bad
  ELSE LET fl == e[pos + 1] IN
       IF ~Bit(fl, 8) THEN FlagsR(e, pos + 1, Append(f, fl), n)
       ELSE IF pos + 1 >= Len(e) THEN Bad
       ELSE LET cnt == e[pos + 2] + 1 IN
            IF Len(f) + cnt > n THEN Bad
            ELSE FlagsR(e, pos + 2, f \o [i \in 1..cnt |-> fl], n)

XSize(fl) == IF Bit(fl, 2) THEN 1 ELSE IF Bit(fl, 16) THEN 0 ELSE 2
YSize(fl) == IF Bit(fl, 4) THEN 1 ELSE IF Bit(fl, 32) THEN 0 ELSE 2

\* the coordinate streams: [pos, v, out]
CoordStep(e, size, pos, short) ==
  IF size = 0 THEN 0 ELSE IF size = 2 THEN GS16(e, pos) ELSE IF short THEN e[pos + 1] ELSE -e[pos + 1]
Coords(e, pos, f, Size(_), pm) ==
  FoldLeft(LAMBDA s, fl : LET d == CoordStep(e, Size(fl), s.pos, Bit(fl, pm)) IN
             [pos |-> s.pos + Size(fl), v |-> s.v + d, out |-> Append(s.out, s.v + d)],
           [pos |-> pos, v |-> 0, out |-> <<>>], f)
SumSize(f, Size(_)) == FoldLeft(LAMBDA s, fl : s + Size(fl), 0, f)

\* len: the number of bytes used; cc: the contours as sequences of
\* <<x, y, on>>; ins: the instructions
SimpleMachine(nc, e) ==
  IF nc = 0 /\ Len(e) < 2 THEN [ok |-> TRUE, len |-> 0, cc |-> <<>>, ins |-> <<>>]
  ELSE IF Len(e) < 2 * nc + 2 THEN Bad
  ELSE IF \E i \in 2..nc : EndPt(e, i) <= EndPt(e, i - 1) THEN Bad
  ELSE LET il == GU16(e, 2 * nc)
           p0 == 2 * nc + 2 + il
           n == NPts(nc, e)
       IN IF Len(e) < p0 THEN Bad
          ELSE LET ff == FlagsR(e, p0, <<>>, n) IN
               IF ~ff.ok THEN Bad
               ELSE LET lx == SumSize(ff.f, XSize)
                        ly == SumSize(ff.f, YSize)
                    IN IF ff.pos + lx + ly > Len(e) THEN Bad
                       ELSE LET xs == Coords(e, ff.pos, ff.f, XSize, 16).out
                                ys == Coords(e, ff.pos + lx, ff.f, YSize, 32).out
                            IN IF \E i \in 1..n : xs[i] < -32768 \/ xs[i] > 32767 \/ ys[i] < -32768 \/ ys[i] > 32767
                               THEN Bad
                               ELSE [ok |-> TRUE, len |-> ff.pos + lx + ly,
                                     ins |-> SubSeq(e, 2 * nc + 3, p0),
                                     cc |-> [c \in 1..nc |->
                                       LET a == IF c = 1 THEN 0 ELSE EndPt(e, c - 1) + 1 IN
                                       [j \in 1..(EndPt(e, c) + 1 - a) |->
                                         <<xs[a + j], ys[a + j], IF Bit(ff.f[a + j], 1) THEN 1 ELSE 0>>]]]

----------------------------------------------------------------------------
\* composite glyphs: the bytes following the header
ArgSize(fl) == (IF Bit(fl, 1) THEN 4 ELSE 2) +
               (IF Bit(fl, 8) THEN 2 ELSE IF Bit(fl, 64) THEN 4 ELSE IF Bit(fl, 128) THEN 8 ELSE 0)
RECURSIVE CompR(_, _, _, _)
CompR(e, pos, cc, hi) ==
  IF pos + 4 > Len(e) THEN Bad
  ELSE LET fl == GU16(e, pos)
           q == pos + 4 + ArgSize(fl)
           h == hi \/ Bit(fl, 256)
       IN IF q > Len(e) THEN Bad
          ELSE LET c2 == Append(cc, <<fl, GU16(e, pos + 2)>> \o SubSeq(e, pos + 5, q)) IN
               IF Bit(fl, 32) THEN CompR(e, q, c2, h)
               ELSE IF ~h THEN [ok |-> TRUE, c |-> c2, hi |-> FALSE, ins |-> <<>>]
               ELSE IF q + 2 > Len(e) THEN Bad
               ELSE LET il == GU16(e, q) IN
                    IF q + 2 + il > Len(e) THEN Bad
                    ELSE [ok |-> TRUE, c |-> c2, hi |-> TRUE, ins |-> SubSeq(e, q + 3, q + 2 + il)]

----------------------------------------------------------------------------
\* one entry of the glyf table
Empty == [k |-> 0]
ParseGlyph(d) ==
  IF Len(d) = 0 THEN [ok |-> TRUE, g |-> Empty]
  ELSE IF Len(d) < 10 THEN Bad
  ELSE LET nc == GS16(d, 0)
           bb == <<GS16(d, 2), GS16(d, 4), GS16(d, 6), GS16(d, 8)>>
           e == SubSeq(d, 11, Len(d))
       IN IF nc >= 0 THEN LET m == SimpleMachine(nc, e) IN
                          IF ~m.ok THEN Bad
                          ELSE [ok |-> TRUE, g |-> [k |-> 1, bb |-> bb, nc |-> nc, e |-> SubSeq(e, 1, m.len)]]
          ELSE LET m == CompR(e, 0, <<>>, FALSE) IN
               IF ~m.ok THEN Bad
               ELSE [ok |-> TRUE, g |-> [k |-> 2, bb |-> bb, c |-> m.c, hi |-> m.hi, ins |-> m.ins]]

\* a glyph without its trailing padding
NormGlyph(g) == IF g.k # 1 THEN g
                ELSE LET m == SimpleMachine(g.nc, g.e) IN
                     [g EXCEPT !.e = IF m.ok THEN SubSeq(g.e, 1, m.len) ELSE g.e]
\* is this the value of some entry of a glyf table?
GlyphWf(g) == CASE g.k = 0 -> TRUE
                [] g.k = 1 -> SimpleMachine(g.nc, g.e).ok
                [] g.k = 2 -> /\ Len(g.c) >= 1
                              /\ \A i \in 1..Len(g.c) :
                                   /\ Len(g.c[i]) = 2 + ArgSize(g.c[i][1])
                                   /\ Bit(g.c[i][1], 32) = (i < Len(g.c))
                              /\ g.hi = (\E i \in 1..Len(g.c) : Bit(g.c[i][1], 256))
                              /\ (~g.hi => g.ins = <<>>)

----------------------------------------------------------------------------
\* Outlines.  Coordinates are doubled, so that implied points are integers.
\* A segment is <<op, x1, y1, x2, y2>>: 0 move, 1 line, 2 quadratic.
Mid(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2, 1>>
\* the cyclic sequence of points with the implied on-curve points
Expanded(c) ==
  LET n == Len(c)
      D == [i \in 1..n |-> <<2 * c[i][1], 2 * c[i][2], c[i][3]>>]
      Nx(i) == D[IF i = n THEN 1 ELSE i + 1]
      parts == [i \in 1..n |-> IF D[i][3] = 0 /\ Nx(i)[3] = 0 THEN <<D[i], Mid(D[i], Nx(i))>> ELSE <<D[i]>>]
  IN FlattenSeq(parts)
ContourSegs(c) ==
  LET x == Expanded(c)
      n == Len(x)
      s == CHOOSE i \in 1..n : x[i][3] = 1 /\ \A j \in 1..(i - 1) : x[j][3] = 0
      y == [i \in 1..(n + 1) |-> x[((s - 2 + i) % n) + 1]]     \* y[1] = y[n+1] = the start
      idx == SelectSeq([i \in 1..n |-> i + 1], LAMBDA i : y[i][3] = 1)
  IN << <<0, y[1][1], y[1][2], 0, 0>> >> \o
     [j \in 1..Len(idx) |-> LET i == idx[j] IN
        IF y[i - 1][3] = 1 THEN <<1, y[i][1], y[i][2], 0, 0>>
        ELSE <<2, y[i - 1][1], y[i - 1][2], y[i][1], y[i][2]>>]
\* contours of a single off-curve point describe nothing
DrawableContour(c) == Len(c) >= 2 \/ c[1][3] = 1

\* components: offsets, and scale factors in 2.14 fixed point
CompXY(c) == Bit(c[1], 2)
S8(v) == IF v >= 128 THEN v - 256 ELSE v
S16(a, b) == LET v == a * 256 + b IN IF v >= 32768 THEN v - 65536 ELSE v
CompDx(c) == IF Bit(c[1], 1) THEN S16(c[3], c[4]) ELSE S8(c[3])
CompDy(c) == IF Bit(c[1], 1) THEN S16(c[5], c[6]) ELSE S8(c[4])
CompT(c) == IF Bit(c[1], 1) THEN 7 ELSE 5
Scaled(c) == Bit(c[1], 8) \/ Bit(c[1], 64) \/ Bit(c[1], 128)
Matrix(c) == LET t == CompT(c) IN
  IF Bit(c[1], 8) THEN LET v == S16(c[t], c[t+1]) IN <<v, 0, 0, v>>
  ELSE IF Bit(c[1], 64) THEN <<S16(c[t], c[t+1]), 0, 0, S16(c[t+2], c[t+3])>>
  ELSE <<S16(c[t], c[t+1]), S16(c[t+2], c[t+3]), S16(c[t+4], c[t+5]), S16(c[t+6], c[t+7])>>

\* can the outline be computed here?  Offsets given as point numbers and
\* scaled offsets are not modelled, missing and cyclic components are errors
RECURSIVE Drawable(_, _, _)
Drawable(gg, i, depth) ==
  /\ depth > 0
  /\ i + 1 \in DOMAIN gg
  /\ LET g == gg[i + 1] IN
     CASE g.k = 0 -> TRUE
       [] g.k = 1 -> LET m == SimpleMachine(g.nc, g.e) IN m.ok /\ \A c \in 1..Len(m.cc) : DrawableContour(m.cc[c])
       [] g.k = 2 -> /\ GlyphWf(g)
                     /\ \A c \in 1..Len(g.c) : /\ CompXY(g.c[c])
                                               /\ ~(Scaled(g.c[c]) /\ Bit(g.c[c][1], 2048))
                                               /\ Drawable(gg, g.c[c][2], depth - 1)

Shift(s, dx, dy) == IF s[1] = 2 THEN <<2, s[2] + dx, s[3] + dy, s[4] + dx, s[5] + dy>>
                    ELSE <<s[1], s[2] + dx, s[3] + dy, 0, 0>>
\* x' = xx x + yx y, y' = xy x + yy y
Tr(s, m) ==
  LET TX(x, y) == (m[1] * x + m[3] * y) \div 16384
      TY(x, y) == (m[2] * x + m[4] * y) \div 16384
  IN IF s[1] = 2 THEN <<2, TX(s[2], s[3]), TY(s[2], s[3]), TX(s[4], s[5]), TY(s[4], s[5])>>
     ELSE <<s[1], TX(s[2], s[3]), TY(s[2], s[3]), 0, 0>>
RECURSIVE Outline(_, _)
Outline(gg, i) ==
  LET g == gg[i + 1] IN
  CASE g.k = 0 -> <<>>
    [] g.k = 1 -> LET m == SimpleMachine(g.nc, g.e) IN FlattenSeq([c \in 1..Len(m.cc) |-> ContourSegs(m.cc[c])])
    [] g.k = 2 -> FlattenSeq([c \in 1..Len(g.c) |->
         LET o == Outline(gg, g.c[c][2])
             t == IF Scaled(g.c[c]) THEN [j \in 1..Len(o) |-> Tr(o[j], Matrix(g.c[c]))] ELSE o
         IN [j \in 1..Len(t) |-> Shift(t[j], 2 * CompDx(g.c[c]), 2 * CompDy(g.c[c]))]])
\* are numbers small enough for the arithmetic above?
RECURSIVE Mild(_, _)
Mild(gg, i) ==
  LET g == gg[i + 1] IN
  CASE g.k = 0 -> TRUE
    [] g.k = 1 -> LET m == SimpleMachine(g.nc, g.e) IN
                  \A c \in 1..Len(m.cc) : \A j \in 1..Len(m.cc[c]) : \A d \in {1, 2} : m.cc[c][j][d] \in -2000..2000
    [] g.k = 2 -> \A c \in 1..Len(g.c) : /\ Mild(gg, g.c[c][2])
                                         /\ CompDx(g.c[c]) \in -2000..2000 /\ CompDy(g.c[c]) \in -2000..2000
\* the largest number of nested transformations
RECURSIVE ScaleDepth(_, _)
ScaleDepth(gg, i) ==
  LET g == gg[i + 1] IN
  IF g.k # 2 THEN 0
  ELSE FoldLeft(LAMBDA m, c : LET d == ScaleDepth(gg, c[2]) + (IF Scaled(c) THEN 1 ELSE 0) IN IF d > m THEN d ELSE m,
                0, g.c)
AnyScaled(gg, i) == ScaleDepth(gg, i) > 0
\* every transformation magnifies the error of rounded points by at most 4,
\* and rounds once more
RECURSIVE Tol(_)
Tol(d) == IF d = 0 THEN 1 ELSE 4 * Tol(d - 1) + 4

Near(a, b, tol) == a - b <= tol /\ b - a <= tol
SegNear(s, want, tol) == s[1] = want[1] /\ \A j \in 2..5 : Near(2 * s[j], want[j], tol)
\* segs: the outline reported by another implementation, in font units; it
\* may round implied points, and may round once more per transformation
SameOutline(gg, i, segs) ==
  LET o == Outline(gg, i)
      tol == Tol(ScaleDepth(gg, i))
  IN Len(o) = Len(segs) /\ \A j \in 1..Len(o) : SegNear(segs[j], o[j], tol)
=============================================================================
