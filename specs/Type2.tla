------------------------------- MODULE Type2 --------------------------------
(***************************************************************************)
(* The Type 2 charstring machine of Adobe TN5177 on byte level.            *)
(*                                                                         *)
(* Numbers are 16.16 fixed point, represented by their 32 bit integer      *)
(* value.  UNDEF stands for a value which is not exactly representable.    *)
(*                                                                         *)
(* A program P is a record                                                 *)
(*   main          the charstring (sequence of bytes)                      *)
(*   ls, gs        the local/global subroutines which matter: a sequence   *)
(*                 of records [i |-> index, c |-> bytes]; all other        *)
(*                 subroutines consist of a single `return'                *)
(*   nl, ng        the sizes of the two subroutine INDEXes                 *)
(*   dw            defaultWidthX                                           *)
(*   nwi, nwf      nominalWidthX, which may exceed the range of 16.16, as  *)
(*                 integer part (rounded down) and fraction * 65536        *)
(*                                                                         *)
(* Final status s:                                                         *)
(*   "ok"     well-formed program; the outline is defined                  *)
(*   "reject" malformed: stack under/overflow, truncated, missing endchar, *)
(*            bad subroutine index, nesting too deep, drawing before the   *)
(*            first moveto                                                 *)
(*   "any"    TN5177 leaves the result open (or it is not exactly          *)
(*            representable)                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

One == 65536
UNDEF == 2147483647
MaxV == 2147483646
MaxStack == 48
MaxDepth == 10
Limit == 32000 * One

-----------------------------------------------------------------------------
(* Fixed point arithmetic *)

MinV == -2147483647 - 1       \* has no negative
Abs(a) == IF a = MinV THEN UNDEF ELSE IF a < 0 THEN -a ELSE a
Neg(a) == IF a \in {UNDEF, MinV} THEN UNDEF ELSE -a
Add(a, b) == IF a = UNDEF \/ b = UNDEF THEN UNDEF
             ELSE IF a > 0 /\ b > MaxV - a THEN UNDEF
             ELSE IF a < 0 /\ b < -MaxV - a THEN UNDEF
             ELSE a + b
Sub(a, b) == Add(a, Neg(b))

\* (hi + lo/65536) + a, where hi may be large
AddBig(hi, lo, a) == LET l == lo + (a % One)
                         h == hi + (a \div One) + (l \div One)
                     IN IF a = UNDEF \/ h < -32767 \/ h > 32767 THEN UNDEF
                        ELSE Add(h * One, l % One)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Add(s[1], SumSeq(Tail(s)))

MulAbs(a, b) ==
  LET ah == a \div One  al == a % One
      bh == b \div One  bl == b % One
      a1 == al \div 256  a0 == al % 256
      b1 == bl \div 256  b0 == bl % 256
      low == (a1 * b0 + a0 * b1) * 256 + a0 * b0
  IN IF low % One # 0 \/ ah * bh > 32767 THEN UNDEF
     ELSE Add(Add(ah * bh * One, a1 * b1 + low \div One),
              Add(IF ah * bl > MaxV \div 2 THEN UNDEF ELSE ah * bl,
                  IF al * bh > MaxV \div 2 THEN UNDEF ELSE al * bh))
\* ah, bh < 2^15 and al, bl < 2^16, so that none of the products overflows
Mul(a, b) == IF a = MinV \/ b = MinV THEN UNDEF ELSE LET p == MulAbs(Abs(a), Abs(b))
             IN IF p = UNDEF THEN UNDEF ELSE IF (a < 0) # (b < 0) THEN -p ELSE p

\* n binary digits of r/b, if these are all; r < b
RECURSIVE Frac(_, _, _, _)
Frac(r, b, n, acc) == IF n = 0 THEN (IF r = 0 THEN acc ELSE UNDEF)
                      ELSE IF r > MaxV \div 2 THEN UNDEF
                      ELSE IF 2 * r >= b THEN Frac(2 * r - b, b, n - 1, 2 * acc + 1)
                      ELSE Frac(2 * r, b, n - 1, 2 * acc)
DivAbs(a, b) == IF a \div b > 32767 THEN UNDEF
                ELSE LET f == Frac(a % b, b, 16, 0)
                     IN IF f = UNDEF THEN UNDEF ELSE Add((a \div b) * One, f)
Div(a, b) == IF b = 0 \/ a = MinV \/ b = MinV THEN UNDEF
             ELSE LET p == DivAbs(Abs(a), Abs(b))
                  IN IF p = UNDEF THEN UNDEF ELSE IF (a < 0) # (b < 0) THEN -p ELSE p

RECURSIVE ISqrt(_, _, _)
ISqrt(a, lo, hi) == \* lo^2 <= a < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m <= a \div m THEN ISqrt(a, m, hi) ELSE ISqrt(a, lo, m)
Sqrt(a) == IF a < 0 THEN UNDEF
           ELSE IF a = 0 THEN 0
           ELSE LET r == ISqrt(a, 1, 46341) IN IF r * r = a THEN 256 * r ELSE UNDEF

IsInt(a) == a # UNDEF /\ a % One = 0
ToInt(a) == a \div One      \* for integers
Bool(b) == IF b THEN One ELSE 0

-----------------------------------------------------------------------------
(* Path construction: the segments an operator appends, as relative moves. *)
(* A line is <<dx, dy>>, a curve <<dxa, dya, dxb, dyb, dxc, dyc>>.         *)

hstem == 1      vstem == 3      vmoveto == 4    rlineto == 5
hlineto == 6    vlineto == 7    rrcurveto == 8  callsubr == 10
return == 11    escape == 12    endchar == 14   hstemhm == 18
hintmask == 19  cntrmask == 20  rmoveto == 21   hmoveto == 22
vstemhm == 23   rcurveline == 24  rlinecurve == 25  vvcurveto == 26
hhcurveto == 27 shortint == 28  callgsubr == 29 vhcurveto == 30
hvcurveto == 31
and == 1203   or == 1204    not == 1205   abs == 1209   add == 1210
sub == 1211   div == 1212   neg == 1214   eq == 1215    drop == 1218
put == 1220   get == 1221   ifelse == 1222  random == 1223  mul == 1224
sqrt == 1226  dup == 1227   exch == 1228  index == 1229 roll == 1230
hflex == 1234 flex == 1235  hflex1 == 1236  flex1 == 1237

PathOps == {rlineto, hlineto, vlineto, rrcurveto, rcurveline, rlinecurve, hhcurveto, vvcurveto,
            hvcurveto, vhcurveto, hflex, flex, hflex1, flex1}

\* legal operand counts
Legal(op, n) ==
  CASE op = rlineto -> n >= 2 /\ n % 2 = 0
    [] op \in {hlineto, vlineto} -> n >= 1
    [] op = rrcurveto -> n >= 6 /\ n % 6 = 0
    [] op = rcurveline -> n >= 8 /\ n % 6 = 2
    [] op = rlinecurve -> n >= 8 /\ n % 2 = 0
    [] op \in {hhcurveto, vvcurveto, hvcurveto, vhcurveto} -> n >= 4 /\ n % 4 \in {0, 1}
    [] op = flex -> n = 13
    [] op = flex1 -> n = 11
    [] op = hflex -> n = 7
    [] op = hflex1 -> n = 9
\* operands left over after complete operands; TN5177 is silent about these
Excess(op, n) ==
  CASE op = flex -> n > 13
    [] op = flex1 -> n > 11
    [] op = hflex -> n > 7
    [] op = hflex1 -> n > 9
    [] OTHER -> FALSE

RECURSIVE Lines(_), Alt(_, _), Curves(_), HH(_, _), VV(_, _), HV(_, _)
Lines(s) == IF s = <<>> THEN <<>> ELSE <<<<s[1], s[2]>>>> \o Lines(SubSeq(s, 3, Len(s)))
Alt(s, hor) == IF s = <<>> THEN <<>>
               ELSE <<IF hor THEN <<s[1], 0>> ELSE <<0, s[1]>>>> \o Alt(Tail(s), ~hor)
Curves(s) == IF s = <<>> THEN <<>> ELSE <<SubSeq(s, 1, 6)>> \o Curves(SubSeq(s, 7, Len(s)))
HH(s, dy) == IF s = <<>> THEN <<>>
             ELSE <<<<s[1], dy, s[2], s[3], s[4], 0>>>> \o HH(SubSeq(s, 5, Len(s)), 0)
VV(s, dx) == IF s = <<>> THEN <<>>
             ELSE <<<<dx, s[1], s[2], s[3], 0, s[4]>>>> \o VV(SubSeq(s, 5, Len(s)), 0)
HV(s, hor) == IF s = <<>> THEN <<>>
              ELSE LET last == IF Len(s) = 5 THEN s[5] ELSE 0
                       rest == IF Len(s) = 5 THEN <<>> ELSE SubSeq(s, 5, Len(s))
                   IN <<IF hor THEN <<s[1], 0, s[2], s[3], last, s[4]>>
                        ELSE <<0, s[1], s[2], s[3], s[4], last>>>> \o HV(rest, ~hor)

Segs(op, s) ==
  LET n == Len(s) IN
  CASE op = rlineto -> Lines(s)
    [] op = hlineto -> Alt(s, TRUE)
    [] op = vlineto -> Alt(s, FALSE)
    [] op = rrcurveto -> Curves(s)
    [] op = rcurveline -> Curves(SubSeq(s, 1, n - 2)) \o Lines(SubSeq(s, n - 1, n))
    [] op = rlinecurve -> Lines(SubSeq(s, 1, n - 6)) \o Curves(SubSeq(s, n - 5, n))
    [] op = hhcurveto -> IF n % 4 = 1 THEN HH(Tail(s), s[1]) ELSE HH(s, 0)
    [] op = vvcurveto -> IF n % 4 = 1 THEN VV(Tail(s), s[1]) ELSE VV(s, 0)
    [] op = hvcurveto -> HV(s, TRUE)
    [] op = vhcurveto -> HV(s, FALSE)
    [] op = flex -> Curves(SubSeq(s, 1, 12))
    [] op = hflex -> << <<s[1], 0, s[2], s[3], s[4], 0>>, <<s[5], 0, s[6], Neg(s[3]), s[7], 0>> >>
    [] op = hflex1 -> << <<s[1], s[2], s[3], s[4], s[5], 0>>,
                         <<s[6], 0, s[7], s[8], s[9], Neg(Add(s[2], Add(s[4], s[8])))>> >>
    [] op = flex1 ->
         LET dx == SumSeq(<<s[1], s[3], s[5], s[7], s[9]>>)
             dy == SumSeq(<<s[2], s[4], s[6], s[8], s[10]>>)
             lst == IF dx = UNDEF \/ dy = UNDEF THEN <<UNDEF, UNDEF>>
                    ELSE IF Abs(dx) > Abs(dy) THEN <<s[11], -dy>> ELSE <<-dx, s[11]>>
         IN <<SubSeq(s, 1, 6), SubSeq(s, 7, 10) \o lst>>

-----------------------------------------------------------------------------
(* The machine *)

\* drawing commands: <<0, x, y>> moveto, <<1, x, y>> lineto,
\* <<2, xa, ya, xb, yb, xc, yc>> curveto, <<3, bytes>> hintmask, <<4, bytes>> cntrmask

Start0(P) ==
  [fr |-> <<[c |-> P.main, p |-> 1]>>,
   st |-> <<>>, mem |-> <<>>, h |-> <<>>, v |-> <<>>,
   w |-> P.dw, wset |-> FALSE,
   cmds |-> <<>>, x |-> 0, y |-> 0, moved |-> FALSE, masked |-> FALSE, s |-> "run",
   maxst |-> 0]

Fin(m, s) == [m EXCEPT !.s = s]
Top(s) == s[Len(s)]
Pop(s, n) == SubSeq(s, 1, Len(s) - n)
InRange(a) == a # UNDEF /\ a >= -Limit /\ a <= Limit

Push(m, v) == IF Len(m.st) >= MaxStack THEN Fin(m, "reject")
              ELSE [m EXCEPT !.st = Append(@, v), !.maxst = IF Len(m.st) + 1 > @ THEN Len(m.st) + 1 ELSE @]
\* replaces the topmost n entries; a value which is not representable makes
\* the rest of the program unpredictable
Repl(m, n, v) == IF v = UNDEF THEN Fin(m, "any") ELSE [m EXCEPT !.st = Append(Pop(@, n), v)]

RECURSIVE Draw(_, _)
Draw(m, segs) ==
  IF segs = <<>> THEN m
  ELSE LET g == segs[1] IN
    IF Len(g) = 2
    THEN LET x == Add(m.x, g[1])  y == Add(m.y, g[2])
         IN IF ~(InRange(x) /\ InRange(y)) THEN Fin(m, "any")
            ELSE Draw([m EXCEPT !.x = x, !.y = y, !.cmds = Append(@, <<1, x, y>>)], Tail(segs))
    ELSE LET xa == Add(m.x, g[1])  ya == Add(m.y, g[2])
             xb == Add(xa, g[3])   yb == Add(ya, g[4])
             xc == Add(xb, g[5])   yc == Add(yb, g[6])
         IN IF ~(InRange(xa) /\ InRange(ya) /\ InRange(xb) /\ InRange(yb) /\ InRange(xc) /\ InRange(yc))
            THEN Fin(m, "any")
            ELSE Draw([m EXCEPT !.x = xc, !.y = yc, !.cmds = Append(@, <<2, xa, ya, xb, yb, xc, yc>>)], Tail(segs))

Path(m, op) ==
  LET n == Len(m.st) IN
  IF ~m.moved THEN Fin(m, "reject")
  ELSE IF Excess(op, n) THEN Fin(m, "any")
  ELSE IF ~Legal(op, n) THEN Fin(m, "reject")
  ELSE [Draw(m, Segs(op, m.st)) EXCEPT !.st = <<>>]

\* The optional width argument of the first stack-clearing operator: present
\* says whether there is one.
Width(P, m, present) ==
  IF m.wset THEN m
  ELSE IF ~present THEN [m EXCEPT !.wset = TRUE]
  ELSE LET w == AddBig(P.nwi, P.nwf, m.st[1])
       IN IF w = UNDEF THEN Fin(m, "any")
          ELSE [m EXCEPT !.w = w, !.wset = TRUE, !.st = Tail(@)]

MoveTo(P, m0, n) ==         \* n operands
  IF Len(m0.st) < n THEN Fin(m0, "reject")
  ELSE LET m == Width(P, m0, Len(m0.st) > n) IN
    IF m.s # "run" \/ Len(m.st) # n THEN Fin(m, "any") ELSE m
DoMove(m, dx, dy) ==
  LET x == Add(m.x, dx)  y == Add(m.y, dy)
  IN IF m.s # "run" THEN m
     ELSE IF ~(InRange(x) /\ InRange(y)) THEN Fin(m, "any")
     ELSE [m EXCEPT !.x = x, !.y = y, !.cmds = Append(@, <<0, x, y>>), !.moved = TRUE, !.st = <<>>]

\* edges of the stems; the first one is relative to 0
RECURSIVE Edges(_, _)
Edges(s, prev) == IF s = <<>> THEN <<>> ELSE LET e == Add(prev, s[1]) IN <<e>> \o Edges(Tail(s), e)

Stems(P, m0, vert, min) ==
  LET m == Width(P, m0, Len(m0.st) % 2 = 1)
      e == Edges(m.st, 0)
  IN IF Len(m0.st) < min THEN Fin(m0, "reject")
     ELSE IF m.s # "run" \/ Len(m.st) % 2 = 1 THEN Fin(m, "any")
     ELSE IF Len(m.st) > 0 /\ (m.moved \/ m.masked) THEN Fin(m, "any")
     ELSE IF \E i \in 1..Len(e) : e[i] = UNDEF THEN Fin(m, "any")
     ELSE IF vert THEN [m EXCEPT !.v = @ \o e, !.st = <<>>] ELSE [m EXCEPT !.h = @ \o e, !.st = <<>>]

Mask(P, m0, op) ==
  LET m == Stems(P, m0, TRUE, 0)
      f == Top(m.fr)
      k == ((Len(m.h) + Len(m.v)) \div 2 + 7) \div 8
  IN IF m.s # "run" THEN m
     ELSE IF k = 0 THEN Fin(m, "any")
     ELSE IF f.p + k - 1 > Len(f.c) THEN Fin(m, "reject")
     ELSE [m EXCEPT !.masked = TRUE,
                    !.cmds = Append(@, <<IF op = hintmask THEN 3 ELSE 4>> \o SubSeq(f.c, f.p, f.p + k - 1)),
                    !.fr[Len(m.fr)].p = @ + k]

RECURSIVE Find(_, _, _)
Find(subs, i, k) == IF k > Len(subs) THEN <<return>> ELSE IF subs[k].i = i THEN subs[k].c ELSE Find(subs, i, k + 1)
Bias(n) == IF n < 1240 THEN 107 ELSE IF n < 33900 THEN 1131 ELSE 32768

Call(m, subs, n) ==
  IF m.st = <<>> THEN Fin(m, "reject")
  ELSE LET a == Top(m.st) IN
    IF ~IsInt(a) THEN Fin(m, "any")
    ELSE LET i == ToInt(a) + Bias(n) IN
      IF i < 0 \/ i >= n THEN Fin(m, "reject")
      ELSE IF Len(m.fr) > MaxDepth THEN Fin(m, "reject")
      ELSE [m EXCEPT !.st = Pop(@, 1), !.fr = Append(@, [c |-> Find(subs, i, 1), p |-> 1])]

EndChar(P, m) ==
  LET n == Len(m.st) IN
  IF n = 0 THEN Fin(m, "ok")
  ELSE IF n = 1 /\ ~m.wset THEN LET m1 == Width(P, m, TRUE) IN IF m1.s # "run" THEN m1 ELSE Fin(m1, "ok")
  ELSE Fin(m, "any")          \* the deprecated seac form, or excess operands

Rot(s, j) == LET n == Len(s)  k == j % n  \* the top k entries move to the bottom
             IN SubSeq(s, n - k + 1, n) \o SubSeq(s, 1, n - k)

MemGet(mem, i) == LET is == {k \in 1..Len(mem) : mem[k].i = i}
                  IN IF is = {} THEN UNDEF ELSE mem[CHOOSE k \in is : \A j \in is : j <= k].v

Arity(op) == CASE op \in {and, or, add, sub, div, mul, eq, exch, put, roll} -> 2
               [] op \in {not, abs, neg, drop, sqrt, dup, index, get} -> 1
               [] op = ifelse -> 4
               [] op = random -> 0
               [] OTHER -> 99

Arith(m, op) ==
  LET s == m.st
      n == Len(s)
      ar == Arity(op)
  IN
  IF ar = 99 \/ op = random THEN Fin(m, "any")
  ELSE IF n < ar THEN Fin(m, "reject")
  ELSE LET b == s[n]  a == IF ar >= 2 THEN s[n-1] ELSE 0 IN
  CASE op = and -> Repl(m, 2, Bool(a # 0 /\ b # 0))
    [] op = or -> Repl(m, 2, Bool(a # 0 \/ b # 0))
    [] op = not -> Repl(m, 1, Bool(b = 0))
    [] op = abs -> Repl(m, 1, Abs(b))
    [] op = neg -> Repl(m, 1, Neg(b))
    [] op = add -> Repl(m, 2, Add(a, b))
    [] op = sub -> Repl(m, 2, Sub(a, b))
    [] op = mul -> Repl(m, 2, Mul(a, b))
    [] op = div -> Repl(m, 2, Div(a, b))
    [] op = eq -> Repl(m, 2, Bool(a = b))
    [] op = sqrt -> Repl(m, 1, Sqrt(b))
    [] op = drop -> [m EXCEPT !.st = Pop(@, 1)]
    [] op = dup -> Push(m, b)
    [] op = exch -> [m EXCEPT !.st = Pop(@, 2) \o <<b, a>>]
    [] op = ifelse -> Repl(m, 4, IF s[n-1] <= s[n] THEN s[n-3] ELSE s[n-2])
    [] op = put -> IF ~IsInt(b) \/ b < 0 \/ ToInt(b) > 31 THEN Fin(m, "any")
                   ELSE [m EXCEPT !.st = Pop(@, 2), !.mem = Append(@, [i |-> ToInt(b), v |-> a])]
    [] op = get -> IF ~IsInt(b) THEN Fin(m, "any") ELSE Repl(m, 1, MemGet(m.mem, ToInt(b)))
    [] op = index -> IF ~IsInt(b) THEN Fin(m, "any")
                     ELSE LET i == IF b < 0 THEN 0 ELSE ToInt(b)
                          IN IF n - 1 - i < 1 THEN Fin(m, "reject") ELSE Repl(m, 1, s[n - 1 - i])
    [] op = roll -> IF ~IsInt(a) \/ ~IsInt(b) \/ a < 0 THEN Fin(m, "any")
                    ELSE LET k == ToInt(a) IN
                      IF k > n - 2 THEN Fin(m, "reject")
                      ELSE IF k = 0 THEN [m EXCEPT !.st = Pop(@, 2)]
                      ELSE [m EXCEPT !.st = SubSeq(s, 1, n - 2 - k) \o Rot(SubSeq(s, n - 1 - k, n - 2), ToInt(b))]

Adv(m, k) == [m EXCEPT !.fr[Len(m.fr)].p = @ + k]
S16(a, b) == LET u == 256 * a + b IN IF u >= 32768 THEN u - One ELSE u
Fix(hi, lo) == hi * One + lo
PushNum(m, v) == IF v = UNDEF THEN Fin(m, "any") ELSE Push(m, v)

Exec(P, m, op) ==           \* the program counter is already past the operator
  CASE op \in PathOps -> Path(m, op)
    [] op = rmoveto -> LET k == MoveTo(P, m, 2) IN IF k.s # "run" THEN k ELSE DoMove(k, k.st[1], k.st[2])
    [] op = hmoveto -> LET k == MoveTo(P, m, 1) IN IF k.s # "run" THEN k ELSE DoMove(k, k.st[1], 0)
    [] op = vmoveto -> LET k == MoveTo(P, m, 1) IN IF k.s # "run" THEN k ELSE DoMove(k, 0, k.st[1])
    [] op \in {hstem, hstemhm} -> Stems(P, m, FALSE, 2)
    [] op \in {vstem, vstemhm} -> Stems(P, m, TRUE, 2)
    [] op \in {hintmask, cntrmask} -> Mask(P, m, op)
    [] op = callsubr -> Call(m, P.ls, P.nl)
    [] op = callgsubr -> Call(m, P.gs, P.ng)
    [] op = return -> IF Len(m.fr) = 1 THEN Fin(m, "any") ELSE [m EXCEPT !.fr = Pop(@, 1)]
    [] op = endchar -> EndChar(P, m)
    [] op >= 1200 -> Arith(m, op)
    [] OTHER -> Fin(m, "any")

Step(P, m) ==
  LET f == Top(m.fr)
      c == f.c
      p == f.p
      left == Len(c) - p         \* bytes after the current one
  IN
  IF p > Len(c) THEN Fin(m, IF Len(m.fr) = 1 THEN "reject" ELSE "any")
  ELSE LET b == c[p] IN
    IF b >= 32 /\ b <= 246 THEN Push(Adv(m, 1), (b - 139) * One)
    ELSE IF b >= 247 /\ b <= 250
         THEN IF left < 1 THEN Fin(m, "reject") ELSE Push(Adv(m, 2), ((b - 247) * 256 + c[p+1] + 108) * One)
    ELSE IF b >= 251 /\ b <= 254
         THEN IF left < 1 THEN Fin(m, "reject") ELSE Push(Adv(m, 2), (-(b - 251) * 256 - c[p+1] - 108) * One)
    ELSE IF b = shortint
         THEN IF left < 2 THEN Fin(m, "reject") ELSE PushNum(Adv(m, 3), Fix(S16(c[p+1], c[p+2]), 0))
    ELSE IF b = 255
         THEN IF left < 4 THEN Fin(m, "reject")
              ELSE PushNum(Adv(m, 5), Fix(S16(c[p+1], c[p+2]), 256 * c[p+3] + c[p+4]))
    ELSE IF b = escape
         THEN IF left < 1 THEN Fin(m, "reject") ELSE Exec(P, Adv(m, 2), 1200 + c[p+1])
    ELSE Exec(P, Adv(m, 1), b)

RECURSIVE Run(_, _, _)
Run(P, m, fuel) == IF m.s # "run" THEN m
                   ELSE IF fuel = 0 THEN Fin(m, "any")
                   ELSE Run(P, Step(P, m), fuel - 1)
=============================================================================
