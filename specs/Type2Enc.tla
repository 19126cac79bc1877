------------------------------ MODULE Type2Enc ------------------------------
(***************************************************************************)
(* C04.  The encoder side of Type 2: which operator forms can express the  *)
(* beginning of a path, and when a compiled charstring represents a glyph. *)
(***************************************************************************)
EXTENDS Type2, FiniteSets

IsLine(g) == Len(g) = 2
IsCurve(g) == Len(g) = 6

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

AllLines(p) == \A i \in 1..Len(p) : IsLine(p[i])
AllCurves(p) == \A i \in 1..Len(p) : IsCurve(p[i])
Odd(i) == i % 2 = 1

\* lines, alternating between horizontal and vertical
AltOK(p, hor) == AllLines(p) /\ \A i \in 1..Len(p) : p[i][IF Odd(i) = hor THEN 2 ELSE 1] = 0
AltArgs(p, hor) == [i \in 1..Len(p) |-> p[i][IF Odd(i) = hor THEN 1 ELSE 2]]

HHOK(p) == AllCurves(p) /\ \A i \in 1..Len(p) : p[i][6] = 0 /\ (i > 1 => p[i][2] = 0)
HHArgs(p) == (IF p[1][2] # 0 THEN <<p[1][2]>> ELSE <<>>) \o Flat([i \in 1..Len(p) |-> <<p[i][1], p[i][3], p[i][4], p[i][5]>>])
VVOK(p) == AllCurves(p) /\ \A i \in 1..Len(p) : p[i][5] = 0 /\ (i > 1 => p[i][1] = 0)
VVArgs(p) == (IF p[1][1] # 0 THEN <<p[1][1]>> ELSE <<>>) \o Flat([i \in 1..Len(p) |-> <<p[i][2], p[i][3], p[i][4], p[i][6]>>])

\* curves whose start tangents alternate; the last one may end anywhere
HVOK(p, hor) == AllCurves(p) /\ \A i \in 1..Len(p) :
                  LET h == Odd(i) = hor IN
                  p[i][IF h THEN 2 ELSE 1] = 0 /\ (i < Len(p) => p[i][IF h THEN 5 ELSE 6] = 0)
HVArgs(p, hor) == Flat([i \in 1..Len(p) |->
                    LET h == Odd(i) = hor
                        four == <<p[i][IF h THEN 1 ELSE 2], p[i][3], p[i][4], p[i][IF h THEN 6 ELSE 5]>>
                        e == p[i][IF h THEN 5 ELSE 6]
                    IN IF i = Len(p) /\ e # 0 THEN Append(four, e) ELSE four])

HFlexOK(p) == Len(p) = 2 /\ AllCurves(p) /\ p[1][2] = 0 /\ p[1][6] = 0 /\ p[2][2] = 0 /\ p[2][6] = 0
              /\ p[1][4] + p[2][4] = 0
HFlex1OK(p) == Len(p) = 2 /\ AllCurves(p) /\ p[1][6] = 0 /\ p[2][2] = 0
               /\ p[1][2] + p[1][4] + p[2][4] + p[2][6] = 0

\* All single-operator encodings of the whole of p
Forms(p) ==
  LET n == Len(p)
      last == p[n]
      init == SubSeq(p, 1, n - 1)
  IN
  (IF AllLines(p) THEN {<<rlineto, Flat(p)>>} ELSE {}) \cup
  (IF AltOK(p, TRUE) THEN {<<hlineto, AltArgs(p, TRUE)>>} ELSE {}) \cup
  (IF AltOK(p, FALSE) THEN {<<vlineto, AltArgs(p, FALSE)>>} ELSE {}) \cup
  (IF AllCurves(p) THEN {<<rrcurveto, Flat(p)>>} ELSE {}) \cup
  (IF n > 1 /\ AllCurves(init) /\ IsLine(last) THEN {<<rcurveline, Flat(p)>>} ELSE {}) \cup
  (IF n > 1 /\ AllLines(init) /\ IsCurve(last) THEN {<<rlinecurve, Flat(p)>>} ELSE {}) \cup
  (IF HHOK(p) THEN {<<hhcurveto, HHArgs(p)>>} ELSE {}) \cup
  (IF VVOK(p) THEN {<<vvcurveto, VVArgs(p)>>} ELSE {}) \cup
  (IF HVOK(p, TRUE) THEN {<<hvcurveto, HVArgs(p, TRUE)>>} ELSE {}) \cup
  (IF HVOK(p, FALSE) THEN {<<vhcurveto, HVArgs(p, FALSE)>>} ELSE {}) \cup
  (IF HFlexOK(p) THEN {<<hflex, <<p[1][1], p[1][3], p[1][4], p[1][5], p[2][1], p[2][3], p[2][5]>>>>} ELSE {}) \cup
  (IF HFlex1OK(p) THEN {<<hflex1, <<p[1][1], p[1][2], p[1][3], p[1][4], p[1][5], p[2][1], p[2][3], p[2][4], p[2][5]>>>>} ELSE {})

\* Number of times an edge between two charstring operators is needed
EdgesFrom(p) == UNION {{[k |-> k, op |-> f[1], args |-> f[2]] : f \in Forms(SubSeq(p, 1, k))} : k \in 1..Len(p)}
LegalEdges(p) == {e \in EdgesFrom(p) : Len(e.args) <= MaxStack}

-----------------------------------------------------------------------------
(* A glyph description, as recorded by the harness: every coordinate is an *)
(* interval <<lo, hi>> of acceptable 16.16 values.                         *)
(*   cmds: <<0|1|2, lo1, hi1, lo2, hi2, ...>> or <<3|4, mask bytes>>       *)
(*   h, v: <<lo1, hi1, lo2, hi2, ...>>;  w: <<lo, hi>>                     *)

Within(vals, iv) == Len(iv) = 2 * Len(vals) /\ \A i \in 1..Len(vals) : iv[2*i-1] <= vals[i] /\ vals[i] <= iv[2*i]

CmdOK(c, d) == c[1] = d[1] /\ IF c[1] >= 3 THEN c = d ELSE Within(Tail(c), Tail(d))
CmdsOK(cs, ds) == Len(cs) = Len(ds) /\ \A i \in 1..Len(cs) : CmdOK(cs[i], ds[i])

\* f has fields cmds, h, v, w
Diff(f, g) ==
  (IF ~CmdsOK(f.cmds, g.cmds) THEN {"outline"} ELSE {}) \cup
  (IF ~(Within(f.h, g.h) /\ Within(f.v, g.v)) THEN {"stems"} ELSE {}) \cup
  (IF ~Within(<<f.w>>, g.w) THEN {"width"} ELSE {})

\* Every pair of successive coordinates is close enough to be connected by a
\* single 16.16 number.
Far == 32766 * One
Near(a, b) == \* the difference of two numbers of up to 32768 may overflow
  IF (a >= 0) = (b >= 0) THEN TRUE
  ELSE IF a >= 0 THEN a - Far <= b ELSE b - Far <= a
RECURSIVE Connected(_, _, _)
Connected(cs, x, y) ==
  IF cs = <<>> THEN TRUE
  ELSE LET c == cs[1] IN
    IF c[1] >= 3 THEN Connected(Tail(cs), x, y)
    ELSE IF c[1] <= 1 THEN Near(x, c[2]) /\ Near(y, c[4]) /\ Connected(Tail(cs), c[2], c[4])
    ELSE /\ Near(x, c[2]) /\ Near(y, c[4])
         /\ Near(c[2], c[6]) /\ Near(c[4], c[8])
         /\ Near(c[6], c[10]) /\ Near(c[8], c[12])
         /\ Connected(Tail(cs), c[10], c[12])
NearAll(e) == \A i \in 1..(Len(e) \div 2) - 1 : Near(e[2*i-1], e[2*i+1])
Representable(g) == Connected(g.cmds, 0, 0) /\ NearAll(g.h) /\ NearAll(g.v)
                    /\ g.w[1] >= -32766 * One /\ g.w[2] <= 32766 * One

\* the code is completely used up when endchar is executed
AllUsed(m) == \A i \in 1..Len(m.fr) : m.fr[i].p = Len(m.fr[i].c) + 1
=============================================================================
