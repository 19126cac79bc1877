------------------------------- MODULE MCGlyf -------------------------------
(***************************************************************************)
(* C11.  A nondeterministic encoder of simple glyphs: it may use any of    *)
(* the encodings of each coordinate, any flag repetition, reserved flag    *)
(* bits, instructions and trailing padding.  The decoding machine must     *)
(* always return the points.  A second part enumerates composite glyphs.   *)
(* All final states are emitted as inputs for the real code.               *)
(***************************************************************************)
EXTENDS Glyf, Json, CSV, IOUtils, TLC

CONSTANTS NPt, DX, DY, Reserved, Comps, EX, EY

DXa == {0, 5, -255, 300}
DYa == {0, -7}
DXb == {0, 255}
DYb == {0, -255}
DXc == {0, 5, -255, 256, -32768}
DYc == {0, -7, 255, -256}

VARIABLES pts, fl, xs, ys, tail, mode, comp

vars == <<pts, fl, xs, ys, tail, mode, comp>>

W(v) == LET u == v % 65536 IN <<u \div 256, u % 256>>
\* encodings of a difference: <<flag bits, bytes>>
Enc(d, ee, short, pos) ==
  {e \in {<<"long", 0, W(d)>>} \cup (IF d = 0 THEN {<<"same", pos, <<>>>>} ELSE {})
         \cup (IF d \in 0..255 THEN {<<"pos", short + pos, <<d>>>>} ELSE {})
         \cup (IF d \in -255..0 THEN {<<"neg", short, <<-d>>>>} ELSE {}) : e[1] \in ee}
EncX(d) == Enc(d, EX, 2, 16)
EncY(d) == Enc(d, EY, 4, 32)

\* fl is a sequence of flags with repeat counts: <<flag, count or -1>>
Put(f) ==
  LET n == Len(fl) IN
  \/ fl' = Append(fl, <<f, -1>>)
  \/ fl' = Append(fl, <<f, 0>>)        \* repeat bit with a count of 0
  \/ n > 0 /\ fl[n][1] = f /\ fl[n][2] >= 0 /\ fl' = [fl EXCEPT ![n][2] = @ + 1]

RECURSIVE SumTo(_, _)
SumTo(i, d) == IF i = 0 THEN 0 ELSE SumTo(i - 1, d) + pts[i][d]

Init == /\ pts = <<>> /\ fl = <<>> /\ xs = <<>> /\ ys = <<>> /\ tail = <<>> /\ comp = <<>>
        /\ mode \in {"points"} \cup (IF Comps = {} THEN {} ELSE {"comp"})
AddPoint ==
  /\ mode = "points" /\ Len(pts) < NPt
  /\ \E dx \in DX, dy \in DY, on \in {0, 1}, rsv \in Reserved :
     \E ex \in EncX(dx), ey \in EncY(dy) :
       /\ SumTo(Len(pts), 1) + dx \in -32768..32767    \* coordinates are 16 bit numbers
       /\ SumTo(Len(pts), 2) + dy \in -32768..32767
       /\ pts' = Append(pts, <<dx, dy, on>>)
       /\ Put(on + ex[2] + ey[2] + rsv)
       /\ xs' = xs \o ex[3]
       /\ ys' = ys \o ey[3]
  /\ UNCHANGED <<tail, mode, comp>>
Finish ==
  /\ mode = "points" /\ Len(pts) >= 1
  /\ mode' = "done"
  /\ \E t \in {<<>>, <<0>>} : tail' = t
  /\ UNCHANGED <<pts, fl, xs, ys, comp>>

Flags == {a + b + c : a \in {0, 1}, b \in {0, 2}, c \in {0, 8, 64, 128, 72, 200}}
AddComp ==
  /\ mode = "comp" /\ Len(comp) < 2
  /\ \E f \in Flags, g \in Comps, ins \in {0, 256}, more \in {0, 32} :
       /\ Len(comp) = 1 => more = 0
       /\ LET ff == f + ins + more IN
          comp' = Append(comp, <<ff, g>> \o [i \in 1..ArgSize(ff) |-> (37 * i + 200 * g) % 256])
       /\ mode' = IF more = 32 THEN "comp" ELSE "cdone"
  /\ UNCHANGED <<pts, fl, xs, ys, tail>>
CompTail ==
  /\ mode = "cdone" /\ tail = <<>>
  /\ \E t \in {<<0, 0>>, <<0, 1, 7>>, <<0, 2, 0, 0>>} : tail' = t
  /\ \E i \in 1..Len(comp) : Bit(comp[i][1], 256)
  /\ mode' = "cfinal"
  /\ UNCHANGED <<pts, fl, xs, ys, comp>>
CompNoTail ==
  /\ mode = "cdone" /\ ~\E i \in 1..Len(comp) : Bit(comp[i][1], 256)
  /\ mode' = "cfinal"
  /\ UNCHANGED <<pts, fl, xs, ys, comp, tail>>
Next == AddPoint \/ Finish \/ AddComp \/ CompTail \/ CompNoTail

----------------------------------------------------------------------------
FlagBytes == FlattenSeq([i \in 1..Len(fl) |-> IF fl[i][2] < 0 THEN <<fl[i][1]>> ELSE <<fl[i][1] + 8, fl[i][2]>>])
\* with one contour, or a first contour of the first point
Ends(two) == IF two THEN W(0) \o W(Len(pts) - 1) ELSE W(Len(pts) - 1)
Ins(two) == IF two THEN <<0, 1, 99>> ELSE <<0, 0>>
Body(two) == Ends(two) \o Ins(two) \o FlagBytes \o xs \o ys
All == [i \in 1..Len(pts) |-> <<SumTo(i, 1), SumTo(i, 2), pts[i][3]>>]
Want(two) == IF two THEN <<SubSeq(All, 1, 1), SubSeq(All, 2, Len(All))>> ELSE <<All>>
Twos == IF Len(pts) > 1 THEN BOOLEAN ELSE {FALSE}
NC(two) == IF two THEN 2 ELSE 1
Faithful == mode = "done" => \A two \in Twos :
  LET b == Body(two)
      m == SimpleMachine(NC(two), b \o tail) IN
  /\ m.ok /\ m.cc = Want(two) /\ m.len = Len(b)
  /\ ~SimpleMachine(NC(two), SubSeq(b, 1, Len(b) - 1)).ok
CompBytes == FlattenSeq([i \in 1..Len(comp) |-> W(comp[i][1]) \o W(comp[i][2]) \o SubSeq(comp[i], 3, Len(comp[i]))]) \o tail
FaithfulComp == mode = "cfinal" =>
  LET m == CompR(CompBytes, 0, <<>>, FALSE) IN
  /\ m.ok /\ m.c = comp /\ m.hi = (tail # <<>>)
  /\ m.hi => m.ins = SubSeq(tail, 3, Len(tail))

Emit == mode = "done" =>
   CSVWrite("%1$s", <<ToJson([nc |-> NC(Len(fl) > 1), e |-> Body(Len(fl) > 1) \o tail])>>, IOEnv.CASES \o "/simple.ndjson")
EmitComp == mode = "cfinal" =>
   CSVWrite("%1$s", <<ToJson(CompBytes)>>, IOEnv.CASES \o "/comp.ndjson")
=============================================================================
