------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Laying out a text with a font (C15): characters -> glyphs -> enabled    *)
(* substitutions -> advance widths -> enabled positioning rules.           *)
(*                                                                         *)
(* A layout table is a record                                              *)
(*   [has, ll, sys, feats]: lookups as in Shaper.tla; language systems     *)
(*   [conf, dflt, req, opt]: how well the system fits the language of the  *)
(*   text (0 = not at all), whether it belongs to the default script, the  *)
(*   required feature and the optional features; features [tag, l].        *)
(* Feature switches are [nil |-> BOOLEAN, on |-> sequence of tags].        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Sh == INSTANCE Shaper
LOCAL CM == INSTANCE Cmap

Elems(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* Feature selection.                                                      *)
(***************************************************************************)
GsubDefault == {"calt", "ccmp", "clig", "liga", "locl"}
GposDefault == {"kern", "mark", "mkmk"}
Enabled(sw, default) == IF sw.nil THEN default ELSE Elems(sw.on)

\* the language systems which may be chosen for the language of the text;
\* if none fits, the choice is not specified
Candidates(sys) == {i \in 1..Len(sys) : \A j \in 1..Len(sys) : sys[j].conf <= sys[i].conf}

\* the lookups of a language system, as a set
SelectedSet(s, feats, n, on) ==
  LET F == ({s.req} \cup {f \in Elems(s.opt) : f < Len(feats) /\ feats[f + 1].tag \in on}) \cap 0..(Len(feats) - 1)
  IN (UNION {Elems(feats[f + 1].l) : f \in F}) \cap 0..(n - 1)
Ascending(S) == SetToSortSeq(S, <)
Selected(s, feats, n, on) == Ascending(SelectedSet(s, feats, n, on))

\* all possible results
LookupChoices(tab, on) ==
  IF tab.sys = <<>> THEN {<<>>}
  ELSE {Selected(tab.sys[i], tab.feats, Len(tab.ll), on) : i \in Candidates(tab.sys)}

(***************************************************************************)
(* Characters.  A cmap is a sequence of subtables [k, b]: key <<platform,  *)
(* encoding, language>> and bytes.                                         *)
(***************************************************************************)
KnownKeys == {<<3, 10, 0>>, <<0, 4, 0>>, <<3, 1, 0>>, <<0, 3, 0>>, <<1, 0, 0>>}
BestSubs(cms) ==
  LET D == {i \in 1..Len(cms) : cms[i].k \in KnownKeys}
      cls(i) == CM!Class(cms[i].k[1], cms[i].k[2])
  IN {i \in D : \A j \in D : cls(i) <= cls(j)}
\* the mapping of a subtable, as runs <<first, last, glyph>>
InRuns(rr, c) ==
  LET S == {i \in 1..Len(rr) : rr[i][1] <= c /\ c <= rr[i][2]} IN
  IF S = {} THEN 0 ELSE LET r == rr[CHOOSE i \in S : TRUE] IN r[3] + (c - r[1])
Mapping(sub) ==
  IF sub.k[1] = 1
  THEN LET P == CM!MacPairs(CM!Runs(sub.b)) IN [mac |-> TRUE, p |-> P, rr |-> <<>>]
  ELSE [mac |-> FALSE, p |-> {}, rr |-> CM!Runs(sub.b)]
Lookup(m, c) ==
  IF m.mac THEN LET S == {q \in m.p : q[1] = c} IN IF S = {} THEN 0 ELSE (CHOOSE q \in S : TRUE)[2]
  ELSE InRuns(m.rr, c)

Chars(text, M(_)) == [i \in 1..Len(text) |-> [g |-> M(text[i]), t |-> <<text[i]>>, x |-> 0, y |-> 0, w |-> 0]]

(***************************************************************************)
(* Standard ligatures, for proportional fonts without GSUB.                *)
(***************************************************************************)
Ligatures == << <<64259, 102, 102, 105>>, <<64260, 102, 102, 108>>, <<64256, 102, 102>>, <<64257, 102, 105>>, <<64258, 102, 108>> >>
Available(M(_)) == SelectSeq(Ligatures, LAMBDA s : \A k \in 1..Len(s) : M(s[k]) # 0)
FixedPitch(ww) == LET W == Elems(ww) \ {0} IN Cardinality(W) <= 1

\* the longest ligature at the start of a glyph sequence, or <<>>
FirstLig(av, M(_), q, i) ==
  LET fit == SelectSeq(av, LAMBDA s : i + Len(s) - 2 <= Len(q) /\ \A k \in 1..(Len(s) - 1) : q[i + k - 1].g = M(s[k + 1]))
  IN IF fit = <<>> THEN <<>> ELSE fit[1]
RECURSIVE Ligate(_, _, _, _)
Ligate(av, M(_), q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE LET s == FirstLig(av, M, q, i)
           n == Len(s) - 1
       IN IF s = <<>> THEN <<q[i]>> \o Ligate(av, M, q, i + 1)
          ELSE <<[q[i] EXCEPT !.g = M(s[1]), !.t = Sh!CatText(q, [k \in 1..n |-> i + k - 1], 1)]>> \o Ligate(av, M, q, i + n)

(***************************************************************************)
(* The "kern" table: subtables [ver, fmt, flags, pairs], where pairs are   *)
(* <<left, right, value>>.                                                 *)
(***************************************************************************)
Bit(f, k) == (f \div (2 ^ k)) % 2 = 1
Horizontal(st) == st.ver = 0 /\ st.fmt = 0 /\ Bit(st.flags, 0) /\ ~Bit(st.flags, 2)
\* the behaviour of these subtables is not specified
Odd(st) == st.flags > 15 \/ (Bit(st.flags, 1) /\ Bit(st.flags, 3))
Accumulate(acc, st, v) ==
  IF Bit(st.flags, 1) THEN Max2(acc, v) ELSE IF Bit(st.flags, 3) THEN v ELSE acc + v
RECURSIVE KernFrom(_, _, _, _, _)
KernFrom(subs, i, acc, l, r) ==
  IF i > Len(subs) THEN acc
  ELSE LET P == IF Horizontal(subs[i]) THEN {p \in subs[i].pairs : p[1] = l /\ p[2] = r} ELSE {}
       IN KernFrom(subs, i + 1, IF P = {} THEN acc ELSE Accumulate(acc, subs[i], (CHOOSE p \in P : TRUE)[3]), l, r)
KernValue(subs, l, r) == KernFrom(subs, 1, 0, l, r)

\* decoding the bytes of a table
I16(b, o) == LET v == CM!U16(b, o) IN IF v >= 32768 THEN v - 65536 ELSE v
RECURSIVE KernSubs(_, _, _)
KernSubs(b, n, o) ==
  IF n = 0 \/ o + 14 > Len(b) THEN <<>>
  ELSE LET np == CM!U16(b, o + 6)
           ok == CM!U8(b, o + 4) = 0 /\ o + 14 + 6 * np <= Len(b)
           pp == IF ok THEN {<<CM!U16(b, o + 14 + 6 * i), CM!U16(b, o + 16 + 6 * i), I16(b, o + 18 + 6 * i)>> : i \in 0..(np - 1)} ELSE {}
       IN <<[ver |-> CM!U16(b, o), fmt |-> CM!U8(b, o + 4), flags |-> CM!U8(b, o + 5), pairs |-> pp]>>
          \o KernSubs(b, n - 1, o + Max2(CM!U16(b, o + 2), 14))
KernTable(b) == IF Len(b) < 4 THEN <<>> ELSE KernSubs(b, CM!U16(b, 2), 4)

\* the table written for a set of pairs
KernWf(b) ==
  /\ Len(b) >= 18 /\ CM!U16(b, 0) = 0 /\ CM!U16(b, 2) = 1 /\ CM!U16(b, 4) = 0
  /\ CM!U16(b, 6) = Len(b) - 4 /\ CM!U16(b, 8) = 1
  /\ LET n == CM!U16(b, 10)
         e == CM!Log2(n) IN
     /\ Len(b) = 18 + 6 * n
     /\ n > 0 => CM!U16(b, 12) = 6 * (2 ^ e) /\ CM!U16(b, 14) = e /\ CM!U16(b, 16) = 6 * n - 6 * (2 ^ e)
     /\ \A i \in 1..(n - 1) : LET a == 18 + 6 * (i - 1)  c == 18 + 6 * i IN
           CM!U16(b, a) < CM!U16(b, c) \/ (CM!U16(b, a) = CM!U16(b, c) /\ CM!U16(b, a + 2) < CM!U16(b, c + 2))

(***************************************************************************)
(* The stages.                                                             *)
(***************************************************************************)
Apply(ll, gd, lk, q, rev) == Sh!Final([ll |-> ll, gd |-> gd, lk |-> lk], Sh!Begin(q), rev)
Width(ww, g) == IF g + 1 <= Len(ww) THEN ww[g + 1] ELSE 0
Widths(q, gd, ww) == [i \in 1..Len(q) |-> IF Sh!IsMark(gd, q[i].g) THEN q[i] ELSE [q[i] EXCEPT !.w = Width(ww, q[i].g)]]
Kern(q, K(_, _)) == [i \in 1..Len(q) |-> IF i = Len(q) THEN q[i] ELSE [q[i] EXCEPT !.w = @ + K(q[i].g, q[i + 1].g)]]
=============================================================================
