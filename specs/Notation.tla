------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* C19.  The textual notation for GSUB and GPOS lookups: what a text       *)
(* means, and how a list of lookups can be written down.                   *)
(*                                                                         *)
(* A text is a sequence of characters (strings of length one).  A font     *)
(* gives meaning to glyph names and quoted strings:                        *)
(*   E.n      number of glyphs                                             *)
(*   E.names  names of the glyphs ("": none)                               *)
(*   E.cm     sequence of <<character, glyph>>: the character map          *)
(*   E.letters, E.digits, E.spaces: the non-ASCII characters of these      *)
(*            Unicode classes.                                             *)
(* Parse(E, text) is [ok |-> FALSE] if the text is not in the language,    *)
(* and otherwise gives the lookups                                         *)
(*   [t |-> kind, fl |-> flags, subs |-> subtables]                        *)
(* where glyph sets are ascending sequences, tables indexed by coverage    *)
(* are sequences parallel to cov, class tables are ascending sequences of  *)
(* <<glyph, class>>, and backtrack sequences are stored in the order of    *)
(* the file format, closest glyph first.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

(***************************************************************************)
(* Characters and tokens.                                                  *)
(***************************************************************************)
Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
AsciiLetter == Chars(Lower) \cup Chars(Upper)
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
AsciiDigit == Range(DigitSeq)
DigVal == [c \in AsciiDigit |-> CHOOSE i \in 0..9 : DigitSeq[i + 1] = c]
Blank == {" ", "\t", "\r", "\f"}
Single == {",", ";", ":", "[", "]", "@", "/", "&", "="}

NoTok == [k |-> "", s |-> "", n |-> 0, cs |-> <<>>]
Tok(k) == [NoTok EXCEPT !.k = k]

Letter(E, c) == c \in AsciiLetter \/ c \in Range(E.letters)
IdStart(E, c) == Letter(E, c) \/ c \in {".", "_"}
Cont(E, c) == IdStart(E, c) \/ c \in AsciiDigit \/ c \in Range(E.digits)
Space(E, c) == c \in Blank \/ c \in Range(E.spaces)

Big == 1000000

(***************************************************************************)
(* The state of the lexer: what is being read (mode), and the tokens so    *)
(* far.  Numbers saturate at Big; sign 0 means that no digit is expected   *)
(* to make the number valid.                                               *)
(***************************************************************************)
LexInit == [mode |-> "start", toks |-> <<>>, s |-> "", n |-> 0, nd |-> 0, neg |-> FALSE, cs |-> <<>>, esc |-> FALSE]

Emit(st, tok) == [st EXCEPT !.toks = Append(@, tok), !.mode = "start"]
\* a number without digits has no value
IntTok(st) == [NoTok EXCEPT !.k = "int",
                            !.n = IF st.nd = 0 THEN -2 * Big ELSE IF st.neg THEN -st.n ELSE st.n]
Flush(st) ==
  CASE st.mode = "id" -> Emit(st, [NoTok EXCEPT !.k = "id", !.s = st.s])
    [] st.mode = "int" -> Emit(st, IntTok(st))
    [] st.mode = "minus" -> Emit(st, Tok("-"))
    [] st.mode = "bar" -> Emit(st, Tok("|"))
    [] st.mode = "comment" -> [st EXCEPT !.mode = "start"]
    [] OTHER -> st

Digit(st, c) == [st EXCEPT !.mode = "int", !.nd = 1,
                           !.n = IF @ >= Big THEN Big ELSE (10 * @) + DigVal[c]]

First(E, st, c) ==
  LET z == [st EXCEPT !.s = "", !.n = 0, !.nd = 0, !.neg = FALSE, !.cs = <<>>, !.esc = FALSE] IN
  CASE c = "\n" -> Emit(z, Tok("eol"))
    [] Space(E, c) -> z
    [] IdStart(E, c) -> [z EXCEPT !.mode = "id", !.s = c]
    [] c = "\"" -> [z EXCEPT !.mode = "str"]
    [] c \in AsciiDigit -> Digit(z, c)
    [] c = "+" -> [z EXCEPT !.mode = "int"]
    [] c \in Single -> Emit(z, Tok(c))
    [] c = "-" -> [z EXCEPT !.mode = "minus"]
    [] c = "|" -> [z EXCEPT !.mode = "bar"]
    [] c = "#" -> [z EXCEPT !.mode = "comment"]
    [] OTHER -> [z EXCEPT !.mode = "err"]

Escaped(c) == CASE c = "n" -> "\n" [] c = "r" -> "\r" [] c = "t" -> "\t" [] OTHER -> c

LexChar(E, st, c) ==
  CASE st.mode = "err" -> st
    [] st.mode = "start" -> First(E, st, c)
    [] st.mode = "id" -> IF Cont(E, c) THEN [st EXCEPT !.s = @ \o c] ELSE First(E, Flush(st), c)
    [] st.mode = "int" -> IF c \in AsciiDigit THEN Digit(st, c) ELSE First(E, Flush(st), c)
    [] st.mode = "minus" -> IF c = ">" THEN Emit(st, Tok("->"))
                            ELSE IF c \in AsciiDigit THEN Digit([st EXCEPT !.neg = TRUE], c)
                            ELSE First(E, Flush(st), c)
    [] st.mode = "bar" -> IF c = "|" THEN Emit(st, Tok("||")) ELSE First(E, Flush(st), c)
    [] st.mode = "comment" -> IF c = "\n" THEN First(E, Flush(st), c) ELSE st
    [] st.mode = "str" ->
         IF c = "\n" THEN [st EXCEPT !.mode = "err"]
         ELSE IF st.esc THEN [st EXCEPT !.cs = Append(@, Escaped(c)), !.esc = FALSE]
         ELSE IF c = "\\" THEN [st EXCEPT !.esc = TRUE]
         ELSE IF c = "\"" THEN Emit(st, [NoTok EXCEPT !.k = "str", !.cs = st.cs])
         ELSE [st EXCEPT !.cs = Append(@, c)]

\* the tokens of a text, ending in "eof" or "err"
Lex(E, text) ==
  LET st == FoldLeft(LAMBDA s, c : LexChar(E, s, c), LexInit, text)
      f == Flush(st)
  IN Append(f.toks, Tok(IF f.mode \in {"err", "str"} THEN "err" ELSE "eof"))

(***************************************************************************)
(* Parsing.  P holds the tokens, the glyphs by name and by character.      *)
(* Every reader takes a position and gives [ok, p, v].                     *)
(***************************************************************************)
Yes(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
No(v) == [ok |-> FALSE, p |-> 0, v |-> v]

T(P, p) == IF p > Len(P.toks) THEN Tok("eof") ELSE P.toks[p]
Opt(P, p, k) == IF T(P, p).k = k THEN p + 1 ELSE p
IsId(P, p, s) == T(P, p).k = "id" /\ T(P, p).s = s
OptOr(P, p) == IF T(P, p).k = "||" THEN Opt(P, p + 1, "eol") ELSE p

Sorted(S) == SetToSortSeq(S, <)

\* one glyph after the other, the first one perhaps ending a range
Span(a, b) == IF a <= b THEN [i \in 1..(b - a) |-> a + i] ELSE [i \in 1..(a - b) |-> a - i]

RECURSIVE GL(_, _, _, _)
GL(P, p, acc, hy) ==
  LET t == T(P, p)
      \* the glyphs of the item; <<-1>>: none such
      next == CASE t.k = "id" -> <<P.byName[t.s]>>
                [] t.k = "int" -> IF t.n >= 0 /\ t.n < P.n THEN <<t.n>> ELSE <<-1>>
                [] t.k = "str" -> [i \in 1..Len(t.cs) |-> IF t.cs[i] \in DOMAIN P.byChar THEN P.byChar[t.cs[i]] ELSE -1]
  IN IF t.k = "-" THEN (IF hy THEN No(<<>>) ELSE GL(P, p + 1, acc, TRUE))
     ELSE IF t.k \in {"int", "str"} \/ (t.k = "id" /\ t.s \in DOMAIN P.byName)
     THEN IF \E i \in DOMAIN next : next[i] < 0 THEN No(<<>>)
          ELSE IF next = <<>> THEN GL(P, p + 1, acc, hy)
          ELSE IF hy /\ acc = <<>> THEN No(<<>>)
          ELSE IF hy THEN GL(P, p + 1, acc \o Span(acc[Len(acc)], next[1]) \o Tail(next), FALSE)
          ELSE GL(P, p + 1, acc \o next, FALSE)
     ELSE IF hy THEN No(<<>>) ELSE Yes(p, acc)
GlyphList(P, p) == GL(P, p, <<>>, FALSE)

\* a glyph list with the given number of elements
Glyph(P, p) == LET g == GlyphList(P, p) IN
               IF g.ok /\ Len(g.v) = 1 THEN Yes(g.p, g.v[1]) ELSE No(0)

\* "[" glyphs "]"
GlyphSet(P, p) ==
  IF T(P, p).k # "[" THEN No(<<>>)
  ELSE LET g == GlyphList(P, p + 1) IN
       IF g.ok /\ T(P, g.p).k = "]" THEN Yes(g.p + 1, Sorted(Range(g.v))) ELSE No(<<>>)

RECURSIVE Flags(_, _, _)
FlagOf(s) == CASE s = "rtl" -> 1 [] s = "base" -> 2 [] s = "ligs" -> 4 [] s = "marks" -> 8 [] OTHER -> 0
\* v: set of flag bits
Flags(P, p, acc) ==
  IF T(P, p).k # "-" THEN Yes(Opt(P, p, "eol"), acc)
  ELSE IF T(P, p + 1).k = "id" /\ FlagOf(T(P, p + 1).s) > 0
       THEN Flags(P, p + 2, acc \cup {FlagOf(T(P, p + 1).s)})
       ELSE No({})

IsInt16(t) == t.k = "int" /\ t.n >= -32768 /\ t.n <= 32767
IsUint16(t) == t.k = "int" /\ t.n >= 0 /\ t.n <= 65535

\* lookup "@" position ...
RECURSIVE Nested(_, _, _)
Nested(P, p, acc) ==
  IF T(P, p).k # "int" THEN Yes(p, acc)
  ELSE IF IsUint16(T(P, p)) /\ T(P, p + 1).k = "@" /\ IsUint16(T(P, p + 2))
       THEN Nested(P, p + 3, Append(acc, <<T(P, p).n, T(P, p + 2).n>>))
       ELSE No(<<>>)

\* value records: <<>> or <<x, y, dx>>
RECURSIVE Value(_, _, _)
Value(P, p, v) ==
  LET k == CASE IsId(P, p, "x") -> 1 [] IsId(P, p, "y") -> 2 [] IsId(P, p, "dx") -> 3 [] OTHER -> 0 IN
  IF k = 0 THEN Yes(p, IF v = <<0, 0, 0>> THEN <<>> ELSE v)
  ELSE IF IsInt16(T(P, p + 1)) THEN Value(P, p + 2, [v EXCEPT ![k] = T(P, p + 1).n]) ELSE No(<<>>)
ValueRec(P, p) == IF IsId(P, p, "_") THEN Yes(p + 1, <<>>) ELSE Value(P, p, <<0, 0, 0>>)

\* <<first, second>>
PairRec(P, p) ==
  LET a == ValueRec(P, p) IN
  IF ~a.ok THEN No(<<>>)
  ELSE IF T(P, a.p).k # "&" THEN Yes(a.p, <<a.v, <<>>>>)
  ELSE LET b == ValueRec(P, a.p + 1) IN IF b.ok THEN Yes(b.p, <<a.v, b.v>>) ELSE No(<<>>)

\* x "," y
Point(P, p) ==
  IF IsInt16(T(P, p)) /\ T(P, p + 1).k = "," /\ IsInt16(T(P, p + 2))
  THEN Yes(p + 3, <<T(P, p).n, T(P, p + 2).n>>) ELSE No(<<>>)

(***************************************************************************)
(* A comma-separated list of entries; Entry(p) reads one of them.          *)
(***************************************************************************)
RECURSIVE Entries(_, _, _, _)
Entries(P, Entry(_), p, acc) ==
  LET e == Entry(p) IN
  IF ~e.ok THEN No(<<>>)
  ELSE LET a == Append(acc, e.v) IN
       IF T(P, e.p).k = "," THEN Entries(P, Entry, Opt(P, e.p + 1, "eol"), a) ELSE Yes(e.p, a)

\* left "->" right
Arrow(P, p, Left(_), Right(_)) ==
  LET a == Left(p) IN
  IF ~a.ok \/ T(P, a.p).k # "->" THEN No(<<>>)
  ELSE LET b == Right(a.p + 1) IN IF b.ok THEN Yes(b.p, <<a.v, b.v>>) ELSE No(<<>>)

Keys(ee) == {ee[i][1] : i \in DOMAIN ee}
Values(ee, k) == LET s == SelectSeq(ee, LAMBDA e : e[1] = k) IN [i \in 1..Len(s) |-> s[i][2]]
LastValue(ee, k) == LET s == Values(ee, k) IN s[Len(s)]
Unique(ee) == Cardinality(Keys(ee)) = Len(ee)
Along(cov, F(_)) == [i \in 1..Len(cov) |-> F(cov[i])]

SubGsub1(P, p) ==
  LET E(q) == LET a == Arrow(P, q, LAMBDA x : GlyphList(P, x), LAMBDA x : GlyphList(P, x)) IN
              IF a.ok /\ Len(a.v[1]) = Len(a.v[2]) THEN a ELSE No(<<>>)
      r == Entries(P, E, p, <<>>)
      ee == FoldLeft(LAMBDA acc, e : acc \o [i \in 1..Len(e[1]) |-> <<e[1][i], e[2][i]>>], <<>>, r.v)
      cov == Sorted(Keys(ee))
      D == {(e[2] + 65536 - e[1]) % 65536 : e \in Range(ee)}
  IN IF ~r.ok \/ ee = <<>> \/ ~Unique(ee) THEN No(<<>>)
     ELSE IF Cardinality(D) = 1 THEN Yes(r.p, [t |-> "s11", cov |-> cov, d |-> CHOOSE d \in D : TRUE])
     ELSE Yes(r.p, [t |-> "s12", cov |-> cov, sub |-> Along(cov, LAMBDA g : LastValue(ee, g))])

SubGsub2(P, p) ==
  LET E(q) == LET a == Arrow(P, q, LAMBDA x : Glyph(P, x), LAMBDA x : GlyphList(P, x)) IN
              IF a.ok /\ a.v[2] # <<>> THEN a ELSE No(<<>>)
      r == Entries(P, E, p, <<>>)
      cov == Sorted(Keys(r.v))
  IN IF ~r.ok \/ ~Unique(r.v) THEN No(<<>>)
     ELSE Yes(r.p, [t |-> "s21", cov |-> cov, rep |-> Along(cov, LAMBDA g : LastValue(r.v, g))])

SubGsub3(P, p) ==
  LET E(q) == Arrow(P, q, LAMBDA x : Glyph(P, x), LAMBDA x : GlyphSet(P, x))
      r == Entries(P, E, p, <<>>)
      cov == Sorted(Keys(r.v))
  IN IF ~r.ok \/ ~Unique(r.v) THEN No(<<>>)
     ELSE Yes(r.p, [t |-> "s31", cov |-> cov, alt |-> Along(cov, LAMBDA g : LastValue(r.v, g))])

SubGsub4(P, p) ==
  LET E(q) == LET a == Arrow(P, q, LAMBDA x : GlyphList(P, x), LAMBDA x : Glyph(P, x)) IN
              IF a.ok /\ a.v[1] # <<>> THEN Yes(a.p, <<a.v[1][1], [inp |-> Tail(a.v[1]), out |-> a.v[2]]>>) ELSE No(<<>>)
      r == Entries(P, E, p, <<>>)
      cov == Sorted(Keys(r.v))
  IN IF ~r.ok THEN No(<<>>)
     ELSE Yes(r.p, [t |-> "s41", cov |-> cov, lig |-> Along(cov, LAMBDA g : Values(r.v, g))])

SubGpos1(P, p) ==
  LET VR(x) == ValueRec(P, x) IN
  IF T(P, p).k = "["
  THEN LET a == Arrow(P, p, LAMBDA x : GlyphSet(P, x), VR) IN
       IF a.ok THEN Yes(a.p, [t |-> "p11", cov |-> a.v[1], v |-> a.v[2]]) ELSE No(<<>>)
  ELSE LET E(q) == Arrow(P, q, LAMBDA x : Glyph(P, x), VR)
           r == Entries(P, E, p, <<>>)
           cov == Sorted(Keys(r.v))
       IN IF ~r.ok THEN No(<<>>)
          ELSE Yes(r.p, [t |-> "p12", cov |-> cov, vv |-> Along(cov, LAMBDA g : LastValue(r.v, g))])

\* lists of classes: glyphs "," glyphs ... ";"
RECURSIVE ClassLists(_, _, _)
ClassLists(P, p, acc) ==
  IF T(P, p).k = ";" THEN Yes(p + 1, acc)
  ELSE IF acc # <<>> /\ T(P, p).k # "," THEN No(<<>>)
  ELSE LET g == GlyphList(P, IF acc = <<>> THEN p ELSE p + 1) IN
       IF g.ok THEN ClassLists(P, g.p, Append(acc, g.v)) ELSE No(<<>>)
ClassesOf(ll) == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..Len(ll[i]) |-> <<ll[i][j], i>>], <<>>, [i \in 1..Len(ll) |-> i])
SortKeys(ee) == Along(Sorted(Keys(ee)), LAMBDA g : <<g, LastValue(ee, g)>>)
NumClasses(cc) == 1 + Max({0} \cup {cc[i][2] : i \in DOMAIN cc})

\* n pair adjustments
RECURSIVE MRow(_, _, _, _)
MRow(P, p, n, acc) ==
  IF Len(acc) = n THEN Yes(p, acc)
  ELSE LET a == PairRec(P, IF acc = <<>> THEN p ELSE Opt(P, p, ",")) IN
       IF a.ok THEN MRow(P, a.p, n, Append(acc, a.v)) ELSE No(<<>>)
RECURSIVE MRows(_, _, _, _, _)
MRows(P, p, m, n, acc) ==
  IF Len(acc) = m THEN Yes(p, acc)
  ELSE LET a == MRow(P, p, n, <<>>)
           q == IF T(P, a.p).k \in {",", ";"} THEN a.p + 1 ELSE a.p
       IN IF a.ok THEN MRows(P, Opt(P, q, "eol"), m, n, Append(acc, a.v)) ELSE No(<<>>)

PairLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

SubGpos2(P, p) ==
  IF T(P, p).k = "/"
  THEN LET c == GlyphList(P, p + 1)
           q1 == Opt(P, c.p + 1, "eol")
           l1 == ClassLists(P, q1 + 1, <<>>)
           q2 == Opt(P, l1.p, "eol")
           l2 == ClassLists(P, q2 + 1, <<>>)
           c1 == ClassesOf(l1.v)
           c2 == ClassesOf(l2.v)
           m == MRows(P, Opt(P, l2.p, "eol"), NumClasses(c1), NumClasses(c2), <<>>)
       IN IF /\ c.ok
             /\ T(P, c.p).k = "/"
             /\ IsId(P, q1, "first")
             /\ l1.ok
             /\ Unique(c1)
             /\ IsId(P, q2, "second")
             /\ l2.ok
             /\ Unique(c2)
             /\ m.ok
          THEN Yes(m.p, [t |-> "p22", cov |-> Sorted(Range(c.v)), c1 |-> SortKeys(c1), c2 |-> SortKeys(c2), adj |-> m.v])
          ELSE No(<<>>)
  ELSE LET E(q) == LET a == Arrow(P, q, LAMBDA x : GlyphList(P, x), LAMBDA x : PairRec(P, x)) IN
                   IF a.ok /\ Len(a.v[1]) = 2 THEN a ELSE No(<<>>)
           r == Entries(P, E, p, <<>>)
           keys == SetToSortSeq(Keys(r.v), PairLess)
       IN IF ~r.ok THEN No(<<>>)
          ELSE Yes(r.p, [t |-> "p21", pairs |-> [i \in 1..Len(keys) |->
                 LET v == LastValue(r.v, keys[i]) IN [l |-> keys[i][1], r |-> keys[i][2], a |-> v[1], b |-> v[2]]]])

RECURSIVE Cursive(_, _, _)
Cursive(P, p, acc) ==
  LET g == Glyph(P, p)
      a == Point(P, Opt(P, g.p, ":"))
      b == Point(P, a.p + 1)
      x == Append(acc, <<g.v, a.v \o b.v>>)
  IN IF g.ok /\ a.ok /\ IsId(P, a.p, "to") /\ b.ok
     THEN IF T(P, b.p).k = ";" THEN Cursive(P, Opt(P, b.p + 1, "eol"), x) ELSE Yes(b.p, x)
     ELSE No(<<>>)
SubGpos3(P, p) ==
  LET r == Cursive(P, p, <<>>)
      cov == Sorted(Keys(r.v))
  IN IF ~r.ok THEN No(<<>>)
     ELSE Yes(r.p, [t |-> "p31", cov |-> cov, rec |-> Along(cov, LAMBDA g : LastValue(r.v, g))])

\* <<glyph, <<class, x, y>>>> ...
RECURSIVE Marks(_, _, _)
Marks(P, p, acc) ==
  IF ~IsId(P, p, "mark") THEN Yes(p, acc)
  ELSE LET g == Glyph(P, p + 1)
           q == Opt(P, g.p, ":")
           a == Point(P, q + 2)
       IN IF g.ok /\ IsUint16(T(P, q)) /\ T(P, q + 1).k = "@" /\ a.ok
          THEN Marks(P, Opt(P, Opt(P, a.p, ";"), "eol"), Append(acc, <<g.v, <<T(P, q).n>> \o a.v>>))
          ELSE No(<<>>)
\* n times "@" x "," y
RECURSIVE Anchors(_, _, _, _)
Anchors(P, p, n, acc) ==
  IF Len(acc) = n THEN Yes(p, acc)
  ELSE LET q == IF acc = <<>> THEN p ELSE Opt(P, p, ",")
           a == Point(P, q + 1)
       IN IF T(P, q).k = "@" /\ a.ok THEN Anchors(P, a.p, n, Append(acc, a.v)) ELSE No(<<>>)
RECURSIVE Bases(_, _, _, _)
Bases(P, p, n, acc) ==
  IF ~IsId(P, p, "base") THEN Yes(p, acc)
  ELSE LET g == Glyph(P, p + 1)
           a == Anchors(P, Opt(P, g.p, ":"), n, <<>>)
       IN IF g.ok /\ a.ok
          THEN Bases(P, Opt(P, Opt(P, a.p, ";"), "eol"), n, Append(acc, <<g.v, a.v>>))
          ELSE No(<<>>)
Ascending(ee) == \A i \in 1..(Len(ee) - 1) : ee[i][1] < ee[i + 1][1]
SubGpos4(P, p) ==
  LET m == Marks(P, p, <<>>)
      CC == {m.v[i][2][1] : i \in DOMAIN m.v}
      n == Cardinality(CC)
      b == Bases(P, m.p, n, <<>>)
  IN IF m.ok /\ Ascending(m.v) /\ CC = 0..(n - 1) /\ b.ok /\ Ascending(b.v)
     THEN Yes(b.p, [t |-> "p41", mcov |-> [i \in 1..Len(m.v) |-> m.v[i][1]], marks |-> [i \in 1..Len(m.v) |-> m.v[i][2]],
                    bcov |-> [i \in 1..Len(b.v) |-> b.v[i][1]], bases |-> [i \in 1..Len(b.v) |-> b.v[i][2]]])
     ELSE No(<<>>)

(***************************************************************************)
(* Contextual lookups.  Class definitions are collected in cs, one per     *)
(* keyword: the sequence of <<name, glyphs>> so far.  They are used up by  *)
(* the next subtable which is given by classes.                            *)
(***************************************************************************)
ClassDef(P, p) ==
  LET q == Opt(P, p + 4, "=")
      g == GlyphSet(P, q)
  IN IF T(P, p + 1).k = ":" /\ T(P, p + 2).k = "id" /\ T(P, p + 3).k = ":" /\ g.ok /\ g.v # <<>>
     THEN Yes(Opt(P, g.p, "eol"), <<T(P, p + 2).s, g.v>>)
     ELSE No(<<>>)

CanAdd(defs, d) == \A i \in DOMAIN defs : defs[i][1] # d[1] /\ Range(defs[i][2]) \cap Range(d[2]) = {}
TableOf(defs) == SortKeys(ClassesOf([i \in 1..Len(defs) |-> defs[i][2]]))

\* a sequence of class names, as numbers; -1: not defined
RECURSIVE ClassSeq(_, _, _, _)
ClassSeq(P, p, defs, acc) ==
  IF T(P, p).k # ":" THEN Yes(p, acc)
  ELSE IF T(P, p + 1).k = ":" THEN ClassSeq(P, p + 2, defs, Append(acc, 0))
  ELSE IF T(P, p + 1).k = "id" /\ T(P, p + 2).k = ":" /\ \E i \in DOMAIN defs : defs[i][1] = T(P, p + 1).s
  THEN ClassSeq(P, p + 3, defs, Append(acc, CHOOSE i \in DOMAIN defs : defs[i][1] = T(P, p + 1).s))
  ELSE No(<<>>)

RECURSIVE Sets(_, _, _, _)
\* glyph sets up to the given token, which is skipped
Sets(P, p, stop, acc) ==
  IF T(P, p).k = stop THEN Yes(p + 1, acc)
  ELSE LET g == GlyphSet(P, p) IN IF g.ok THEN Sets(P, g.p, stop, Append(acc, g.v)) ELSE No(<<>>)

NoDefs == <<<<>>, <<>>, <<>>>>

Ctx1(P, p) ==
  LET E(q) == LET a == Arrow(P, q, LAMBDA x : GlyphList(P, x), LAMBDA x : Nested(P, x, <<>>)) IN
              IF a.ok /\ a.v[1] # <<>> THEN Yes(a.p, <<a.v[1][1], [inp |-> Tail(a.v[1]), act |-> a.v[2]]>>) ELSE No(<<>>)
      r == Entries(P, E, p, <<>>)
      cov == Sorted(Keys(r.v))
  IN IF ~r.ok THEN No(<<>>)
     ELSE Yes(r.p, [t |-> "c1", cov |-> cov, rules |-> Along(cov, LAMBDA g : Values(r.v, g))])

Ctx2(P, p, defs) ==
  LET c == GlyphList(P, p + 1)
      E(q) == LET a == Arrow(P, q, LAMBDA x : ClassSeq(P, x, defs, <<>>), LAMBDA x : Nested(P, x, <<>>)) IN
              IF a.ok /\ a.v[1] # <<>> THEN Yes(a.p, <<a.v[1][1], [inp |-> Tail(a.v[1]), act |-> a.v[2]]>>) ELSE No(<<>>)
      r == Entries(P, E, c.p + 1, <<>>)
  IN IF c.ok /\ T(P, c.p).k = "/" /\ r.ok
     THEN Yes(r.p, [t |-> "c2", cov |-> Sorted(Range(c.v)), cls |-> TableOf(defs),
                    rules |-> [i \in 1..(Len(defs) + 1) |-> Values(r.v, i - 1)]])
     ELSE No(<<>>)

Ctx3(P, p) ==
  LET s == Sets(P, p, "->", <<>>)
      a == Nested(P, s.p, <<>>)
  IN IF s.ok /\ a.ok THEN Yes(a.p, [t |-> "c3", inp |-> s.v, act |-> a.v]) ELSE No(<<>>)

RECURSIVE SeqSubs(_, _, _, _)
SeqSubs(P, p, defs, acc) ==
  IF IsId(P, p, "class")
  THEN LET d == ClassDef(P, p) IN
       IF d.ok /\ CanAdd(defs, d.v) THEN SeqSubs(P, d.p, Append(defs, d.v), acc) ELSE No(<<>>)
  ELSE LET k == T(P, p).k
           s == CASE k = "/" -> Ctx2(P, p, defs) [] k = "[" -> Ctx3(P, p) [] OTHER -> Ctx1(P, p)
           a == Append(acc, s.v)
       IN IF ~s.ok THEN No(<<>>)
          ELSE IF T(P, s.p).k = "||" THEN SeqSubs(P, OptOr(P, s.p), IF k = "/" THEN <<>> ELSE defs, a)
          ELSE Yes(s.p, a)

\* backtrack "|" input "|" lookahead "->" actions: <<b, i, l, act>>
Chain(P, p, B(_), I(_), L(_)) ==
  LET b == B(p)
      i == I(b.p + 1)
      la == L(i.p + 1)
      a == Nested(P, la.p + 1, <<>>)
  IN IF b.ok /\ T(P, b.p).k = "|" /\ i.ok /\ T(P, i.p).k = "|" /\ la.ok /\ T(P, la.p).k = "->" /\ a.ok /\ i.v # <<>>
     THEN Yes(a.p, <<i.v[1], [bt |-> Reverse(b.v), inp |-> Tail(i.v), la |-> la.v, act |-> a.v]>>)
     ELSE No(<<>>)

Chain1(P, p) ==
  LET G(x) == GlyphList(P, x)
      E(q) == Chain(P, q, G, G, G)
      r == Entries(P, E, p, <<>>)
      cov == Sorted(Keys(r.v))
  IN IF ~r.ok THEN No(<<>>)
     ELSE Yes(r.p, [t |-> "h1", cov |-> cov, rules |-> Along(cov, LAMBDA g : Values(r.v, g))])

\* defs: for backtrack, input, lookahead
Chain2(P, p, defs) ==
  LET c == GlyphList(P, p + 1)
      E(q) == Chain(P, q, LAMBDA x : ClassSeq(P, x, defs[1], <<>>), LAMBDA x : ClassSeq(P, x, defs[2], <<>>),
                    LAMBDA x : ClassSeq(P, x, defs[3], <<>>))
      r == Entries(P, E, c.p + 1, <<>>)
  IN IF c.ok /\ T(P, c.p).k = "/" /\ r.ok
     THEN Yes(r.p, [t |-> "h2", cov |-> Sorted(Range(c.v)),
                    cb |-> TableOf(defs[1]), ci |-> TableOf(defs[2]), cl |-> TableOf(defs[3]),
                    rules |-> [i \in 1..(Len(defs[2]) + 1) |-> Values(r.v, i - 1)]])
     ELSE No(<<>>)

Chain3(P, p) ==
  LET b == Sets(P, p, "|", <<>>)
      i == Sets(P, b.p, "|", <<>>)
      la == Sets(P, i.p, "->", <<>>)
      a == Nested(P, la.p, <<>>)
  IN IF b.ok /\ i.ok /\ i.v # <<>> /\ la.ok /\ a.ok
     THEN Yes(a.p, [t |-> "h3", bt |-> Reverse(b.v), inp |-> i.v, la |-> la.v, act |-> a.v])
     ELSE No(<<>>)

RECURSIVE ChainSubs(_, _, _, _)
ChainSubs(P, p, defs, acc) ==
  LET w == CASE IsId(P, p, "backtrackclass") -> 1 [] IsId(P, p, "inputclass") -> 2
             [] IsId(P, p, "lookaheadclass") -> 3 [] OTHER -> 0 IN
  IF w > 0
  THEN LET d == ClassDef(P, p) IN
       IF d.ok /\ CanAdd(defs[w], d.v) THEN ChainSubs(P, d.p, [defs EXCEPT ![w] = Append(@, d.v)], acc) ELSE No(<<>>)
  ELSE LET k == T(P, p).k
           three == k = "[" \/ (k = "|" /\ T(P, p + 1).k = "[")
           s == CASE k = "/" -> Chain2(P, p, defs) [] three -> Chain3(P, p) [] OTHER -> Chain1(P, p)
           a == Append(acc, s.v)
       IN IF ~s.ok THEN No(<<>>)
          ELSE IF T(P, s.p).k = "||" THEN ChainSubs(P, OptOr(P, s.p), IF k = "/" THEN NoDefs ELSE defs, a)
          ELSE Yes(s.p, a)

(***************************************************************************)
(* Lookups.                                                                *)
(***************************************************************************)
RECURSIVE Subs(_, _, _, _)
Subs(P, p, Sub(_), acc) ==
  LET s == Sub(p)
      a == Append(acc, s.v)
  IN IF ~s.ok THEN No(<<>>)
     ELSE IF T(P, s.p).k = "||" THEN Subs(P, OptOr(P, s.p), Sub, a) ELSE Yes(s.p, a)

Kinds == {"GSUB1", "GSUB2", "GSUB3", "GSUB4", "GSUB5", "GSUB6", "GPOS1", "GPOS2", "GPOS3", "GPOS4"}

Body(P, k, p) ==
  CASE k = "GSUB1" -> Subs(P, p, LAMBDA q : SubGsub1(P, q), <<>>)
    [] k = "GSUB2" -> Subs(P, p, LAMBDA q : SubGsub2(P, q), <<>>)
    [] k = "GSUB3" -> Subs(P, p, LAMBDA q : SubGsub3(P, q), <<>>)
    [] k = "GSUB4" -> Subs(P, p, LAMBDA q : SubGsub4(P, q), <<>>)
    [] k = "GSUB5" -> SeqSubs(P, p, <<>>, <<>>)
    [] k = "GSUB6" -> ChainSubs(P, p, NoDefs, <<>>)
    [] k = "GPOS1" -> Subs(P, p, LAMBDA q : SubGpos1(P, q), <<>>)
    [] k = "GPOS2" -> Subs(P, p, LAMBDA q : SubGpos2(P, q), <<>>)
    [] k = "GPOS3" -> Subs(P, p, LAMBDA q : SubGpos3(P, q), <<>>)
    [] k = "GPOS4" -> Subs(P, p, LAMBDA q : SubGpos4(P, q), <<>>)

TypeNo(k) == DigVal[SubSeq(k, 5, 5)]

RECURSIVE TopLevel(_, _, _)
TopLevel(P, p, acc) ==
  LET t == T(P, p) IN
  CASE t.k = "eof" -> Yes(p, acc)
    [] t.k \in {";", "eol"} -> TopLevel(P, p + 1, acc)
    [] t.k = "id" /\ t.s \in Kinds ->
         LET f == Flags(P, Opt(P, Opt(P, p + 1, ":"), "eol"), {})
             b == Body(P, t.s, f.p)
         IN IF ~f.ok THEN No(<<>>)
            ELSE IF ~b.ok THEN No(<<>>)
            ELSE TopLevel(P, b.p, Append(acc, [t |-> TypeNo(t.s), fl |-> SumSet(f.v), subs |-> b.v]))
    [] OTHER -> No(<<>>)

\* of several glyphs with the same name, the last one counts
Env(E, text) ==
  LET NN == {i \in 1..Len(E.names) : E.names[i] # ""}
      CC == {i \in 1..Len(E.cm) : E.cm[i][2] > 0 /\ E.cm[i][2] < E.n}
  IN [toks |-> Lex(E, text), n |-> E.n,
      byName |-> [s \in {E.names[i] : i \in NN} |-> Max({i \in NN : E.names[i] = s}) - 1],
      byChar |-> [c \in {E.cm[i][1] : i \in CC} |-> E.cm[CHOOSE i \in CC : E.cm[i][1] = c][2]]]

Parse(E, text) == TopLevel(Env(E, text), 1, <<>>)

\* equality of lists of lookups
SameSub(a, b) == a.t = b.t /\ a = b
SameList(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : /\ a[i].t = b[i].t
                         /\ a[i].fl = b[i].fl
                         /\ Len(a[i].subs) = Len(b[i].subs)
                         /\ \A j \in DOMAIN a[i].subs : SameSub(a[i].subs[j], b[i].subs[j])

(***************************************************************************)
(* What a list of lookups must look like.                                  *)
(***************************************************************************)
Asc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
GoodGids(E, s) == \A i \in DOMAIN s : s[i] >= 0 /\ s[i] < E.n
GoodCov(E, s) == Asc(s) /\ GoodGids(E, s)
GoodTable(E, cc) == GoodCov(E, [i \in 1..Len(cc) |-> cc[i][1]]) /\ \A i \in DOMAIN cc : cc[i][2] > 0
GoodSub(E, s) ==
  CASE s.t = "s11" -> GoodCov(E, s.cov) /\ s.cov # <<>> /\ GoodGids(E, [i \in 1..Len(s.cov) |-> (s.cov[i] + s.d) % 65536])
    [] s.t = "s12" -> GoodCov(E, s.cov) /\ Len(s.sub) = Len(s.cov) /\ GoodGids(E, s.sub)
    [] s.t = "s21" -> GoodCov(E, s.cov) /\ Len(s.rep) = Len(s.cov) /\ \A i \in DOMAIN s.rep : s.rep[i] # <<>> /\ GoodGids(E, s.rep[i])
    [] s.t = "s31" -> GoodCov(E, s.cov) /\ Len(s.alt) = Len(s.cov) /\ \A i \in DOMAIN s.alt : GoodCov(E, s.alt[i])
    [] s.t = "s41" -> GoodCov(E, s.cov) /\ Len(s.lig) = Len(s.cov) /\ \A i \in DOMAIN s.lig : s.lig[i] # <<>>
    [] s.t = "p11" -> GoodCov(E, s.cov)
    [] s.t = "p12" -> GoodCov(E, s.cov) /\ Len(s.vv) = Len(s.cov)
    [] s.t = "p21" -> \A i \in DOMAIN s.pairs : GoodGids(E, <<s.pairs[i].l, s.pairs[i].r>>)
    [] s.t = "p22" -> /\ GoodCov(E, s.cov)
                      /\ GoodTable(E, s.c1)
                      /\ GoodTable(E, s.c2)
                      /\ Len(s.adj) = NumClasses(s.c1)
                      /\ \A i \in DOMAIN s.adj : Len(s.adj[i]) = NumClasses(s.c2)
    [] s.t = "p31" -> GoodCov(E, s.cov) /\ Len(s.rec) = Len(s.cov)
    [] s.t = "p41" -> GoodCov(E, s.mcov) /\ GoodCov(E, s.bcov) /\ Len(s.marks) = Len(s.mcov) /\ Len(s.bases) = Len(s.bcov)
    [] s.t = "c1" -> GoodCov(E, s.cov) /\ Len(s.rules) = Len(s.cov) /\ \A i \in DOMAIN s.rules : s.rules[i] # <<>>
    [] s.t = "h1" -> GoodCov(E, s.cov) /\ Len(s.rules) = Len(s.cov) /\ \A i \in DOMAIN s.rules : s.rules[i] # <<>>
    [] s.t = "c2" -> GoodCov(E, s.cov) /\ GoodTable(E, s.cls) /\ Len(s.rules) = NumClasses(s.cls)
    [] s.t = "h2" -> /\ GoodCov(E, s.cov)
                     /\ GoodTable(E, s.cb)
                     /\ GoodTable(E, s.ci)
                     /\ GoodTable(E, s.cl)
                     /\ Len(s.rules) = NumClasses(s.ci)
    [] s.t = "c3" -> s.inp # <<>> /\ \A i \in DOMAIN s.inp : GoodCov(E, s.inp[i])
    [] s.t = "h3" -> s.inp # <<>> /\ \A q \in {s.bt, s.inp, s.la} : \A i \in DOMAIN q : GoodCov(E, q[i])
GoodList(E, ll) == \A i \in DOMAIN ll : ll[i].subs # <<>> /\ \A j \in DOMAIN ll[i].subs : GoodSub(E, ll[i].subs[j])

(***************************************************************************)
(* Writing lookups.  Glyphs are written as numbers.                        *)
(***************************************************************************)
Str(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Num(n) == ToString(n)
JoinS(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, ss[1], Tail(ss))
Each(seq, F(_)) == [i \in 1..Len(seq) |-> F(seq[i])]
WL(gg) == JoinS(Each(gg, Num), " ")
WSet(gg) == "[" \o WL(gg) \o "]"
WVal(v) == IF v = <<>> THEN "_" ELSE "x " \o Num(v[1]) \o " y " \o Num(v[2]) \o " dx " \o Num(v[3])
WPair(a, b) == WVal(a) \o (IF b = <<>> THEN "" ELSE " & " \o WVal(b))
WAct(act) == JoinS(Each(act, LAMBDA a : Num(a[1]) \o "@" \o Num(a[2])), " ")
WCls(cc) == JoinS(Each(cc, LAMBDA c : IF c = 0 THEN "::" ELSE ":c" \o Num(c) \o ":"), " ")
InClass(cc, k) == LET s == SelectSeq(cc, LAMBDA e : e[2] = k) IN [i \in 1..Len(s) |-> s[i][1]]
WDefs(word, cc) == JoinS([k \in 1..(NumClasses(cc) - 1) |-> word \o " :c" \o Num(k) \o ": = " \o WSet(InClass(cc, k)) \o "\n"], "")
WLists(word, cc) == word \o " " \o JoinS([k \in 1..(NumClasses(cc) - 1) |-> WL(InClass(cc, k))], ", ") \o ";\n"
\* all <<key, value>> of a table along its coverage
Flat(cov, rows) == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..Len(rows[i]) |-> <<cov[i], rows[i][j]>>], <<>>, [i \in 1..Len(cov) |-> i])
PointStr(v) == Num(v[1]) \o "," \o Num(v[2])

WSub(s) ==
  CASE s.t = "s11" -> WL(s.cov) \o " -> " \o WL(Each(s.cov, LAMBDA g : (g + s.d) % 65536))
    [] s.t = "s12" -> WL(s.cov) \o " -> " \o WL(s.sub)
    [] s.t = "s21" -> JoinS([i \in 1..Len(s.cov) |-> Num(s.cov[i]) \o " -> " \o WL(s.rep[i])], ", ")
    [] s.t = "s31" -> JoinS([i \in 1..Len(s.cov) |-> Num(s.cov[i]) \o " -> " \o WSet(s.alt[i])], ", ")
    [] s.t = "s41" -> JoinS(Each(Flat(s.cov, s.lig), LAMBDA e : WL(<<e[1]>> \o e[2].inp) \o " -> " \o Num(e[2].out)), ", ")
    [] s.t = "p11" -> WSet(s.cov) \o " -> " \o WVal(s.v)
    [] s.t = "p12" -> JoinS([i \in 1..Len(s.cov) |-> Num(s.cov[i]) \o " -> " \o WVal(s.vv[i])], ", ")
    [] s.t = "p21" -> JoinS(Each(s.pairs, LAMBDA e : WL(<<e.l, e.r>>) \o " -> " \o WPair(e.a, e.b)), ", ")
    [] s.t = "p22" -> "/" \o WL(s.cov) \o "/\n" \o WLists("first", s.c1) \o WLists("second", s.c2) \o
                      JoinS(Each(s.adj, LAMBDA row : JoinS(Each(row, LAMBDA v : WPair(v[1], v[2])), ", ")), ";\n")
    [] s.t = "p31" -> JoinS([i \in 1..Len(s.cov) |-> Num(s.cov[i]) \o ": " \o PointStr(s.rec[i]) \o " to " \o
                             PointStr(SubSeq(s.rec[i], 3, 4))], ";\n")
    [] s.t = "p41" -> JoinS([i \in 1..Len(s.mcov) |-> "mark " \o Num(s.mcov[i]) \o ": " \o Num(s.marks[i][1]) \o "@" \o
                             PointStr(SubSeq(s.marks[i], 2, 3)) \o ";\n"], "") \o
                      JoinS([i \in 1..Len(s.bcov) |-> "base " \o Num(s.bcov[i]) \o ": " \o
                             JoinS(Each(s.bases[i], LAMBDA a : "@" \o PointStr(a)), " ") \o ";\n"], "")
    [] s.t = "c1" -> JoinS(Each(Flat(s.cov, s.rules), LAMBDA e : WL(<<e[1]>> \o e[2].inp) \o " -> " \o WAct(e[2].act)), ", ")
    [] s.t = "c2" -> WDefs("class", s.cls) \o "/" \o WL(s.cov) \o "/ " \o
                     JoinS(Each(Flat([i \in 1..Len(s.rules) |-> i - 1], s.rules),
                                LAMBDA e : WCls(<<e[1]>> \o e[2].inp) \o " -> " \o WAct(e[2].act)), ", ")
    [] s.t = "c3" -> JoinS(Each(s.inp, WSet), " ") \o " -> " \o WAct(s.act)
    [] s.t = "h1" -> JoinS(Each(Flat(s.cov, s.rules), LAMBDA e :
                         WL(Reverse(e[2].bt)) \o " | " \o WL(<<e[1]>> \o e[2].inp) \o " | " \o WL(e[2].la) \o " -> " \o WAct(e[2].act)), ", ")
    [] s.t = "h2" -> WDefs("backtrackclass", s.cb) \o WDefs("inputclass", s.ci) \o WDefs("lookaheadclass", s.cl) \o
                     "/" \o WL(s.cov) \o "/ " \o
                     JoinS(Each(Flat([i \in 1..Len(s.rules) |-> i - 1], s.rules), LAMBDA e :
                         WCls(Reverse(e[2].bt)) \o " | " \o WCls(<<e[1]>> \o e[2].inp) \o " | " \o WCls(e[2].la) \o " -> " \o WAct(e[2].act)), ", ")
    [] s.t = "h3" -> JoinS(Each(Reverse(s.bt), WSet), " ") \o " | " \o JoinS(Each(s.inp, WSet), " ") \o " | " \o
                     JoinS(Each(s.la, WSet), " ") \o " -> " \o WAct(s.act)

IsPos(s) == SubSeq(s.t, 1, 1) = "p"
WFlags(fl) == (IF (fl \div 8) % 2 = 1 THEN " -marks" ELSE "") \o (IF (fl \div 4) % 2 = 1 THEN " -ligs" ELSE "") \o
              (IF (fl \div 2) % 2 = 1 THEN " -base" ELSE "") \o (IF fl % 2 = 1 THEN " -rtl" ELSE "")
WLookup(l) == (IF IsPos(l.subs[1]) THEN "GPOS" ELSE "GSUB") \o Num(l.t) \o ":" \o WFlags(l.fl) \o "\n" \o
              JoinS(Each(l.subs, WSub), " ||\n")
Written(ll) == Str(JoinS(Each(ll, WLookup), "\n"))
=============================================================================
