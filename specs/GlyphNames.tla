----------------------------- MODULE GlyphNames -----------------------------
(***************************************************************************)
(* Complete sets of glyph names (C20).                                     *)
(*                                                                         *)
(* Glyph i has index i + 1 in all sequences.  given: the names in the font *)
(* ("" = none); A(i): the glyph-list names of the characters mapped to     *)
(* glyph i; rules: records [src, dst, lig]: substitution rules, replacing  *)
(* a glyph by a variant (lig = FALSE), or glyphs by a ligature.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NotDef == ".notdef"
Elems(s) == {s[i] : i \in 1..Len(s)}
FixZero(given) == [given EXCEPT ![1] = NotDef]
Once(nn, i) == nn[i] # "" /\ \A j \in 1..Len(nn) : j # i => nn[j] # nn[i]

RECURSIVE JoinN(_, _)
JoinN(nn, k) == IF k = Len(nn) THEN nn[k] ELSE nn[k] \o "_" \o JoinN(nn, k + 1)
Base(nn, r) == IF r.lig THEN JoinN([k \in 1..Len(r.src) |-> nn[r.src[k] + 1]], 1) ELSE nn[r.src[1] + 1]
SrcNamed(nn, r) == \A k \in 1..Len(r.src) : r.src[k] < Len(nn) /\ nn[r.src[k] + 1] # ""

(***************************************************************************)
(* One step of the naming machine: the set of pairs <<glyph index, name>>  *)
(* which may be added to the names nn.                                     *)
(***************************************************************************)
Pad3(k) == IF k < 10 THEN "00" \o ToString(k) ELSE IF k < 100 THEN "0" \o ToString(k) ELSE ToString(k)
Fresh(nn, Cand(_)) == CHOOSE k \in 0..(Len(nn) + 1) : Cand(k) \notin Elems(nn) /\ \A j \in 0..(k - 1) : Cand(j) \in Elems(nn)
Variant(nn, b) ==
  LET N(k) == IF k = 0 THEN b ELSE b \o "." \o ToString(k) IN N(Fresh(nn, N))
Numbered(nn) == LET N(k) == "orn" \o Pad3(k + 1) IN N(Fresh(nn, N))
Unnamed(nn) == {i \in 1..Len(nn) : nn[i] = ""}
FromChars(nn, A(_)) == UNION {{<<i, a>> : a \in A(i) \ Elems(nn)} : i \in Unnamed(nn)}
FromRules(nn, rules) ==
  {<<rules[k].dst + 1, Variant(nn, Base(nn, rules[k]))>> :
     k \in {k \in 1..Len(rules) : rules[k].dst + 1 \in Unnamed(nn) /\ SrcNamed(nn, rules[k])}}
Fallback(nn) == {<<i, Numbered(nn)>> : i \in Unnamed(nn)}

\* all ways to drop duplicate names
Dedup(nn) == {f \in [1..Len(nn) -> {TRUE, FALSE}] :
                /\ \A i \in 1..Len(nn) : f[i] => nn[i] # ""
                /\ \A i \in 1..Len(nn) : nn[i] # "" => Cardinality({j \in 1..Len(nn) : nn[j] = nn[i] /\ f[j]}) = 1
                /\ f[1]}

(***************************************************************************)
(* Acceptance of a result.                                                 *)
(***************************************************************************)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Char(s, k) == SubSeq(s, k, k)
EndsNum(s) == Len(s) > 0 /\ Char(s, Len(s)) \in Digits
VariantOf(s, b) == b # "" /\ Prefix(b \o ".", s) /\ Len(s) > Len(b) + 1

Kept(nn0, out, i) == nn0[i] # "" /\ out[i] = nn0[i]
Derived(out, rules, i) ==
  \E k \in 1..Len(rules) :
     LET r == rules[k] IN
     /\ r.dst + 1 = i
     /\ \A j \in 1..Len(r.src) : r.src[j] < Len(out) /\ r.src[j] # r.dst
     /\ \/ VariantOf(out[i], Base(out, r))
        \/ r.lig /\ out[i] = Base(out, r)

\* nn0: names in the font, after fixing glyph 0
Placeholder(nn0, out, A(_), rules, i) ==
  ~Kept(nn0, out, i) /\ out[i] \notin A(i) /\ ~Derived(out, rules, i)

Failures(given, out, A(_), rules) ==
  LET n == Len(given)
      nn0 == FixZero(given)
      I == 1..n
      wellformed == Len(out) = n
      P == {i \in 2..n : Placeholder(nn0, out, A, rules, i)}
      cnt(a) == Cardinality({j \in I : out[j] = a})
  IN IF ~wellformed THEN {"wrong number of names"} ELSE
     UNION {
       IF \E i \in I : out[i] = "" THEN {"empty name"} ELSE {},
       IF Cardinality(Elems(out)) # n THEN {"names are not distinct"} ELSE {},
       IF out[1] # NotDef THEN {"glyph 0 is not .notdef"} ELSE {},
       IF \E i \in I : Once(nn0, i) /\ out[i] # nn0[i] THEN {"existing name replaced"} ELSE {},
       IF \E i \in 2..n : ~Kept(nn0, out, i) /\ out[i] \notin A(i) /\ \E a \in A(i) : cnt(a) = 0
         THEN {"name of a character not used"} ELSE {},
       IF \E i \in P : ~EndsNum(out[i]) THEN {"name not derived from anything"} ELSE {},
       IF \E k \in 1..Len(rules) :
            /\ rules[k].dst + 1 \in P
            /\ \A j \in 1..Len(rules[k].src) : rules[k].src[j] < n /\ rules[k].src[j] + 1 \notin P
         THEN {"substitution rule not used"} ELSE {}}

(***************************************************************************)
(* Conversion of a CID-keyed font: B(i) is the glyph-list name of the text *)
(* of glyph i, or "".  All names must be valid.                            *)
(***************************************************************************)
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Valid(s) ==
  \/ s = NotDef
  \/ /\ Len(s) \in 1..31
     /\ Char(s, 1) \notin Digits \cup {"."}
     /\ \A k \in 1..Len(s) : Char(s, k) \in Upper \cup Lower \cup Digits \cup {".", "_"}

SimpleFailures(given, out, B(_)) ==
  LET n == Len(given)
      nn0 == [i \in 1..n |-> IF i = 1 THEN NotDef ELSE IF Valid(given[i]) THEN given[i] ELSE ""]
      I == 1..n
      cnt(a) == Cardinality({j \in I : out[j] = a})
      FromText(i) == B(i) # "" /\ (out[i] = B(i) \/ VariantOf(out[i], B(i)))
      P == {i \in 2..n : ~Kept(nn0, out, i) /\ ~FromText(i)}
  IN IF Len(out) # n THEN {"wrong number of names"} ELSE
     UNION {
       IF \E i \in I : ~Valid(out[i]) THEN {"invalid name"} ELSE {},
       IF Cardinality(Elems(out)) # n THEN {"names are not distinct"} ELSE {},
       IF out[1] # NotDef THEN {"glyph 0 is not .notdef"} ELSE {},
       IF \E i \in I : Once(nn0, i) /\ out[i] # nn0[i] THEN {"existing name replaced"} ELSE {},
       IF \E i \in 2..n : ~Kept(nn0, out, i) /\ B(i) # "" /\ Valid(B(i)) /\ out[i] # B(i) /\ cnt(B(i)) = 0
         THEN {"name of a character not used"} ELSE {},
       IF \E i \in P : ~EndsNum(out[i]) THEN {"name not derived from anything"} ELSE {},
       \* there is always room for a suffix of up to eight characters
       IF \E i \in P : B(i) # "" /\ Len(B(i)) <= 23 THEN {"text not used"} ELSE {}}

(***************************************************************************)
(* PostScript names of fonts.                                              *)
(***************************************************************************)
\* codes of the characters permitted in a PostScript name
Regular == (33..126) \ {37, 40, 41, 47, 60, 62, 91, 93, 123, 125}
NameFailures(out) ==
  (IF Elems(out) \subseteq Regular THEN {} ELSE {"character not permitted in a PostScript name"}) \cup
  (IF out = <<>> THEN {"empty PostScript name"} ELSE {})
=============================================================================
