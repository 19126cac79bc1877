-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* C14.  The "name" and "post" tables as decoding machines, the character  *)
(* codecs and the language id tables.                                      *)
(*                                                                         *)
(* A table is a sequence of bytes.  A string is a sequence of code points. *)
(* A glyph name is a sequence of bytes.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, MacRoman, NameTables

LOCAL U16(b, p) == b[p + 1] * 256 + b[p + 2]
LOCAL Sub(b, p, n) == SubSeq(b, p + 1, p + n)

(* ---- codecs ---- *)

RomanCp(c) == IF c < 128 THEN c ELSE MacHigh[c - 127]
RomanOf == [cp \in (0..127) \cup Range(MacHigh) |-> IF cp < 128 THEN cp ELSE 127 + (CHOOSE i \in 1..128 : MacHigh[i] = cp)]
InRoman(s) == \A i \in 1..Len(s) : s[i] \in DOMAIN RomanOf
RomanEnc(s) == [i \in 1..Len(s) |-> RomanOf[s[i]]]
RomanDec(b) == [i \in 1..Len(b) |-> RomanCp(b[i])]

IsScalar(cp) == (cp >= 0 /\ cp < 55296) \/ (cp > 57343 /\ cp < 1114112)
LOCAL Be(u) == <<u \div 256, u % 256>>
Utf16One(cp) == IF cp < 65536 THEN Be(cp)
                ELSE Be(55296 + ((cp - 65536) \div 1024)) \o Be(56320 + ((cp - 65536) % 1024))
Utf16Enc(s) == FoldLeft(LAMBDA a, cp : a \o Utf16One(cp), <<>>, s)
IsHigh(u) == u \in 55296..56319
IsLow(u) == u \in 56320..57343
\* decoding of well-formed UTF-16BE
Utf16Dec(b) ==
  FoldLeft(LAMBDA a, i : LET u == U16(b, 2 * i - 2) IN
             IF IsLow(u) THEN a
             ELSE IF IsHigh(u) THEN Append(a, 65536 + (u - 55296) * 1024 + (U16(b, 2 * i) - 56320))
             ELSE Append(a, u),
           <<>>, [i \in 1..(Len(b) \div 2) |-> i])

(* ---- languages ---- *)

IdsOf(tab, tag) == {tab[i][1] : i \in {j \in 1..Len(tab) : tab[j][2] = tag}}
TagsOf(tab, id) == {tab[i][2] : i \in {j \in 1..Len(tab) : tab[j][1] = id}}
LangTable(plat) == IF plat = 1 THEN MacLangs ELSE WinLangs
IdsFor(plat, tag) == IdsOf(LangTable(plat), tag)
\* tags and ids determine each other
LangsOk(tab) == /\ Cardinality({tab[i][1] : i \in 1..Len(tab)}) = Len(tab)
                /\ Cardinality({tab[i][2] : i \in 1..Len(tab)}) = Len(tab)

(* ---- the name table ---- *)

NameCount(b) == U16(b, 2)
NameStore(b) == U16(b, 4)
NameRec(b, i) == LET p == 6 + 12 * (i - 1) IN
  [plat |-> U16(b, p), enc |-> U16(b, p + 2), lang |-> U16(b, p + 4), id |-> U16(b, p + 6),
   len |-> U16(b, p + 8), off |-> U16(b, p + 10)]
NameRecs(b) == [i \in 1..NameCount(b) |-> NameRec(b, i)]
\* the order required for the records
Before(x, y) ==
  \/ x.plat < y.plat
  \/ x.plat = y.plat /\ \/ x.enc < y.enc
                        \/ x.enc = y.enc /\ \/ x.lang < y.lang
                                            \/ x.lang = y.lang /\ x.id < y.id
\* n: length of the table, store: offset of the strings, recs: records
RecsWf(n, store, recs) ==
  /\ store >= 6 + 12 * Len(recs) /\ store <= n
  /\ \A i \in 1..Len(recs) : store + recs[i].off + recs[i].len <= n
  /\ \A i \in 2..Len(recs) : Before(recs[i - 1], recs[i])
NameWf(b) ==
  /\ Len(b) >= 6 /\ U16(b, 0) = 0
  /\ Len(b) >= 6 + 12 * NameCount(b)
  /\ RecsWf(Len(b), NameStore(b), NameRecs(b))
NameBytes(b, r) == Sub(b, NameStore(b) + r.off, r.len)

\* the entries <<platform, tag, name id, string>> which a reader finds
Understood(r) == (r.plat = 1 /\ r.enc = 0) \/ (r.plat = 3 /\ r.enc = 1)
NameEntries(b) ==
  LET recs == NameRecs(b) IN
  UNION {LET r == recs[i]
             s == IF r.plat = 1 THEN RomanDec(NameBytes(b, r)) ELSE Utf16Dec(NameBytes(b, r))
         IN IF ~Understood(r) \/ s = <<>> THEN {}
            ELSE {<<r.plat, t, r.id, s>> : t \in TagsOf(LangTable(r.plat), r.lang)}
         : i \in 1..Len(recs)}

Representable(e) == IF e[1] = 1 THEN InRoman(e[4]) ELSE \A i \in 1..Len(e[4]) : IsScalar(e[4][i])

(* ---- the post table: names[i] is the name of glyph i - 1 ---- *)

PostVersion(b) == U16(b, 0) * 65536 + U16(b, 2)
\* strings in the string data, starting at position p
RECURSIVE Pascal(_, _, _)
Pascal(b, p, acc) == IF p >= Len(b) THEN acc ELSE Pascal(b, p + 1 + b[p + 1], Append(acc, Sub(b, p + 1, b[p + 1])))
PostCount(b) == U16(b, 32)
PostNames(b, std) ==
  IF PostVersion(b) = 65536 THEN std
  ELSE LET n == PostCount(b)
           str == Pascal(b, 34 + 2 * n, <<>>)
           N(i) == LET k == U16(b, 34 + 2 * (i - 1)) IN
                   IF k < Len(std) THEN std[k + 1] ELSE str[k - Len(std) + 1]
       IN [i \in 1..n |-> N(i)]
HasNames(b) == PostVersion(b) \in {65536, 131072}
PostWf(b, std) ==
  PostVersion(b) = 131072 =>
    /\ Len(b) >= 34 + 2 * PostCount(b)
    /\ LET str == Pascal(b, 34 + 2 * PostCount(b), <<>>)
           RECURSIVE End(_)
           End(i) == IF i = 0 THEN 34 + 2 * PostCount(b) ELSE End(i - 1) + 1 + Len(str[i])
       IN /\ End(Len(str)) = Len(b)
          /\ \A i \in 1..PostCount(b) : U16(b, 34 + 2 * (i - 1)) < Len(std) + Len(str)
\* n glyphs with the given number of different non-standard names, up to max bytes long
CanEncode(n, custom, max, std) == n <= 65535 /\ max <= 255 /\ custom <= 65536 - Len(std)
=============================================================================
