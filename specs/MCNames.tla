------------------------------ MODULE MCNames --------------------------------
(***************************************************************************)
(* Nondeterministic writers for name tables and post tables.  Strings of a *)
(* name table may be stored anywhere where the bytes agree, so equal       *)
(* strings (and prefixes) may share storage.  A post table uses any of the *)
(* formats which can represent the names, and custom names may be shared   *)
(* or stored repeatedly.  The decoding machines recover the information.   *)
(* Every script tag and every small table is also passed to the harness.   *)
(***************************************************************************)
EXTENDS Names, TLC, Json, CSV, IOUtils

CONSTANTS MaxEntries, MaxGlyphs, Strs, Keys

QStrs == {<<65>>, <<196>>, <<65, 66>>, <<8364, 128512>>}
DStrs == QStrs \cup {<<65, 196, 66>>, <<55296>>}
\* in the order of the records
QKeys == <<<<1, "en", 1>>, <<1, "fr", 300>>, <<3, "de-DE", 1>>, <<3, "de-DE", 65535>>, <<3, "en-US", 1>>>>
DKeys == QKeys \o <<<<3, "es-ES", 15>>>>

VARIABLES es, names, out, tag

Std == <<<<1>>, <<2, 3>>, <<>>>>           \* a small standard order
Pool == Range(Std) \cup {<<4>>, <<2>>, <<5, 6, 7>>}

Be(u) == <<u \div 256, u % 256>>

Init == es = <<>> /\ names = <<>> /\ out = [k |-> "none"] /\ tag = 0

\* add a name entry, in the order of the keys
Pos(k) == CHOOSE i \in 1..Len(Keys) : Keys[i] = k
AddName == /\ names = <<>> /\ tag = 0 /\ out.k = "none" /\ Len(es) < MaxEntries
           /\ \E k \in Range(Keys), s \in Strs :
                /\ IF es = <<>> THEN TRUE ELSE Pos(k) > Pos(<<es[Len(es)][1], es[Len(es)][2], es[Len(es)][3]>>)
                /\ Representable(<<k[1], k[2], k[3], s>>)
                /\ es' = Append(es, <<k[1], k[2], k[3], s>>)
           /\ UNCHANGED <<names, out, tag>>

EncBytes(e) == IF e[1] = 1 THEN RomanEnc(e[4]) ELSE Utf16Enc(e[4])
\* a writer: strings are found in the storage if present, or appended
Occurs(st, x) == {p \in 0..(Len(st) - Len(x)) : SubSeq(st, p + 1, p + Len(x)) = x}
RECURSIVE Store(_, _, _, _)
Store(i, st, offs, share) ==
  IF i > Len(es) THEN {<<st, offs>>}
  ELSE LET x == EncBytes(es[i])
           old == IF share THEN Occurs(st, x) ELSE {}
       IN IF old # {} THEN UNION {Store(i + 1, st, Append(offs, p), share) : p \in old}
          ELSE Store(i + 1, st \o x, Append(offs, Len(st)), share)
NameTab(st, offs) ==
  <<0, 0>> \o Be(Len(es)) \o Be(6 + 12 * Len(es)) \o
  FoldLeft(LAMBDA a, i : a \o Be(es[i][1]) \o Be(IF es[i][1] = 1 THEN 0 ELSE 1)
             \o Be(CHOOSE id \in IdsFor(es[i][1], es[i][2]) : TRUE) \o Be(es[i][3])
             \o Be(Len(EncBytes(es[i]))) \o Be(offs[i]), <<>>, [i \in 1..Len(es) |-> i]) \o st
WriteName == /\ es # <<>> /\ out.k = "none"
             /\ \E share \in BOOLEAN : \E w \in Store(1, <<>>, <<>>, share) : out' = [k |-> "name", b |-> NameTab(w[1], w[2])]
             /\ UNCHANGED <<es, names, tag>>

AddGlyph == /\ es = <<>> /\ tag = 0 /\ out.k = "none" /\ Len(names) < MaxGlyphs
            /\ \E x \in Pool : names' = Append(names, x)
            /\ UNCHANGED <<es, out, tag>>

Post(ver) == Be(ver) \o Be(0) \o [i \in 1..28 |-> 0]
RECURSIVE Strings(_, _, _, _)
Strings(i, idx, str, share) ==
  IF i > Len(names) THEN {<<idx, str>>}
  ELSE LET std == {k \in 1..Len(Std) : Std[k] = names[i]}
           old == {k \in 1..Len(str) : str[k] = names[i]}
       IN IF std # {} THEN Strings(i + 1, Append(idx, (CHOOSE k \in std : TRUE) - 1), str, share)
          ELSE IF share /\ old # {} THEN Strings(i + 1, Append(idx, Len(Std) + (CHOOSE k \in old : TRUE) - 1), str, share)
          ELSE Strings(i + 1, Append(idx, Len(Std) + Len(str)), Append(str, names[i]), share)
Cat(S) == FoldLeft(LAMBDA a, x : a \o x, <<>>, S)
WritePost == /\ names # <<>> /\ out.k = "none"
             /\ \/ names = Std /\ out' = [k |-> "post", b |-> Post(1)]
                \/ \E share \in BOOLEAN : \E w \in Strings(1, <<>>, <<>>, share) :
                     out' = [k |-> "post", b |-> Post(2) \o Be(Len(names)) \o Cat([i \in 1..Len(names) |-> Be(w[1][i])])
                                            \o Cat([i \in 1..Len(w[2]) |-> <<Len(w[2][i])>> \o w[2][i]])]
             /\ UNCHANGED <<es, names, tag>>

Script == /\ es = <<>> /\ names = <<>> /\ tag = 0
          /\ tag' \in 1..Len(ScriptTags)
          /\ UNCHANGED <<es, names, out>>

Next == AddName \/ WriteName \/ AddGlyph \/ WritePost \/ Script
Spec == Init /\ [][Next]_<<es, names, out, tag>>

Tables == tag = 0 => LangsOk(MacLangs) /\ LangsOk(WinLangs) /\ Len(MacNames) = 258
                      /\ Cardinality(Range(MacNames)) = 258
NameOk == out.k = "name" => NameWf(out.b) /\ NameEntries(out.b) = Range(es)
PostOk == out.k = "post" => PostWf(out.b, Std) /\ HasNames(out.b) /\ PostNames(out.b, Std) = names
Codecs == es # <<>> => \A i \in 1..Len(es) :
            /\ Utf16Dec(Utf16Enc(es[i][4])) = es[i][4]
            /\ InRoman(es[i][4]) => RomanDec(RomanEnc(es[i][4])) = es[i][4]

Put(x, file) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.CASES \o file)
Emit ==
  /\ (es # <<>> /\ out.k = "none") => Put([es |-> [i \in 1..Len(es) |-> [p |-> es[i][1], t |-> es[i][2], id |-> es[i][3], s |-> es[i][4]]]], "/names.ndjson")
  /\ out.k = "name" => Put([b |-> out.b], "/nameraw.ndjson")
  /\ (names # <<>> /\ out.k = "none") => Put([n |-> names], "/post.ndjson")
  /\ tag > 0 => Put([s |-> ScriptTags[tag]], "/scripts.ndjson")
  /\ (tag = 0 /\ es = <<>> /\ names = <<>>) => Put([l |-> LangTags, mac |-> [i \in 1..Len(MacLangs) |-> MacLangs[i][2]], win |-> [i \in 1..Len(WinLangs) |-> WinLangs[i][2]], names |-> MacNames], "/langs.ndjson")
=============================================================================
