------------------------------ MODULE NamesTrace -----------------------------
(***************************************************************************)
(* C14.  Acceptance of recorded name tables, glyph name tables, codecs,    *)
(* language ids and script lists.                                          *)
(***************************************************************************)
EXTENDS Names, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

Entries(x) == {<<x[i].p, x[i].t, x[i].id, x[i].s>> : i \in 1..Len(x)}

\* all language ids which belong to the tags are used
NameV(r) ==
  LET in == {e \in Entries(r.in) : e[4] # <<>>} IN
  C(\A e \in in : Representable(e), "case out of range") \cup
  C(Entries(r.out) = in, "strings changed") \cup
  C(r.same, "encoding is not a function of the information") \cup
  (IF ~NameWf(r.b) THEN {"malformed table"}
   ELSE C(NameEntries(r.b) = in, "table does not contain the strings")) \cup
  C(\A i \in 1..Len(r.xi) : \E e \in in : e[3] = r.xi[i].id /\ e[4] = r.xi[i].s, "independent reader differs") \cup
  C(\A e \in in : e[3] \in {r.xi[i].id : i \in 1..Len(r.xi)} \cup Range(r.xskip), "independent reader misses a string")

RawV(r) ==
  IF ~NameWf(r.b) THEN {"case out of range"}
  ELSE C(Entries(r.out) = NameEntries(r.b), "decoded strings differ")

\* big tables: strings as <<length, hash>>
Big(x) == {<<x[i].p, x[i].t, x[i].id, x[i].n, x[i].h>> : i \in 1..Len(x)}
Used(r) == IF Len(r.recs) = 0 THEN 0 ELSE Max({r.recs[i].off + r.recs[i].len : i \in 1..Len(r.recs)})
BigV(r) ==
  C(Big(r.out) = Big(r.in), "strings changed") \cup
  C(RecsWf(r.n, r.store, r.recs), "malformed table") \cup
  C(Len(r.recs) > 0 => r.store + Used(r) = r.n, "table longer than the data")

LangV(r) ==
  LET tab == LangTable(r.plat)
      known == {i \in 1..Len(tab) : tab[i][1] \in r.lo..r.hi}
  IN C(\A i \in known : \E j \in 1..Len(r.found) : r.found[j].id = tab[i][1] /\ r.found[j].tag = tab[i][2], "language id") \cup
     C(\A j \in 1..Len(r.found) : r.found[j].back = <<r.found[j].id>>, "language id is not recovered from the tag")

MacV(r) ==
  C(r.dec = [i \in 1..256 |-> RomanCp(i - 1)], "decoding") \cup
  C(\A i \in 1..256 : r.enc[i] = i - 1, "encoding does not invert decoding") \cup
  C({<<r.all[i].cp, r.all[i].b>> : i \in 1..Len(r.all)} = {<<cp, RomanOf[cp]>> : cp \in DOMAIN RomanOf}, "repertoire")

MacsV(r) ==
  C(r.s = RomanDec(r.b), "decoding") \cup C(r.b2 = r.b, "encoding does not invert decoding")

NoNames(r) == r.in = <<>> /\ ~r.has
PostV(r) ==
  LET custom == Cardinality(Range(r.in) \ Range(MacNames))
      max == IF r.in = <<>> THEN 0 ELSE Max({Len(r.in[i]) : i \in 1..Len(r.in)})
  IN IF ~r.has THEN C(~HasNames(r.b) /\ ~r.ohas, "names out of nowhere")
     ELSE IF ~CanEncode(Len(r.in), custom, max, MacNames) THEN {"case out of range"}
     ELSE C(r.ohas /\ r.out = r.in, "names changed") \cup
          (IF ~HasNames(r.b) THEN {"names not written"}
           ELSE IF ~PostWf(r.b, MacNames) THEN {"malformed table"}
           ELSE C(PostNames(r.b, MacNames) = r.in, "table does not contain the names")) \cup
          C(r.xi = r.in, "independent reader differs")
PostRawV(r) ==
  IF ~PostWf(r.b, MacNames) THEN {"case out of range"}
  ELSE C(r.ohas = HasNames(r.b) /\ (r.ohas => r.out = PostNames(r.b, MacNames)), "decoded names differ")
PostBigV(r) ==
  C(CanEncode(r.n, r.custom, r.max, MacNames), "case out of range") \cup
  C(r.on = r.n /\ r.diff = <<>>, "names changed") \cup
  C(r.xdiff = <<>>, "independent reader differs")

Sys(x) == {<<x[i].l, x[i].r, x[i].o>> : i \in 1..Len(x)}
ListV(r) ==
  C(Sys(r.in) = Sys(r.out) /\ Len(r.out) = Len(r.in), "script or language tags changed") \cup
  C(Len(r.tags) = Len(r.in) /\ Cardinality(Range(r.tags)) = Len(r.tags), "BCP 47 tags not distinct") \cup
  C(r.same, "encoding is not a function of the information")

Verdict(r) == CASE r.t = "name" -> NameV(r)
                [] r.t = "nameraw" -> RawV(r)
                [] r.t = "namebig" -> BigV(r)
                [] r.t = "langs" -> LangV(r)
                [] r.t = "mac" -> MacV(r)
                [] r.t = "macs" -> MacsV(r)
                [] r.t = "post" -> PostV(r)
                [] r.t = "postraw" -> PostRawV(r)
                [] r.t = "postbig" -> PostBigV(r)
                [] r.t = "tags" -> ListV(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
