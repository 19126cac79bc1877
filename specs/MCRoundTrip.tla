---------------------------- MODULE MCRoundTrip ----------------------------
(***************************************************************************)
(* Generations of files and fonts: a file (with any combination of tables  *)
(* and of contradicting fields) is read, the font is written, the result   *)
(* is read and written again.  Or: a font value is written and read.       *)
(***************************************************************************)
EXTENDS RoundTrip, Json, CSV, IOUtils

CONSTANTS Weights, Part, Deep

VARIABLES file, font, gen, first
vars == <<file, font, gen, first>>

Bit == BOOLEAN
Opt(S) == {<< >>} \cup {<<x>> : x \in S}

StyleFiles ==
  LET head == Opt({[b |-> x, i |-> y, rev |-> 0] : x \in Bit, y \in Bit})
      os2 == Opt({[w |-> w, reg |-> r, b |-> b, i |-> i, o |-> o, cap |-> 5] : w \in Weights, r \in Bit, b \in Bit, i \in Bit, o \in Bit})
      name == Opt({[b |-> x, i |-> y, ver |-> 0] : x \in Bit, y \in Bit})
      post == Opt({[ang |-> a, up |-> 0] : a \in {0, -12}})
  IN {[fam |-> fm, der |-> 0, wd |-> 1, head |-> h, os2 |-> o, name |-> n, post |-> p,
       cff |-> << [ver |-> 0, up |-> 0, ang |-> 0] >>] : fm \in Bit, h \in head, o \in os2, n \in name, p \in post}

NumberFiles ==
  LET head == Opt({[b |-> FALSE, i |-> FALSE, rev |-> v] : v \in {10, 14, 15}})
      os2 == Opt({[w |-> 400, reg |-> TRUE, b |-> FALSE, i |-> FALSE, o |-> FALSE, cap |-> c] : c \in {-5, 0, 7}})
      name == Opt({[b |-> FALSE, i |-> FALSE, ver |-> v] : v \in {-1, 10, 13, 19}})
      post == Opt({[ang |-> a, up |-> u] : a \in {0, 3}, u \in {-4, 6}})
      cff == Opt({[ver |-> v, up |-> u, ang |-> 0] : v \in {10, 16}, u \in {-4, -3, 5}})
  IN {[fam |-> FALSE, der |-> d, wd |-> 1, head |-> h, os2 |-> o, name |-> n, post |-> p, cff |-> c] :
        d \in {-3, 0, 9}, h \in head, o \in os2, n \in name, p \in post, c \in cff}

Files == IF Part = "style" THEN StyleFiles ELSE NumberFiles

Fonts ==
  {[w |-> w, fam |-> fm, der |-> d, ang |-> a, i |-> i, o |-> o, b |-> b, reg |-> r, ver |-> 17, up |-> -3, cap |-> c, wd |-> 1] :
     w \in Weights, fm \in Bit, d \in {0, 9}, a \in {0, -12}, i \in Bit, o \in Bit, b \in Bit, r \in Bit, c \in {0, 7}}

None == << >>

Init == /\ gen = 0 /\ first = << >>
        /\ \/ file \in {<<t>> : t \in Files} /\ font = None
           \/ Part = "style" /\ font \in {<<f>> : f \in Fonts} /\ file = None

Read == /\ Has(file) /\ gen < 4
        /\ font' = << Merge(file[1]) >> /\ file' = None
        /\ gen' = gen + 1
        /\ first' = Append(first, font'[1])
Write == /\ Has(font) /\ gen < 4
         /\ file' = << Tables(font[1]) >> /\ font' = None
         /\ gen' = gen + 1
         /\ first' = Append(first, file'[1])

Next == Read \/ Write
Spec == Init /\ [][Next]_vars

\* a font read from a file and all later generations are equal; so are the files
Fixed == /\ \A k \in DOMAIN first : k + 2 \in DOMAIN first /\ ("head" \notin DOMAIN first[k]) => first[k] = first[k + 2]
         /\ \A k \in DOMAIN first : k >= 2 /\ k + 2 \in DOMAIN first /\ ("head" \in DOMAIN first[k]) => first[k] = first[k + 2]

\* the summary of what happens to a font value
Preserved == (gen = 0 /\ Has(font)) =>
  LET f == font[1]
      g == Normal(f)
  IN Sensible(f) => /\ g.w = f.w /\ g.o = f.o /\ g.ang = f.ang
                    /\ g.i = NormItalic(f) /\ g.b = NormBold(f) /\ g.reg = NormRegular(f)
                    /\ g.cap = NormCap(f)
                    /\ g.ver = RoundTo(f.ver, Q) /\ g.up = RoundTo(f.up, U)

Emit == gen = 0 =>
  /\ (Has(file) => CSVWrite("%1$s", <<ToJson(file[1])>>, IOEnv.CASES \o "/files.ndjson"))
  /\ (Has(font) => CSVWrite("%1$s", <<ToJson(font[1])>>, IOEnv.CASES \o "/fonts.ndjson"))
=============================================================================
