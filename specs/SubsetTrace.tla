----------------------------- MODULE SubsetTrace -----------------------------
(***************************************************************************)
(* C10.  Acceptance of subsets made by the library.  A font is recorded as *)
(*   g    glyphs: [s |-> digest of outline, width, name, CID, private      *)
(*                 dictionary and matrix, c |-> components]                *)
(*   cm   cmap subtables [k |-> key, b |-> bytes]                          *)
(*   enc  built-in encoding (or empty)                                     *)
(*   gs, gp   layout tables [has, sc |-> digest of the script list,        *)
(*            f |-> features [tag, l], ll |-> lookups [t, f, m, subs]]     *)
(***************************************************************************)
EXTENDS Cmap, TraceLib, Subset

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

\* which old glyph is this?  (-1: none of them)
Which(old, x) == LET S == {i \in 1..Len(old.g) : old.g[i].s = x.s} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
Fin(r) == [i \in 1..Len(r.new.g) |->
             IF i <= Len(r.list) /\ r.old.g[r.list[i] + 1].s = r.new.g[i].s THEN r.list[i] ELSE Which(r.old, r.new.g[i])]

Sets(tab) == [i \in 1..Len(tab.ll) |-> [t |-> tab.ll[i].t, f |-> tab.ll[i].f, m |-> tab.ll[i].m,
                                        subs |-> [j \in 1..Len(tab.ll[i].subs) |-> Elems(tab.ll[i].subs[j])]]]

GlyphsV(r, fin, R, comps) ==
  C(Len(fin) >= Len(r.list) /\ \A i \in 1..Len(r.list) : fin[i] = r.list[i], "listed glyph changed") \cup
  C(\A i \in 1..Len(fin) : fin[i] >= 0, "glyph which is not in the font") \cup
  (IF \E i \in 1..Len(fin) : fin[i] < 0 THEN {}
   ELSE C(OrderOk(r.list, fin, R, comps), "wrong set of glyphs") \cup
        C(\A i \in 1..Len(fin) : LET c == r.new.g[i].c IN [k \in 1..Len(c) |-> Old(fin, c[k])] = comps[fin[i] + 1], "component changed"))

Known(b) == Len(b) > 2 /\ Format(b) \in {0, 4, 6, 12} /\ Wf(b)
CmapV(r, fin) ==
  UNION {LET o == r.old.cm[i]
             S == {j \in 1..Len(r.new.cm) : r.new.cm[j].k = o.k}
         IN IF ~Known(o.b) THEN {}
            ELSE IF S = {} THEN {"cmap subtable lost"}
            ELSE LET n == r.new.cm[CHOOSE j \in S : TRUE] IN
                 IF ~Known(n.b) THEN {"malformed cmap subtable"}
                 ELSE LET mo == {p \in Expand(Runs(o.b)) : p[2] # 0}
                          mn == {p \in Expand(Runs(n.b)) : p[2] # 0}
                          back == {<<p[1], Old(fin, p[2])>> : p \in mn}
                      IN C({p \in mo : p[2] \in Elems(r.list)} \subseteq back, "character lost") \cup
                         C(back \subseteq mo, "character mapped to another glyph")
         : i \in 1..Len(r.old.cm)}
  \cup C(Len(r.new.cm) <= Len(r.old.cm), "cmap subtable added")

EncV(r, fin) ==
  IF r.old.enc = <<>> THEN C(r.new.enc = <<>>, "encoding added")
  ELSE C(Len(r.new.enc) = Len(r.old.enc), "encoding lost") \cup
       C(Len(r.new.enc) # Len(r.old.enc) \/
         \A i \in 1..Len(r.old.enc) :
            LET o == r.old.enc[i]  n == r.new.enc[i]
            IN IF o \in Elems(r.list) THEN Old(fin, n) = o ELSE n = 0 \/ Old(fin, n) = o, "encoding changed")

\* the order of alternatives does not matter for pair adjustments
AltsOf(L, ordered) ==
  [i \in 1..Len(L) |-> [L[i] EXCEPT !.subs = [j \in 1..Len(L[i].subs) |->
     {[g |-> e.g, alts |-> IF ordered THEN e.alts ELSE Elems(e.alts)] : e \in L[i].subs[j]}]]]

\* K is the set of glyphs for which rules must be kept
TabV(old, new, fin, K, F(_), name, ordered) ==
  IF ~old.has THEN C(~new.has \/ new.ll = <<>>, name \o ": rules added")
  ELSE LET M(g) == Old(fin, g)
           lo == [i \in 1..Len(old.ll) |-> LookupWithin(Sets(old)[i], K)]
           all == Sets(old)
           ln0 == [i \in 1..Len(new.ll) |-> Renumber(Sets(new)[i], M, F)]
           ln == [i \in 1..Len(new.ll) |-> LookupWithin(ln0[i], K)]
           loN == AltsOf(lo, ordered)
           lnN == AltsOf(ln, ordered)
           empty == \A i \in 1..Len(lo) : lo[i].subs = <<>>
       IN IF ~new.has THEN C(empty, name \o ": lost")
          ELSE C(new.sc = old.sc, name \o ": script list changed") \cup
               C(Len(new.f) = Len(old.f) /\ \A i \in 1..Len(old.f) : new.f[i].tag = old.f[i].tag, name \o ": features changed") \cup
               (IF Len(new.f) # Len(old.f) THEN {}
                ELSE IF \E i \in 1..Len(new.f) : \E k \in 1..Len(new.f[i].l) : new.f[i].l[k] >= Len(new.ll)
                     THEN {name \o ": lookup index out of range"}
                ELSE C(\A i \in 1..Len(old.f) : Meaning(new.f[i].l, lnN) = Meaning(old.f[i].l, loN), name \o ": rules changed"))
               \cup C(RulesOf(ln0) \subseteq RulesOf(all), name \o ": rules added")

SubsetV(r) ==
  LET R == IF r.old.gs.has THEN RulesOf(Sets(r.old.gs)) ELSE {}
      comps == [i \in 1..Len(r.old.g) |-> r.old.g[i].c]
      fin == Fin(r)
      K == RuleClosure(Elems(r.list), R)
      gv == GlyphsV(r, fin, R, comps)
      Same(x) == x
      MOut(s) == [k \in 1..Len(s) |-> Old(fin, s[k])]
  IN IF gv # {} THEN gv
     ELSE CmapV(r, fin) \cup EncV(r, fin) \cup
          TabV(r.old.gs, r.new.gs, fin, K, MOut, "GSUB", TRUE) \cup
          TabV(r.old.gp, r.new.gp, fin, K, Same, "GPOS", FALSE) \cup
          C(r.err = "", "cannot be written and read back") \cup
          (IF r.err # "" THEN {}
           ELSE C(r.back.g = r.new.g, "glyphs changed by writing") \cup
                C(r.back.cm = r.new.cm, "cmap changed by writing") \cup
                C(r.back.enc = r.new.enc, "encoding changed by writing") \cup
                C(~r.new.gs.has \/ (r.back.gs.has /\ Sets(r.back.gs) = Sets(r.new.gs) /\ r.back.gs.f = r.new.gs.f), "GSUB changed by writing") \cup
                C(~r.new.gp.has \/ (r.back.gp.has /\ Sets(r.back.gp) = Sets(r.new.gp) /\ r.back.gp.f = r.new.gp.f), "GPOS changed by writing"))
          \cup C(r.unchanged, "the original font was modified")

Verdict(r) == CASE r.t = "subset" -> SubsetV(r)
                [] r.t = "huge" -> C(r.err = "" /\ r.n = r.want /\ r.bad = 0, "characters lost")
                [] r.t = "panic" -> {"panic"}

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
