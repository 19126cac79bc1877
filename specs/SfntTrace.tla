------------------------------ MODULE SfntTrace -----------------------------
(***************************************************************************)
(* C03.  Acceptance of files written by the library: container rules, the  *)
(* tables read back, and what an independent reader reports for complete   *)
(* fonts.                                                                  *)
(***************************************************************************)
EXTENDS Sfnt, Glyf, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

KnownScaler(s) == s \in {<<0, 1, 0, 0>>, <<79, 84, 84, 79>>, <<116, 114, 117, 101>>}
\* in, toc: sequences of [tag, d]
AsSet(tt) == {<<tt[i].tag, Masked(tt[i].tag, tt[i].d)>> : i \in 1..Len(tt)}

ContV(r) ==
  IF r.in = <<>> THEN C(~r.ok, "container without tables")
  ELSE IF ~r.ok THEN {"write failed"}
  ELSE LET ff == Faults(r.out) IN
       IF ff # {} THEN ff
       ELSE C(SubSeq(r.out, 1, 4) = r.scaler, "scaler type") \cup
            C(NumTables(r.out) = Len(r.in) /\ Tables(r.out) = AsSet(r.in), "tables in the file differ") \cup
            C(r.n = Len(r.out), "byte count") \cup
            (IF ~KnownScaler(r.scaler) THEN {}
             ELSE IF ~r.rok THEN {"container rejected"}
             ELSE C(Len(r.toc) = Len(r.in) /\ AsSet(r.toc) = AsSet(r.in), "tables read back differ"))

\* an independent reader closes open subpaths with a line
RECURSIVE Closed(_, _, _, _, _)
Closed(cc, i, start, cur, out) ==
  LET cl == IF start # cur THEN << <<1, start[1], start[2], 0, 0>> >> ELSE <<>> IN
  IF i > Len(cc) THEN out \o cl
  ELSE LET s == cc[i] IN
       IF s[1] = 0 THEN Closed(cc, i + 1, <<s[2], s[3]>>, <<s[2], s[3]>>, out \o cl \o << <<0, s[2], s[3], 0, 0>> >>)
       ELSE IF s[1] = 1 THEN Closed(cc, i + 1, start, <<s[2], s[3]>>, Append(out, <<1, s[2], s[3], 0, 0>>))
       ELSE Closed(cc, i + 1, start, <<s[6], s[7]>>, Append(out, s))
CffSegs(cc) == Closed(cc, 1, <<0, 0>>, <<0, 0>>, <<>>)

OutlineV(r) ==
  IF r.kind = "ttf"
  THEN UNION {LET gid == r.segs[i].gid IN
              IF ~Drawable(r.gg, gid, 6) \/ ~(~AnyScaled(r.gg, gid) \/ (Mild(r.gg, gid) /\ ScaleDepth(r.gg, gid) <= 2)) THEN {}
              ELSE IF ~r.segs[i].ok THEN {"outline rejected"}
              ELSE C(SameOutline(r.gg, gid, r.segs[i].s), "outline differs") : i \in 1..Len(r.segs)}
  ELSE UNION {IF ~r.segs[i].ok THEN {"outline rejected"}
              ELSE C(r.segs[i].s = CffSegs(r.cmds[i]), "outline differs") : i \in 1..Len(r.segs)}

FontV(r) ==
  IF ~r.ok THEN {"write failed"}
  ELSE LET ff == Faults(r.out) IN
       IF ff # {} THEN ff
       ELSE C(SubSeq(r.out, 1, 4) = (IF r.kind = "ttf" THEN <<0, 1, 0, 0>> ELSE <<79, 84, 84, 79>>), "scaler type") \cup
            C(r.n = Len(r.out), "byte count") \cup
            C({Rec(r.out, i).tag : i \in 1..NumTables(r.out)} = {r.want[i] : i \in 1..Len(r.want)}, "set of tables") \cup
            (IF ~r.x THEN {}
             ELSE IF r.xerr THEN {"complete font rejected by an independent reader"}
             ELSE C(r.xn = r.num, "glyph count") \cup
                  C(r.xupem = r.upem, "units per em") \cup
                  C(r.xmap = r.map, "character mapping") \cup
                  C(r.xadv = r.adv, "advance widths") \cup
                  C(r.xnames = r.names, "glyph names") \cup
                  OutlineV(r))

Verdict(r) == CASE r.t = "cont" -> ContV(r)
                [] r.t = "font" -> FontV(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
