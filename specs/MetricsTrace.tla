----------------------------- MODULE MetricsTrace ---------------------------
(***************************************************************************)
(* C12.  Acceptance of metrics and header tables written and read by the   *)
(* library, of the derived fields in complete font files, and of the       *)
(* metric queries.                                                         *)
(***************************************************************************)
EXTENDS Metrics, TraceLib

VARIABLE l

C(ok, name) == IF ok THEN {} ELSE {name}

AllNonNeg(w) == \A i \in 1..Len(w) : w[i] >= 0
MaxWidth(w) == IF w = <<>> THEN 0 ELSE MaxI(0, MaxOf({w[i] : i \in 1..Len(w)}))

CaretV(h, dir, exact) ==
  IF exact THEN C(CaretExact(h.rise, h.run, dir), "caret slope")
  ELSE C(CaretNear(h.rise, h.run, dir), "caret slope")

\* the derived fields of hhea for widths w, bearings lsb and boxes ext
DerivedV(h, w, lsb, ext) ==
  LET rsb == MinRsb(w, lsb, ext)
      me == MaxExtent(lsb, ext)
  IN (IF AllNonNeg(w) THEN C(h.awmax = MaxWidth(w), "maximum advance") ELSE {}) \cup
     C(h.minlsb = MinLsb(lsb, ext), "minimum left side bearing") \cup
     (IF In16(rsb) THEN C(h.minrsb = rsb, "minimum right side bearing") ELSE {}) \cup
     (IF In16(me) THEN C(h.ext = me, "maximum extent") ELSE {})

HmtxV(r) ==
  IF ~HheaWf(r.hhea) THEN {"hhea not well-formed"}
  ELSE LET h == Hhea(r.hhea)
           ng == Len(r.w)
           lsb == IF r.hasl THEN r.lsb ELSE [i \in 1..ng |-> r.ext[i][1]]
       IN IF ~HmtxWf(r.hmtx, h.n, ng) THEN {"hmtx not well-formed"}
          ELSE C(HmtxW(r.hmtx, h.n, ng) = r.w, "widths in hmtx") \cup
               C(HmtxL(r.hmtx, h.n, ng) = lsb, "left side bearings in hmtx") \cup
               C(h.asc = r.asc /\ h.desc = r.desc /\ h.gap = r.gap /\ h.off = r.off, "fields of hhea") \cup
               CaretV(h, r.dir, r.exact) \cup
               (IF r.hase THEN DerivedV(h, r.w, lsb, r.ext)
                ELSE IF AllNonNeg(r.w) THEN C(h.awmax = MaxWidth(r.w), "maximum advance") ELSE {}) \cup
               (IF ~r.ok THEN {"tables rejected"}
                ELSE C(r.b.w = r.w, "widths differ") \cup
                     C(r.b.lsb = lsb, "left side bearings differ") \cup
                     C(r.b.asc = r.asc /\ r.b.desc = r.desc /\ r.b.gap = r.gap /\ r.b.off = r.off, "vertical metrics differ") \cup
                     (IF ~HheaWf(r.hhea2) THEN {"hhea not well-formed"}
                      ELSE LET h2 == Hhea(r.hhea2) IN
                           C(h2.rise = h.rise /\ h2.run = h.run, "caret slope changes") \cup
                           C(h2.n = h.n /\ r.hmtx2 = r.hmtx, "second encoding differs")))

\* tables of another encoder
HmtxDecV(r) ==
  LET h == Hhea(r.hhea) IN
  IF ~r.ok THEN {"valid tables rejected"}
  ELSE C(r.b.w = HmtxW(r.hmtx, h.n, r.ng), "widths differ") \cup
       C(r.b.lsb = HmtxL(r.hmtx, h.n, r.ng), "left side bearings differ") \cup
       C(r.b.asc = h.asc /\ r.b.desc = h.desc /\ r.b.gap = h.gap /\ r.b.off = h.off, "vertical metrics differ")

SameV(want, got, name) == UNION {C(got[f] = want[f], name \o f) : f \in DOMAIN want}

HeadV(r) == IF ~HeadWf(r.b) THEN {"head not well-formed"}
            ELSE SameV(r.in, HeadF(r.b), "head: ") \cup
                 (IF ~r.ok THEN {"head rejected"} ELSE SameV(r.in, r.back, "head read back: "))

MaxpV(r) == IF ~MaxpWf(r.b) THEN {"maxp not well-formed"}
            ELSE SameV(r.in, Maxp(r.b), "maxp: ") \cup
                 (IF ~r.ok THEN {"maxp rejected"} ELSE SameV(r.in, r.back, "maxp read back: "))

Os2V(r) == IF ~Os2Wf(r.b) THEN {"OS/2 not well-formed"}
           ELSE LET n == Os2Normal(r.in) IN
                SameV(n, Os2(r.b), "OS/2: ") \cup
                (IF ~r.ok THEN {"OS/2 rejected"} ELSE SameV(n, r.back, "OS/2 read back: "))

PostV(r) == IF ~PostWf(r.b) THEN {"post not well-formed"}
            ELSE SameV(r.in, Post(r.b), "post: ") \cup
                 (IF ~r.ok THEN {"post rejected"} ELSE SameV(r.in, r.back, "post read back: "))

(***************************************************************************)
(* complete files                                                          *)
(***************************************************************************)
FileV(r) ==
  IF ~HheaWf(r.hhea) \/ ~HeadWf(r.head) \/ ~MaxpWf(r.maxp) \/ ~Os2Wf(r.os2) \/ ~PostWf(r.post) THEN {"tables not well-formed"}
  ELSE LET h == Hhea(r.hhea)
           hd == HeadF(r.head)
           o == Os2(r.os2)
           p == Post(r.post)
           ng == Len(r.w)
           w == r.w
           lsb == [i \in 1..ng |-> r.ext[i][1]]
       IN IF ~HmtxWf(r.hmtx, h.n, ng) THEN {"hmtx not well-formed"}
          ELSE C(HmtxW(r.hmtx, h.n, ng) = w, "file: widths") \cup
               C(\A i \in 1..ng : r.ext[i] # Zero4 => HmtxL(r.hmtx, h.n, ng)[i] = lsb[i], "file: left side bearings") \cup
               DerivedV(h, w, lsb, r.ext) \cup
               CaretV(h, r.dir, FALSE) \cup
               C(Maxp(r.maxp).n = ng /\ Maxp(r.maxp).ttf = r.ttf, "file: maxp") \cup
               C(hd.box = UnionBox(r.ext), "file: font bounding box") \cup
               C(o.avg = Average(w), "file: average width") \cup
               C(r.codes = <<>> \/ (o.first = MinI(r.codes[1], 65535) /\ o.last = MinI(r.codes[2], 65535)), "file: first and last character") \cup
               C(p.fixed = FixedPitch(r.w8, 8), "file: fixed pitch") \cup
               SameV(r.hd, hd, "file: head: ") \cup SameV(r.hh, h, "file: hhea: ") \cup
               SameV(r.oo, o, "file: OS/2: ") \cup SameV(r.pp, p, "file: post: ") \cup
               (IF ~r.ok THEN {"file rejected"} ELSE SameV(r.rb, r.got, "read back: "))

(***************************************************************************)
(* queries                                                                 *)
(***************************************************************************)
Near1(a, b) == AbsI(a - b) <= 1
NearBox(a, b) == \A i \in 1..4 : AbsI(a[i] - b[i]) <= 2
TrueBox(g, v, upm) == \A i \in 1..4 : AbsI(v[i] * upm - g[i] * 100000) <= upm
Large(g) == \E i \in 1..4 : AbsI(g[i]) > 20000
QueryV(r) ==
  LET ng == Len(r.w8)
      m(i) == IF r.cid THEN MulM(r.fds[r.fd[i] + 1], r.m, 2) ELSE r.m
      wok(i, v) == IF r.kind = "ttf" THEN (IF r.w8[i] \div 8 < 20000 THEN AbsI(v * r.upem - (r.w8[i] \div 8) * 100000) <= r.upem
                                          ELSE AbsI((v \div 10) * r.upem - (r.w8[i] \div 8) * 10000) <= 2 * r.upem)
                   ELSE WidthPdfOk(v, r.w8[i], m(i))
  IN C(r.ws = r.w8, "Widths") \cup C(r.gw = r.w8, "GlyphWidth") \cup
     C(\A i \in 1..ng : wok(i, r.wp[i]), "WidthsPDF") \cup
     C(\A i \in 1..ng : wok(i, r.gwp[i]), "GlyphWidthPDF") \cup
     C(r.mok => \A i \in 1..ng : wok(i, r.wm[i]), "WidthsMapPDF") \cup
     C(r.fixed = FixedPitch(r.w8, 8), "IsFixedPitch") \cup
     C(r.bb = r.bbs, "GlyphBBox and GlyphBBoxes") \cup
     C(r.fb = UnionBox(r.bbs), "FontBBox") \cup
     C(NearBox(r.fbp, UnionBox(r.bp)), "FontBBoxPDF") \cup
     (IF r.kind = "ttf"
      THEN C(r.bbs = r.raw, "GlyphBBoxes") \cup
           C(\A i \in 1..ng : Large(r.raw[i]) \/ TrueBox(r.raw[i], r.bp[i], r.upem), "GlyphBBoxPDF")
      ELSE C(\A i \in 1..ng : r.cc[i][1][1] = 9 \/ BoxOk(r.cc[i], r.bbs[i], r.u), "GlyphBBoxes") \cup
           C(~r.small \/ \A i \in 1..ng : PdfBoxOk(r.cc[i], r.bp[i], m(i), r.u), "GlyphBBoxPDF") \cup
           C(\A i \in 1..ng : wok(i, r.cwp[i]) /\ wok(i, r.cgp[i]), "cff: WidthsPDF") \cup
           C(r.cw = r.w8, "cff: Widths") \cup
           C(r.cfb = UnionBox(r.bbs), "cff: BBox") \cup
           C(NearBox(r.cfp, UnionBox(r.bp)), "cff: FontBBoxPDF"))

Verdict(r) == CASE r.t = "hmtx" -> HmtxV(r)
                [] r.t = "hmtxdec" -> HmtxDecV(r)
                [] r.t = "head" -> HeadV(r)
                [] r.t = "maxp" -> MaxpV(r)
                [] r.t = "os2" -> Os2V(r)
                [] r.t = "post" -> PostV(r)
                [] r.t = "file" -> FileV(r)
                [] r.t = "query" -> QueryV(r)

Init == l = Start
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               v == IF r.t = "panic" THEN {"panic"} ELSE Verdict(r)
           IN IF v = {} THEN TRUE ELSE Report(l, r.id, v)
        /\ l' = l + 1
=============================================================================
