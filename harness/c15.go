package main

import (
	"bytes"
	"encoding/json"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"vharness/vh"
)

// The layout pipeline.

type plSys struct {
	Conf int   `json:"conf"`
	Dflt bool  `json:"dflt"`
	Req  int   `json:"req"`
	Opt  []int `json:"opt"`
}

type plFeat struct {
	Tag string `json:"tag"`
	L   []int  `json:"l"`
}

type plTab struct {
	Has   bool       `json:"has"`
	LL    []shLookup `json:"ll"`
	Sys   []plSys    `json:"sys"`
	Feats []plFeat   `json:"feats"`
}

type plSw struct {
	Nil bool     `json:"nil"`
	On  []string `json:"on"`
}

func (s plSw) toMap(rng *rand.Rand) map[string]bool {
	if s.Nil {
		return nil
	}
	m := map[string]bool{}
	for _, t := range s.On {
		m[t] = true
	}
	for _, t := range layoutFeatures { // explicitly switched off
		if !m[t] && rng.IntN(3) == 0 {
			m[t] = false
		}
	}
	return m
}

func randSw(rng *rand.Rand) plSw {
	if rng.IntN(3) == 0 {
		return plSw{Nil: true, On: []string{}}
	}
	s := plSw{On: []string{}}
	for _, t := range layoutFeatures {
		if rng.IntN(2) == 0 {
			s.On = append(s.On, t)
		}
	}
	return s
}

// describe selection data
func plSelect(info *gtab.Info, lang language.Tag) ([]plSys, []plFeat) {
	sys := []plSys{}
	var tags []language.Tag
	for t := range info.ScriptList {
		tags = append(tags, t)
	}
	sort.Slice(tags, func(i, j int) bool { return tags[i].String() < tags[j].String() })
	for _, t := range tags {
		s := info.ScriptList[t]
		p := plSys{Conf: int(language.Comprehends(lang, t)), Dflt: strings.HasPrefix(t.String(), "und-Zzzz"), Req: 65535, Opt: []int{}}
		if s == nil {
			sys = append(sys, p)
			continue
		}
		p.Req = int(s.Required)
		for _, o := range s.Optional {
			p.Opt = append(p.Opt, int(o))
		}
		sys = append(sys, p)
	}
	feats := []plFeat{}
	for _, f := range info.FeatureList {
		l := []int{}
		for _, i := range f.Lookups {
			l = append(l, int(i))
		}
		feats = append(feats, plFeat{f.Tag, l})
	}
	return sys, feats
}

func plTable(info *gtab.Info, lang language.Tag) (plTab, bool) {
	res := plTab{LL: []shLookup{}, Sys: []plSys{}, Feats: []plFeat{}}
	if info == nil {
		return res, true
	}
	t, ok := fromGtab(info.LookupList, nil, nil)
	if !ok {
		return res, false
	}
	res.Has, res.LL = true, t.LL
	res.Sys, res.Feats = plSelect(info, lang)
	return res, true
}

func plCmaps(t cmap.Table) []map[string]any {
	res := []map[string]any{}
	var keys []cmap.Key
	for k := range t {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.PlatformID != b.PlatformID {
			return a.PlatformID < b.PlatformID
		}
		if a.EncodingID != b.EncodingID {
			return a.EncodingID < b.EncodingID
		}
		return a.Language < b.Language
	})
	for _, k := range keys {
		res = append(res, map[string]any{"k": []int{int(k.PlatformID), int(k.EncodingID), int(k.Language)}, "b": bytesInts(t[k])})
	}
	return res
}

func plWidths(f *sfnt.Font) []int {
	res := []int{}
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for _, g := range o.Glyphs {
			res = append(res, int(g.Width))
		}
	case *glyf.Outlines:
		for _, w := range o.Widths {
			res = append(res, int(w))
		}
	}
	return res
}

// setWidths gives a font small integer widths.
func setWidths(rng *rand.Rand, f *sfnt.Font, fixed bool) {
	w := func() int {
		if fixed {
			return 600
		}
		return rng.IntN(1500)
	}
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for _, g := range o.Glyphs {
			g.Width = float64(w())
		}
	case *glyf.Outlines:
		for i := range o.Widths {
			o.Widths[i] = funit.Int16(w())
		}
	}
}

var plLangs = []string{"und", "de", "de-AT", "en", "en-GB", "ru", "uk", "ar", "el", "ja", "und-Latn", "fr", "tr", "az", "sr", "sr-Latn", "ro", "mo", "gsw", "und-Zzzz", "zh-Hant", "und-Cyrl", "fa", "he"}
var plTags = []string{"und-Zzzz-x-dflt", "und-Latn-x-latn", "de-Latn-x-latn-deu", "en-Latn-x-latn-eng", "und-Cyrl-x-cyrl", "ru-Cyrl-x-cyrl-rus", "und-Arab-x-arab", "und-Grek-x-grek",
	"tr-Latn-x-latn-trk", "ro-Latn-x-latn-rom", "sr-Cyrl-x-cyrl-srb", "uk-Cyrl-x-cyrl-ukr", "fa-Arab-x-arab-far", "ur-Arab-x-arab-urd", "und-Hebr-x-hebr", "he-Hebr-x-hebr-iwr",
	"el-Grek-x-grek-pgr", "nl-Latn-x-latn-nld", "pl-Latn-x-latn-plk", "fr-Latn-x-latn-fra", "az-Latn-x-latn-aze", "mk-Cyrl-x-cyrl-mkd", "bg-Cyrl-x-cyrl-bgr"}

// plRun is one font with its description.
type plRun struct {
	rec  vh.Rec
	font *sfnt.Font // the font to use
}

func (p *plRun) texts(c *vh.Case, lang language.Tag, sg, sp plSw, texts []string) {
	runs := []map[string]any{}
	ok := true
	msg := vh.Guard(func() {
		l, err := p.font.NewLayouter(lang, sg.toMap(c.Rng), sp.toMap(c.Rng))
		if err != nil {
			ok = false
			return
		}
		for _, s := range texts {
			out := fromSeq(l.Layout(s))
			runs = append(runs, map[string]any{"text": runeInts(s), "out": out})
		}
	})
	p.rec["t"] = "lay"
	if msg != "" {
		p.rec["t"] = "panic"
		p.rec["msg"] = msg
	}
	p.rec["ok"], p.rec["runs"], p.rec["sg"], p.rec["sp"] = ok, runs, sg, sp
	c.Emit(p.rec)
}

// plRecord describes a font.  If reread is set, the font is written and read
// back, with the given kern table added.
func plRecord(c *vh.Case, f *sfnt.Font, lang language.Tag, reread bool, kernTab []byte) *plRun {
	gs, ok1 := plTable(f.Gsub, lang)
	gp, ok2 := plTable(f.Gpos, lang)
	if !ok1 || !ok2 {
		return nil
	}
	gd := fromGdef(f.Gdef)
	p := &plRun{rec: vh.Rec{"cms": plCmaps(f.CMapTable), "w": plWidths(f), "gs": gs, "gp": gp, "gd": gd, "read": reread, "kern": bytesInts(kernTab)}, font: f}
	if !reread {
		return p
	}
	var g *sfnt.Font
	var err error
	msg := vh.Guard(func() {
		buf := &bytes.Buffer{}
		if _, err = f.Write(buf); err != nil {
			return
		}
		data := buf.Bytes()
		if kernTab != nil {
			data = addTable(data, "kern", kernTab)
		}
		g, err = sfnt.Read(bytes.NewReader(data))
	})
	if msg != "" || err != nil {
		// writing and reading is the subject of other properties
		c.Mark("not readable")
		return nil
	}
	p.font = g
	// The written form of a table may have more explicit zeros.
	if f.Gsub != nil {
		gs, ok1 = plTable(g.Gsub, lang)
	}
	if f.Gpos != nil {
		gp, ok2 = plTable(g.Gpos, lang)
	}
	if !ok1 || !ok2 {
		return nil
	}
	p.rec["gs"], p.rec["gp"] = gs, gp
	return p
}

func addTable(data []byte, tag string, tab []byte) []byte {
	r := bytes.NewReader(data)
	h, err := header.Read(r)
	if err != nil {
		panic(err)
	}
	tt := map[string][]byte{}
	for k := range h.Toc {
		d, err := h.ReadTableBytes(r, k)
		if err != nil {
			panic(err)
		}
		tt[k] = d
	}
	tt[tag] = tab
	return mkSfnt(h.ScalerType, tt)
}

func cmap4(m map[rune]int) cmap.Table {
	f := cmap.Format4{}
	for r, g := range m {
		f[uint16(r)] = glyph.ID(g)
	}
	return cmap.Table{{PlatformID: 3, EncodingID: 1}: f.Encode(0)}
}

type plKSub struct {
	Ver   int      `json:"ver"`
	Fmt   int      `json:"fmt"`
	Flags int      `json:"flags"`
	Pairs [][3]int `json:"pairs"`
}

func kernBytes(ss []plKSub) []byte {
	b := w16(nil, 0)
	b = w16(b, len(ss))
	for _, s := range ss {
		n := len(s.Pairs)
		b = w16(b, s.Ver)
		b = w16(b, 14+6*n)
		b = append(b, byte(s.Fmt), byte(s.Flags))
		b = w16(b, n)
		e := 0
		if n > 0 {
			e = bitlen(n) - 1
			b = w16(w16(w16(b, 6<<e), e), 6*n-6<<e)
		} else {
			b = append(b, 0, 0, 0, 0, 0, 0)
		}
		sort.Slice(s.Pairs, func(i, j int) bool {
			p, q := s.Pairs[i], s.Pairs[j]
			if p[0] != q[0] {
				return p[0] < q[0]
			}
			return p[1] < q[1]
		})
		for _, p := range s.Pairs {
			b = w16(w16(w16(b, p[0]), p[1]), p[2]&0xFFFF)
		}
	}
	return b
}

var kernBase = sync.OnceValue(func() map[string][]byte {
	tt := baseTables(8)
	f4 := cmap.Format4{}
	for i := 1; i < 8; i++ {
		f4[uint16(96+i)] = glyph.ID(i)
	}
	tb := &bytes.Buffer{}
	tb.Write((cmap.Table{{PlatformID: 3, EncodingID: 1}: f4.Encode(0)}).Encode())
	tt["cmap"] = tb.Bytes()
	tt["post"] = append([]byte{0, 3, 0, 0}, make([]byte, 28)...)
	tt["hmtx"] = nil
	for i := 0; i < 8; i++ {
		tt["hmtx"] = w16(w16(tt["hmtx"], 500+i), 0)
	}
	byteBuf(tt["hhea"]).set(34, 8)
	return tt
})

// kernFile returns a font with 8 glyphs and the given kern table.
func kernFile(kt []byte) []byte {
	tt := map[string][]byte{}
	for k, v := range kernBase() {
		tt[k] = v
	}
	tt["kern"] = kt
	return mkSfnt(0x00010000, tt)
}

func kernCase(c *vh.Case, kt []byte, simple bool) {
	rec := vh.Rec{"t": "kern", "b": bytesInts(kt), "ok": true, "got": [][4]int{}}
	data := kernFile(kt)
	msg := vh.Guard(func() {
		f, err := sfnt.Read(bytes.NewReader(data))
		if err != nil {
			rec["ok"] = false
			rec["err"] = err.Error()
			return
		}
		var xf *xsfnt.Font
		if simple {
			xf, err = xsfnt.Parse(data)
			if err != nil {
				panic(err)
			}
		}
		var xb xsfnt.Buffer
		l, err := f.NewLayouter(language.MustParse(pick(c.Rng, plLangs)), nil, nil)
		if err != nil {
			panic(err)
		}
		got := [][4]int{}
		for a := 1; a < 8; a++ {
			for b := 1; b < 8; b++ {
				out := l.Layout(string(rune(96+a)) + string(rune(96+b)))
				if len(out) != 2 || int(out[0].GID) != a || int(out[1].GID) != b || int(out[1].Advance) != 500+b || out[0].XOffset != 0 || out[1].XOffset != 0 {
					got = append(got, [4]int{a, b, -99999, 99999})
					continue
				}
				x := 99999
				if xf != nil {
					v, err := xf.Kern(&xb, xsfnt.GlyphIndex(a), xsfnt.GlyphIndex(b), fixed.Int26_6(xf.UnitsPerEm()), font.HintingNone)
					if err == nil {
						x = int(v)
					} else if err == xsfnt.ErrNotFound {
						x = 0
					}
				}
				got = append(got, [4]int{a, b, int(out[0].Advance) - 500 - a, x})
			}
		}
		rec["got"] = got
	})
	if msg != "" {
		rec["t"] = "panic"
		rec["msg"] = msg
	}
	c.Emit(rec)
}

func randKern(rng *rand.Rand, maxPairs int) []plKSub {
	var ss []plKSub
	for n := 1 + rng.IntN(4); n > 0; n-- {
		s := plKSub{Flags: []int{1, 1, 1, 3, 9, 0, 5, 8, 2}[rng.IntN(9)]}
		if rng.IntN(8) == 0 {
			s.Fmt = 2
		}
		if rng.IntN(10) == 0 {
			s.Ver = 1
		}
		seen := map[[2]int]bool{}
		for k := rng.IntN(maxPairs + 1); k > 0; k-- {
			p := [2]int{1 + rng.IntN(7), 1 + rng.IntN(7)}
			if seen[p] {
				continue
			}
			seen[p] = true
			s.Pairs = append(s.Pairs, [3]int{p[0], p[1], rng.IntN(401) - 200})
		}
		ss = append(ss, s)
	}
	return ss
}

func randText(rng *rand.Rand, chars []rune, n int) string {
	var rr []rune
	for i := 0; i < n; i++ {
		if len(chars) > 0 && rng.IntN(8) > 0 {
			rr = append(rr, pick(rng, chars))
		} else {
			rr = append(rr, []rune{'x', 0x416, 0x10FFFF, 0xFFFF, 0x20, 0x1F600, 0xFFFD}[rng.IntN(7)])
		}
	}
	s := string(rr)
	if rng.IntN(20) == 0 {
		s += "\xFF" // not valid UTF-8
	}
	return s
}

// mappedChars returns some characters mapped by a font.
func mappedChars(f *sfnt.Font) []rune {
	var res []rune
	sub, err := f.CMapTable.GetBest()
	if err != nil {
		return nil
	}
	switch s := sub.(type) {
	case cmap.Format4:
		for c := range s {
			res = append(res, rune(c))
		}
	case cmap.Format12:
		for c := range s {
			res = append(res, rune(c))
		}
	default:
		for c := rune(32); c < 256; c++ {
			if sub.Lookup(c) != 0 {
				res = append(res, c)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func c15Families(env *vh.Env) []vh.Family {
	lay := env.TLCCases("lay.ndjson")
	sel := env.TLCCases("sel.ndjson")
	kerns := env.TLCCases("kern.ndjson")
	ligs := env.TLCCases("lig.ndjson")

	abText := func(rng *rand.Rand) string { return randText(rng, []rune("abcd"), rng.IntN(7)) }

	selRec := func(c *vh.Case, info *gtab.Info, lang language.Tag, sw plSw, gpos bool) {
		sys, feats := plSelect(info, lang)
		rec := vh.Rec{"t": "sel", "sys": sys, "feats": feats, "n": len(info.LookupList), "sw": sw, "gpos": gpos}
		res := [][]int{}
		msg := vh.Guard(func() {
			for k := 0; k < 4; k++ {
				m := sw.toMap(c.Rng)
				if m == nil {
					m = gtab.GsubDefaultFeatures
					if gpos {
						m = gtab.GposDefaultFeatures
					}
				}
				x := info
				if k > 0 { // same contents, different map
					y := *info
					y.ScriptList = gtab.ScriptListInfo{}
					for t, s := range info.ScriptList {
						y.ScriptList[t] = s
					}
					x = &y
				}
				r := []int{}
				for _, i := range x.FindLookups(lang, m) {
					r = append(r, int(i))
				}
				res = append(res, r)
			}
		})
		rec["res"] = res
		if msg != "" {
			rec["t"], rec["msg"] = "panic", msg
		}
		c.Mark("sel %d systems", len(sys))
		c.Emit(rec)
	}

	return []vh.Family{
		{Name: "lay", Quick: min(len(lay), 450), Thor: len(lay), MaxSec: 30, Run: func(c *vh.Case) {
			k := c.Idx
			if c.Env.Tier == "quick" {
				k = c.Rng.IntN(len(lay))
			}
			var cs struct {
				GS, GP plTab
				GD     shGdef
				SG, SP plSw
			}
			if err := json.Unmarshal(tlcUnquote(lay[k]), &cs); err != nil {
				panic(err)
			}
			lang := language.MustParse(pick(c.Rng, plLangs))
			f := genFont(c.Rng, fopt{n: 5, kind: []string{"ttf", "cff"}[c.Rng.IntN(2)]})
			setWidths(c.Rng, f, false)
			f.CMapTable = cmap4(map[rune]int{'a': 1, 'b': 2, 'c': 3, 'd': 4})
			info := func(t plTab, pos bool) *gtab.Info {
				if !t.Has {
					return nil
				}
				ll, _, _ := (&shTables{LL: t.LL, pos: pos}).toGtab()
				res := &gtab.Info{LookupList: ll, ScriptList: gtab.ScriptListInfo{}}
				for _, x := range t.Feats {
					ft := &gtab.Feature{Tag: x.Tag}
					for _, i := range x.L {
						ft.Lookups = append(ft.Lookups, gtab.LookupIndex(i))
					}
					res.FeatureList = append(res.FeatureList, ft)
				}
				for _, s := range t.Sys {
					ff := &gtab.Features{Required: gtab.FeatureIndex(s.Req)}
					for _, i := range s.Opt {
						ff.Optional = append(ff.Optional, gtab.FeatureIndex(i))
					}
					res.ScriptList[language.MustParse("und-Zzzz-x-dflt")] = ff
				}
				return res
			}
			f.Gsub, f.Gpos, f.Gdef = info(cs.GS, false), info(cs.GP, true), cs.GD.toGtab()
			p := plRecord(c, f, lang, c.Rng.IntN(3) == 0, nil)
			if p == nil {
				return
			}
			var texts []string
			for i := 0; i < 12; i++ {
				texts = append(texts, abText(c.Rng))
			}
			p.texts(c, lang, cs.SG, cs.SP, texts)
		}},
		{Name: "sel", Quick: min(len(sel), 1500), Thor: len(sel), Run: func(c *vh.Case) {
			k := c.Idx
			if c.Env.Tier == "quick" {
				k = c.Rng.IntN(len(sel))
			}
			var cs struct {
				Feats []plFeat
				S     plSys
				Sw    plSw
			}
			if err := json.Unmarshal(tlcUnquote(sel[k]), &cs); err != nil {
				panic(err)
			}
			info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}, LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 2}}, {Meta: &gtab.LookupMetaInfo{LookupType: 2}}}}
			for _, x := range cs.Feats {
				ft := &gtab.Feature{Tag: x.Tag}
				for _, i := range x.L {
					ft.Lookups = append(ft.Lookups, gtab.LookupIndex(i))
				}
				info.FeatureList = append(info.FeatureList, ft)
			}
			ff := &gtab.Features{Required: gtab.FeatureIndex(cs.S.Req)}
			for _, i := range cs.S.Opt {
				ff.Optional = append(ff.Optional, gtab.FeatureIndex(i))
			}
			info.ScriptList[language.MustParse("de-Latn-x-latn-deu")] = ff
			if c.Rng.IntN(3) == 0 {
				info.ScriptList[language.MustParse("und-Zzzz-x-dflt")] = &gtab.Features{Required: gtab.FeatureIndex(c.Rng.IntN(4)), Optional: []gtab.FeatureIndex{1}}
			}
			selRec(c, info, language.MustParse([]string{"de", "de-AT", "fr"}[c.Rng.IntN(3)]), cs.Sw, true)
		}},
		{Name: "systems", Quick: 800, Thor: 12000, Run: func(c *vh.Case) {
			rng := c.Rng
			info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
			for n := rng.IntN(8); n > 0; n-- {
				info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}})
			}
			nl := len(info.LookupList)
			for n := rng.IntN(8); n > 0; n-- {
				ft := &gtab.Feature{Tag: pick(rng, layoutFeatures)}
				for k := rng.IntN(5); k > 0; k-- {
					ft.Lookups = append(ft.Lookups, gtab.LookupIndex(rng.IntN(nl+2)))
				}
				if rng.IntN(30) == 0 {
					ft.Lookups = append(ft.Lookups, 0xFFFF)
				}
				info.FeatureList = append(info.FeatureList, ft)
			}
			nf := len(info.FeatureList)
			perm := rng.Perm(len(plTags))
			for _, k := range perm[:rng.IntN(21)] {
				ff := &gtab.Features{Required: 0xFFFF}
				if rng.IntN(2) == 0 {
					ff.Required = gtab.FeatureIndex(rng.IntN(nf + 2))
				}
				for k := rng.IntN(6); k > 0; k-- {
					ff.Optional = append(ff.Optional, gtab.FeatureIndex(rng.IntN(nf+2)))
				}
				info.ScriptList[language.MustParse(plTags[k])] = ff
			}
			selRec(c, info, language.MustParse(pick(rng, plLangs)), randSw(rng), rng.IntN(2) == 0)
		}},
		{Name: "kernmodel", Quick: min(len(kerns), 700), Thor: len(kerns), MaxSec: 30, Run: func(c *vh.Case) {
			k := c.Idx
			if c.Env.Tier == "quick" {
				k = c.Rng.IntN(len(kerns))
			}
			var cs struct{ Subs []plKSub }
			if err := json.Unmarshal(tlcUnquote(kerns[k]), &cs); err != nil {
				panic(err)
			}
			kernCase(c, kernBytes(cs.Subs), false)
		}},
		{Name: "kern", Quick: 250, Thor: 3000, MaxSec: 30, Run: func(c *vh.Case) {
			ss := randKern(c.Rng, 20)
			if c.Rng.IntN(3) == 0 {
				ss = ss[:1]
			}
			simple := len(ss) == 1 && ss[0].Flags == 1 && ss[0].Fmt == 0 && ss[0].Ver == 0 && len(ss[0].Pairs) > 0
			kernCase(c, kernBytes(ss), simple)
		}},
		{Name: "kenc", Quick: 150, Thor: 2000, Run: func(c *vh.Case) {
			rng := c.Rng
			n := rng.IntN(40)
			switch rng.IntN(6) {
			case 0:
				n = []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 63, 64, 65}[rng.IntN(14)]
			case 1:
				n = rng.IntN(500)
			}
			info := kern.Info{}
			span := []int{8, 300, 65536}[rng.IntN(3)]
			for i := 0; i < n; i++ {
				info[glyph.Pair{Left: glyph.ID(rng.IntN(span)), Right: glyph.ID(rng.IntN(span))}] = funit.Int16(rng.IntN(65536) - 32768)
			}
			list := func(k kern.Info) [][3]int {
				res := [][3]int{}
				for p, v := range k {
					res = append(res, [3]int{int(p.Left), int(p.Right), int(v)})
				}
				sort.Slice(res, func(i, j int) bool {
					return res[i][0] < res[j][0] || res[i][0] == res[j][0] && res[i][1] < res[j][1]
				})
				return res
			}
			rec := vh.Rec{"t": "kenc", "pairs": list(info), "b": []int{}, "back": [][3]int{}}
			msg := vh.Guard(func() {
				b := info.Encode()
				rec["b"] = bytesInts(b)
				back, err := kern.Read(bytes.NewReader(b))
				if err == nil {
					rec["back"] = list(back)
				}
			})
			if msg != "" {
				rec["t"], rec["msg"] = "panic", msg
			}
			c.Emit(rec)
		}},
		{Name: "lig", Quick: len(ligs), Thor: 4 * len(ligs), MaxSec: 30, Run: func(c *vh.Case) {
			var cs []int
			if err := json.Unmarshal(tlcUnquote(ligs[c.Idx%len(ligs)]), &cs); err != nil {
				panic(err)
			}
			rng := c.Rng
			f := genFont(rng, fopt{n: len(cs) + 3, kind: []string{"ttf", "cff", "cid"}[rng.IntN(3)]})
			setWidths(rng, f, rng.IntN(6) == 0)
			f.Gsub, f.Gpos, f.Gdef = nil, nil, nil
			m := map[rune]int{'x': 1}
			perm := rng.Perm(len(cs))
			for i, ch := range cs {
				m[rune(ch)] = perm[i] + 2
			}
			if rng.IntN(10) == 0 && m['i'] != 0 && m['l'] != 0 {
				m['l'] = m['i'] // shared glyph
			}
			f.CMapTable = cmap4(m)
			var kt []byte
			if rng.IntN(4) == 0 {
				kt = kernBytes(randKern(rng, 20))
			}
			lang := language.MustParse(pick(rng, plLangs))
			p := plRecord(c, f, lang, true, kt)
			if p == nil {
				return
			}
			var texts []string
			for i := 0; i < 20; i++ {
				n := rng.IntN(8)
				var rr []rune
				for j := 0; j < n; j++ {
					rr = append(rr, pick(rng, []rune("fffffiillx\uFB00\uFB01")))
				}
				texts = append(texts, string(rr))
			}
			sg, sp := plSw{Nil: true, On: []string{}}, plSw{Nil: true, On: []string{}}
			if rng.IntN(4) == 0 {
				sg, sp = randSw(rng), randSw(rng)
			}
			p.texts(c, lang, sg, sp, texts)
		}},
		{Name: "font", Quick: 500, Thor: 8000, MaxSec: 30, Run: func(c *vh.Case) {
			rng := c.Rng
			f := genFont(rng, fopt{n: 2 + rng.IntN(10)})
			setWidths(rng, f, rng.IntN(8) == 0)
			addLayout(rng, f)
			lang := language.MustParse(pick(rng, plLangs))
			var kt []byte
			if f.Gpos == nil && rng.IntN(2) == 0 {
				kt = kernBytes(randKern(rng, 20))
			}
			p := plRecord(c, f, lang, kt != nil || rng.IntN(3) == 0, kt)
			if p == nil {
				return
			}
			chars := mappedChars(f)
			var texts []string
			for i := 0; i < 8; i++ {
				texts = append(texts, randText(rng, chars, rng.IntN(9)))
			}
			p.texts(c, lang, randSw(rng), randSw(rng), texts)
		}},
		{Name: "corpus", Quick: 40, Thor: 400, MaxSec: 60, Run: func(c *vh.Case) {
			corpusLayout(c)
		}},
	}
}

// small font files from the Go modules in the sandbox
var smallFonts = sync.OnceValue(func() [][]byte {
	var res [][]byte
	for _, p := range corpusFiles() {
		data, err := os.ReadFile(p)
		if err != nil || len(data) > 200000 || strings.HasPrefix(filepath.Base(p), "gsub") {
			continue
		}
		if _, err := sfnt.Read(bytes.NewReader(data)); err != nil {
			continue
		}
		res = append(res, data)
	}
	return res
})

func corpusLayout(c *vh.Case) {
	ff := smallFonts()
	if len(ff) == 0 {
		return
	}
	rng := c.Rng
	data := pick(rng, ff)
	r := bytes.NewReader(data)
	h, err := header.Read(r)
	if err != nil {
		return
	}
	tab := func(t string) []byte {
		d, err := h.ReadTableBytes(r, t)
		if err != nil {
			return nil
		}
		return d
	}
	if tab("GSUB") != nil || tab("GPOS") != nil {
		c.Mark("has layout tables")
		return
	}
	f, err := sfnt.Read(bytes.NewReader(data))
	if err != nil {
		return
	}
	kt := tab("kern")
	if len(kt) > 30000 {
		return
	}
	if _, err := f.CMapTable.GetBest(); err != nil {
		return
	}
	// only the subtable which is used
	cms := plCmaps(f.CMapTable)
	var keep []map[string]any
	size := 0
	for _, m := range cms {
		b := m["b"].([]int)
		if len(b) > 2 && (b[1] == 0 || b[1] == 4 || b[1] == 6 || b[1] == 12) {
			keep = append(keep, m)
			size += len(b)
		}
	}
	if size > 20000 {
		return
	}
	lang := language.MustParse(pick(rng, plLangs))
	gs, _ := plTable(nil, lang)
	p := &plRun{font: f, rec: vh.Rec{"cms": keep, "w": plWidths(f), "gs": gs, "gp": gs, "gd": fromGdef(f.Gdef), "read": true, "kern": bytesInts(kt)}}
	var texts []string
	for i := 0; i < 6; i++ {
		s := []rune(pick(rng, fontTexts))
		a := rng.IntN(len(s))
		texts = append(texts, string(s[a:min(len(s), a+10)]))
	}
	c.Mark("corpus kern=%v", len(kt) > 0)
	p.texts(c, lang, plSw{Nil: true, On: []string{}}, plSw{Nil: true, On: []string{}}, texts)
}
