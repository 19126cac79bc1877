package main

import (
	"bytes"
	"encoding/json"
	"math/rand/v2"
	"sort"
	"strings"
	"unicode/utf8"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1/names"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"vharness/vh"
)

// Glyph names.

type nmRule struct {
	Src []int `json:"src"`
	Dst int   `json:"dst"`
	Lig bool  `json:"lig"`
}

// nmLatin1 maps bytes to characters, so that all names are valid JSON strings.
func nmLatin1(s string) string {
	rr := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		rr[i] = rune(s[i])
	}
	return string(rr)
}

func nmAll(ss []string) []string {
	res := make([]string, len(ss))
	for i, s := range ss {
		res[i] = nmLatin1(s)
	}
	return res
}

// nmGiven returns the names present in a font.
func nmGiven(f *sfnt.Font) []string {
	res := make([]string, f.NumGlyphs())
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			res[i] = nmLatin1(g.Name)
		}
	case *glyf.Outlines:
		for i := range res {
			if i < len(o.Names) {
				res[i] = nmLatin1(o.Names[i])
			}
		}
	}
	return res
}

func nmRules(info *gtab.Info) []nmRule {
	res := []nmRule{}
	if info == nil {
		return res
	}
	for _, l := range info.LookupList {
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.Gsub1_1:
				for g := range s.Cov {
					res = append(res, nmRule{Src: []int{int(g)}, Dst: int(g + s.Delta)})
				}
			case *gtab.Gsub1_2:
				for g, i := range s.Cov {
					res = append(res, nmRule{Src: []int{int(g)}, Dst: int(s.SubstituteGlyphIDs[i])})
				}
			case *gtab.Gsub3_1:
				for g, i := range s.Cov {
					for _, a := range s.Alternates[i] {
						res = append(res, nmRule{Src: []int{int(g)}, Dst: int(a)})
					}
				}
			case *gtab.Gsub4_1:
				for g, i := range s.Cov {
					for _, a := range s.Repl[i] {
						src := []int{int(g)}
						for _, x := range a.In {
							src = append(src, int(x))
						}
						res = append(res, nmRule{Src: src, Dst: int(a.Out), Lig: true})
					}
				}
			}
		}
	}
	return res
}

// nmAgl returns the glyph-list names of all characters which may be mapped to
// glyphs.
func nmAgl(t cmap.Table) [][]any {
	seen := map[rune]bool{}
	for k := range t {
		sub, err := t.Get(k)
		if err != nil {
			continue
		}
		a, b := sub.CodeRange()
		for r := max(a, 0); r <= min(b, 0x10FFFF); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			if sub.Lookup(r) != 0 {
				seen[r] = true
			}
		}
	}
	var rr []int
	for r := range seen {
		rr = append(rr, int(r))
	}
	sort.Ints(rr)
	res := [][]any{}
	for _, r := range rr {
		res = append(res, []any{r, names.FromUnicode(string(rune(r)))})
	}
	return res
}

func nmEmit(c *vh.Case, f *sfnt.Font, calls int) {
	rec := vh.Rec{"t": "names", "given": nmGiven(f), "cms": plCmaps(f.CMapTable), "agl": nmAgl(f.CMapTable), "rules": nmRules(f.Gsub)}
	outs := [][]string{}
	var got, after []string
	msg := vh.Guard(func() {
		for range calls {
			outs = append(outs, nmAll(f.MakeGlyphNames()))
		}
		f.EnsureGlyphNames()
		for i := range f.NumGlyphs() {
			got = append(got, nmLatin1(f.GlyphName(glyph.ID(i))))
		}
		after = nmAll(f.MakeGlyphNames())
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	rec["outs"], rec["got"], rec["after"] = outs, got, after
	c.Emit(rec)
}

// nmRuleLookups expresses rules as lookups.
func nmRuleLookups(rng *rand.Rand, rules []nmRule) gtab.LookupList {
	var ll gtab.LookupList
	add := func(tp uint16, s gtab.Subtable) {
		if len(ll) > 0 && rng.IntN(3) == 0 && ll[len(ll)-1].Meta.LookupType == tp {
			ll[len(ll)-1].Subtables = append(ll[len(ll)-1].Subtables, s)
			return
		}
		ll = append(ll, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: tp}, Subtables: []gtab.Subtable{s}})
	}
	for _, r := range rules {
		a, d := glyph.ID(r.Src[0]), glyph.ID(r.Dst)
		if r.Lig {
			var in []glyph.ID
			for _, x := range r.Src[1:] {
				in = append(in, glyph.ID(x))
			}
			add(4, &gtab.Gsub4_1{Cov: coverage.Table{a: 0}, Repl: [][]gtab.Ligature{{{In: in, Out: d}}}})
			continue
		}
		switch rng.IntN(3) {
		case 0:
			add(1, &gtab.Gsub1_1{Cov: coverage.Set{a: true}, Delta: d - a})
		case 1:
			add(1, &gtab.Gsub1_2{Cov: coverage.Table{a: 0}, SubstituteGlyphIDs: []glyph.ID{d}})
		default:
			add(3, &gtab.Gsub3_1{Cov: coverage.Table{a: 0}, Alternates: [][]glyph.ID{{d}}})
		}
	}
	return ll
}

func nmRandLookups(rng *rand.Rand, n int) gtab.LookupList {
	gid := func() glyph.ID { return glyph.ID(rng.IntN(n)) }
	var ll gtab.LookupList
	for range rng.IntN(5) {
		l := &gtab.LookupTable{}
		tp := []uint16{1, 3, 4}[rng.IntN(3)]
		for range 1 + rng.IntN(2) {
			keys := rng.Perm(n)[:rng.IntN(min(n, 6)+1)]
			sort.Ints(keys)
			cov := coverage.Table{}
			for i, k := range keys {
				cov[glyph.ID(k)] = i
			}
			var s gtab.Subtable
			switch {
			case tp == 1 && rng.IntN(2) == 0:
				// keep all results in range
				lo, hi := 0, n-1
				if len(keys) > 0 {
					lo, hi = keys[0], keys[len(keys)-1]
				}
				d := -lo + rng.IntN(lo+n-hi)
				s = &gtab.Gsub1_1{Cov: cov.ToSet(), Delta: glyph.ID(d)}
			case tp == 1:
				t := &gtab.Gsub1_2{Cov: cov}
				for range keys {
					t.SubstituteGlyphIDs = append(t.SubstituteGlyphIDs, gid())
				}
				s = t
			case tp == 3:
				t := &gtab.Gsub3_1{Cov: cov}
				for range keys {
					var aa []glyph.ID
					for range rng.IntN(4) {
						aa = append(aa, gid())
					}
					t.Alternates = append(t.Alternates, aa)
				}
				s = t
			default:
				t := &gtab.Gsub4_1{Cov: cov}
				for range keys {
					var aa []gtab.Ligature
					for range rng.IntN(4) {
						var in []glyph.ID
						for range rng.IntN(3) {
							in = append(in, gid())
						}
						aa = append(aa, gtab.Ligature{In: in, Out: gid()})
					}
					t.Repl = append(t.Repl, aa)
				}
				s = t
			}
			l.Subtables = append(l.Subtables, s)
		}
		l.Meta = &gtab.LookupMetaInfo{LookupType: tp}
		ll = append(ll, l)
	}
	return ll
}

func nmFont(rng *rand.Rand, kind string, given []string, trim bool) *sfnt.Font {
	f := genFont(rng, fopt{kind: kind, n: len(given), cmap: "none"})
	f.Gsub, f.Gpos, f.Gdef = nil, nil, nil
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			g.Name = given[i]
		}
	case *glyf.Outlines:
		o.Names = append([]string{}, given...)
		if trim {
			for len(o.Names) > 0 && o.Names[len(o.Names)-1] == "" {
				o.Names = o.Names[:len(o.Names)-1]
			}
		}
	}
	return f
}

func nmModel(c *vh.Case, raw []byte) {
	var m struct {
		Given []string `json:"given"`
		Cm    [][]int  `json:"cm"`
		Rules []nmRule `json:"rules"`
	}
	if err := json.Unmarshal(tlcUnquote(raw), &m); err != nil {
		panic(err)
	}
	kind := []string{"ttf", "cff", "cid"}[c.Idx%3]
	f := nmFont(c.Rng, kind, m.Given, c.Rng.IntN(2) == 0)
	mm := map[rune]int{}
	for _, x := range m.Cm {
		mm[rune(x[0])] = x[1]
	}
	if len(mm) > 0 || c.Rng.IntN(2) == 0 {
		f.CMapTable = cmap4(mm)
	}
	if len(m.Rules) > 0 {
		f.Gsub = &gtab.Info{LookupList: nmRuleLookups(c.Rng, m.Rules)}
	}
	nmEmit(c, f, 3)
}

var nmPool = []string{"", "", "", ".notdef", "A", "B", "A.1", "A.2", "B.1", "A_B", "A_B.1", "orn001", "orn002", "orn003", "bad name", "a(b", "ä", "f_i", "fi", "uni0041", "u0041", "space", "\xff\xfe", "a/b", "averyveryverylongglyphnamewithmorethan31characters", "orn1000", "1a", ".a"}

func nmRand(c *vh.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(14)
	if rng.IntN(30) == 0 {
		n = 100 + rng.IntN(1200) // more than 999 placeholders
	}
	given := make([]string, n)
	p := rng.IntN(4)
	for i := range given {
		switch p {
		case 0: // none
		case 1:
			given[i] = pick(rng, nmPool)
		case 2:
			given[i] = "g" + string(rune('a'+rng.IntN(26)))
		default:
			given[i] = names.FromUnicode(string(rune('A' + i%100)))
			if rng.IntN(3) == 0 {
				given[i] = ""
			}
		}
	}
	f := nmFont(rng, []string{"ttf", "cff", "cid"}[rng.IntN(3)], given, rng.IntN(2) == 0)
	if o, ok := f.Outlines.(*glyf.Outlines); ok && rng.IntN(4) == 0 {
		if rng.IntN(3) == 0 {
			o.Names = append(o.Names, "x")
		} else {
			o.Names = o.Names[:rng.IntN(len(o.Names)+1)]
			if rng.IntN(3) == 0 {
				o.Names = nil
			}
		}
	}
	gid := func() glyph.ID {
		if rng.IntN(20) == 0 {
			return glyph.ID(n + rng.IntN(3))
		}
		return glyph.ID(rng.IntN(n))
	}
	code := func() rune {
		switch rng.IntN(8) {
		case 0:
			return pick(rng, []rune{0, 1, 0x132, 0x133, 0x2026, 0xA0, 0xAD, 0x2126, 0x3A9, 0xD800, 0xDFFF, 0xFFFD, 0xFFFE, 0xFFFF, 0xE000, 0xF041, 0xFB01, 0xFB03})
		case 1:
			return rune(rng.IntN(0x10000))
		default:
			return rune('A' + rng.IntN(40))
		}
	}
	f.CMapTable = nil
	if rng.IntN(5) > 0 {
		t := cmap.Table{}
		if rng.IntN(4) > 0 {
			m := cmap.Format4{}
			for range rng.IntN(12) {
				m[uint16(code())] = gid()
			}
			t[pick(rng, []cmap.Key{{PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}})] = m.Encode(0)
		}
		if rng.IntN(3) == 0 {
			m := cmap.Format12{}
			for range rng.IntN(8) {
				c := uint32(code())
				switch rng.IntN(6) {
				case 0:
					c = 0x1F600 + uint32(rng.IntN(10))
				case 1:
					c = 0x10FFF0 + uint32(rng.IntN(16))
				}
				m[c] = gid()
			}
			t[pick(rng, []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}})] = m.Encode(0)
		}
		if rng.IntN(5) == 0 {
			b := make([]byte, 262)
			b[2], b[3] = 1, 6
			for range 8 {
				b[6+rng.IntN(256)] = byte(rng.IntN(min(n, 256)))
			}
			t[cmap.Key{PlatformID: 1}] = b
		}
		f.CMapTable = t
	}
	if rng.IntN(4) > 0 {
		f.Gsub = &gtab.Info{LookupList: nmRandLookups(rng, n)}
	}
	nmEmit(c, f, 3)
}

// nmChain: names which spread along many rules.
func nmChain(c *vh.Case) {
	rng := c.Rng
	n := 3 + rng.IntN(12)
	given := make([]string, n)
	perm := rng.Perm(n - 1) // glyphs 1..n-1 in some order
	if rng.IntN(2) == 0 {
		given[1+perm[0]] = pick(rng, []string{"A", "B.1", "f_i"})
	}
	f := nmFont(rng, []string{"ttf", "cff"}[rng.IntN(2)], given, true)
	if given[1+perm[0]] == "" {
		f.CMapTable = cmap4(map[rune]int{'A': 1 + perm[0]})
	} else {
		f.CMapTable = nil
	}
	if rng.IntN(2) == 0 {
		// one subtable
		cov := coverage.Table{}
		var keys []int
		next := map[int]int{}
		for i := 0; i+1 < len(perm); i++ {
			keys = append(keys, 1+perm[i])
			next[1+perm[i]] = 1 + perm[i+1]
		}
		sort.Ints(keys)
		s := &gtab.Gsub1_2{Cov: cov}
		for i, k := range keys {
			cov[glyph.ID(k)] = i
			s.SubstituteGlyphIDs = append(s.SubstituteGlyphIDs, glyph.ID(next[k]))
		}
		f.Gsub = &gtab.Info{LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{s}}}}
	} else {
		var rules []nmRule
		for i := 0; i+1 < len(perm); i++ {
			r := nmRule{Src: []int{1 + perm[i]}, Dst: 1 + perm[i+1]}
			if i > 0 && rng.IntN(2) == 0 {
				r.Lig = true
				r.Src = append(r.Src, 1+perm[rng.IntN(i)])
			}
			rules = append(rules, r)
		}
		rng.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
		f.Gsub = &gtab.Info{LookupList: nmRuleLookups(rng, rules)}
	}
	nmEmit(c, f, 3)
}

// nmRead: fonts as read from files.
func nmRead(c *vh.Case) {
	rng := c.Rng
	f := genFont(rng, fopt{badName: true, integer: true})
	f.Gsub = nil
	if n := f.NumGlyphs(); rng.IntN(2) == 0 {
		f.Gsub = infoWith(rng, nmRandLookups(rng, n))
	}
	if rng.IntN(2) == 0 {
		nmEmit(c, f, 2)
		return
	}
	var g *sfnt.Font
	var err error
	msg := vh.Guard(func() {
		buf := &bytes.Buffer{}
		if _, err = f.Write(buf); err != nil {
			return
		}
		g, err = sfnt.Read(bytes.NewReader(buf.Bytes()))
	})
	if msg != "" || err != nil {
		c.Mark("not readable")
		return
	}
	nmEmit(c, g, 2)
}

func nmCorpus(c *vh.Case) {
	rng := c.Rng
	ff := smallFonts()
	if len(ff) == 0 {
		return
	}
	f, err := sfnt.Read(bytes.NewReader(ff[c.Idx%len(ff)]))
	if err != nil {
		return
	}
	p := rng.IntN(3)
	drop := func(s string) string {
		if p == 1 || p == 2 && rng.IntN(2) == 0 {
			return ""
		}
		return s
	}
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for _, g := range o.Glyphs {
			g.Name = drop(g.Name)
		}
	case *glyf.Outlines:
		o.Names = append([]string{}, o.Names...)
		for i := range o.Names {
			o.Names[i] = drop(o.Names[i])
		}
	}
	nmEmit(c, f, 2)
}

func nmSimple(c *vh.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(12)
	f := genFont(rng, fopt{kind: "cid", n: n, integer: true})
	o := f.Outlines.(*cff.Outlines)
	if rng.IntN(2) == 0 && len(o.Private) > 1 {
		o.Private = o.Private[:1]
		o.FDSelect = func(glyph.ID) int { return 0 }
		o.FontMatrices = o.FontMatrices[:1]
	}
	p := rng.IntN(3)
	for _, g := range o.Glyphs {
		g.Name = ""
		if p == 1 {
			g.Name = pick(rng, nmPool)
		} else if p == 2 && rng.IntN(2) == 0 {
			g.Name = "x" + string(rune('a'+rng.IntN(20)))
		}
	}
	if rng.IntN(4) == 0 {
		o.ROS, o.GIDToCID = nil, nil // already simple
	}
	text := make([]string, n)
	var texts map[glyph.ID]string
	if rng.IntN(4) > 0 {
		texts = map[glyph.ID]string{}
		for i := range n {
			if rng.IntN(4) == 0 {
				continue
			}
			s := pick(rng, []string{"A", "B", "C", "D", "fi", "", "ﬁ", "ffi", "\U0001F600", "abcdefghijklmnop", "Zcaron", " ", "abcdefgh12", "\U0001F600\U0001F601\U0001F602\U0001F603", "\x00", "é", "αβγδ"})
			texts[glyph.ID(i)] = s
			text[i] = names.FromUnicode(s)
		}
	}
	rec := vh.Rec{"t": "simple", "given": nmGiven(f), "text": text, "file": []string{}}
	outs := [][]string{}
	msg := vh.Guard(func() {
		for range 2 {
			o.MakeSimple(texts)
			outs = append(outs, nmGiven(f))
		}
		if len(o.Private) == 1 && rng.IntN(2) == 0 {
			buf := &bytes.Buffer{}
			if _, err := f.Write(buf); err != nil {
				c.Mark("not written")
				return
			}
			g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
			if err != nil {
				c.Mark("not readable")
				return
			}
			rec["file"] = nmGiven(g)
		}
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	rec["outs"], rec["cid"] = outs, o.IsCIDKeyed()
	c.Emit(rec)
}

func nmPS(c *vh.Case) {
	rng := c.Rng
	f := &sfnt.Font{}
	var b strings.Builder
	switch c.Idx % 4 {
	case 0:
		for i := range 32 {
			b.WriteRune(rune((c.Idx / 4 * 32) % 0x300 + i))
		}
	case 1:
		for range rng.IntN(20) {
			b.WriteByte(byte(rng.IntN(256)))
		}
	case 2:
		for range rng.IntN(20) {
			b.WriteRune(rune(rng.IntN(0x11000)))
		}
	default:
		b.WriteString(pick(rng, []string{"", "Times New Roman", "Ü-Font", "A[1]", "Go (bold)", "100%", "a/b", "x{y}z<w>", "日本"}))
	}
	f.FamilyName = b.String()
	f.Width = os2.Width(rng.IntN(12))
	f.Weight = os2.Weight(rng.IntN(1100))
	f.IsBold, f.IsItalic, f.IsOblique, f.IsRegular = rng.IntN(2) == 0, rng.IntN(2) == 0, rng.IntN(2) == 0, rng.IntN(2) == 0
	f.IsSerif, f.IsScript = rng.IntN(2) == 0, rng.IntN(2) == 0
	if rng.IntN(4) == 0 {
		f.ItalicAngle = -12
	}
	f.UnitsPerEm = 1000
	f.Ascent = funit.Int16(800)
	var s string
	if msg := vh.Guard(func() { s = f.PostScriptName() }); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	c.Emit(vh.Rec{"t": "ps", "out": bytesInts([]byte(s))})
}

func c20Families(e *vh.Env) []vh.Family {
	model := e.TLCCases("names.ndjson")
	return []vh.Family{
		{Name: "model", Quick: len(model), Thor: len(model), Run: func(c *vh.Case) { nmModel(c, model[c.Idx]) }},
		{Name: "rand", Quick: 2500, Thor: 40000, Run: nmRand},
		{Name: "chain", Quick: 600, Thor: 8000, Run: nmChain},
		{Name: "read", Quick: 500, Thor: 8000, Run: nmRead},
		{Name: "corpus", Quick: 40, Thor: 300, Run: nmCorpus},
		{Name: "simple", Quick: 1500, Thor: 20000, Run: nmSimple},
		{Name: "ps", Quick: 600, Thor: 6000, Run: nmPS},
	}
}
