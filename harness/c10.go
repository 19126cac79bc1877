package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"vharness/vh"
)

func digest(x any) int { return hash31(mustJSON(x)) }

func round6(x float64) string {
	if math.Abs(x) < 1e-12 {
		return "0"
	}
	return fmt.Sprintf("%.5e", x)
}

// ssFont describes a font for the specification (see SubsetTrace.tla).
func ssFont(f *sfnt.Font) obj {
	gg := []obj{}
	enc := []int{}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		for i, g := range o.Glyphs {
			own := recGlyf(g)
			c := []int{}
			if cg, ok := composite(g); ok {
				cc := [][]int{}
				for _, x := range cg.Components {
					c = append(c, int(x.GlyphIndex))
					cc = append(cc, append([]int{int(x.Flags)}, bytesInts(x.Data)...))
				}
				own["c"] = cc
			}
			name := "-"
			if i < len(o.Names) {
				name = o.Names[i]
			}
			w := 99999
			if i < len(o.Widths) {
				w = int(o.Widths[i])
			}
			gg = append(gg, obj{"s": []int{digest(own), w, hash31(name)}, "c": c})
		}
	case *cff.Outlines:
		gg, enc = ssCFF(o, f.FontMatrix)
	}
	cm := []obj{}
	for key, b := range f.CMapTable {
		cm = append(cm, obj{"k": []int{int(key.PlatformID), int(key.EncodingID), int(key.Language)}, "b": bytesInts(b)})
	}
	sort.Slice(cm, func(i, j int) bool { return fmt.Sprint(cm[i]["k"]) < fmt.Sprint(cm[j]["k"]) })
	return obj{"g": gg, "enc": enc, "cm": cm, "gs": ssInfo(f.Gsub), "gp": ssInfo(f.Gpos)}
}

func ssCFF(o *cff.Outlines, fm matrix.Matrix) ([]obj, []int) {
	gg := []obj{}
	enc := []int{}
	for i, g := range o.Glyphs {
		r := recGlyph(g)
		id := -1
		if i < len(o.GIDToCID) {
			id = int(o.GIDToCID[i])
		}
		m := fm
		fd := 0
		fdErr := ""
		if msg := vh.Guard(func() { fd = o.FDSelect(glyph.ID(i)) }); msg != "" {
			fdErr = msg
		}
		var p any
		if fd >= 0 && fd < len(o.Private) {
			x := o.Private[fd]
			p = []any{x.BlueValues, x.OtherBlues, dec9(x.BlueScale), x.BlueShift, x.BlueFuzz, dec9(x.StdHW), dec9(x.StdVW), x.ForceBold}
		}
		if o.IsCIDKeyed() && fd < len(o.FontMatrices) {
			m = o.FontMatrices[fd].Mul(fm)
		}
		var mm []string
		for _, v := range m {
			mm = append(mm, round6(v))
		}
		ros := "-"
		if o.ROS != nil {
			ros = fmt.Sprint(*o.ROS)
		}
		gg = append(gg, obj{"c": []int{}, "s": []int{digest(r), int(math.Round(g.Width * 16)), hash31(g.Name), id, digest(p), digest(mm), hash31(ros + fdErr)}})
	}
	for _, x := range o.Encoding {
		enc = append(enc, int(x))
	}
	return gg, enc
}

func ssInfo(info *gtab.Info) obj {
	if info == nil {
		return obj{"has": false, "sc": 0, "f": []int{}, "ll": []int{}}
	}
	var sc []string
	for tag, x := range info.ScriptList {
		sc = append(sc, fmt.Sprint(tag, x.Required, x.Optional))
	}
	sort.Strings(sc)
	ff := []obj{}
	for _, f := range info.FeatureList {
		l := []int{}
		for _, x := range f.Lookups {
			l = append(l, int(x))
		}
		ff = append(ff, obj{"tag": f.Tag, "l": l})
	}
	ll := []obj{}
	for _, t := range info.LookupList {
		subs := [][]obj{}
		for _, s := range t.Subtables {
			subs = append(subs, ssSub(s))
		}
		ll = append(ll, obj{"t": int(t.Meta.LookupType), "f": int(t.Meta.LookupFlags), "m": int(t.Meta.MarkFilteringSet), "subs": subs})
	}
	return obj{"has": true, "sc": hash31(fmt.Sprint(sc)), "f": ff, "ll": ll}
}

func ssSub(s gtab.Subtable) []obj {
	res := []obj{}
	one := func(g, out glyph.ID) {
		res = append(res, obj{"g": int(g), "alts": []obj{{"in": []int{}, "out": []int{int(out)}}}})
	}
	switch s := s.(type) {
	case *gtab.Gsub1_1:
		for _, g := range s.Cov.Glyphs() {
			one(g, g+s.Delta)
		}
	case *gtab.Gsub1_2:
		for _, g := range s.Cov.Glyphs() {
			if k := s.Cov[g]; k < len(s.SubstituteGlyphIDs) {
				one(g, s.SubstituteGlyphIDs[k])
			}
		}
	case *gtab.Gsub4_1:
		for _, g := range s.Cov.Glyphs() {
			alts := []obj{}
			if k := s.Cov[g]; k < len(s.Repl) {
				for _, x := range s.Repl[k] {
					alts = append(alts, obj{"in": nn(unGids(x.In)), "out": []int{int(x.Out)}})
				}
			}
			res = append(res, obj{"g": int(g), "alts": alts})
		}
	case gtab.Gpos2_1:
		var pp []glyph.Pair
		for p := range s {
			pp = append(pp, p)
		}
		sort.Slice(pp, func(i, j int) bool {
			return pp[i].Left < pp[j].Left || pp[i].Left == pp[j].Left && pp[i].Right < pp[j].Right
		})
		for i, p := range pp {
			if i == 0 || pp[i-1].Left != p.Left {
				res = append(res, obj{"g": int(p.Left), "alts": []obj{}})
			}
			e := res[len(res)-1]
			v := []int{}
			for _, r := range []*gtab.GposValueRecord{s[p].First, s[p].Second} {
				if r == nil {
					v = append(v, -99999)
				} else {
					v = append(v, int(r.XPlacement), int(r.YPlacement), int(r.XAdvance), int(r.YAdvance))
				}
			}
			e["alts"] = append(e["alts"].([]obj), obj{"in": []int{int(p.Right)}, "out": v})
		}
	case nil:
		res = append(res, obj{"g": -9, "alts": []obj{}})
	default:
		res = append(res, obj{"g": -8, "alts": []obj{}})
	}
	return res
}

func ssRun(c *vh.Case, f *sfnt.Font, list []int) {
	arg := gids(list)
	n := len(arg)
	// data behind the list belongs to the caller
	arg = append(arg, 0xFFF1, 0xFFF2, 0xFFF3)[:n]
	old := ssFont(f)
	before := mustJSON(old)
	var sub *sfnt.Font
	if msg := vh.Guard(func() { sub = f.Subset(arg) }); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg, "list": list, "old": old})
		return
	}
	rec := vh.Rec{"t": "subset", "list": list, "old": old, "new": ssFont(sub), "err": ""}
	rec["unchanged"] = mustJSON(ssFont(f)) == before && slices.Equal(arg[:n+3][n:], []glyph.ID{0xFFF1, 0xFFF2, 0xFFF3}) && slices.Equal(unGids(arg), list)
	var buf bytes.Buffer
	msg := vh.Guard(func() {
		_, err := sub.Write(&buf)
		var f2 *sfnt.Font
		if err == nil {
			f2, err = sfnt.Read(bytes.NewReader(buf.Bytes()))
		}
		if err != nil {
			rec["err"] = err.Error()
			return
		}
		rec["back"] = ssFont(f2)
	})
	if msg != "" {
		rec["err"] = msg
	}
	c.Emit(rec)
}

// ssOutlines checks (*cff.Outlines).Subset.
func ssOutlines(c *vh.Case, o *cff.Outlines, fm matrix.Matrix, list []int) {
	none := obj{"has": false, "sc": 0, "f": []int{}, "ll": []int{}}
	rep := func(o *cff.Outlines) obj {
		g, enc := ssCFF(o, fm)
		return obj{"g": g, "enc": enc, "cm": []int{}, "gs": none, "gp": none}
	}
	old := rep(o)
	before := mustJSON(old)
	var sub *cff.Outlines
	if msg := vh.Guard(func() { sub = o.Subset(gids(list)) }); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg, "list": list, "old": old})
		return
	}
	r := rep(sub)
	c.Emit(vh.Rec{"t": "subset", "list": list, "old": old, "new": r, "back": r, "err": "", "unchanged": before == mustJSON(rep(o))})
}

// uniqueWidths makes glyphs distinguishable.
func uniqueWidths(rng *rand.Rand, f *sfnt.Font) {
	p := rng.Perm(f.NumGlyphs())
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		for i := range o.Widths {
			o.Widths[i] = funit.Int16(5*p[i] + rng.IntN(5))
		}
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			g.Width = float64(5*p[i] + rng.IntN(5))
		}
	}
}

// ssList generates a list of different glyphs, starting with 0.
func ssList(rng *rand.Rand, n int) []int {
	k := rng.IntN(n)
	p := rng.Perm(n - 1)
	res := []int{0}
	switch rng.IntN(5) {
	case 0: // all glyphs
		k = n - 1
	case 1: // sorted
		p = p[:k]
		sort.Ints(p)
	case 2: // few
		k = min(k, 3)
	}
	for _, x := range p[:k] {
		res = append(res, x+1)
	}
	return res
}

// ssLayout adds layout tables of the supported kind.
func ssLayout(rng *rand.Rand, f *sfnt.Font) {
	n := f.NumGlyphs()
	if n < 2 {
		return
	}
	gid := func() int { return rng.IntN(n) }
	some := func(k int) []int {
		m := map[int]bool{}
		for ; k > 0; k-- {
			m[gid()] = true
		}
		var res []int
		for g := range m {
			res = append(res, g)
		}
		sort.Ints(res)
		return res
	}
	flags := func() gtab.LookupFlags {
		return []gtab.LookupFlags{0, 0, gtab.IgnoreMarks, gtab.RightToLeft, gtab.IgnoreLigatures}[rng.IntN(5)]
	}
	if rng.IntN(5) > 0 {
		var ll gtab.LookupList
		for k := rng.IntN(5); k >= 0; k-- {
			l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupFlags: flags()}}
			l.Meta.LookupType = []uint16{1, 4, 4}[rng.IntN(3)]
			for j := 1 + rng.IntN(3); j > 0; j-- {
				if l.Meta.LookupType == 1 {
					d := rng.IntN(n)
					if rng.IntN(2) == 0 {
						d = 1
					}
					var cov []int
					for _, g := range some(1 + rng.IntN(6)) {
						if g+d < n {
							cov = append(cov, g)
						}
					}
					delta := glyph.ID(d)
					if rng.IntN(2) == 0 { // downwards
						for i := range cov {
							cov[i] += d
						}
						delta = glyph.ID(65536 - d)
					}
					l.Subtables = append(l.Subtables, &gtab.Gsub1_1{Cov: covTable(cov).ToSet(), Delta: delta})
					continue
				}
				s := &gtab.Gsub4_1{Cov: coverage.Table{}}
				for i, g := range some(1 + rng.IntN(4)) {
					s.Cov[glyph.ID(g)] = i
					var ligs []gtab.Ligature
					for m := 1 + rng.IntN(3); m > 0; m-- {
						lig := gtab.Ligature{Out: glyph.ID(gid())}
						for q := rng.IntN(4); q > 0; q-- {
							lig.In = append(lig.In, glyph.ID(gid()))
						}
						ligs = append(ligs, lig)
					}
					s.Repl = append(s.Repl, ligs)
				}
				l.Subtables = append(l.Subtables, s)
			}
			ll = append(ll, l)
		}
		f.Gsub = infoWith(rng, ll)
	}
	if rng.IntN(5) > 0 {
		var ll gtab.LookupList
		for k := rng.IntN(3); k >= 0; k-- {
			l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 2, LookupFlags: flags()}}
			for j := 1 + rng.IntN(2); j > 0; j-- {
				s := gtab.Gpos2_1{}
				second := rng.IntN(3) == 0
				v := func() *gtab.GposValueRecord {
					return &gtab.GposValueRecord{XAdvance: funit.Int16(1 + rng.IntN(500) - 600*rng.IntN(2)), YPlacement: funit.Int16(1 + rng.IntN(9))}
				}
				for q := 1 + rng.IntN(12); q > 0; q-- {
					a := &gtab.PairAdjust{First: v()}
					if second {
						a.Second = v()
					}
					s[glyph.Pair{Left: glyph.ID(gid()), Right: glyph.ID(gid())}] = a
				}
				l.Subtables = append(l.Subtables, s)
			}
			ll = append(ll, l)
		}
		f.Gpos = infoWith(rng, ll)
	}
}

// moreCMaps adds subtables of other formats.
func moreCMaps(rng *rand.Rand, f *sfnt.Font) {
	n := f.NumGlyphs()
	if rng.IntN(3) > 0 || n < 2 {
		return
	}
	if f.CMapTable == nil {
		f.CMapTable = cmap.Table{}
	}
	g := func() int { return rng.IntN(n) }
	switch rng.IntN(4) {
	case 0: // trimmed table for the Mac
		var b byteBuf
		k := 1 + rng.IntN(40)
		first := rng.IntN(256 - k)
		b.u16(6, 10+2*k, 0, first, k)
		for i := 0; i < k; i++ {
			b.u16(g() * rng.IntN(2))
		}
		f.CMapTable[cmap.Key{PlatformID: 1}] = b
	case 1:
		f0 := &cmap.Format0{}
		for i := range f0.Data {
			f0.Data[i] = byte(rng.IntN(min(n, 256)))
		}
		lang := uint16(rng.IntN(3))
		f.CMapTable[cmap.Key{PlatformID: 1, Language: lang}] = f0.Encode(lang)
	case 2: // symbol font
		f4 := cmap.Format4{}
		for i := rng.IntN(30); i >= 0; i-- {
			f4[uint16(0xF020+rng.IntN(0xD0))] = glyph.ID(1 + rng.IntN(n-1))
		}
		f.CMapTable[cmap.Key{PlatformID: 3}] = f4.Encode(0)
	case 3:
		var b byteBuf
		k := 1 + rng.IntN(40)
		b.u16(6, 10+2*k, 0, rng.IntN(60000), k)
		for i := 0; i < k; i++ {
			b.u16(g() * rng.IntN(2))
		}
		f.CMapTable[cmap.Key{PlatformID: 0, EncodingID: 3}] = b
	}
}

func ssMany(c *vh.Case, f *sfnt.Font, k int) {
	for ; k > 0; k-- {
		list := ssList(c.Rng, f.NumGlyphs())
		if o, ok := f.Outlines.(*cff.Outlines); ok && c.Rng.IntN(3) == 0 {
			ssOutlines(c, o, f.FontMatrix, list)
		}
		ssRun(c, f, list)
	}
}

func c10Families(env *vh.Env) []vh.Family {
	var raw [][]byte
	for _, x := range env.TLCCases("subset.ndjson") {
		raw = append(raw, tlcUnquote(x))
	}
	sort.Slice(raw, func(i, j int) bool { return bytes.Compare(raw[i], raw[j]) < 0 })

	font := func(c *vh.Case, o fopt) *sfnt.Font {
		o.integer = true
		f := genFont(c.Rng, o)
		uniqueWidths(c.Rng, f)
		return f
	}
	return []vh.Family{
		// the cases of the model, as TrueType and CFF fonts
		{Name: "model", Quick: min(len(raw), 700), Thor: len(raw), MaxSec: 60, Run: func(c *vh.Case) {
			k := c.Idx
			if env.Tier != "thorough" {
				k = (c.Idx*9 + int(env.Seed)*5) % len(raw)
			}
			var t struct {
				List  []int
				Comps [][]int
				Pairs [][3]int
				LL    []struct {
					T    int
					Subs [][]struct {
						G    int
						Alts []struct{ In, Out []int }
					}
				}
			}
			if err := json.Unmarshal(raw[k], &t); err != nil {
				c.Emit(vh.Rec{"t": "panic", "msg": err.Error()})
				return
			}
			n := len(t.Comps)
			f := font(c, fopt{kind: []string{"ttf", "ttf", "cff", "cid"}[c.Rng.IntN(4)], n: n, cmap: "4"})
			if o, ok := f.Outlines.(*glyf.Outlines); ok {
				for i, cc := range t.Comps {
					if len(cc) > 0 {
						var comps []glyf.GlyphComponent
						for j, x := range cc {
							fl := glyf.FlagArgsAreXYValues | glyf.FlagMoreComponents
							if j == len(cc)-1 {
								fl = glyf.FlagArgsAreXYValues
							}
							comps = append(comps, glyf.GlyphComponent{Flags: fl, GlyphIndex: glyph.ID(x), Data: []byte{byte(c.Rng.IntN(100)), byte(j)}})
						}
						o.Glyphs[i] = &glyf.Glyph{Rect16: randBBox(c.Rng), Data: glyf.CompositeGlyph{Components: comps}}
					} else {
						o.Glyphs[i] = randSimple(c.Rng, 2, 4, 500, 0)
					}
				}
			}
			var ll gtab.LookupList
			for _, l := range t.LL {
				x := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(l.T)}}
				for _, s := range l.Subs {
					sort.Slice(s, func(i, j int) bool { return s[i].G < s[j].G })
					if l.T == 1 {
						st := &gtab.Gsub1_1{Cov: coverage.Set{}}
						for _, e := range s {
							st.Cov[glyph.ID(e.G)] = true
							st.Delta = glyph.ID(e.Alts[0].Out[0] - e.G)
						}
						x.Subtables = append(x.Subtables, st)
						continue
					}
					st := &gtab.Gsub4_1{Cov: coverage.Table{}}
					for i, e := range s {
						st.Cov[glyph.ID(e.G)] = i
						var ligs []gtab.Ligature
						for _, a := range e.Alts {
							ligs = append(ligs, gtab.Ligature{In: gids(a.In), Out: glyph.ID(a.Out[0])})
						}
						st.Repl = append(st.Repl, ligs)
					}
					x.Subtables = append(x.Subtables, st)
				}
				ll = append(ll, x)
			}
			if len(ll) > 0 {
				f.Gsub = infoWith(c.Rng, ll)
			}
			if len(t.Pairs) > 0 {
				st := gtab.Gpos2_1{}
				for _, p := range t.Pairs {
					st[glyph.Pair{Left: glyph.ID(p[0]), Right: glyph.ID(p[1])}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(p[2])}}
				}
				f.Gpos = infoWith(c.Rng, gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 2}, Subtables: []gtab.Subtable{st}}})
			}
			ssRun(c, f, t.List)
		}},
		{Name: "ttf", Quick: 150, Thor: 3000, Run: func(c *vh.Case) {
			f := font(c, fopt{kind: "ttf"})
			ssLayout(c.Rng, f)
			moreCMaps(c.Rng, f)
			ssMany(c, f, 2)
		}},
		// deeply nested composites
		{Name: "nest", Quick: 60, Thor: 1000, Run: func(c *vh.Case) {
			n := 5 + c.Rng.IntN(25)
			f := font(c, fopt{kind: "ttf", n: n})
			o := f.Outlines.(*glyf.Outlines)
			p := c.Rng.Perm(n) // components come earlier in p
			for i := 1; i < n; i++ {
				if c.Rng.IntN(4) == 0 {
					continue
				}
				pool := p[max(0, i-3):i]
				o.Glyphs[p[i]] = randComposite(c.Rng, pool, 3, true)
			}
			if c.Rng.IntN(3) == 0 {
				ssLayout(c.Rng, f)
			}
			ssMany(c, f, 3)
		}},
		{Name: "cff", Quick: 120, Thor: 3000, Run: func(c *vh.Case) {
			f := font(c, fopt{kind: "cff"})
			ssLayout(c.Rng, f)
			moreCMaps(c.Rng, f)
			ssMany(c, f, 2)
		}},
		{Name: "cid", Quick: 120, Thor: 3000, Run: func(c *vh.Case) {
			o := fopt{kind: "cid"}
			if c.Rng.IntN(4) == 0 {
				o.n = 20 + c.Rng.IntN(40)
			}
			f := font(c, o)
			ssLayout(c.Rng, f)
			moreCMaps(c.Rng, f)
			ssMany(c, f, 2)
		}},
		// fonts from files
		{Name: "file", Quick: 30, Thor: 400, Run: func(c *vh.Case) {
			f := font(c, fopt{})
			ssLayout(c.Rng, f)
			var buf bytes.Buffer
			if _, err := f.Write(&buf); err != nil {
				return
			}
			f2, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
			if err != nil {
				return
			}
			ssMany(c, f2, 2)
		}},
		// many characters in random order
		{Name: "huge", Quick: 1, Thor: 6, Run: func(c *vh.Case) {
			n := 33000 + c.Rng.IntN(3000)
			o := &glyf.Outlines{Tables: map[string][]byte{}}
			f := font(c, fopt{kind: "ttf", n: 2})
			o.Maxp = f.Outlines.(*glyf.Outlines).Maxp
			f4 := cmap.Format4{}
			for i := 0; i < n; i++ {
				o.Glyphs = append(o.Glyphs, nil)
				o.Widths = append(o.Widths, funit.Int16(i&0x7FFF))
				if i > 0 {
					f4[uint16(i+100)] = glyph.ID(i)
				}
			}
			f.Outlines = o
			f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: f4.Encode(0)}
			list := append([]int{0}, c.Rng.Perm(n - 1)...)
			for i := 1; i < n; i++ {
				list[i]++
			}
			sub := f.Subset(gids(list))
			// check a sample of the characters
			rec := vh.Rec{"t": "huge", "err": "", "n": len(sub.Outlines.(*glyf.Outlines).Glyphs), "want": n, "bad": 0}
			var buf bytes.Buffer
			msg := vh.Guard(func() {
				if _, err := sub.Write(&buf); err != nil {
					panic(err)
				}
				f2, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
				if err != nil {
					panic(err)
				}
				m, err := f2.CMapTable.GetBest()
				if err != nil {
					panic(err)
				}
				bad := 0
				for i := 1; i < n; i++ {
					if m.Lookup(rune(list[i]+100)) != glyph.ID(i) {
						bad++
					}
				}
				rec["bad"] = bad
			})
			rec["err"] = msg
			c.Emit(rec)
		}},
	}
}


func composite(g *glyf.Glyph) (glyf.CompositeGlyph, bool) {
	if g == nil {
		return glyf.CompositeGlyph{}, false
	}
	c, ok := g.Data.(glyf.CompositeGlyph)
	return c, ok
}
