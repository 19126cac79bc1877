package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"vharness/vh"
)

// unimplemented reports whether the value contains positioning data which the
// library declares unimplemented.
func unimplemented(v reflect.Value, depth int) bool {
	if depth > 12 || !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return false
		}
		if _, ok := v.Interface().(*gtab.Gpos5_1); ok {
			return true
		}
		if vr, ok := v.Interface().(*gtab.GposValueRecord); ok {
			return vr.YAdvance != 0 || vr.XPlacementDevOffs != 0 || vr.YPlacementDevOffs != 0 || vr.XAdvanceDevOffs != 0 || vr.YAdvanceDevOffs != 0
		}
		return unimplemented(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && unimplemented(v.Field(i), depth+1) {
				return true
			}
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Uint16, reflect.Uint8, reflect.Int16, reflect.Int:
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if unimplemented(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Map:
		if k := v.Type().Elem().Kind(); k != reflect.Pointer {
			return false
		}
		it := v.MapRange()
		for it.Next() {
			if unimplemented(it.Value(), depth+1) {
				return true
			}
		}
	}
	return false
}

// gtSummary describes what the tables can do to the length of a sequence.
func gtSummary(ll gtab.LookupList, nlk int) map[string]any {
	rep, ctx, lig, del := 1, false, false, false
	for _, l := range ll {
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.Gsub2_1:
				for _, r := range s.Repl {
					rep = max(rep, len(r))
					del = del || len(r) == 0
				}
			case *gtab.Gsub4_1:
				for _, ls := range s.Repl {
					for _, x := range ls {
						lig = lig || len(x.In) > 0
					}
				}
			case *gtab.SeqContext1, *gtab.SeqContext2, *gtab.SeqContext3, *gtab.ChainedSeqContext1, *gtab.ChainedSeqContext2, *gtab.ChainedSeqContext3:
				ctx = true
			}
		}
	}
	return map[string]any{"n": nlk, "rep": rep, "ctx": ctx, "lig": lig, "del": del}
}

// growth estimates how many glyphs one input glyph can turn into.
func growth(sum map[string]any) float64 {
	rep := float64(sum["rep"].(int))
	f := rep
	if sum["ctx"].(bool) {
		f = 1 + 64*(rep-1)
	}
	g := 1.0
	for i := 0; i < sum["n"].(int); i++ {
		g *= f
	}
	return g
}

// session records a history of calls.
type session struct {
	c     *vh.Case
	fam   string
	sum   map[string]any
	calls []any
	keys  map[string]int
	size  int
	stop  bool
}

func texts(seq []glyph.Info) [][]int {
	res := make([][]int, len(seq))
	for i, g := range seq {
		t := make([]int, len(g.Text))
		for j, r := range g.Text {
			t[j] = int(r)
		}
		res[i] = t
	}
	return res
}

func flat(seq []glyph.Info) []int {
	res := make([]int, 0, 5*len(seq))
	for _, g := range seq {
		res = append(res, int(g.GID), int(g.XOffset), int(g.YOffset), int(g.Advance), len(g.Text))
		for _, r := range g.Text {
			res = append(res, int(r))
		}
	}
	return res
}

func (s *session) call(name string, key string, in [][]int, f func() []glyph.Info) {
	if s.stop {
		return
	}
	st := "ok"
	msg := ""
	var out []glyph.Info
	done := make(chan struct{})
	go func() {
		defer close(done)
		msg = vh.Guard(func() { out = f() })
	}()
	select {
	case <-done:
		if msg != "" {
			st = "panic"
		}
	case <-time.After(10 * time.Second):
		st = "does not terminate"
		out = nil
		s.stop = true
	}
	k, ok := s.keys[key]
	if !ok {
		k = len(s.keys)
		s.keys[key] = k
	}
	if st != "ok" {
		out = nil
	}
	s.size += len(out)
	if s.size > 12000 {
		s.c.Mark("%s: large output not recorded", s.fam)
		return
	}
	rec := map[string]any{"ctx": name, "st": st, "key": k, "it": in, "ot": texts(out), "out": flat(out)}
	if msg != "" {
		rec["msg"] = msg
	}
	s.calls = append(s.calls, rec)
}

func newSession(c *vh.Case, fam string, sum map[string]any) *session {
	return &session{c: c, fam: fam, sum: sum, keys: map[string]int{}}
}

func (s *session) emit(extra vh.Rec) {
	rec := vh.Rec{"fam": s.fam, "sum": s.sum, "calls": s.calls}
	for k, v := range extra {
		rec[k] = v
	}
	s.c.Emit(rec)
}

// randInput generates a sequence with pairwise different characters; the
// texts of the glyphs may be parts of one array.
func randInput(rng *rand.Rand, gid func() int, n int, gpos bool) []glyph.Info {
	shared := rng.IntN(2) == 0
	back := make([]rune, 0, 3*n+8)
	res := make([]glyph.Info, n)
	r := rune('a')
	for i := range res {
		k := []int{1, 1, 1, 1, 1, 0, 2, 3}[rng.IntN(8)]
		a := len(back)
		for ; k > 0; k-- {
			back = append(back, r)
			r++
		}
		t := back[a:]
		if !shared {
			t = slices.Clone(t)
		}
		res[i] = glyph.Info{GID: glyph.ID(gid()), Text: t}
		if gpos && rng.IntN(3) > 0 {
			res[i].Advance = funit.Int16(rng.IntN(1000))
			res[i].XOffset = funit.Int16(rng.IntN(100) - 50)
		}
	}
	return res
}

func cloneSeq(rng *rand.Rand, seq []glyph.Info) []glyph.Info {
	res := make([]glyph.Info, len(seq), len(seq)+rng.IntN(4))
	copy(res, seq)
	if rng.IntN(2) == 0 {
		for i := range res {
			res[i].Text = slices.Clone(res[i].Text)
		}
	}
	return res
}

// runSession makes a random history of calls on the tables.
func runSession(c *vh.Case, fam string, ll gtab.LookupList, gd *gdef.Table, lk []gtab.LookupIndex, gid func() int, gpos bool, maxLen int, extra vh.Rec) {
	rng := c.Rng
	if unimplemented(reflect.ValueOf(ll), 0) {
		c.Mark("%s: unimplemented positioning data", fam)
		return
	}
	sum := gtSummary(ll, len(lk))
	if g := growth(sum); g*float64(maxLen) > 400000 {
		maxLen = int(400000 / g)
		if maxLen < 1 {
			c.Mark("%s: too much growth", fam)
			return
		}
	}
	s := newSession(c, fam, sum)
	var ins [][]glyph.Info
	nIn := 1 + rng.IntN(3)
	for i := 0; i < nIn; i++ {
		n := rng.IntN(9)
		if rng.IntN(4) == 0 {
			n = rng.IntN(201)
		}
		ins = append(ins, randInput(rng, gid, min(n, maxLen), gpos))
	}
	reused := gtab.NewContext(ll, gd, lk)
	nCalls := 2 + rng.IntN(4)
	for i := 0; i < nCalls; i++ {
		k := rng.IntN(nIn)
		in := cloneSeq(rng, ins[k])
		ctx, name := reused, "reused"
		if rng.IntN(3) == 0 {
			ctx, name = gtab.NewContext(ll, gd, lk), "fresh"
		}
		s.call(name, fmt.Sprint(k), texts(ins[k]), func() []glyph.Info { return ctx.Apply(in) })
	}
	for k := range ins {
		in := cloneSeq(rng, ins[k])
		s.call("fresh", fmt.Sprint(k), texts(ins[k]), func() []glyph.Info { return gtab.NewContext(ll, gd, lk).Apply(in) })
	}
	c.Mark("%s: calls=%d", fam, len(s.calls))
	c.Mark("%s: ctx=%v lig=%v growing=%v", fam, sum["ctx"], sum["lig"], sum["rep"].(int) > 1)
	s.emit(extra)
}

// spread replaces the glyph ids 1..ng by arbitrary increasing ones.
func (t *shTables) remap(m func(int) int) {
	list := func(x []int) {
		for i := range x {
			x[i] = m(x[i])
		}
	}
	cls := func(x [][2]int) {
		for i := range x {
			x[i][0] = m(x[i][0])
		}
	}
	raw := func(k string, x []json.RawMessage) {
		switch k {
		case "ctx1":
			v := rawInts(x)
			list(v)
			copy(x, raws(v))
		case "ctx3":
			for i := range x {
				var v []int
				json.Unmarshal(x[i], &v)
				list(v)
				x[i] = raws([][]int{v})[0]
			}
		}
	}
	for i := range t.LL {
		for j := range t.LL[i].Subs {
			s := &t.LL[i].Subs[j]
			list(s.Cov)
			list(s.Sub)
			for _, r := range s.Rep {
				list(r)
			}
			for _, ls := range s.Ligs {
				for k := range ls {
					list(ls[k].Inp)
					ls[k].Out = m(ls[k].Out)
				}
			}
			for _, b := range s.Back {
				list(b)
			}
			for _, b := range s.Look {
				list(b)
			}
			for _, rr := range s.Rules {
				for k := range rr {
					raw(s.K, rr[k].Inp)
					raw(s.K, rr[k].Back)
					raw(s.K, rr[k].Look)
				}
			}
			cls(s.CDs.Inp)
			cls(s.CDs.Back)
			cls(s.CDs.Look)
			for k := range s.Pairs {
				s.Pairs[k].L, s.Pairs[k].R = m(s.Pairs[k].L), m(s.Pairs[k].R)
			}
			cls(s.C1)
			cls(s.C2)
			list(s.Mcov)
			list(s.Bcov)
		}
	}
	cls(t.GD.Cls)
	cls(t.GD.Mac)
	for _, s := range t.GD.Sets {
		list(s)
	}
}

// spreadMap returns a monotone map from 1..ng into the glyph ids.
func spreadMap(rng *rand.Rand, ng int) []int {
	seen := map[int]bool{}
	var res []int
	for len(res) < ng {
		g := rng.IntN(65536)
		switch rng.IntN(8) {
		case 0:
			g = 0
		case 1:
			g = 65535
		case 2:
			g = 255 + rng.IntN(3)
		}
		if !seen[g] {
			seen[g] = true
			res = append(res, g)
		}
	}
	slices.Sort(res)
	return res
}

func wildTables(rng *rand.Rand, gpos bool, deep bool) (*shTables, func() int) {
	g := &shGen{rng: rng, gpos: gpos, ng: 2 + rng.IntN(6), nl: 1 + rng.IntN(6), span: 60, back: rng.IntN(4) == 0, wild: true, deep: deep}
	if rng.IntN(6) == 0 {
		g.span = 20000
	}
	t := g.tables()
	gid := g.gid
	if rng.IntN(2) == 0 {
		m := spreadMap(rng, g.ng)
		t.remap(func(i int) int { return m[i-1] })
		gid = func() int {
			if rng.IntN(12) == 0 {
				return rng.IntN(65536)
			}
			return m[rng.IntN(len(m))]
		}
	}
	return t, gid
}

// mutateBytes applies a few random changes.
func mutateBytes(rng *rand.Rand, data []byte) []byte {
	data = slices.Clone(data)
	if len(data) < 4 {
		return data
	}
	for k := 1 + rng.IntN(6); k > 0; k-- {
		i := rng.IntN(len(data))
		switch rng.IntN(7) {
		case 0:
			data[i] = byte(rng.IntN(256))
		case 1:
			data[i] ^= 1 << rng.IntN(8)
		case 2:
			data[i] += byte(1 + rng.IntN(3))
		case 3:
			data[i] -= byte(1 + rng.IntN(3))
		case 4:
			i = min(i, len(data)-2)
			copy(data[i:], [][]byte{{0, 0}, {255, 255}, {0, 1}, {0, 2}, {0, 10}, {1, 0}}[rng.IntN(6)])
		case 5:
			i = min(i, len(data)-2)
			j := rng.IntN(len(data) - 1)
			copy(data[i:i+2], data[j:j+2])
		case 6:
			if rng.IntN(4) == 0 {
				data = data[:len(data)-rng.IntN(min(20, len(data)-4)+1)]
			}
		}
	}
	return data
}

func c07Families(env *vh.Env) []vh.Family {
	wild := func(fam string, gpos, deep bool) func(c *vh.Case) {
		return func(c *vh.Case) {
			t, gid := wildTables(c.Rng, gpos, deep)
			ll, gd, lk := t.toGtab()
			runSession(c, fam, ll, gd, lk, gid, gpos, 200, vh.Rec{"tables": t})
		}
	}
	bytesFam := func(c *vh.Case) {
		rng := c.Rng
		gpos := rng.IntN(2) == 0
		t, gid := wildTables(rng, gpos, rng.IntN(3) == 0)
		ll, gd, _ := t.toGtab()
		info := &gtab.Info{LookupList: ll, ScriptList: gtab.ScriptListInfo{language.English: &gtab.Features{Required: 0}}, FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{0}}}}
		var data, gdata []byte
		if vh.Guard(func() { data = info.Encode() }) != "" {
			c.Mark("bytes: cannot encode")
			return
		}
		if gd != nil && vh.Guard(func() { gdata = gd.Encode() }) != "" {
			c.Mark("bytes: cannot encode GDEF")
			return
		}
		tp := gtab.Type(gtab.TypeGsub)
		if gpos {
			tp = gtab.TypeGpos
		}
		for k := 0; k < 6; k++ {
			d := data
			if k > 0 {
				// leave the headers alone most of the time
				d = mutateBytes(rng, data)
				if rng.IntN(8) > 0 {
					copy(d, data[:min(10, len(d))])
				}
			}
			var got *gtab.Info
			var err error
			if msg := vh.Guard(func() { got, err = gtab.Read(bytes.NewReader(d), tp) }); msg != "" || err != nil {
				c.Mark("bytes: rejected")
				continue
			}
			c.Mark("bytes: accepted")
			g2 := gd
			if gd != nil && rng.IntN(3) == 0 {
				e := mutateBytes(rng, gdata)
				if vh.Guard(func() { g2, err = gdef.Read(bytes.NewReader(e)) }) != "" || err != nil {
					g2 = gd
				}
			}
			var lk []gtab.LookupIndex
			for i := range got.LookupList {
				if rng.IntN(2) == 0 {
					lk = append(lk, gtab.LookupIndex(i))
				}
			}
			if len(lk) > 6 {
				lk = lk[:6]
			}
			runSession(c, "bytes", got.LookupList, g2, lk, gid, gpos, 200, vh.Rec{"data": fmt.Sprintf("%x", d)})
		}
	}
	fontFam := func(c *vh.Case) {
		rng := c.Rng
		fonts := corpus()
		if len(fonts) == 0 {
			return
		}
		f := fonts[rng.IntN(len(fonts))]
		info, gpos := f.font.Gsub, false
		if rng.IntN(2) == 0 {
			info, gpos = f.font.Gpos, true
		}
		if info == nil {
			return
		}
		var lk []gtab.LookupIndex
		for i := range info.LookupList {
			if rng.IntN(3) == 0 {
				lk = append(lk, gtab.LookupIndex(i))
			}
		}
		// glyphs which occur in the tables
		cm, err := f.font.CMapTable.GetBest()
		if err != nil {
			return
		}
		gid := func() int {
			if rng.IntN(3) == 0 {
				return rng.IntN(f.font.NumGlyphs() + 5)
			}
			s := []rune(fontTexts[rng.IntN(len(fontTexts))])
			return int(cm.Lookup(s[rng.IntN(len(s))]))
		}
		runSession(c, "font", info.LookupList, f.font.Gdef, lk, gid, gpos, 200, vh.Rec{"font": f.name})
	}
	layouter := func(c *vh.Case) {
		rng := c.Rng
		fonts := corpus()
		if len(fonts) == 0 {
			return
		}
		cf := fonts[rng.IntN(len(fonts))]
		var f *sfnt.Font = cf.font
		sum := map[string]any{"n": 1, "rep": 1 << 20, "ctx": true, "lig": true, "del": true}
		var alphabet []rune
		for _, s := range fontTexts {
			alphabet = append(alphabet, []rune(s)...)
		}
		extra := vh.Rec{"font": cf.name}
		if rng.IntN(3) > 0 {
			// random tables over the glyphs of the first few letters
			cm, err := f.CMapTable.GetBest()
			if err != nil {
				return
			}
			f = f.Clone()
			m := []int{}
			alphabet = []rune("abcdefgh ")
			for _, r := range alphabet[:6] {
				m = append(m, int(cm.Lookup(r)))
			}
			slices.Sort(m)
			m = slices.Compact(m)
			// replacement glyphs outside the font
			m = append(m, f.NumGlyphs()+rng.IntN(3), 65535)
			ranges := func(i int) int { return m[i-1] }
			feat := func(t *shTables) *gtab.Info {
				ll, _, lk := t.toGtab()
				// the features refer to lookups which exist
				lk = slices.DeleteFunc(lk, func(i gtab.LookupIndex) bool { return int(i) >= len(ll) })
				tag := "liga"
				if t.gpos() {
					tag = "kern"
				}
				return &gtab.Info{LookupList: ll, ScriptList: gtab.ScriptListInfo{language.MustParse("und-Latn"): &gtab.Features{Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
					FeatureList: gtab.FeatureListInfo{{Tag: tag, Lookups: lk}}}
			}
			g := &shGen{rng: rng, ng: len(m), nl: 1 + rng.IntN(4), span: 60, wild: true, deep: rng.IntN(3) == 0}
			t := g.tables()
			t.remap(ranges)
			f.Gsub = feat(t)
			f.Gdef = t.GD.toGtab()
			extra["gsub"] = t
			g.gpos = true
			p := g.tables()
			p.remap(ranges)
			f.Gpos = feat(p)
			extra["gpos"] = p
			if gr := growth(gtSummary(f.Gsub.LookupList, g.nl)); gr > 3000 {
				return
			}
		}
		if f.Gpos != nil && unimplemented(reflect.ValueOf(f.Gpos.LookupList), 0) {
			return
		}
		lang := []language.Tag{language.English, language.Arabic, language.Und, language.Turkish}[rng.IntN(4)]
		var gsubF, gposF map[string]bool
		if rng.IntN(3) == 0 {
			gsubF = map[string]bool{"liga": true, "ccmp": true, "calt": true, "dlig": true, "smcp": true, "salt": true}
		}
		mk := func() *sfnt.Layouter {
			l, err := f.NewLayouter(lang, gsubF, gposF)
			if err != nil {
				return nil
			}
			return l
		}
		reused := mk()
		if reused == nil {
			return
		}
		s := newSession(c, "layouter", sum)
		var ins []string
		for i := 1 + rng.IntN(3); i > 0; i-- {
			n := rng.IntN(10)
			if rng.IntN(5) == 0 {
				n = rng.IntN(60)
			}
			r := make([]rune, n)
			for j := range r {
				r[j] = alphabet[rng.IntN(len(alphabet))]
				if rng.IntN(20) == 0 {
					r[j] = rune(rng.IntN(0x3000))
				}
			}
			str := string(r)
			if rng.IntN(8) == 0 {
				str += "\xff\xc3a"
			}
			ins = append(ins, str)
		}
		do := func(name string, l *sfnt.Layouter, str string) {
			it := [][]int{}
			for _, r := range str {
				it = append(it, []int{int(r)})
			}
			s.call(name, str, it, func() []glyph.Info { return l.Layout(str) })
		}
		for i := 2 + rng.IntN(4); i > 0; i-- {
			str := ins[rng.IntN(len(ins))]
			if rng.IntN(3) == 0 {
				do("fresh", mk(), str)
			} else {
				do("reused", reused, str)
			}
		}
		for _, str := range ins {
			do("fresh", mk(), str)
			do("reused", reused, str)
		}
		c.Mark("layouter %s", cf.name)
		s.emit(extra)
	}
	tlc := env.TLCCases("session.ndjson")
	return []vh.Family{
		{Name: "gsub", Quick: 3000, Thor: 60000, Run: wild("gsub", false, false)},
		{Name: "gpos", Quick: 2000, Thor: 30000, Run: wild("gpos", true, false)},
		{Name: "deep", Quick: 3000, Thor: 60000, Run: wild("deep", false, true)},
		{Name: "deepgpos", Quick: 500, Thor: 8000, Run: wild("deepgpos", true, true)},
		{Name: "bytes", Quick: 2500, Thor: 60000, Run: bytesFam},
		{Name: "font", Quick: 300, Thor: 5000, Run: fontFam},
		{Name: "layouter", Quick: 700, Thor: 10000, Run: layouter},
		{Name: "tlc", Quick: (len(tlc) + 19) / 20, Thor: (len(tlc) + 19) / 20, Run: func(c *vh.Case) {
			for i := c.Idx * 20; i < min(len(tlc), c.Idx*20+20); i++ {
				var sc struct {
					shTables
					Ins [][]shGlyph `json:"ins"`
				}
				if err := json.Unmarshal(tlcUnquote(tlc[i]), &sc); err != nil {
					panic("bad TLC case: " + err.Error())
				}
				ll, gd, lk := sc.toGtab()
				s := newSession(c, "tlc", gtSummary(ll, len(lk)))
				ctx := gtab.NewContext(ll, gd, lk)
				for _, in := range sc.Ins {
					seq := toSeq(in)
					s.call("reused", fmt.Sprint(in), texts(seq), func() []glyph.Info { return ctx.Apply(seq) })
				}
				for _, in := range sc.Ins {
					seq := toSeq(in)
					s.call("fresh", fmt.Sprint(in), texts(seq), func() []glyph.Info { return gtab.NewContext(ll, gd, lk).Apply(seq) })
				}
				s.emit(vh.Rec{"tables": sc.shTables})
			}
		}},
	}
}
