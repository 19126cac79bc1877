package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"vharness/vh"
)

// The notation for lookups.

func gidInts(gg []glyph.ID) []int {
	res := make([]int, len(gg))
	for i, g := range gg {
		res[i] = int(g)
	}
	return res
}

func covInts(cov coverage.Table) []int {
	res := make([]int, len(cov))
	for i := range res {
		res[i] = -1
	}
	for g, i := range cov {
		res[i] = int(g)
	}
	return res
}

func setInts(s coverage.Set) []int {
	res := make([]int, 0, len(s))
	for g := range s {
		res = append(res, int(g))
	}
	sort.Ints(res)
	return res
}

func u16Ints(s []uint16) []int {
	res := make([]int, len(s))
	for i, x := range s {
		res[i] = int(x)
	}
	return res
}

func clsInts(c classdef.Table) [][2]int {
	res := make([][2]int, 0, len(c))
	for g, k := range c {
		if k != 0 {
			res = append(res, [2]int{int(g), int(k)})
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func actInts(a []gtab.SeqLookup) [][2]int {
	res := make([][2]int, 0, len(a))
	for _, x := range a {
		res = append(res, [2]int{int(x.LookupListIndex), int(x.SequenceIndex)})
	}
	return res
}

func valInts(v *gtab.GposValueRecord) []int {
	if v == nil {
		return []int{}
	}
	if v.YAdvance != 0 {
		return []int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance), int(v.YAdvance)}
	}
	return []int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance)}
}

func ntPairAdj(p *gtab.PairAdjust) [][]int {
	return [][]int{valInts(p.First), valInts(p.Second)}
}

func ntSets(ss []coverage.Set) [][]int {
	res := make([][]int, 0, len(ss))
	for _, s := range ss {
		res = append(res, setInts(s))
	}
	return res
}

// ntDump converts lookups to the representation used by the specification.
func ntDump(ll gtab.LookupList) []vh.Rec {
	res := []vh.Rec{}
	for _, l := range ll {
		subs := []vh.Rec{}
		for _, s := range l.Subtables {
			subs = append(subs, ntSub(s))
		}
		res = append(res, vh.Rec{"t": int(l.Meta.LookupType), "fl": int(l.Meta.LookupFlags), "subs": subs})
	}
	return res
}

func ntSub(s gtab.Subtable) vh.Rec {
	type A = []vh.Rec
	switch s := s.(type) {
	case *gtab.Gsub1_1:
		return vh.Rec{"t": "s11", "cov": setInts(s.Cov), "d": int(s.Delta)}
	case *gtab.Gsub1_2:
		return vh.Rec{"t": "s12", "cov": covInts(s.Cov), "sub": gidInts(s.SubstituteGlyphIDs)}
	case *gtab.Gsub2_1:
		rep := [][]int{}
		for _, r := range s.Repl {
			rep = append(rep, gidInts(r))
		}
		return vh.Rec{"t": "s21", "cov": covInts(s.Cov), "rep": rep}
	case *gtab.Gsub3_1:
		rep := [][]int{}
		for _, r := range s.Alternates {
			rep = append(rep, gidInts(r))
		}
		return vh.Rec{"t": "s31", "cov": covInts(s.Cov), "alt": rep}
	case *gtab.Gsub4_1:
		ligs := []A{}
		for _, r := range s.Repl {
			row := A{}
			for _, l := range r {
				row = append(row, vh.Rec{"inp": gidInts(l.In), "out": int(l.Out)})
			}
			ligs = append(ligs, row)
		}
		return vh.Rec{"t": "s41", "cov": covInts(s.Cov), "lig": ligs}
	case *gtab.Gpos1_1:
		return vh.Rec{"t": "p11", "cov": covInts(s.Cov), "v": valInts(s.Adjust)}
	case *gtab.Gpos1_2:
		vv := [][]int{}
		for _, v := range s.Adjust {
			vv = append(vv, valInts(v))
		}
		return vh.Rec{"t": "p12", "cov": covInts(s.Cov), "vv": vv}
	case gtab.Gpos2_1:
		pp := A{}
		for k, v := range s {
			p := ntPairAdj(v)
			pp = append(pp, vh.Rec{"l": int(k.Left), "r": int(k.Right), "a": p[0], "b": p[1]})
		}
		sort.Slice(pp, func(i, j int) bool {
			if pp[i]["l"] != pp[j]["l"] {
				return pp[i]["l"].(int) < pp[j]["l"].(int)
			}
			return pp[i]["r"].(int) < pp[j]["r"].(int)
		})
		return vh.Rec{"t": "p21", "pairs": pp}
	case *gtab.Gpos2_2:
		adj := [][][][]int{}
		for _, row := range s.Adjust {
			r := [][][]int{}
			for _, p := range row {
				r = append(r, ntPairAdj(p))
			}
			adj = append(adj, r)
		}
		return vh.Rec{"t": "p22", "cov": setInts(s.Cov), "c1": clsInts(s.Class1), "c2": clsInts(s.Class2), "adj": adj}
	case *gtab.Gpos3_1:
		rec := [][]int{}
		for _, r := range s.Records {
			rec = append(rec, []int{int(r.Entry.X), int(r.Entry.Y), int(r.Exit.X), int(r.Exit.Y)})
		}
		return vh.Rec{"t": "p31", "cov": covInts(s.Cov), "rec": rec}
	case *gtab.Gpos4_1:
		marks := [][]int{}
		for _, m := range s.MarkArray {
			marks = append(marks, []int{int(m.Class), int(m.X), int(m.Y)})
		}
		bases := [][][]int{}
		for _, b := range s.BaseArray {
			row := [][]int{}
			for _, a := range b {
				row = append(row, []int{int(a.X), int(a.Y)})
			}
			bases = append(bases, row)
		}
		return vh.Rec{"t": "p41", "mcov": covInts(s.MarkCov), "marks": marks, "bcov": covInts(s.BaseCov), "bases": bases}
	case *gtab.SeqContext1:
		rules := []A{}
		for _, rr := range s.Rules {
			row := A{}
			for _, r := range rr {
				row = append(row, vh.Rec{"inp": gidInts(r.Input), "act": actInts(r.Actions)})
			}
			rules = append(rules, row)
		}
		return vh.Rec{"t": "c1", "cov": covInts(s.Cov), "rules": rules}
	case *gtab.SeqContext2:
		rules := []A{}
		for _, rr := range s.Rules {
			row := A{}
			for _, r := range rr {
				row = append(row, vh.Rec{"inp": u16Ints(r.Input), "act": actInts(r.Actions)})
			}
			rules = append(rules, row)
		}
		return vh.Rec{"t": "c2", "cov": covInts(s.Cov), "cls": clsInts(s.Input), "rules": rules}
	case *gtab.SeqContext3:
		return vh.Rec{"t": "c3", "inp": ntSets(s.Input), "act": actInts(s.Actions)}
	case *gtab.ChainedSeqContext1:
		rules := []A{}
		for _, rr := range s.Rules {
			row := A{}
			for _, r := range rr {
				row = append(row, vh.Rec{"bt": gidInts(r.Backtrack), "inp": gidInts(r.Input), "la": gidInts(r.Lookahead), "act": actInts(r.Actions)})
			}
			rules = append(rules, row)
		}
		return vh.Rec{"t": "h1", "cov": covInts(s.Cov), "rules": rules}
	case *gtab.ChainedSeqContext2:
		rules := []A{}
		for _, rr := range s.Rules {
			row := A{}
			for _, r := range rr {
				row = append(row, vh.Rec{"bt": u16Ints(r.Backtrack), "inp": u16Ints(r.Input), "la": u16Ints(r.Lookahead), "act": actInts(r.Actions)})
			}
			rules = append(rules, row)
		}
		return vh.Rec{"t": "h2", "cov": covInts(s.Cov), "cb": clsInts(s.Backtrack), "ci": clsInts(s.Input), "cl": clsInts(s.Lookahead), "rules": rules}
	case *gtab.ChainedSeqContext3:
		return vh.Rec{"t": "h3", "bt": ntSets(s.Backtrack), "inp": ntSets(s.Input), "la": ntSets(s.Lookahead), "act": actInts(s.Actions)}
	}
	return vh.Rec{"t": fmt.Sprintf("%T", s)}
}

// ntFont is a font together with its description for the specification.
type ntFont struct {
	f *sfnt.Font
	E vh.Rec
}

func ntMake(names []string, n int, cm map[rune]int) *ntFont {
	f := &sfnt.Font{Outlines: &glyf.Outlines{
		Glyphs: make(glyf.Glyphs, n),
		Widths: make([]funit.Int16, n),
		Names:  names,
	}}
	long := false
	for r := range cm {
		if r > 0xFFFF {
			long = true
		}
	}
	pairs := [][]any{}
	if cm != nil {
		if long {
			s := cmap.Format12{}
			for r, g := range cm {
				s[uint32(r)] = glyph.ID(g)
			}
			f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 10}: s.Encode(0)}
		} else {
			f.CMapTable = cmap4(cm)
		}
		var rr []int
		for r := range cm {
			if r < 0xD800 || r > 0xDFFF {
				rr = append(rr, int(r))
			}
		}
		sort.Ints(rr)
		for _, r := range rr {
			pairs = append(pairs, []any{string(rune(r)), cm[rune(r)]})
		}
	}
	all := make([]string, n)
	for i := range all {
		if i < len(names) {
			all[i] = names[i]
		}
	}
	return &ntFont{f, vh.Rec{"n": n, "names": all, "cm": pairs}}
}

var ntNames = []string{"A", "B", "f", "i", "f_i", "a.alt", "x", "y", "dx", "to", "_", "mark", "base", "first", "second", "class", "inputclass", "lookaheadclass", "backtrackclass", "marks", "GSUB1", "GPOS2", "ä", "Ω1", "1a", "a-b", "a b", "", "", "日本", "٣", "a٣", ".notdef", "A", "é", "a\u0301"}

var ntRunes = []rune("ABCfixy_\"\\\n\t\r#-|ä日é 01.\u0301\u00a0\u2028\u00ad\ufffd😀\u0007")

func ntRandFont(rng *rand.Rand) *ntFont {
	n := 1 + rng.IntN(12)
	if rng.IntN(4) == 0 {
		n = 10 + rng.IntN(40)
	}
	var nn []string
	if rng.IntN(5) > 0 {
		nn = []string{".notdef"}
		for len(nn) < n {
			if rng.IntN(6) == 0 && n > 12 {
				nn = append(nn, fmt.Sprintf("g%d", len(nn)))
			} else {
				nn = append(nn, pick(rng, ntNames))
			}
		}
		if rng.IntN(8) == 0 {
			nn = nn[:rng.IntN(n+1)]
		}
	}
	var cm map[rune]int
	if rng.IntN(5) > 0 {
		cm = map[rune]int{}
		for k := rng.IntN(2 * n); k >= 0; k-- {
			r := pick(rng, ntRunes)
			if rng.IntN(3) == 0 {
				r = rune('A' + rng.IntN(26))
			}
			g := 1 + rng.IntN(n)
			if rng.IntN(12) == 0 {
				g = n + rng.IntN(3)
			}
			cm[r] = g
		}
	}
	return ntMake(nn, n, cm)
}

// env describes the font, and the characters of a text.
func (nf *ntFont) env(text string) vh.Rec {
	E := vh.Rec{}
	for k, v := range nf.E {
		E[k] = v
	}
	letters, digits, spaces := []string{}, []string{}, []string{}
	seen := map[rune]bool{}
	for _, r := range text {
		if r < 128 && r != '\v' || seen[r] {
			continue
		}
		seen[r] = true
		if unicode.IsLetter(r) {
			letters = append(letters, string(r))
		}
		if unicode.IsDigit(r) {
			digits = append(digits, string(r))
		}
		if unicode.IsSpace(r) {
			spaces = append(spaces, string(r))
		}
	}
	E["letters"], E["digits"], E["spaces"] = letters, digits, spaces
	return E
}

func ntChars(s string) []string {
	res := []string{}
	for _, r := range s {
		res = append(res, string(r))
	}
	return res
}

var ntLine = regexp.MustCompile(`^([0-9]+):`)

type ntOut struct {
	ll   gtab.LookupList
	err  error
	msg  string
	hang bool
}

func ntParse(f *sfnt.Font, text string) ntOut {
	ch := make(chan ntOut, 1)
	go func() {
		var o ntOut
		o.msg = vh.Guard(func() { o.ll, o.err = builder.Parse(f, text) })
		ch <- o
	}()
	select {
	case o := <-ch:
		return o
	case <-time.After(5 * time.Second):
		return ntOut{hang: true}
	}
}

// ntLeaks counts the parses which left goroutines running.
var ntLeaks int

// ntRun parses a text under different scheduling conditions.  The result is
// nil in case of a panic.
func ntRun(c *vh.Case, kind string, nf *ntFont, text string, ll []vh.Rec) gtab.LookupList {
	rec := vh.Rec{"t": kind, "nul": strings.Contains(text, "\x00") || len(text) > 3000, "hang": false, "leak": 0, "same": true,
		"lines": 1 + strings.Count(text, "\n"), "line": 0, "ok": false, "res": []vh.Rec{}}
	if kind == "explain" {
		rec["ll"] = ll
	}
	if rec["nul"] == true {
		rec["E"], rec["text"] = vh.Rec{}, []string{}
		if len(text) <= 3000 {
			rec["src"] = fmt.Sprintf("%q", text)
		}
	} else {
		rec["E"], rec["text"] = nf.env(text), ntChars(text)
	}
	before := runtime.NumGoroutine()
	var first string
	var res gtab.LookupList
	procs := []int{0}
	if c.Idx%8 == 0 {
		procs = []int{1, 2, 4, 16}
	} else {
		procs = append(procs, 1+c.Rng.IntN(16))
	}
	for i, p := range procs {
		old := 0
		if p > 0 {
			old = runtime.GOMAXPROCS(p)
		}
		o := ntParse(nf.f, text)
		if old > 0 {
			runtime.GOMAXPROCS(old)
		}
		if o.hang {
			rec["hang"] = true
			break
		}
		if o.msg != "" {
			c.Emit(vh.Rec{"t": "panic", "msg": o.msg, "text": fmt.Sprintf("%.200q", text)})
			return nil
		}
		var dump []vh.Rec
		line := 0
		if o.err == nil {
			dump = ntDump(o.ll)
		} else if m := ntLine.FindStringSubmatch(o.err.Error()); m != nil {
			line, _ = strconv.Atoi(m[1])
		}
		key := mustJSON(dump) + fmt.Sprint(o.err)
		if i == 0 {
			first = key
			rec["ok"] = o.err == nil
			if o.err == nil {
				res = o.ll
				rec["res"] = dump
			}
			rec["line"] = line
		} else if key != first {
			rec["same"] = false
		}
	}
	if rec["hang"] != true {
		left := 0
		for i := 0; i < 400; i++ {
			left = runtime.NumGoroutine() - before
			if left <= 0 {
				break
			}
			if i < 100 {
				runtime.Gosched()
			} else if ntLeaks < 20 || i < 104 {
				time.Sleep(5 * time.Millisecond)
			} else {
				break
			}
		}
		if left > 0 {
			ntLeaks++
		}
		rec["leak"] = max(left, 0)
	}
	if rec["ok"] == true && rec["nul"] != true {
		c.Mark("ok/" + fmt.Sprint(len(res)))
	}
	if rec["nul"] == true && kind == "parse" {
		rec["res"] = []vh.Rec{}
	}
	c.Emit(rec)
	return res
}

// ntExplain describes lookups.  The lookups must be all GSUB or all GPOS.
func ntExplain(c *vh.Case, nf *ntFont, ll gtab.LookupList, gpos bool) (string, bool) {
	g := *nf.f
	info := &gtab.Info{LookupList: ll}
	var text string
	msg := vh.Guard(func() {
		if gpos {
			g.Gpos = info
			text = strings.Join(builder.ExplainGpos(&g), "\n")
		} else {
			g.Gsub = info
			text = builder.ExplainGsub(&g)
		}
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg, "ll": mustJSON(ntDump(ll))})
		return "", false
	}
	return text, true
}

func ntPos(ll gtab.LookupList) (gsub, gpos bool) {
	for _, l := range ll {
		switch l.Subtables[0].(type) {
		case *gtab.Gpos1_1, *gtab.Gpos1_2, gtab.Gpos2_1, *gtab.Gpos2_2, *gtab.Gpos3_1, *gtab.Gpos4_1:
			gpos = true
		default:
			gsub = true
		}
	}
	return
}

// ntBoth parses a text, and explains the result.
func ntBoth(c *vh.Case, nf *ntFont, text string) {
	ll := ntRun(c, "parse", nf, text, nil)
	if len(ll) == 0 || len(text) > 3000 {
		return
	}
	gsub, gpos := ntPos(ll)
	if gsub && gpos {
		return
	}
	ntRound(c, nf, ll, gpos)
}

func ntRound(c *vh.Case, nf *ntFont, ll gtab.LookupList, gpos bool) string {
	before := ntDump(ll)
	text, ok := ntExplain(c, nf, ll, gpos)
	if !ok {
		return ""
	}
	ntRun(c, "explain", nf, text, before)
	return text
}

// ntGen generates random lookups which can be expressed in the notation.
type ntGen struct {
	rng *rand.Rand
	n   int
}

func (g *ntGen) gid() glyph.ID { return glyph.ID(g.rng.IntN(g.n)) }
func (g *ntGen) list(min, max int) []glyph.ID {
	k := min + g.rng.IntN(max-min+1)
	res := make([]glyph.ID, k)
	for i := range res {
		res[i] = g.gid()
	}
	return res
}
func (g *ntGen) cov(min int) []glyph.ID {
	m := map[glyph.ID]bool{}
	for k := min + g.rng.IntN(4); k > 0; k-- {
		m[g.gid()] = true
	}
	if g.rng.IntN(4) == 0 { // a run of glyphs
		a := g.gid()
		for k := g.rng.IntN(6); k >= 0 && int(a) < g.n; k-- {
			m[a] = true
			a++
		}
	}
	var res []glyph.ID
	for x := range m {
		res = append(res, x)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}
func ntTable(cov []glyph.ID) coverage.Table {
	res := coverage.Table{}
	for i, x := range cov {
		res[x] = i
	}
	return res
}
func ntSet(cov []glyph.ID) coverage.Set {
	res := coverage.Set{}
	for _, x := range cov {
		res[x] = true
	}
	return res
}
func (g *ntGen) int16() funit.Int16 {
	return funit.Int16(pick(g.rng, []int{0, 1, -1, 5, -20, 32767, -32768, 100}))
}
func (g *ntGen) val() *gtab.GposValueRecord {
	v := &gtab.GposValueRecord{XPlacement: g.int16(), YPlacement: g.int16(), XAdvance: g.int16()}
	if g.rng.IntN(3) == 0 || *v == (gtab.GposValueRecord{}) {
		return nil
	}
	return v
}
func (g *ntGen) pair() *gtab.PairAdjust {
	return &gtab.PairAdjust{First: g.val(), Second: g.val()}
}
func (g *ntGen) act() []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for k := g.rng.IntN(3); k > 0; k-- {
		res = append(res, gtab.SeqLookup{SequenceIndex: uint16(pick(g.rng, []int{0, 1, 2, 65535})), LookupListIndex: gtab.LookupIndex(pick(g.rng, []int{0, 1, 7, 65535}))})
	}
	return res
}

// classes returns a class table without empty classes.
func (g *ntGen) classes() classdef.Table {
	k := g.rng.IntN(4)
	k = min(k, g.n)
	res := classdef.Table{}
	perm := g.rng.Perm(g.n)
	for i := 0; i < k; i++ {
		res[glyph.ID(perm[i])] = uint16(i + 1)
	}
	if k > 0 {
		for _, p := range perm[k:] {
			if g.rng.IntN(3) == 0 {
				res[glyph.ID(p)] = uint16(1 + g.rng.IntN(k))
			}
		}
	}
	return res
}
func (g *ntGen) clsSeq(c classdef.Table, max int) []uint16 {
	k := g.rng.IntN(max + 1)
	res := make([]uint16, k)
	for i := range res {
		res[i] = uint16(g.rng.IntN(c.NumClasses()))
	}
	return res
}
func (g *ntGen) sets(min, max int) []coverage.Set {
	var res []coverage.Set
	for k := min + g.rng.IntN(max-min+1); k > 0; k-- {
		res = append(res, ntSet(g.cov(g.rng.IntN(2))))
	}
	return res
}
func (g *ntGen) anchor() anchor.Table { return anchor.Table{X: g.int16(), Y: g.int16()} }

func (g *ntGen) sub(gpos bool, typ int) gtab.Subtable {
	rng := g.rng
	if gpos {
		switch typ {
		case 1:
			if rng.IntN(2) == 0 {
				return &gtab.Gpos1_1{Cov: ntTable(g.cov(0)), Adjust: g.val()}
			}
			cov := g.cov(1)
			s := &gtab.Gpos1_2{Cov: ntTable(cov)}
			for range cov {
				s.Adjust = append(s.Adjust, g.val())
			}
			return s
		case 2:
			if rng.IntN(2) == 0 {
				s := gtab.Gpos2_1{}
				for k := rng.IntN(4); k >= 0; k-- {
					s[glyph.Pair{Left: g.gid(), Right: g.gid()}] = g.pair()
				}
				return s
			}
			s := &gtab.Gpos2_2{Cov: ntSet(g.cov(0)), Class1: g.classes(), Class2: g.classes()}
			if rng.IntN(4) == 0 { // empty classes
				for x := range s.Class1 {
					s.Class1[x] += uint16(rng.IntN(2))
				}
			}
			for i := 0; i < s.Class1.NumClasses(); i++ {
				var row []*gtab.PairAdjust
				for j := 0; j < s.Class2.NumClasses(); j++ {
					row = append(row, g.pair())
				}
				s.Adjust = append(s.Adjust, row)
			}
			return s
		case 3:
			cov := g.cov(1)
			s := &gtab.Gpos3_1{Cov: ntTable(cov)}
			for range cov {
				s.Records = append(s.Records, gtab.EntryExitRecord{Entry: g.anchor(), Exit: g.anchor()})
			}
			return s
		default:
			m, b := g.cov(0), g.cov(0)
			nc := 0
			if len(m) > 0 {
				nc = 1 + rng.IntN(len(m))
			}
			s := &gtab.Gpos4_1{MarkCov: ntTable(m), BaseCov: ntTable(b)}
			perm := rng.Perm(len(m))
			for i := range m {
				s.MarkArray = append(s.MarkArray, markarray.Record{Class: uint16(perm[i] % max(nc, 1)), Table: g.anchor()})
			}
			for range b {
				row := make([]anchor.Table, nc)
				for i := range row {
					row[i] = g.anchor()
				}
				s.BaseArray = append(s.BaseArray, row)
			}
			return s
		}
	}
	switch typ {
	case 1:
		cov := g.cov(1)
		if rng.IntN(2) == 0 {
			lo, hi := -int(cov[0]), g.n-1-int(cov[len(cov)-1])
			return &gtab.Gsub1_1{Cov: ntSet(cov), Delta: glyph.ID(lo + rng.IntN(hi-lo+1))}
		}
		s := &gtab.Gsub1_2{Cov: ntTable(cov)}
		konst := true
		for i := range cov {
			s.SubstituteGlyphIDs = append(s.SubstituteGlyphIDs, g.gid())
			if s.SubstituteGlyphIDs[i]-cov[i] != s.SubstituteGlyphIDs[0]-cov[0] {
				konst = false
			}
		}
		if konst {
			return &gtab.Gsub1_1{Cov: ntSet(cov), Delta: s.SubstituteGlyphIDs[0] - cov[0]}
		}
		return s
	case 2:
		cov := g.cov(1)
		s := &gtab.Gsub2_1{Cov: ntTable(cov)}
		for range cov {
			s.Repl = append(s.Repl, g.list(1, 4))
		}
		return s
	case 3:
		cov := g.cov(1)
		s := &gtab.Gsub3_1{Cov: ntTable(cov)}
		for range cov {
			s.Alternates = append(s.Alternates, g.cov(0))
		}
		return s
	case 4:
		cov := g.cov(1)
		s := &gtab.Gsub4_1{Cov: ntTable(cov)}
		for range cov {
			var ll []gtab.Ligature
			for k := rng.IntN(3); k >= 0; k-- {
				ll = append(ll, gtab.Ligature{In: g.list(0, 3), Out: g.gid()})
			}
			s.Repl = append(s.Repl, ll)
		}
		return s
	case 5:
		switch rng.IntN(3) {
		case 0:
			cov := g.cov(1)
			s := &gtab.SeqContext1{Cov: ntTable(cov)}
			for range cov {
				var rr []*gtab.SeqRule
				for k := rng.IntN(3); k >= 0; k-- {
					rr = append(rr, &gtab.SeqRule{Input: g.list(0, 3), Actions: g.act()})
				}
				s.Rules = append(s.Rules, rr)
			}
			return s
		case 1:
			s := &gtab.SeqContext2{Cov: ntTable(g.cov(0)), Input: g.classes()}
			s.Rules = make([][]*gtab.ClassSeqRule, s.Input.NumClasses())
			for k := rng.IntN(4); k >= 0; k-- {
				i := rng.IntN(len(s.Rules))
				s.Rules[i] = append(s.Rules[i], &gtab.ClassSeqRule{Input: g.clsSeq(s.Input, 3), Actions: g.act()})
			}
			return s
		default:
			return &gtab.SeqContext3{Input: g.sets(1, 3), Actions: g.act()}
		}
	default:
		switch rng.IntN(3) {
		case 0:
			cov := g.cov(1)
			s := &gtab.ChainedSeqContext1{Cov: ntTable(cov)}
			for range cov {
				var rr []*gtab.ChainedSeqRule
				for k := rng.IntN(3); k >= 0; k-- {
					rr = append(rr, &gtab.ChainedSeqRule{Backtrack: g.list(0, 3), Input: g.list(0, 2), Lookahead: g.list(0, 3), Actions: g.act()})
				}
				s.Rules = append(s.Rules, rr)
			}
			return s
		case 1:
			s := &gtab.ChainedSeqContext2{Cov: ntTable(g.cov(0)), Input: g.classes(), Backtrack: g.classes(), Lookahead: g.classes()}
			s.Rules = make([][]*gtab.ChainedClassSeqRule, s.Input.NumClasses())
			for k := rng.IntN(4); k >= 0; k-- {
				i := rng.IntN(len(s.Rules))
				s.Rules[i] = append(s.Rules[i], &gtab.ChainedClassSeqRule{Backtrack: g.clsSeq(s.Backtrack, 3), Input: g.clsSeq(s.Input, 2), Lookahead: g.clsSeq(s.Lookahead, 3), Actions: g.act()})
			}
			return s
		default:
			return &gtab.ChainedSeqContext3{Backtrack: g.sets(0, 3), Input: g.sets(1, 3), Lookahead: g.sets(0, 3), Actions: g.act()}
		}
	}
}

func (g *ntGen) lookups() (gtab.LookupList, bool) {
	gpos := g.rng.IntN(5) < 2
	var res gtab.LookupList
	for k := 1 + g.rng.IntN(2); k > 0; k-- {
		typ := 1 + g.rng.IntN(6)
		if gpos {
			typ = 1 + g.rng.IntN(4)
		}
		l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(typ), LookupFlags: gtab.LookupFlags(g.rng.IntN(16))}}
		for j := g.rng.IntN(3); j >= 0; j-- {
			l.Subtables = append(l.Subtables, g.sub(gpos, typ))
		}
		res = append(res, l)
	}
	return res, gpos
}

var ntTokens = []string{"GSUB1", "GSUB2", "GSUB3", "GSUB4", "GSUB5", "GSUB6", "GPOS1", "GPOS2", "GPOS3", "GPOS4", "GPOS5", ":", "::", ",", ";", "\n", "||", "|", "->", "-", "@", "/", "&", "=", "[", "]", "A", "B", "f_i", "x", "y", "dx", "_", "to", "mark", "base", "first", "second", "class", "inputclass", "backtrackclass", "lookaheadclass", ":a:", ":b:", "-marks", "-ligs", "-base", "-rtl", "\"A\"", "\"", "\"A\\nB\"", "\"\"", "0", "1", "2", "-1", "+3", "65535", "65536", "99999999999999999999", "+", "# comment\n", "#", "1@0", "%", "\\", "ä", "\x00", "\xff", "x+1", "dx-2", "A-B"}

func ntMutate(rng *rand.Rand, text string) string {
	for k := rng.IntN(3); k >= 0; k-- {
		i := rng.IntN(len(text) + 1)
		switch rng.IntN(6) {
		case 0:
			j := min(len(text), i+1+rng.IntN(4))
			text = text[:i] + text[j:]
		case 1:
			text = text[:i] + pick(rng, ntTokens) + text[i:]
		case 2:
			text = text[:i] + " " + pick(rng, ntTokens) + " " + text[i:]
		case 3:
			ff := strings.Fields(text)
			if len(ff) > 0 {
				ff[rng.IntN(len(ff))] = pick(rng, ntTokens)
			}
			text = strings.Join(ff, " ")
		case 4:
			ff := strings.Fields(text)
			if len(ff) > 1 {
				i, j := rng.IntN(len(ff)), rng.IntN(len(ff))
				ff[i], ff[j] = ff[j], ff[i]
			}
			text = strings.Join(ff, " ")
		default:
			text = text[:i]
		}
	}
	return text
}

func ntSoup(rng *rand.Rand, n int) string {
	var b strings.Builder
	b.WriteString(pick(rng, ntTokens[:10]))
	b.WriteString(pick(rng, []string{":", " ", ": ", "\n"}))
	for k := rng.IntN(n); k >= 0; k-- {
		b.WriteString(pick(rng, ntTokens))
		if rng.IntN(4) > 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

func c19Families(env *vh.Env) []vh.Family {
	{
		texts := env.TLCCases("texts.ndjson")
		std := ntMake([]string{".notdef", "A", "B", ""}, 4, map[rune]int{'A': 1, 'B': 2, 'c': 3})
		const chunk = 8
		return []vh.Family{
			{Name: "tlc", Quick: (len(texts) + chunk - 1) / chunk, Thor: (len(texts) + chunk - 1) / chunk, Serial: true, Run: func(c *vh.Case) {
				for _, raw := range texts[c.Idx*chunk : min(len(texts), (c.Idx+1)*chunk)] {
					var x struct {
						Text string `json:"text"`
					}
					if err := json.Unmarshal(tlcUnquote(raw), &x); err != nil {
						panic(err)
					}
					ntBoth(c, std, x.Text)
				}
			}},
			{Name: "lookups", Quick: 1500, Thor: 12000, Serial: true, Run: func(c *vh.Case) {
				nf := ntRandFont(c.Rng)
				g := &ntGen{c.Rng, nf.f.NumGlyphs()}
				ll, gpos := g.lookups()
				text := ntRound(c, nf, ll, gpos)
				if text != "" && len(text) <= 3000 {
					ntBoth(c, nf, ntMutate(c.Rng, text))
				}
			}},
			{Name: "soup", Quick: 1500, Thor: 12000, Serial: true, Run: func(c *vh.Case) {
				ntBoth(c, ntRandFont(c.Rng), ntSoup(c.Rng, 12))
			}},
			{Name: "bytes", Quick: 300, Thor: 3000, Serial: true, Run: func(c *vh.Case) {
				ntBoth(c, ntRandFont(c.Rng), string(randBytes(c.Rng, c.Rng.IntN(30))))
			}},
			{Name: "large", Quick: 40, Thor: 200, Serial: true, Run: func(c *vh.Case) {
				ntLarge(c, c.Idx)
			}},
		}
	}
}

// ntLarge runs long texts; only totality is checked.
func ntLarge(c *vh.Case, idx int) {
	rng := c.Rng
	n := pick(rng, []int{4, 300, 65535})
	nf := ntMake([]string{".notdef", "A", "B"}, n, map[rune]int{'A': 1, 'B': 2})
	rep := func(s string) string { return strings.Repeat(s, 1+20000/len(s)) }
	var text string
	switch idx % 10 {
	case 0:
		text = "GPOS2: /A/ first " + rep(",") + "; second " + rep(", ") + "; _"
	case 1:
		text = "GPOS2: /A/ first " + rep("A,") + ";"
	case 2:
		text = "GSUB5: " + rep("A -> 1@0,\n") + "\"Q\""
	case 3:
		text = "GSUB2: A -> " + rep("B ") + "\n" + rep("\n") + "%"
	case 4:
		text = "GSUB1: \"" + rep("A") + "Q" + rep("A") + "\" -> A"
	case 5:
		text = "GSUB6: " + rep("[A] ") + "| [B] | -> 1@2 " + rep("|| [A] | [B] | -> ")
	case 6:
		text = rep("GSUB1: A -> B\n")
	case 7:
		text = fmt.Sprintf("GSUB1: 0 - %d -> %d - 0, 0", n-1, n-1)
	case 8:
		text = "GPOS4: mark A: 0@0,0 " + rep("base B: @1,2 ") + rep("#")
	default:
		text = ntSoup(rng, 5000)
	}
	if len(text) < 3001 {
		text += strings.Repeat(" ", 3001-len(text))
	}
	ntRun(c, "parse", nf, text, nil)
}
