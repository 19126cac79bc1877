package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"sync"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
	"seehuhn.de/go/sfnt/parser"

	"vharness/vh"
)

// The canonical forms used in the trace.

type ranges = [][]int

func joinRanges(r ranges) ranges {
	res := ranges{}
	for _, x := range r {
		if n := len(res); n > 0 && res[n-1][1]+1 == x[0] && (len(x) == 2 || res[n-1][2] == x[2]) {
			res[n-1][1] = x[1]
		} else {
			res = append(res, slices.Clone(x))
		}
	}
	return res
}

func canSet(s coverage.Set) ranges {
	r := ranges{}
	for _, g := range s.Glyphs() {
		if s[g] {
			r = append(r, []int{int(g), int(g)})
		}
	}
	return joinRanges(r)
}

func canCov(t coverage.Table) ranges {
	var gg []int
	for g := range t {
		gg = append(gg, int(g))
	}
	sort.Ints(gg)
	r := ranges{}
	for i, g := range gg {
		if t[glyph.ID(g)] != i {
			return ranges{{-2, g}}
		}
		r = append(r, []int{g, g})
	}
	return joinRanges(r)
}

func canClass(t classdef.Table) ranges {
	var gg []int
	for g := range t {
		gg = append(gg, int(g))
	}
	sort.Ints(gg)
	r := ranges{}
	for _, g := range gg {
		if c := t[glyph.ID(g)]; c != 0 {
			r = append(r, []int{g, g, int(c)})
		}
	}
	return joinRanges(r)
}

func ints[T ~uint16 | ~int16 | ~int](x []T) []int {
	res := make([]int, len(x))
	for i, v := range x {
		res[i] = int(v)
	}
	return res
}

func canSets(x []coverage.Set) []ranges {
	res := []ranges{}
	for _, s := range x {
		res = append(res, canSet(s))
	}
	return res
}

func canCovs(x []coverage.Table) []ranges {
	res := []ranges{}
	for _, s := range x {
		res = append(res, canCov(s))
	}
	return res
}

func canActs(x []gtab.SeqLookup) [][]int {
	res := [][]int{}
	for _, a := range x {
		res = append(res, []int{int(a.SequenceIndex), int(a.LookupListIndex)})
	}
	return res
}

func canVal(v *gtab.GposValueRecord) []int {
	if v == nil {
		return []int{}
	}
	return []int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance), int(v.YAdvance),
		int(v.XPlacementDevOffs), int(v.YPlacementDevOffs), int(v.XAdvanceDevOffs), int(v.YAdvanceDevOffs)}
}

func canAnch(a anchor.Table) []int { return []int{int(a.X), int(a.Y)} }

func canMatrix(x [][]anchor.Table) [][][]int {
	res := [][][]int{}
	for _, row := range x {
		r := [][]int{}
		for _, a := range row {
			r = append(r, canAnch(a))
		}
		res = append(res, r)
	}
	return res
}

func canMarks(x []markarray.Record) [][]int {
	res := [][]int{}
	for _, m := range x {
		res = append(res, []int{int(m.Class), int(m.X), int(m.Y)})
	}
	return res
}

func canLists(x [][]glyph.ID) [][]int {
	res := [][]int{}
	for _, l := range x {
		res = append(res, ints(l))
	}
	return res
}

func canRules[T any](x [][]T, f func(T) any) [][]any {
	res := [][]any{}
	for _, l := range x {
		r := []any{}
		for _, y := range l {
			r = append(r, f(y))
		}
		res = append(res, r)
	}
	return res
}

type obj = map[string]any

func canSub(st gtab.Subtable) obj {
	switch s := st.(type) {
	case *gtab.Gsub1_1:
		return obj{"k": "s11", "cov": canSet(s.Cov), "d": int(s.Delta)}
	case *gtab.Gsub1_2:
		return obj{"k": "s12", "cov": canCov(s.Cov), "sub": ints(s.SubstituteGlyphIDs)}
	case *gtab.Gsub2_1:
		return obj{"k": "s21", "cov": canCov(s.Cov), "rep": canLists(s.Repl)}
	case *gtab.Gsub3_1:
		return obj{"k": "s31", "cov": canCov(s.Cov), "rep": canLists(s.Alternates)}
	case *gtab.Gsub4_1:
		return obj{"k": "s41", "cov": canCov(s.Cov), "ligs": canRules(s.Repl, func(l gtab.Ligature) any {
			return append([]int{int(l.Out)}, ints(l.In)...)
		})}
	case *gtab.Gsub8_1:
		return obj{"k": "s81", "cov": canCov(s.Input), "back": canCovs(s.Backtrack), "look": canCovs(s.Lookahead), "sub": ints(s.SubstituteGlyphIDs)}
	case *gtab.SeqContext1:
		return obj{"k": "c1", "cov": canCov(s.Cov), "rules": canRules(s.Rules, func(r *gtab.SeqRule) any {
			return []any{ints(r.Input), canActs(r.Actions)}
		})}
	case *gtab.SeqContext2:
		return obj{"k": "c2", "cov": canCov(s.Cov), "cd": canClass(s.Input), "rules": canRules(s.Rules, func(r *gtab.ClassSeqRule) any {
			return []any{ints(r.Input), canActs(r.Actions)}
		})}
	case *gtab.SeqContext3:
		return obj{"k": "c3", "inp": canSets(s.Input), "act": canActs(s.Actions)}
	case *gtab.ChainedSeqContext1:
		return obj{"k": "h1", "cov": canCov(s.Cov), "rules": canRules(s.Rules, func(r *gtab.ChainedSeqRule) any {
			return []any{ints(r.Backtrack), ints(r.Input), ints(r.Lookahead), canActs(r.Actions)}
		})}
	case *gtab.ChainedSeqContext2:
		return obj{"k": "h2", "cov": canCov(s.Cov), "bcd": canClass(s.Backtrack), "icd": canClass(s.Input), "lcd": canClass(s.Lookahead),
			"rules": canRules(s.Rules, func(r *gtab.ChainedClassSeqRule) any {
				return []any{ints(r.Backtrack), ints(r.Input), ints(r.Lookahead), canActs(r.Actions)}
			})}
	case *gtab.ChainedSeqContext3:
		return obj{"k": "h3", "back": canSets(s.Backtrack), "inp": canSets(s.Input), "look": canSets(s.Lookahead), "act": canActs(s.Actions)}
	case *gtab.Gpos1_1:
		return obj{"k": "p11", "cov": canCov(s.Cov), "val": canVal(s.Adjust)}
	case *gtab.Gpos1_2:
		v := [][]int{}
		for _, a := range s.Adjust {
			v = append(v, canVal(a))
		}
		return obj{"k": "p12", "cov": canCov(s.Cov), "vals": v}
	case gtab.Gpos2_1:
		var pp []glyph.Pair
		for p := range s {
			pp = append(pp, p)
		}
		sort.Slice(pp, func(i, j int) bool {
			return pp[i].Left < pp[j].Left || pp[i].Left == pp[j].Left && pp[i].Right < pp[j].Right
		})
		v := []any{}
		for _, p := range pp {
			v = append(v, []any{int(p.Left), int(p.Right), canVal(s[p].First), canVal(s[p].Second)})
		}
		return obj{"k": "p21", "pairs": v}
	case *gtab.Gpos2_2:
		v := [][][][]int{}
		for _, row := range s.Adjust {
			r := [][][]int{}
			for _, a := range row {
				r = append(r, [][]int{canVal(a.First), canVal(a.Second)})
			}
			v = append(v, r)
		}
		return obj{"k": "p22", "cov": canSet(s.Cov), "c1": canClass(s.Class1), "c2": canClass(s.Class2), "adj": v}
	case *gtab.Gpos3_1:
		v := [][][]int{}
		for _, r := range s.Records {
			v = append(v, [][]int{canAnch(r.Entry), canAnch(r.Exit)})
		}
		return obj{"k": "p31", "cov": canCov(s.Cov), "recs": v}
	case *gtab.Gpos4_1:
		return obj{"k": "p41", "mcov": canCov(s.MarkCov), "bcov": canCov(s.BaseCov), "marks": canMarks(s.MarkArray), "bases": canMatrix(s.BaseArray)}
	case *gtab.Gpos6_1:
		return obj{"k": "p61", "mcov": canCov(s.Mark1Cov), "bcov": canCov(s.Mark2Cov), "marks": canMarks(s.Mark1Array), "bases": canMatrix(s.Mark2Array)}
	case *gtab.Gpos5_1:
		v := [][][][]int{}
		for _, l := range s.LigArray {
			v = append(v, canMatrix(l))
		}
		return obj{"k": "p51", "mcov": canCov(s.MarkCov), "bcov": canCov(s.LigCov), "marks": canMarks(s.MarkArray), "ligs": v}
	}
	return obj{"k": fmt.Sprintf("%T", st)}
}

func tagInt(s string) int {
	b := []byte(s)
	return int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
}

func canInfo(info *gtab.Info) obj {
	ss := []obj{}
	for tag, f := range info.ScriptList {
		ss = append(ss, obj{"s": tag.String(), "r": int(f.Required), "o": ints(f.Optional)})
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i]["s"].(string) < ss[j]["s"].(string) })
	ff := []obj{}
	for _, f := range info.FeatureList {
		ff = append(ff, obj{"tag": tagInt(f.Tag), "l": ints(f.Lookups)})
	}
	ll := []obj{}
	for _, l := range info.LookupList {
		subs := []obj{}
		for _, st := range l.Subtables {
			subs = append(subs, canSub(st))
		}
		ll = append(ll, obj{"t": int(l.Meta.LookupType), "f": int(l.Meta.LookupFlags), "m": int(l.Meta.MarkFilteringSet), "subs": subs})
	}
	return obj{"s": ss, "f": ff, "l": ll}
}

func gtabType(gpos bool) gtab.Type {
	if gpos {
		return gtab.TypeGpos
	}
	return gtab.TypeGsub
}

func readInfo(rec vh.Rec, b []byte, gpos bool) {
	out, err := gtab.Read(bytes.NewReader(b), gtabType(gpos))
	if err != nil {
		rec["err"] = err.Error()
		rec["out"] = obj{}
		return
	}
	rec["err"] = ""
	rec["out"] = canInfo(out)
}

func emitGtab(c *vh.Case, info *gtab.Info, gpos bool) {
	rec := vh.Rec{"t": "gtab", "gpos": gpos, "in": canInfo(info)}
	var b []byte
	if msg := vh.Guard(func() { b = info.Encode() }); msg != "" {
		rec["panic"] = true
		rec["msg"] = msg
		c.Emit(rec)
		return
	}
	rec["panic"] = false
	if msg := vh.Guard(func() {
		rec["b"] = bytesInts(b)
		rec["same"] = bytes.Equal(b, info.Encode())
		readInfo(rec, b, gpos)
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// Generators

type otlGen struct {
	rng  *rand.Rand
	tags []language.Tag
	nl   int
}

// glyphs returns about n glyphs in increasing order.
func (g *otlGen) glyphs(n int) []int {
	rng := g.rng
	m := map[int]bool{}
	n = min(n, 60000)
	switch style := rng.IntN(5); {
	case n == 0:
	case style == 0: // a range
		s := rng.IntN(65537 - n)
		if rng.IntN(3) == 0 {
			s = []int{0, 65536 - n}[rng.IntN(2)]
		}
		for i := 0; i < n; i++ {
			m[s+i] = true
		}
	case style == 1 && n < 20000: // every second or third glyph
		k := 2 + rng.IntN(2)
		s := rng.IntN(65536 - k*n)
		for i := 0; i < n; i++ {
			m[s+k*i] = true
		}
	case style == 2: // runs
		for len(m) < n {
			s := rng.IntN(65536)
			if rng.IntN(5) == 0 {
				s = []int{0, 65533}[rng.IntN(2)]
			}
			for k := 1 + rng.IntN(5); k > 0 && s < 65536 && len(m) < n; k-- {
				m[s] = true
				s++
			}
		}
	case style == 3 && n <= 60: // small glyph ids
		for len(m) < n {
			m[rng.IntN(2*n+2)] = true
		}
	default:
		for len(m) < n {
			m[rng.IntN(65536)] = true
		}
	}
	res := []int{}
	for x := range m {
		res = append(res, x)
	}
	sort.Ints(res)
	return res
}

func (g *otlGen) cov(n int) coverage.Table { return covTable(g.glyphs(n)) }
func (g *otlGen) set(n int) coverage.Set   { return covSet(g.glyphs(n)) }

func (g *otlGen) class(n, nc int) classdef.Table {
	res := classdef.Table{}
	same := g.rng.IntN(3)
	cl := 1 + g.rng.IntN(nc)
	for i, x := range g.glyphs(n) {
		if same == 0 || same == 1 && i%7 == 0 {
			cl = 1 + g.rng.IntN(nc)
		}
		res[glyph.ID(x)] = uint16(cl)
	}
	return res
}

// ruleClasses returns a class definition table and a suitable number of rule
// sets: rules for classes without glyphs are not part of a well-formed table.
func (g *otlGen) ruleClasses(n int) (classdef.Table, int) {
	cd := g.class(n, 1+g.rng.IntN(5))
	k := cd.NumClasses()
	if g.rng.IntN(4) == 0 {
		k = g.rng.IntN(k + 1)
	}
	return cd, k
}

// topClass returns a class definition table for n classes, including class 0.
func (g *otlGen) topClass(n int) classdef.Table {
	if n < 2 {
		return classdef.Table{}
	}
	res := g.class(3, min(n-1, 3))
	res[glyph.ID(g.rng.IntN(65536))] = uint16(n - 1)
	return res
}

func (g *otlGen) gids(n int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = glyph.ID(g.rng.IntN(65536))
	}
	return res
}

func (g *otlGen) u16s(n int) []uint16 {
	res := make([]uint16, n)
	for i := range res {
		res[i] = uint16(g.rng.IntN(5))
		if g.rng.IntN(5) == 0 {
			res[i] = uint16(g.rng.IntN(65536))
		}
	}
	return res
}

func (g *otlGen) acts(n int) []gtab.SeqLookup {
	res := make([]gtab.SeqLookup, n)
	for i := range res {
		res[i] = gtab.SeqLookup{SequenceIndex: uint16(g.rng.IntN(65536)), LookupListIndex: gtab.LookupIndex(g.rng.IntN(65536))}
	}
	return res
}

func (g *otlGen) i16() funit.Int16 {
	switch g.rng.IntN(4) {
	case 0:
		return funit.Int16(g.rng.IntN(65536) - 32768)
	case 1:
		return []funit.Int16{-32768, 32767, -1, 255, 256, -256}[g.rng.IntN(6)]
	default:
		return funit.Int16(g.rng.IntN(401) - 200)
	}
}

// val returns a value record which uses only the fields in mask.
func (g *otlGen) val(mask int) *gtab.GposValueRecord {
	if mask < 0 {
		return nil
	}
	v := &gtab.GposValueRecord{}
	on := func(k int) bool { return mask>>k&1 == 1 && g.rng.IntN(4) > 0 }
	if on(0) {
		v.XPlacement = g.i16()
	}
	if on(1) {
		v.YPlacement = g.i16()
	}
	if on(2) {
		v.XAdvance = g.i16()
	}
	if on(3) {
		v.YAdvance = g.i16()
	}
	if on(4) {
		v.XPlacementDevOffs = uint16(g.rng.IntN(65536))
	}
	if on(5) {
		v.YPlacementDevOffs = uint16(g.rng.IntN(65536))
	}
	if on(6) {
		v.XAdvanceDevOffs = uint16(g.rng.IntN(65536))
	}
	if on(7) {
		v.YAdvanceDevOffs = uint16(g.rng.IntN(65536))
	}
	return v
}

// maybeVal is like val, but the value may be absent.
func (g *otlGen) maybeVal(mask int) *gtab.GposValueRecord {
	if g.rng.IntN(4) == 0 {
		return nil
	}
	return g.val(mask)
}

func (g *otlGen) mask() int {
	switch g.rng.IntN(6) {
	case 0:
		return -1
	case 1:
		return 0
	case 2:
		return g.rng.IntN(256)
	default:
		return g.rng.IntN(16)
	}
}

func (g *otlGen) anch() anchor.Table {
	if g.rng.IntN(4) == 0 {
		return anchor.Table{}
	}
	return anchor.Table{X: g.i16(), Y: g.i16()}
}

func (g *otlGen) matrix(nr, nc int) [][]anchor.Table {
	res := make([][]anchor.Table, nr)
	for i := range res {
		res[i] = make([]anchor.Table, nc)
		for j := range res[i] {
			res[i][j] = g.anch()
		}
	}
	return res
}

func (g *otlGen) marks(n, nc int) []markarray.Record {
	res := make([]markarray.Record, n)
	for i := range res {
		res[i].Class = uint16(g.rng.IntN(nc))
		res[i].Table = g.anch()
	}
	return res
}

func (g *otlGen) sets(n, sz int) []coverage.Set {
	res := make([]coverage.Set, n)
	for i := range res {
		res[i] = g.set(1 + g.rng.IntN(sz))
	}
	return res
}

func (g *otlGen) covs(n, sz int) []coverage.Table {
	res := make([]coverage.Table, n)
	for i := range res {
		res[i] = g.cov(1 + g.rng.IntN(sz))
	}
	return res
}

var subKinds = [2][]string{
	{"s11", "s12", "s21", "s31", "s41", "s81", "c1", "c2", "c3", "h1", "h2", "h3"},
	{"p11", "p12", "p21", "p22", "p31", "p41", "p51", "p61", "c1", "c2", "c3", "h1", "h2", "h3"},
}

func kindType(k string, gpos bool) uint16 {
	switch k[0] {
	case 's', 'p':
		return uint16(k[1] - '0')
	case 'c':
		if gpos {
			return 7
		}
		return 5
	default:
		if gpos {
			return 8
		}
		return 6
	}
}

func ruleSets[T any](g *otlGen, n int, f func() T) [][]T {
	res := make([][]T, n)
	for i := range res {
		switch g.rng.IntN(6) {
		case 0:
			res[i] = nil
			continue
		case 1:
			res[i] = []T{}
			continue
		}
		for k := 1 + g.rng.IntN(3); k > 0; k-- {
			res[i] = append(res[i], f())
		}
	}
	return res
}

// sub generates a subtable with about n entries, each with lists of length
// up to m.
func (g *otlGen) sub(k string, n, m int) gtab.Subtable {
	rng := g.rng
	le := func() int { return rng.IntN(m + 1) }
	lists := func() [][]glyph.ID {
		res := make([][]glyph.ID, n)
		for i := range res {
			res[i] = g.gids(le())
		}
		return res
	}
	switch k {
	case "s11":
		return &gtab.Gsub1_1{Cov: g.set(n), Delta: glyph.ID(rng.IntN(65536))}
	case "s12":
		return &gtab.Gsub1_2{Cov: g.cov(n), SubstituteGlyphIDs: g.gids(n)}
	case "s21":
		return &gtab.Gsub2_1{Cov: g.cov(n), Repl: lists()}
	case "s31":
		return &gtab.Gsub3_1{Cov: g.cov(n), Alternates: lists()}
	case "s41":
		l := make([][]gtab.Ligature, n)
		for i := range l {
			for j := rng.IntN(4); j > 0; j-- {
				l[i] = append(l[i], gtab.Ligature{In: g.gids(le()), Out: glyph.ID(rng.IntN(65536))})
			}
		}
		return &gtab.Gsub4_1{Cov: g.cov(n), Repl: l}
	case "s81":
		return &gtab.Gsub8_1{Input: g.cov(n), SubstituteGlyphIDs: g.gids(n), Backtrack: g.covs(rng.IntN(4), m+1), Lookahead: g.covs(rng.IntN(4), m+1)}
	case "c1":
		return &gtab.SeqContext1{Cov: g.cov(n), Rules: ruleSets(g, n, func() *gtab.SeqRule {
			return &gtab.SeqRule{Input: g.gids(le()), Actions: g.acts(rng.IntN(4))}
		})}
	case "c2":
		cd, nc := g.ruleClasses(n)
		return &gtab.SeqContext2{Cov: g.cov(n), Input: cd, Rules: ruleSets(g, nc, func() *gtab.ClassSeqRule {
			return &gtab.ClassSeqRule{Input: g.u16s(le()), Actions: g.acts(rng.IntN(4))}
		})}
	case "c3":
		return &gtab.SeqContext3{Input: g.sets(1+rng.IntN(4), n+1), Actions: g.acts(rng.IntN(4))}
	case "h1":
		return &gtab.ChainedSeqContext1{Cov: g.cov(n), Rules: ruleSets(g, n, func() *gtab.ChainedSeqRule {
			return &gtab.ChainedSeqRule{Backtrack: g.gids(le()), Input: g.gids(le()), Lookahead: g.gids(le()), Actions: g.acts(rng.IntN(4))}
		})}
	case "h2":
		cd, nc := g.ruleClasses(n)
		return &gtab.ChainedSeqContext2{Cov: g.cov(n), Backtrack: g.class(le(), 3), Input: cd, Lookahead: g.class(le(), 300),
			Rules: ruleSets(g, nc, func() *gtab.ChainedClassSeqRule {
				return &gtab.ChainedClassSeqRule{Backtrack: g.u16s(le()), Input: g.u16s(le()), Lookahead: g.u16s(le()), Actions: g.acts(rng.IntN(4))}
			})}
	case "h3":
		return &gtab.ChainedSeqContext3{Backtrack: g.sets(rng.IntN(4), n+1), Input: g.sets(1+rng.IntN(3), n+1), Lookahead: g.sets(rng.IntN(4), n+1), Actions: g.acts(rng.IntN(4))}
	case "p11":
		return &gtab.Gpos1_1{Cov: g.cov(n), Adjust: g.val(g.mask())}
	case "p12":
		ma := g.mask()
		v := make([]*gtab.GposValueRecord, n)
		for i := range v {
			v[i] = g.val(ma)
			if rng.IntN(20) == 0 {
				v[i] = nil
			}
		}
		return &gtab.Gpos1_2{Cov: g.cov(n), Adjust: v}
	case "p21":
		m1, m2 := g.mask(), g.mask()
		res := gtab.Gpos2_1{}
		for _, l := range g.glyphs(n) {
			for _, r := range g.glyphs(1 + le()) {
				res[glyph.Pair{Left: glyph.ID(l), Right: glyph.ID(r)}] = &gtab.PairAdjust{First: g.maybeVal(m1), Second: g.maybeVal(m2)}
			}
		}
		return res
	case "p22":
		m1, m2 := g.mask(), g.mask()
		n1, n2 := 1+rng.IntN(4), 1+rng.IntN(4)
		adj := make([][]*gtab.PairAdjust, n1)
		for i := range adj {
			for j := 0; j < n2; j++ {
				adj[i] = append(adj[i], &gtab.PairAdjust{First: g.maybeVal(m1), Second: g.maybeVal(m2)})
			}
		}
		c1, c2 := classdef.Table{}, classdef.Table{}
		if n1 > 1 {
			c1 = g.class(n, n1-1)
		}
		if n2 > 1 {
			c2 = g.class(n, n2-1)
		}
		return &gtab.Gpos2_2{Cov: g.set(n), Class1: c1, Class2: c2, Adjust: adj}
	case "p31":
		v := make([]gtab.EntryExitRecord, n)
		for i := range v {
			v[i] = gtab.EntryExitRecord{Entry: g.anch(), Exit: g.anch()}
		}
		return &gtab.Gpos3_1{Cov: g.cov(n), Records: v}
	case "p41", "p61":
		nc := 1 + rng.IntN(3)
		nb := 1 + le()
		if k == "p41" {
			return &gtab.Gpos4_1{MarkCov: g.cov(n), BaseCov: g.cov(nb), MarkArray: g.marks(n, nc), BaseArray: g.matrix(nb, nc)}
		}
		return &gtab.Gpos6_1{Mark1Cov: g.cov(n), Mark2Cov: g.cov(nb), Mark1Array: g.marks(n, nc), Mark2Array: g.matrix(nb, nc)}
	case "p51":
		nc := 1 + rng.IntN(3)
		nb := 1 + le()
		v := make([][][]anchor.Table, nb)
		for i := range v {
			v[i] = g.matrix(1+rng.IntN(4), nc)
		}
		return &gtab.Gpos5_1{MarkCov: g.cov(n), LigCov: g.cov(nb), MarkArray: g.marks(n, nc), LigArray: v}
	}
	panic(k)
}

// sized generates a subtable which needs about sz bytes.
func (g *otlGen) sized(k string, sz int) gtab.Subtable {
	rng := g.rng
	run := func(n int) coverage.Table {
		s := rng.IntN(65537 - n)
		t := coverage.Table{}
		for i := 0; i < n; i++ {
			t[glyph.ID(s+i)] = i
		}
		return t
	}
	w := max((sz-30)/2, 0) // number of words
	rules := func() (n, m int) {
		n = 1 + rng.IntN(min(20, 1+w/20))
		return n, max(w/n-6, 0)
	}
	switch k {
	case "s12":
		return &gtab.Gsub1_2{Cov: run(w), SubstituteGlyphIDs: g.gids(w)}
	case "s21", "s31":
		n := 1 + rng.IntN(min(20, 1+w/20))
		l := make([][]glyph.ID, n)
		for i := range l {
			l[i] = g.gids(max(w/n-2, 0))
		}
		if k == "s21" {
			return &gtab.Gsub2_1{Cov: run(n), Repl: l}
		}
		return &gtab.Gsub3_1{Cov: run(n), Alternates: l}
	case "s41":
		n, m := rules()
		l := make([][]gtab.Ligature, n)
		for i := range l {
			l[i] = []gtab.Ligature{{In: g.gids(m / 2), Out: 5}, {In: g.gids(m - m/2), Out: 6}}
		}
		return &gtab.Gsub4_1{Cov: run(n), Repl: l}
	case "s81":
		return &gtab.Gsub8_1{Input: run(w / 2), SubstituteGlyphIDs: g.gids(w / 2), Backtrack: []coverage.Table{covTable(everySecond(w / 4))}, Lookahead: []coverage.Table{covTable(everySecond(w / 4))}}
	case "c1":
		n, m := rules()
		l := make([][]*gtab.SeqRule, n)
		for i := range l {
			l[i] = []*gtab.SeqRule{{Input: g.gids(m / 2), Actions: g.acts(m / 4)}}
		}
		return &gtab.SeqContext1{Cov: run(n), Rules: l}
	case "c2":
		n, m := rules()
		l := make([][]*gtab.ClassSeqRule, n)
		for i := range l {
			l[i] = []*gtab.ClassSeqRule{{Input: g.u16s(m / 2), Actions: g.acts(m / 4)}}
		}
		return &gtab.SeqContext2{Cov: run(n), Input: g.topClass(n), Rules: l}
	case "c3":
		l := make([]coverage.Set, 3)
		for i := range l {
			l[i] = covSet(everySecond(w / 3))
		}
		return &gtab.SeqContext3{Input: l, Actions: g.acts(3)}
	case "h1":
		n, m := rules()
		if rng.IntN(2) == 0 || sz > 65536 {
			n, m = 1, w-6
		}
		l := make([][]*gtab.ChainedSeqRule, n)
		for i := range l {
			l[i] = []*gtab.ChainedSeqRule{{Backtrack: g.gids(m / 4), Input: g.gids(m / 4), Lookahead: g.gids(m / 4), Actions: g.acts(m / 8)}}
		}
		return &gtab.ChainedSeqContext1{Cov: run(n), Rules: l}
	case "h2":
		n, m := rules()
		if sz > 65536 {
			n, m = 1, w-6
		}
		l := make([][]*gtab.ChainedClassSeqRule, n)
		for i := range l {
			l[i] = []*gtab.ChainedClassSeqRule{{Backtrack: g.u16s(m / 4), Input: g.u16s(m / 4), Lookahead: g.u16s(m / 4), Actions: g.acts(m / 8)}}
		}
		return &gtab.ChainedSeqContext2{Cov: run(n), Backtrack: g.class(3, 3), Input: g.topClass(n), Lookahead: g.class(3, 3), Rules: l}
	case "h3":
		l := func() []coverage.Set { return []coverage.Set{covSet(everySecond(w / 3))} }
		return &gtab.ChainedSeqContext3{Backtrack: l(), Input: l(), Lookahead: l(), Actions: g.acts(2)}
	case "p12":
		n := w / 2
		v := make([]*gtab.GposValueRecord, n)
		for i := range v {
			v[i] = &gtab.GposValueRecord{XAdvance: funit.Int16(i + 1), YPlacement: 7}
		}
		return &gtab.Gpos1_2{Cov: run(n), Adjust: v}
	case "p21":
		n := 1 + rng.IntN(5)
		if sz > 65536 {
			n = 1
		}
		res := gtab.Gpos2_1{}
		for l := 0; l < n; l++ {
			for r := 0; r < w/2/n; r++ {
				res[glyph.Pair{Left: glyph.ID(7 * l), Right: glyph.ID(r)}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(r%500 - 700)}}
			}
		}
		return res
	case "p22":
		n := 1 + rng.IntN(20)
		adj := make([][]*gtab.PairAdjust, n)
		for i := range adj {
			for j := 0; j < w/n/2; j++ {
				adj[i] = append(adj[i], &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: -7}, Second: &gtab.GposValueRecord{YAdvance: 8}})
			}
		}
		return &gtab.Gpos2_2{Cov: g.set(3), Class1: g.class(3, max(n-1, 1)), Class2: g.class(5, 3), Adjust: adj}
	case "p31":
		n := w / 8
		v := make([]gtab.EntryExitRecord, n)
		for i := range v {
			v[i] = gtab.EntryExitRecord{Entry: anchor.Table{X: funit.Int16(i), Y: 3}, Exit: anchor.Table{X: -4, Y: funit.Int16(i)}}
		}
		return &gtab.Gpos3_1{Cov: run(n), Records: v}
	case "p41", "p61":
		n := w / 10
		ma := g.marks(n, 2)
		ba := g.matrix(w/16, 2)
		if k == "p41" {
			return &gtab.Gpos4_1{MarkCov: run(n), BaseCov: run(w / 16), MarkArray: ma, BaseArray: ba}
		}
		return &gtab.Gpos6_1{Mark1Cov: run(n), Mark2Cov: run(w / 16), Mark1Array: ma, Mark2Array: ba}
	case "p51":
		n := w / 10
		v := make([][][]anchor.Table, w/20)
		for i := range v {
			v[i] = g.matrix(2, 1)
		}
		return &gtab.Gpos5_1{MarkCov: run(n), LigCov: run(w / 20), MarkArray: g.marks(n, 1), LigArray: v}
	}
	return nil
}

func everySecond(n int) []int {
	res := make([]int, min(n, 32768))
	for i := range res {
		res[i] = 2 * i
	}
	return res
}

func (g *otlGen) lookup(k string, gpos bool, subs ...gtab.Subtable) *gtab.LookupTable {
	fl := 0
	switch g.rng.IntN(4) {
	case 0:
		fl = g.rng.IntN(65536)
	case 1:
		fl = g.rng.IntN(32)
	}
	m := &gtab.LookupMetaInfo{LookupType: kindType(k, gpos), LookupFlags: gtab.LookupFlags(fl)}
	if m.LookupFlags&gtab.UseMarkFilteringSet != 0 {
		m.MarkFilteringSet = uint16(g.rng.IntN(65536))
	}
	return &gtab.LookupTable{Meta: m, Subtables: subs}
}

func (g *otlGen) lookups(gpos bool, n int) gtab.LookupList {
	kk := subKinds[0]
	if gpos {
		kk = subKinds[1]
	}
	res := make(gtab.LookupList, 0)
	for len(res) < n {
		k := kk[g.rng.IntN(len(kk))]
		var ss []gtab.Subtable
		for i := g.rng.IntN(4); i > 0; i-- {
			k2 := k
			for t := 0; t < 20; t++ {
				if x := kk[g.rng.IntN(len(kk))]; kindType(x, gpos) == kindType(k, gpos) {
					k2 = x
				}
			}
			ss = append(ss, g.sub(k2, g.rng.IntN(6), g.rng.IntN(5)))
		}
		res = append(res, g.lookup(k, gpos, ss...))
	}
	return res
}

func (g *otlGen) scripts(n, nf int) gtab.ScriptListInfo {
	res := gtab.ScriptListInfo{}
	for len(res) < n {
		f := &gtab.Features{Required: 0xFFFF, Optional: []gtab.FeatureIndex{}}
		if g.rng.IntN(2) == 0 {
			f.Required = gtab.FeatureIndex(g.rng.IntN(max(nf, 1)))
		}
		for i := g.rng.IntN(6); i > 0 && nf > 0; i-- {
			f.Optional = append(f.Optional, gtab.FeatureIndex(g.rng.IntN(nf)))
		}
		res[g.tags[g.rng.IntN(len(g.tags))]] = f
	}
	return res
}

func (g *otlGen) features(n, m int) gtab.FeatureListInfo {
	res := gtab.FeatureListInfo{}
	for i := 0; i < n; i++ {
		t := []byte{byte(97 + g.rng.IntN(26)), byte(97 + g.rng.IntN(26)), byte(48 + g.rng.IntN(10)), byte(32 + g.rng.IntN(90))}
		f := &gtab.Feature{Tag: string(t), Lookups: []gtab.LookupIndex{}}
		for j := g.rng.IntN(m + 1); j > 0; j-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(g.rng.IntN(65536)))
		}
		res = append(res, f)
	}
	return res
}

// rawSub returns the binary form of a subtable.
func rawSub(gpos bool, l *gtab.LookupTable, st gtab.Subtable) []byte {
	info := &gtab.Info{
		ScriptList:  gtab.ScriptListInfo{},
		FeatureList: gtab.FeatureListInfo{},
		LookupList:  gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: l.Meta.LookupType}, Subtables: []gtab.Subtable{st}}},
	}
	b := info.Encode()
	u := func(p int) int { return int(b[p])<<8 | int(b[p+1]) }
	ll := u(8)
	lk := ll + u(ll+2)
	return b[lk+u(lk+6):]
}

// relayout writes the table in an unusual but legal way.
func (g *otlGen) relayout(info *gtab.Info, gpos bool) []byte {
	rng := g.rng
	gap := func(b *byteBuf) {
		for i := rng.IntN(3) * rng.IntN(2); i > 0; i-- {
			b.u16(rng.IntN(65536))
		}
	}
	// the lookup list
	var ll byteBuf
	n := len(info.LookupList)
	ll.u16(n)
	for i := 0; i < n; i++ {
		ll.u16(0)
	}
	type ref struct{ base, at, size, lk, sub int } // the offset at ll[at] is relative to base
	var refs, late []ref
	for _, i := range rng.Perm(n) {
		gap(&ll)
		l := info.LookupList[i]
		ll.put(2+2*i, len(ll))
		base := len(ll)
		ext := len(l.Subtables) > 0 && rng.IntN(3) == 0
		t := int(l.Meta.LookupType)
		if ext {
			t = 7
			if gpos {
				t = 9
			}
		}
		ll.u16(t, int(l.Meta.LookupFlags), len(l.Subtables))
		for j := range l.Subtables {
			refs = append(refs, ref{base, len(ll), 2, i, j})
			ll.u16(0)
		}
		if l.Meta.LookupFlags&gtab.UseMarkFilteringSet != 0 {
			ll.u16(int(l.Meta.MarkFilteringSet))
		}
		if ext {
			gap(&ll)
			k := len(l.Subtables)
			for _, j := range rng.Perm(k) {
				r := refs[len(refs)-k+j]
				ll.put(r.at, len(ll)-base)
				late = append(late, ref{len(ll), len(ll) + 4, 4, i, j})
				ll.u16(1, int(l.Meta.LookupType), 0, 0)
			}
			refs = refs[:len(refs)-k]
		}
	}
	rng.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
	rng.Shuffle(len(late), func(i, j int) { late[i], late[j] = late[j], late[i] })
	for _, r := range append(refs, late...) {
		gap(&ll)
		l := info.LookupList[r.lk]
		offs := len(ll) - r.base
		if r.size == 4 {
			ll.put(r.at, offs>>16)
			ll.put(r.at+2, offs&0xFFFF)
		} else if offs > 0xFFFF {
			return nil
		} else {
			ll.put(r.at, offs)
		}
		ll = append(ll, rawSub(gpos, l, l.Subtables[r.sub])...)
	}

	short := &gtab.Info{ScriptList: info.ScriptList, FeatureList: info.FeatureList, LookupList: gtab.LookupList{}}
	b := short.Encode()
	u := func(p int) int { return int(b[p])<<8 | int(b[p+1]) }
	sl, fl := b[u(4):u(6)], b[u(6):u(8)]
	parts := [][]byte{sl, fl, ll}
	var res byteBuf
	res.u16(1, 0, 0, 0, 0)
	if rng.IntN(3) == 0 {
		res.put(2, 1)
		res.u32(0)
	}
	order := rng.Perm(3)
	if len(ll) > 60000 {
		order = []int{1, 0, 2}
	}
	for _, i := range order {
		gap(&res)
		res.put(4+2*i, len(res))
		res = append(res, parts[i]...)
	}
	gap(&res)
	return res
}

func emitAlt(c *vh.Case, g *otlGen, info *gtab.Info, gpos bool) {
	rec := vh.Rec{"t": "alt", "gpos": gpos, "in": canInfo(info)}
	if msg := vh.Guard(func() {
		b := g.relayout(info, gpos)
		if b == nil {
			return
		}
		rec["b"] = bytesInts(b)
		readInfo(rec, b, gpos)
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	if rec["t"] == "alt" && rec["b"] == nil {
		return
	}
	c.Emit(rec)
}

func readCovRec(rec vh.Rec, b []byte) {
	p := parser.New(bytes.NewReader(b))
	rec["err"] = ""
	t, err := coverage.Read(p, 0)
	if err != nil {
		rec["err"] = err.Error()
	}
	s, err := coverage.ReadSet(p, 0)
	if err != nil {
		rec["err"] = err.Error()
	}
	rec["out"] = canCov(t)
	rec["set"] = canSet(s)
}

func emitCov(c *vh.Case, gg []int) {
	t := covTable(gg)
	rec := vh.Rec{"t": "cov", "in": canCov(t)}
	if msg := vh.Guard(func() {
		b := t.Encode()
		rec["n"] = t.EncodeLen()
		rec["b"] = bytesInts(b)
		readCovRec(rec, b)
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func emitCovAlt(c *vh.Case, in ranges, b []byte) {
	rec := vh.Rec{"t": "covalt", "in": in, "b": bytesInts(b)}
	if msg := vh.Guard(func() { readCovRec(rec, b) }); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func readClassRec(rec vh.Rec, b []byte) {
	p := parser.New(bytes.NewReader(b))
	rec["err"] = ""
	t, err := classdef.Read(p, 0)
	if err != nil {
		rec["err"] = err.Error()
	}
	rec["out"] = canClass(t)
}

func emitClass(c *vh.Case, t classdef.Table) {
	rec := vh.Rec{"t": "class", "in": canClass(t), "panic": false}
	var b []byte
	pre := c.Rng.IntN(4)
	if msg := vh.Guard(func() { b = t.Append(make([]byte, pre))[pre:] }); msg != "" {
		rec["panic"] = true
		c.Emit(rec)
		return
	}
	if msg := vh.Guard(func() {
		rec["n"] = t.AppendLen()
		rec["b"] = bytesInts(b)
		readClassRec(rec, b)
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func emitClassAlt(c *vh.Case, in ranges, b []byte) {
	rec := vh.Rec{"t": "classalt", "in": in, "b": bytesInts(b)}
	if msg := vh.Guard(func() { readClassRec(rec, b) }); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func canGdef(t *gdef.Table) obj {
	gc, mc, sets := []ranges{}, []ranges{}, [][]ranges{}
	if t.GlyphClass != nil {
		gc = append(gc, canClass(t.GlyphClass))
	}
	if t.MarkAttachClass != nil {
		mc = append(mc, canClass(t.MarkAttachClass))
	}
	if t.MarkGlyphSets != nil {
		sets = append(sets, canSets(t.MarkGlyphSets))
	}
	return obj{"gc": gc, "mc": mc, "sets": sets}
}

func emitGdef(c *vh.Case, t *gdef.Table) {
	rec := vh.Rec{"t": "gdef", "in": canGdef(t), "panic": false}
	var b []byte
	if msg := vh.Guard(func() { b = t.Encode() }); msg != "" {
		rec["panic"] = true
		rec["msg"] = msg
		c.Emit(rec)
		return
	}
	if msg := vh.Guard(func() {
		rec["b"] = bytesInts(b)
		rec["same"] = bytes.Equal(b, t.Encode())
		out, err := gdef.Read(bytes.NewReader(b))
		rec["err"] = ""
		if err != nil {
			rec["err"] = err.Error()
			rec["out"] = obj{}
		} else {
			rec["out"] = canGdef(out)
		}
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// alternating returns a class table for the glyphs lo..hi with no two equal
// neighbours.
func alternating(lo, hi, nc int) classdef.Table {
	t := classdef.Table{}
	for i := lo; i <= hi; i++ {
		t[glyph.ID(i)] = uint16(1 + i%nc)
	}
	return t
}

// rawCov writes a coverage table in a random legal form.
func (g *otlGen) rawCov(gg []int) []byte {
	var b byteBuf
	if g.rng.IntN(2) == 0 && len(gg) < 65536 {
		b.u16(1, len(gg))
		b.u16(gg...)
		return b
	}
	var r byteBuf
	n := 0
	cut := g.rng.IntN(6)
	for i := 0; i < len(gg); {
		j := i + 1
		for j < len(gg) && gg[j] == gg[j-1]+1 && (cut == 0 || g.rng.IntN(cut+1) > 0) {
			j++
		}
		r.u16(gg[i], gg[j-1], i)
		n++
		i = j
	}
	b.u16(2, n)
	return append(b, r...)
}

// rawClass writes a class definition table in a random legal form.
func (g *otlGen) rawClass(t classdef.Table) []byte {
	var b byteBuf
	can := canClass(t)
	if len(can) > 0 && g.rng.IntN(2) == 0 {
		lo := max(0, can[0][0]-g.rng.IntN(3))
		hi := min(65535, can[len(can)-1][1]+g.rng.IntN(3))
		if hi-lo < 20000 {
			b.u16(1, lo, hi-lo+1)
			for i := lo; i <= hi; i++ {
				b.u16(int(t[glyph.ID(i)]))
			}
			return b
		}
	}
	var r byteBuf
	n := 0
	last := -1
	cut := g.rng.IntN(5)
	for _, x := range can {
		if last+1 < x[0] && g.rng.IntN(3) == 0 { // explicit zeros
			s := last + 1 + g.rng.IntN(x[0]-last-1)
			r.u16(s, s+g.rng.IntN(x[0]-s), 0)
			n++
		}
		for s := x[0]; s <= x[1]; {
			e := x[1]
			if cut > 0 && g.rng.IntN(cut) == 0 {
				e = s + g.rng.IntN(x[1]-s+1)
			}
			r.u16(s, e, x[2])
			n++
			s = e + 1
		}
		last = x[1]
	}
	if n > 65535 {
		return nil
	}
	b.u16(2, n)
	return append(b, r...)
}

func c08Families(env *vh.Env) []vh.Family {
	var scripts, langs []string
	for _, raw := range env.TLCCases("tags.ndjson") {
		var t struct{ S, L []string }
		if json.Unmarshal(tlcUnquote(raw), &t) == nil {
			scripts, langs = t.S, t.L
		}
	}
	type layout struct {
		LL  [][]int
		Lim int
		Sig string
	}
	bySig := map[string][]layout{}
	var sigs []string
	for _, raw := range env.TLCCases("layout.ndjson") {
		var t layout
		if json.Unmarshal(tlcUnquote(raw), &t) != nil || strings.Contains(t.Sig, "plain") && len(t.LL) < 2 {
			continue
		}
		if bySig[t.Sig] == nil {
			sigs = append(sigs, t.Sig)
		}
		bySig[t.Sig] = append(bySig[t.Sig], t)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		sort.Slice(bySig[s], func(i, j int) bool { return fmt.Sprint(bySig[s][i]) < fmt.Sprint(bySig[s][j]) })
	}
	type tabCase struct {
		K  string
		In ranges
		B  []int
	}
	var tabs []tabCase
	for _, raw := range env.TLCCases("tabs.ndjson") {
		var t tabCase
		if json.Unmarshal(tlcUnquote(raw), &t) == nil {
			tabs = append(tabs, t)
		}
	}

	// BCP 47 tags for all known pairs of scripts and languages
	getTags := sync.OnceValue(func() (tags []language.Tag) {
		var ss []rawSys
		for i, s := range scripts {
			ss = append(ss, rawSys{Script: s, Required: 0xFFFF})
			for j := i % 5; j < len(langs); j += 5 {
				ss = append(ss, rawSys{Script: s, Lang: langs[j], Required: 0xFFFF})
			}
		}
		// in parts, since the script list is limited to 64 KiB
		for len(ss) > 0 {
			k := min(len(ss), 2000)
			data := rawGtab(rawScriptList(ss[:k]), []byte{0, 0}, []byte{0, 0})
			ss = ss[k:]
			if info, err := gtab.Read(bytes.NewReader(data), gtab.TypeGsub); err == nil {
				for t := range info.ScriptList {
					tags = append(tags, t)
				}
			}
		}
		if len(tags) == 0 {
			tags = []language.Tag{language.Und}
		}
		sort.Slice(tags, func(i, j int) bool { return tags[i].String() < tags[j].String() })
		tags = slices.Compact(tags)
		return tags
	})
	gen := func(c *vh.Case) *otlGen { return &otlGen{rng: c.Rng, tags: getTags()} }

	big := func(k string) []string {
		if k == "s" {
			return []string{"s12", "s21", "s31", "s41", "s81", "c1", "c2", "c3", "h1", "h2", "h3"}
		}
		return []string{"p12", "p21", "p22", "p31", "p41", "p51", "p61", "c1", "c2", "c3", "h1", "h2", "h3"}
	}
	allBig := append(big("s"), big("p")[:7]...)

	return []vh.Family{
		{Name: "sub", Quick: 26 * 6, Thor: 26 * 200, Run: func(c *vh.Case) {
			g := gen(c)
			gpos := c.Idx%26 >= 12
			k := append(slices.Clone(subKinds[0]), subKinds[1]...)[c.Idx%26]
			for i := 0; i < 3; i++ {
				ll := gtab.LookupList{g.lookup(k, gpos, g.sub(k, c.Rng.IntN(7), c.Rng.IntN(5)), g.sub(k, c.Rng.IntN(30), c.Rng.IntN(10)), g.sub(k, c.Rng.IntN(3), c.Rng.IntN(3)))}
				emitGtab(c, &gtab.Info{ScriptList: g.scripts(c.Rng.IntN(3), 3), FeatureList: g.features(c.Rng.IntN(3), 3), LookupList: ll}, gpos)
			}
		}},
		{Name: "mix", Quick: 80, Thor: 3000, Run: func(c *vh.Case) {
			g := gen(c)
			gpos := c.Idx%2 == 1
			nf := c.Rng.IntN(20)
			emitGtab(c, &gtab.Info{ScriptList: g.scripts(c.Rng.IntN(8), nf), FeatureList: g.features(nf, 5), LookupList: g.lookups(gpos, c.Rng.IntN(10))}, gpos)
		}},
		{Name: "many", Quick: 6, Thor: 60, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			gpos := c.Idx%2 == 1
			emitGtab(c, &gtab.Info{ScriptList: g.scripts(60, 30), FeatureList: g.features(200, 5), LookupList: g.lookups(gpos, 100+c.Rng.IntN(200))}, gpos)
		}},
		{Name: "nil", Quick: 16, Thor: 16, Run: func(c *vh.Case) {
			g := gen(c)
			info := &gtab.Info{}
			if c.Idx&1 != 0 {
				info.ScriptList = g.scripts(2, 2)
			}
			if c.Idx&2 != 0 {
				info.FeatureList = g.features(3, 2)
			}
			if c.Idx&4 != 0 {
				info.LookupList = g.lookups(c.Idx&8 != 0, 2)
			}
			emitGtab(c, info, c.Idx&8 != 0)
		}},
		{Name: "scripts", Quick: 12, Thor: 200, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			n := []int{1, 50, 200, 800}[c.Idx%4]
			s := g.scripts(min(n, len(g.tags)), 40)
			if c.Idx%4 == 1 { // about 64 KiB of data
				i := 0
				for _, t := range g.tags {
					f := s[t]
					if f == nil {
						continue
					}
					k := []int{600, 655, 660, 700}[c.Idx/4%4]
					f.Optional = nil
					for j := 0; j < k; j++ {
						f.Optional = append(f.Optional, gtab.FeatureIndex(c.Rng.IntN(65535)))
					}
					i++
				}
			}
			emitGtab(c, &gtab.Info{ScriptList: s, FeatureList: g.features(3, 2), LookupList: g.lookups(false, 1)}, false)
		}},
		{Name: "features", Quick: 12, Thor: 120, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			var f gtab.FeatureListInfo
			switch c.Idx % 4 {
			case 0:
				f = g.features(6300+c.Rng.IntN(300), 0)
			case 1:
				f = g.features(1000, 50)
			case 2:
				f = g.features(10+c.Rng.IntN(10), 6000)
			case 3:
				f = g.features(5, 3)
				for j := 32000 + c.Rng.IntN(33000); j > 0; j-- {
					f[4].Lookups = append(f[4].Lookups, gtab.LookupIndex(j))
				}
			}
			emitGtab(c, &gtab.Info{ScriptList: g.scripts(2, len(f)), FeatureList: f, LookupList: g.lookups(true, 2)}, true)
		}},
		{Name: "limit", Quick: len(allBig) * 3, Thor: len(allBig) * 40, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			k := allBig[c.Idx%len(allBig)]
			gpos := k[0] == 'p'
			if k[0] == 'c' || k[0] == 'h' {
				gpos = c.Rng.IntN(2) == 0
			}
			// look for the size where the subtable is no longer accepted
			ok := func(sz int) bool {
				ll := gtab.LookupList{g.lookup(k, gpos, g.sized(k, sz))}
				return vh.Guard(func() { (&gtab.Info{LookupList: ll}).Encode() }) == ""
			}
			lo, hi := 30000, 200000
			for hi-lo > 8 {
				mid := (lo + hi) / 2
				if ok(mid) {
					lo = mid
				} else {
					hi = mid
				}
			}
			sz := []int{lo - 16, lo + 40, 65500}[c.Idx/len(allBig)%3]
			ll := gtab.LookupList{g.lookup(k, gpos, g.sized(k, sz))}
			if c.Rng.IntN(2) == 0 {
				ll = append(ll, g.lookups(gpos, 1)...)
			}
			emitGtab(c, &gtab.Info{ScriptList: g.scripts(1, 1), FeatureList: g.features(1, 1), LookupList: ll}, gpos)
		}},
		{Name: "layout", Quick: min(len(sigs), 45), Thor: 20 * len(sigs), MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			sig := sigs[(c.Idx*7+int(env.Seed)*13)%len(sigs)]
			if c.Idx < 12 {
				// prefer the interesting cases
				var xx []string
				for _, s := range sigs {
					if strings.Contains(s, "f") && !strings.Contains(s, "plain") {
						xx = append(xx, s)
					}
				}
				if len(xx) > 0 {
					sig = xx[c.Rng.IntN(len(xx))]
				}
			}
			cs := bySig[sig][c.Rng.IntN(len(bySig[sig]))]
			gpos := c.Rng.IntN(2) == 0
			only := ""
			if c.Idx%5 == 0 {
				only = []string{"h1", "h2", "c1", "c2"}[c.Rng.IntN(4)]
			}
			var ll gtab.LookupList
			for _, x := range cs.LL {
				kk := []string{"s12", "s21", "s31", "s41", "h1"}
				if gpos {
					kk = []string{"p12", "p21", "p31", "h2"}
				}
				k := kk[c.Rng.IntN(len(kk))]
				for _, sz := range x {
					if sz > cs.Lim {
						k = map[bool]string{true: "p21", false: "h1"}[gpos]
					}
				}
				if only != "" {
					k = only
				}
				l := g.lookup(k, gpos)
				for _, sz := range x {
					if sz == 1 {
						l.Subtables = append(l.Subtables, g.sub(k, 1, 1))
					} else {
						l.Subtables = append(l.Subtables, g.sized(k, sz*65535/cs.Lim))
					}
				}
				ll = append(ll, l)
			}
			emitGtab(c, &gtab.Info{ScriptList: g.scripts(1, 2), FeatureList: g.features(2, 2), LookupList: ll}, gpos)
		}},
		{Name: "alt", Quick: 60, Thor: 3000, Run: func(c *vh.Case) {
			g := gen(c)
			gpos := c.Idx%2 == 1
			nf := c.Rng.IntN(6)
			emitAlt(c, g, &gtab.Info{ScriptList: g.scripts(c.Rng.IntN(5), nf), FeatureList: g.features(nf, 5), LookupList: g.lookups(gpos, c.Rng.IntN(8))}, gpos)
		}},
		{Name: "altbig", Quick: 2, Thor: 40, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			gpos := c.Idx%2 == 1
			ll := g.lookups(gpos, 3)
			k := []string{"s21", "p21"}[c.Idx%2]
			ll = append(ll, g.lookup(k, gpos, g.sized(k, 40000), g.sized(k, 50000)))
			emitAlt(c, g, &gtab.Info{ScriptList: g.scripts(1, 2), FeatureList: g.features(2, 5), LookupList: ll}, gpos)
		}},
		{Name: "cov", Quick: 120, Thor: 4000, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			n := c.Rng.IntN(12)
			switch c.Idx {
			case 0:
				n = 0
			case 1, 2, 3:
				n = 3000
			case 4:
				n = 40000
			}
			gg := g.glyphs(n)
			switch c.Idx {
			case 5: // all glyphs
				gg = gg[:0]
				for i := 0; i < 65536; i++ {
					gg = append(gg, i)
				}
			case 6:
				gg = everySecond(32768)
			case 7: // two glyphs of every three
				gg = gg[:0]
				for i := 0; i < 65536; i++ {
					if i%3 > 0 {
						gg = append(gg, i)
					}
				}
			}
			emitCov(c, gg)
			emitCovAlt(c, canCov(covTable(gg)), g.rawCov(gg))
		}},
		{Name: "class", Quick: 120, Thor: 4000, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			n := c.Rng.IntN(14)
			if c.Idx < 3 {
				n = []int{0, 3000, 20000}[c.Idx]
			}
			t := g.class(n, 1+c.Rng.IntN(4))
			switch c.Idx {
			case 5:
				t = alternating(0, 65535, 3)
			case 6:
				t = alternating(1, 65535, 3)
			case 7:
				t = alternating(0, 65534, 2)
			case 8:
				t = alternating(0, 65535, 1)
			case 9: // all glyphs; format 2 is possible, but larger
				t = alternating(0, 65535, 5)
				for i := 0; i < 65536; i += 1 + c.Rng.IntN(3) {
					t[glyph.ID(i)] = t[glyph.ID(max(0, i-1))]
				}
			}
			emitClass(c, t)
			if b := g.rawClass(t); b != nil {
				emitClassAlt(c, canClass(t), b)
			}
		}},
		{Name: "tabs", Quick: min(40, len(tabs)/20), Thor: len(tabs) / 20, Run: func(c *vh.Case) {
			for i := 0; i < 20; i++ {
				t := tabs[(c.Idx*20+i)*7919%len(tabs)]
				if t.In == nil {
					t.In = ranges{}
				}
				if t.K == "cov" {
					in := ranges{}
					gg := []int{}
					for _, x := range t.In {
						in = append(in, x[:2])
						for k := x[0]; k <= x[1]; k++ {
							gg = append(gg, k)
						}
					}
					emitCovAlt(c, in, toBytes(t.B))
					emitCov(c, gg)
				} else {
					cl := classdef.Table{}
					for _, x := range t.In {
						for k := x[0]; k <= x[1]; k++ {
							cl[glyph.ID(k)] = uint16(x[2])
						}
					}
					emitClassAlt(c, t.In, toBytes(t.B))
					emitClass(c, cl)
				}
			}
		}},
		{Name: "gdef", Quick: 80, Thor: 2000, MaxSec: 60, Run: func(c *vh.Case) {
			g := gen(c)
			t := &gdef.Table{}
			if c.Rng.IntN(4) > 0 {
				t.GlyphClass = g.class(c.Rng.IntN(40), 4)
			}
			if c.Rng.IntN(3) > 0 {
				t.MarkAttachClass = g.class(c.Rng.IntN(40), 20)
			}
			if c.Rng.IntN(3) > 0 {
				t.MarkGlyphSets = g.sets(c.Rng.IntN(5), 20)
			}
			switch c.Idx {
			case 0: // the first table is large
				t.GlyphClass = alternating(100, 40000, 4)
				t.MarkAttachClass = g.class(50, 7)
			case 1: // both tables are large
				t.GlyphClass = alternating(100, 40000, 4)
				t.MarkAttachClass = alternating(100, 40000, 3)
			case 2: // just fits
				t.GlyphClass = alternating(100, 20000, 4)
				t.MarkAttachClass = alternating(100, 12000, 3)
			case 3:
				t.MarkGlyphSets = g.sets(300, 5)
			case 4: // large sets
				for i := 0; i < 4; i++ {
					t.MarkGlyphSets = append(t.MarkGlyphSets, covSet(everySecond(15000+i)))
				}
			case 5: // large sets and classes
				t.GlyphClass = alternating(100, 20000, 4)
				t.MarkAttachClass = alternating(100, 20000, 3)
				t.MarkGlyphSets = []coverage.Set{covSet(everySecond(30000)), covSet([]int{1, 5}), covSet(everySecond(20000))}
			}
			emitGdef(c, t)
		}},
		{Name: "badcov", Quick: 30, Thor: 500, Run: func(c *vh.Case) {
			gg := gen(c).glyphs(2 + c.Rng.IntN(6))
			t := covTable(gg)
			n := len(gg)
			i := c.Rng.IntN(n)
			j := (i + 1 + c.Rng.IntN(n-1)) % n
			a, b := glyph.ID(gg[i]), glyph.ID(gg[j])
			switch c.Idx % 4 {
			case 0: // not monotonic
				t[a], t[b] = t[b], t[a]
			case 1: // not injective
				t[a] = t[b]
			case 2: // not surjective
				t[glyph.ID(gg[n-1])] = n
			case 3:
				t[a] = -1
			}
			rec := vh.Rec{"t": "badcov", "panic": false, "in": fmt.Sprint(t)}
			if msg := vh.Guard(func() { t.Encode() }); msg != "" {
				rec["panic"] = true
			}
			c.Emit(rec)
		}},
	}
}
