package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// The types below are the JSON form of the tables of the Shaper
// specification.

type shRule struct {
	Inp  []json.RawMessage `json:"inp"`
	Back []json.RawMessage `json:"back"`
	Look []json.RawMessage `json:"look"`
	Act  [][2]int          `json:"act"`
}

type shLig struct {
	Inp []int `json:"inp"`
	Out int   `json:"out"`
}

type shPair struct {
	L int   `json:"l"`
	R int   `json:"r"`
	A []int `json:"a"`
	B []int `json:"b"`
}

type shAdj struct {
	A []int `json:"a"`
	B []int `json:"b"`
}

type shCDs struct {
	Inp  [][2]int `json:"inp"`
	Back [][2]int `json:"back"`
	Look [][2]int `json:"look"`
}

type shRec struct {
	En [2]int `json:"en"`
	Ex [2]int `json:"ex"`
}

type shMark struct {
	C int `json:"c"`
	X int `json:"x"`
	Y int `json:"y"`
}

type shSub struct {
	K     string
	Ch    bool // chained form
	Fmt   int  // for p1
	Cov   []int
	D     int
	Sub   []int
	Rep   [][]int
	Ligs  [][]shLig
	Back  [][]int
	Look  [][]int
	Rules [][]shRule
	CDs   shCDs
	Val   [][]int
	Pairs []shPair
	C1    [][2]int
	C2    [][2]int
	Adj   [][]shAdj
	Recs  []shRec
	Mcov  []int
	Bcov  []int
	Marks []shMark
	Bases [][][2]int
}

func nn[T any](x []T) []T {
	if x == nil {
		return []T{}
	}
	return x
}

func nn2[T any](x [][]T) [][]T {
	res := make([][]T, len(x))
	for i := range x {
		res[i] = nn(x[i])
	}
	return res
}

func nnRules(x []shRule) []shRule {
	res := make([]shRule, len(x))
	for i, r := range x {
		res[i] = shRule{nn(r.Inp), nn(r.Back), nn(r.Look), nn(r.Act)}
	}
	return res
}

// MarshalJSON writes only the fields which belong to the kind of subtable.
func (s shSub) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": s.K}
	switch s.K {
	case "s1d":
		m["cov"], m["d"] = nn(s.Cov), s.D
	case "s1":
		m["cov"], m["sub"] = nn(s.Cov), nn(s.Sub)
	case "s2", "s3":
		m["cov"], m["rep"] = nn(s.Cov), nn2(s.Rep)
	case "s4":
		ligs := nn2(s.Ligs)
		for _, l := range ligs {
			for i := range l {
				l[i].Inp = nn(l[i].Inp)
			}
		}
		m["cov"], m["ligs"] = nn(s.Cov), ligs
	case "s8":
		m["cov"], m["sub"], m["back"], m["look"] = nn(s.Cov), nn(s.Sub), nn2(s.Back), nn2(s.Look)
	case "ctx1", "ctx2":
		rr := make([][]shRule, len(s.Rules))
		for i := range rr {
			rr[i] = nnRules(s.Rules[i])
		}
		m["cov"], m["rules"], m["ch"] = nn(s.Cov), rr, s.Ch
		if s.K == "ctx2" {
			m["cds"] = shCDs{nn(s.CDs.Inp), nn(s.CDs.Back), nn(s.CDs.Look)}
		}
	case "ctx3":
		m["cov"], m["rules"], m["ch"] = nn(s.Cov), nnRules(s.Rules[0]), s.Ch
	case "p1":
		m["cov"], m["val"], m["fmt"] = nn(s.Cov), nn2(s.Val), s.Fmt
	case "p2g":
		pp := make([]shPair, len(s.Pairs))
		for i, p := range s.Pairs {
			pp[i] = shPair{p.L, p.R, nn(p.A), nn(p.B)}
		}
		m["pairs"] = pp
	case "p2c":
		aa := make([][]shAdj, len(s.Adj))
		for i := range aa {
			aa[i] = []shAdj{}
			for _, a := range s.Adj[i] {
				aa[i] = append(aa[i], shAdj{nn(a.A), nn(a.B)})
			}
		}
		m["cov"], m["c1"], m["c2"], m["adj"] = nn(s.Cov), nn(s.C1), nn(s.C2), aa
	case "p3":
		m["cov"], m["recs"] = nn(s.Cov), nn(s.Recs)
	case "p4", "p6":
		m["mcov"], m["bcov"], m["marks"], m["bases"] = nn(s.Mcov), nn(s.Bcov), nn(s.Marks), nn2(s.Bases)
	default:
		return nil, fmt.Errorf("unknown kind %q", s.K)
	}
	return json.Marshal(m)
}

// UnmarshalJSON reads a subtable written by the specification.
func (s *shSub) UnmarshalJSON(b []byte) error {
	var m struct {
		K     string          `json:"k"`
		Ch    bool            `json:"ch"`
		Fmt   int             `json:"fmt"`
		Cov   []int           `json:"cov"`
		D     int             `json:"d"`
		Sub   []int           `json:"sub"`
		Rep   [][]int         `json:"rep"`
		Ligs  [][]shLig       `json:"ligs"`
		Back  [][]int         `json:"back"`
		Look  [][]int         `json:"look"`
		Rules json.RawMessage `json:"rules"`
		CDs   shCDs           `json:"cds"`
		Val   [][]int         `json:"val"`
		Pairs []shPair        `json:"pairs"`
		C1    [][2]int        `json:"c1"`
		C2    [][2]int        `json:"c2"`
		Adj   [][]shAdj       `json:"adj"`
		Recs  []shRec         `json:"recs"`
		Mcov  []int           `json:"mcov"`
		Bcov  []int           `json:"bcov"`
		Marks []shMark        `json:"marks"`
		Bases [][][2]int      `json:"bases"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*s = shSub{K: m.K, Ch: m.Ch, Fmt: m.Fmt, Cov: m.Cov, D: m.D, Sub: m.Sub, Rep: m.Rep, Ligs: m.Ligs,
		Back: m.Back, Look: m.Look, CDs: m.CDs, Val: m.Val, Pairs: m.Pairs, C1: m.C1, C2: m.C2,
		Adj: m.Adj, Recs: m.Recs, Mcov: m.Mcov, Bcov: m.Bcov, Marks: m.Marks, Bases: m.Bases}
	if len(m.Rules) > 0 {
		if m.K == "ctx3" {
			s.Rules = make([][]shRule, 1)
			return json.Unmarshal(m.Rules, &s.Rules[0])
		}
		return json.Unmarshal(m.Rules, &s.Rules)
	}
	return nil
}

type shFlags struct {
	B bool `json:"b"`
	L bool `json:"l"`
	M bool `json:"m"`
	F bool `json:"f"`
	A int  `json:"a"`
}

type shLookup struct {
	Fl   shFlags `json:"fl"`
	Mfs  int     `json:"mfs"`
	Subs []shSub `json:"subs"`
}

type shGdef struct {
	Has  bool     `json:"has"`
	Cls  [][2]int `json:"cls"`
	Hmac bool     `json:"hmac"`
	Mac  [][2]int `json:"mac"`
	Sets [][]int  `json:"sets"`
}

type shGlyph struct {
	G int   `json:"g"`
	T []int `json:"t"`
	X int   `json:"x"`
	Y int   `json:"y"`
	W int   `json:"w"`
}

type shTables struct {
	LL []shLookup `json:"ll"`
	GD shGdef     `json:"gd"`
	LK []int      `json:"lk"`

	pos bool // a table of positioning lookups, whatever the subtables are
}

type shCase struct {
	shTables
	In []shGlyph `json:"in"`
}

// ---------------------------------------------------------------- to gtab

func gids(x []int) []glyph.ID {
	res := make([]glyph.ID, len(x))
	for i, g := range x {
		res[i] = glyph.ID(g)
	}
	return res
}

func covTable(x []int) coverage.Table {
	res := coverage.Table{}
	for i, g := range x {
		if _, ok := res[glyph.ID(g)]; !ok {
			res[glyph.ID(g)] = i
		}
	}
	return res
}

func covSet(x []int) coverage.Set {
	res := coverage.Set{}
	for _, g := range x {
		res[glyph.ID(g)] = true
	}
	return res
}

func classTable(x [][2]int) classdef.Table {
	res := classdef.Table{}
	for i := len(x) - 1; i >= 0; i-- {
		res[glyph.ID(x[i][0])] = uint16(x[i][1])
	}
	return res
}

func rawInts(x []json.RawMessage) []int {
	res := make([]int, len(x))
	for i, m := range x {
		if err := json.Unmarshal(m, &res[i]); err != nil {
			panic(err)
		}
	}
	return res
}

func rawSets(x []json.RawMessage) []coverage.Set {
	res := make([]coverage.Set, len(x))
	for i, m := range x {
		var s []int
		if err := json.Unmarshal(m, &s); err != nil {
			panic(err)
		}
		res[i] = covSet(s)
	}
	return res
}

func u16s(x []int) []uint16 {
	res := make([]uint16, len(x))
	for i, g := range x {
		res[i] = uint16(g)
	}
	return res
}

func acts(x [][2]int) []gtab.SeqLookup {
	res := make([]gtab.SeqLookup, len(x))
	for i, a := range x {
		res[i] = gtab.SeqLookup{SequenceIndex: uint16(a[0]), LookupListIndex: gtab.LookupIndex(a[1])}
	}
	return res
}

func valRec(v []int) *gtab.GposValueRecord {
	if len(v) == 0 {
		return nil
	}
	return &gtab.GposValueRecord{XPlacement: funit.Int16(v[0]), YPlacement: funit.Int16(v[1]), XAdvance: funit.Int16(v[2])}
}

func anch(a [2]int) anchor.Table { return anchor.Table{X: funit.Int16(a[0]), Y: funit.Int16(a[1])} }

// subType gives the lookup type of a subtable kind.
func (s *shSub) subType(gpos bool) uint16 {
	switch s.K {
	case "s1d", "s1", "p1":
		return 1
	case "s2", "p2g", "p2c":
		return 2
	case "s3", "p3":
		return 3
	case "s4", "p4":
		return 4
	case "s8":
		return 8
	case "p6":
		return 6
	}
	t := uint16(5)
	if s.Ch {
		t = 6
	}
	if gpos {
		t += 2
	}
	return t
}

func (s *shSub) toGtab() gtab.Subtable {
	switch s.K {
	case "s1d":
		return &gtab.Gsub1_1{Cov: covSet(s.Cov), Delta: glyph.ID(s.D)}
	case "s1":
		return &gtab.Gsub1_2{Cov: covTable(s.Cov), SubstituteGlyphIDs: gids(s.Sub)}
	case "s2", "s3":
		rep := make([][]glyph.ID, len(s.Rep))
		for i, r := range s.Rep {
			rep[i] = gids(r)
		}
		if s.K == "s2" {
			return &gtab.Gsub2_1{Cov: covTable(s.Cov), Repl: rep}
		}
		return &gtab.Gsub3_1{Cov: covTable(s.Cov), Alternates: rep}
	case "s4":
		rep := make([][]gtab.Ligature, len(s.Ligs))
		for i, ll := range s.Ligs {
			for _, l := range ll {
				rep[i] = append(rep[i], gtab.Ligature{In: gids(l.Inp), Out: glyph.ID(l.Out)})
			}
		}
		return &gtab.Gsub4_1{Cov: covTable(s.Cov), Repl: rep}
	case "s8":
		res := &gtab.Gsub8_1{Input: covTable(s.Cov), SubstituteGlyphIDs: gids(s.Sub)}
		for _, c := range s.Back {
			res.Backtrack = append(res.Backtrack, covTable(sorted(c)))
		}
		for _, c := range s.Look {
			res.Lookahead = append(res.Lookahead, covTable(sorted(c)))
		}
		return res
	case "ctx1":
		if !s.Ch {
			res := &gtab.SeqContext1{Cov: covTable(s.Cov), Rules: make([][]*gtab.SeqRule, len(s.Rules))}
			for i, rr := range s.Rules {
				for _, r := range rr {
					res.Rules[i] = append(res.Rules[i], &gtab.SeqRule{Input: gids(rawInts(r.Inp)), Actions: acts(r.Act)})
				}
			}
			return res
		}
		res := &gtab.ChainedSeqContext1{Cov: covTable(s.Cov), Rules: make([][]*gtab.ChainedSeqRule, len(s.Rules))}
		for i, rr := range s.Rules {
			for _, r := range rr {
				res.Rules[i] = append(res.Rules[i], &gtab.ChainedSeqRule{
					Backtrack: gids(rawInts(r.Back)), Input: gids(rawInts(r.Inp)), Lookahead: gids(rawInts(r.Look)), Actions: acts(r.Act)})
			}
		}
		return res
	case "ctx2":
		if !s.Ch {
			res := &gtab.SeqContext2{Cov: covTable(s.Cov), Input: classTable(s.CDs.Inp), Rules: make([][]*gtab.ClassSeqRule, len(s.Rules))}
			for i, rr := range s.Rules {
				for _, r := range rr {
					res.Rules[i] = append(res.Rules[i], &gtab.ClassSeqRule{Input: u16s(rawInts(r.Inp)), Actions: acts(r.Act)})
				}
			}
			return res
		}
		res := &gtab.ChainedSeqContext2{Cov: covTable(s.Cov), Input: classTable(s.CDs.Inp),
			Backtrack: classTable(s.CDs.Back), Lookahead: classTable(s.CDs.Look), Rules: make([][]*gtab.ChainedClassSeqRule, len(s.Rules))}
		for i, rr := range s.Rules {
			for _, r := range rr {
				res.Rules[i] = append(res.Rules[i], &gtab.ChainedClassSeqRule{
					Backtrack: u16s(rawInts(r.Back)), Input: u16s(rawInts(r.Inp)), Lookahead: u16s(rawInts(r.Look)), Actions: acts(r.Act)})
			}
		}
		return res
	case "ctx3":
		r := s.Rules[0][0]
		inp := append([]coverage.Set{covSet(s.Cov)}, rawSets(r.Inp)...)
		if !s.Ch {
			return &gtab.SeqContext3{Input: inp, Actions: acts(r.Act)}
		}
		return &gtab.ChainedSeqContext3{Backtrack: rawSets(r.Back), Input: inp, Lookahead: rawSets(r.Look), Actions: acts(r.Act)}
	case "p1":
		if s.Fmt == 1 {
			var v []int
			if len(s.Val) > 0 {
				v = s.Val[0]
			}
			return &gtab.Gpos1_1{Cov: covTable(s.Cov), Adjust: valRec(v)}
		}
		res := &gtab.Gpos1_2{Cov: covTable(s.Cov)}
		for _, v := range s.Val {
			res.Adjust = append(res.Adjust, valRec(v))
		}
		return res
	case "p2g":
		res := gtab.Gpos2_1{}
		for _, p := range s.Pairs {
			res[glyph.Pair{Left: glyph.ID(p.L), Right: glyph.ID(p.R)}] = &gtab.PairAdjust{First: valRec(p.A), Second: valRec(p.B)}
		}
		return res
	case "p2c":
		res := &gtab.Gpos2_2{Cov: covSet(s.Cov), Class1: classTable(s.C1), Class2: classTable(s.C2)}
		for _, row := range s.Adj {
			var rr []*gtab.PairAdjust
			for _, a := range row {
				rr = append(rr, &gtab.PairAdjust{First: valRec(a.A), Second: valRec(a.B)})
			}
			res.Adjust = append(res.Adjust, rr)
		}
		return res
	case "p3":
		res := &gtab.Gpos3_1{Cov: covTable(s.Cov)}
		for _, r := range s.Recs {
			res.Records = append(res.Records, gtab.EntryExitRecord{Entry: anch(r.En), Exit: anch(r.Ex)})
		}
		return res
	case "p4", "p6":
		var marks []markarray.Record
		for _, m := range s.Marks {
			marks = append(marks, markarray.Record{Class: uint16(m.C), Table: anch([2]int{m.X, m.Y})})
		}
		bases := make([][]anchor.Table, len(s.Bases))
		for i, bb := range s.Bases {
			for _, b := range bb {
				bases[i] = append(bases[i], anch(b))
			}
		}
		if s.K == "p4" {
			return &gtab.Gpos4_1{MarkCov: covTable(s.Mcov), BaseCov: covTable(s.Bcov), MarkArray: marks, BaseArray: bases}
		}
		return &gtab.Gpos6_1{Mark1Cov: covTable(s.Mcov), Mark2Cov: covTable(s.Bcov), Mark1Array: marks, Mark2Array: bases}
	}
	panic("unknown kind " + s.K)
}

func sorted(x []int) []int {
	y := append([]int(nil), x...)
	sort.Ints(y)
	return y
}

func (f shFlags) toGtab() gtab.LookupFlags {
	var res gtab.LookupFlags
	if f.B {
		res |= gtab.IgnoreBaseGlyphs
	}
	if f.L {
		res |= gtab.IgnoreLigatures
	}
	if f.M {
		res |= gtab.IgnoreMarks
	}
	if f.F {
		res |= gtab.UseMarkFilteringSet
	}
	return res | gtab.LookupFlags(f.A<<8)
}

func (t *shTables) gpos() bool {
	if t.pos {
		return true
	}
	for _, l := range t.LL {
		for _, s := range l.Subs {
			if s.K[0] == 'p' {
				return true
			}
		}
	}
	return false
}

func (t *shTables) toGtab() (gtab.LookupList, *gdef.Table, []gtab.LookupIndex) {
	gpos := t.gpos()
	var ll gtab.LookupList
	for _, l := range t.LL {
		lt := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupFlags: l.Fl.toGtab(), MarkFilteringSet: uint16(l.Mfs)}}
		for i := range l.Subs {
			lt.Meta.LookupType = l.Subs[i].subType(gpos)
			lt.Subtables = append(lt.Subtables, l.Subs[i].toGtab())
		}
		ll = append(ll, lt)
	}
	var lk []gtab.LookupIndex
	for _, i := range t.LK {
		lk = append(lk, gtab.LookupIndex(i))
	}
	return ll, t.GD.toGtab(), lk
}

func (g *shGdef) toGtab() *gdef.Table {
	if !g.Has {
		return nil
	}
	res := &gdef.Table{GlyphClass: classTable(g.Cls)}
	if g.Hmac {
		res.MarkAttachClass = classTable(g.Mac)
	}
	for _, s := range g.Sets {
		res.MarkGlyphSets = append(res.MarkGlyphSets, covSet(s))
	}
	return res
}

func toSeq(in []shGlyph) []glyph.Info {
	res := make([]glyph.Info, len(in))
	for i, g := range in {
		res[i].GID = glyph.ID(g.G)
		for _, r := range g.T {
			res[i].Text = append(res[i].Text, rune(r))
		}
		res[i].XOffset, res[i].YOffset, res[i].Advance = funit.Int16(g.X), funit.Int16(g.Y), funit.Int16(g.W)
	}
	return res
}

func fromSeq(in []glyph.Info) []shGlyph {
	res := make([]shGlyph, len(in))
	for i, g := range in {
		t := make([]int, len(g.Text))
		for j, r := range g.Text {
			t[j] = int(r)
		}
		res[i] = shGlyph{int(g.GID), t, int(g.XOffset), int(g.YOffset), int(g.Advance)}
	}
	return res
}

// ------------------------------------------------------------ from gtab

func unGids(x []glyph.ID) []int {
	res := make([]int, len(x))
	for i, g := range x {
		res[i] = int(g)
	}
	return res
}

func unCov(x coverage.Table) []int {
	n := 0
	for _, i := range x {
		n = max(n, i+1)
	}
	res := make([]int, n)
	for i := range res {
		res[i] = -1 - i
	}
	for g, i := range x {
		res[i] = int(g)
	}
	return res
}

func unSet(x coverage.Set) []int {
	res := []int{}
	for g, ok := range x {
		if ok {
			res = append(res, int(g))
		}
	}
	sort.Ints(res)
	return res
}

func unClass(x classdef.Table) [][2]int {
	res := [][2]int{}
	for g, c := range x {
		res = append(res, [2]int{int(g), int(c)})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func raws[T any](x []T) []json.RawMessage {
	res := make([]json.RawMessage, len(x))
	for i := range x {
		res[i], _ = json.Marshal(x[i])
	}
	return res
}

func unSets(x []coverage.Set) []json.RawMessage {
	y := make([][]int, len(x))
	for i := range x {
		y[i] = unSet(x[i])
	}
	return raws(y)
}

func unActs(x []gtab.SeqLookup) [][2]int {
	res := make([][2]int, len(x))
	for i, a := range x {
		res[i] = [2]int{int(a.SequenceIndex), int(a.LookupListIndex)}
	}
	return res
}

// unVal converts a value record; ok is false if the record uses features
// which are outside the specification.
func unVal(v *gtab.GposValueRecord) ([]int, bool) {
	if v == nil {
		return []int{}, true
	}
	ok := v.YAdvance == 0 && v.XPlacementDevOffs == 0 && v.YPlacementDevOffs == 0 && v.XAdvanceDevOffs == 0 && v.YAdvanceDevOffs == 0
	return []int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance)}, ok
}

func unAnch(a anchor.Table) [2]int { return [2]int{int(a.X), int(a.Y)} }

func fromGtabSub(st gtab.Subtable) (shSub, bool) {
	switch l := st.(type) {
	case *gtab.Gsub1_1:
		return shSub{K: "s1d", Cov: unSet(l.Cov), D: int(l.Delta)}, true
	case *gtab.Gsub1_2:
		return shSub{K: "s1", Cov: unCov(l.Cov), Sub: unGids(l.SubstituteGlyphIDs)}, true
	case *gtab.Gsub2_1:
		s := shSub{K: "s2", Cov: unCov(l.Cov)}
		for _, r := range l.Repl {
			s.Rep = append(s.Rep, unGids(r))
		}
		return s, true
	case *gtab.Gsub3_1:
		s := shSub{K: "s3", Cov: unCov(l.Cov)}
		for _, r := range l.Alternates {
			s.Rep = append(s.Rep, unGids(r))
		}
		return s, true
	case *gtab.Gsub4_1:
		s := shSub{K: "s4", Cov: unCov(l.Cov), Ligs: make([][]shLig, len(l.Repl))}
		for i, ll := range l.Repl {
			for _, lig := range ll {
				s.Ligs[i] = append(s.Ligs[i], shLig{unGids(lig.In), int(lig.Out)})
			}
		}
		return s, true
	case *gtab.Gsub8_1:
		s := shSub{K: "s8", Cov: unCov(l.Input), Sub: unGids(l.SubstituteGlyphIDs)}
		for _, c := range l.Backtrack {
			s.Back = append(s.Back, unCov(c))
		}
		for _, c := range l.Lookahead {
			s.Look = append(s.Look, unCov(c))
		}
		return s, true
	case *gtab.SeqContext1:
		s := shSub{K: "ctx1", Cov: unCov(l.Cov), Rules: make([][]shRule, len(l.Rules))}
		for i, rr := range l.Rules {
			for _, r := range rr {
				s.Rules[i] = append(s.Rules[i], shRule{Inp: raws(unGids(r.Input)), Act: unActs(r.Actions)})
			}
		}
		return s, true
	case *gtab.SeqContext2:
		s := shSub{K: "ctx2", Cov: unCov(l.Cov), Rules: make([][]shRule, len(l.Rules)), CDs: shCDs{Inp: unClass(l.Input)}}
		for i, rr := range l.Rules {
			for _, r := range rr {
				s.Rules[i] = append(s.Rules[i], shRule{Inp: raws(r.Input), Act: unActs(r.Actions)})
			}
		}
		return s, true
	case *gtab.SeqContext3:
		if len(l.Input) == 0 {
			return shSub{}, false
		}
		return shSub{K: "ctx3", Cov: unSet(l.Input[0]), Rules: [][]shRule{{{Inp: unSets(l.Input[1:]), Act: unActs(l.Actions)}}}}, true
	case *gtab.ChainedSeqContext1:
		s := shSub{K: "ctx1", Ch: true, Cov: unCov(l.Cov), Rules: make([][]shRule, len(l.Rules))}
		for i, rr := range l.Rules {
			for _, r := range rr {
				s.Rules[i] = append(s.Rules[i], shRule{Inp: raws(unGids(r.Input)), Back: raws(unGids(r.Backtrack)), Look: raws(unGids(r.Lookahead)), Act: unActs(r.Actions)})
			}
		}
		return s, true
	case *gtab.ChainedSeqContext2:
		s := shSub{K: "ctx2", Ch: true, Cov: unCov(l.Cov), Rules: make([][]shRule, len(l.Rules)),
			CDs: shCDs{Inp: unClass(l.Input), Back: unClass(l.Backtrack), Look: unClass(l.Lookahead)}}
		for i, rr := range l.Rules {
			for _, r := range rr {
				s.Rules[i] = append(s.Rules[i], shRule{Inp: raws(r.Input), Back: raws(r.Backtrack), Look: raws(r.Lookahead), Act: unActs(r.Actions)})
			}
		}
		return s, true
	case *gtab.ChainedSeqContext3:
		if len(l.Input) == 0 {
			return shSub{}, false
		}
		return shSub{K: "ctx3", Ch: true, Cov: unSet(l.Input[0]), Rules: [][]shRule{{{Inp: unSets(l.Input[1:]),
			Back: unSets(l.Backtrack), Look: unSets(l.Lookahead), Act: unActs(l.Actions)}}}}, true
	case *gtab.Gpos1_1:
		v, ok := unVal(l.Adjust)
		s := shSub{K: "p1", Fmt: 1, Cov: unCov(l.Cov)}
		for range s.Cov {
			s.Val = append(s.Val, v)
		}
		return s, ok
	case *gtab.Gpos1_2:
		s := shSub{K: "p1", Fmt: 2, Cov: unCov(l.Cov)}
		ok := true
		for _, a := range l.Adjust {
			v, k := unVal(a)
			ok = ok && k
			s.Val = append(s.Val, v)
		}
		return s, ok
	case gtab.Gpos2_1:
		s := shSub{K: "p2g"}
		ok := true
		for p, a := range l {
			v, k1 := unVal(a.First)
			w, k2 := unVal(a.Second)
			ok = ok && k1 && k2
			s.Pairs = append(s.Pairs, shPair{int(p.Left), int(p.Right), v, w})
		}
		sort.Slice(s.Pairs, func(i, j int) bool {
			return s.Pairs[i].L<<16+s.Pairs[i].R < s.Pairs[j].L<<16+s.Pairs[j].R
		})
		return s, ok
	case *gtab.Gpos2_2:
		s := shSub{K: "p2c", Cov: unSet(l.Cov), C1: unClass(l.Class1), C2: unClass(l.Class2)}
		ok := true
		for _, row := range l.Adjust {
			rr := []shAdj{}
			for _, a := range row {
				v, k1 := unVal(a.First)
				w, k2 := unVal(a.Second)
				ok = ok && k1 && k2
				rr = append(rr, shAdj{v, w})
			}
			s.Adj = append(s.Adj, rr)
		}
		return s, ok
	case *gtab.Gpos3_1:
		s := shSub{K: "p3", Cov: unCov(l.Cov)}
		for _, r := range l.Records {
			s.Recs = append(s.Recs, shRec{En: unAnch(r.Entry), Ex: unAnch(r.Exit)})
		}
		return s, true
	case *gtab.Gpos4_1:
		return unMarks("p4", l.MarkCov, l.BaseCov, l.MarkArray, l.BaseArray), true
	case *gtab.Gpos6_1:
		return unMarks("p6", l.Mark1Cov, l.Mark2Cov, l.Mark1Array, l.Mark2Array), true
	}
	return shSub{}, false
}

func unMarks(k string, mc, bc coverage.Table, ma []markarray.Record, ba [][]anchor.Table) shSub {
	s := shSub{K: k, Mcov: unCov(mc), Bcov: unCov(bc)}
	for _, m := range ma {
		s.Marks = append(s.Marks, shMark{int(m.Class), int(m.X), int(m.Y)})
	}
	for _, b := range ba {
		bb := [][2]int{}
		for _, a := range b {
			bb = append(bb, unAnch(a))
		}
		s.Bases = append(s.Bases, bb)
	}
	return s
}

func fromGtab(ll gtab.LookupList, gd *gdef.Table, lk []gtab.LookupIndex) (*shTables, bool) {
	res := &shTables{LL: []shLookup{}, LK: []int{}}
	for _, l := range ll {
		f := l.Meta.LookupFlags
		sl := shLookup{
			Fl: shFlags{B: f&gtab.IgnoreBaseGlyphs != 0, L: f&gtab.IgnoreLigatures != 0, M: f&gtab.IgnoreMarks != 0,
				F: f&gtab.UseMarkFilteringSet != 0, A: int(f >> 8)},
			Mfs: int(l.Meta.MarkFilteringSet), Subs: []shSub{}}
		for _, st := range l.Subtables {
			if _, isLig := st.(*gtab.Gpos5_1); isLig {
				continue // not implemented in the library: never applies
			}
			s, ok := fromGtabSub(st)
			if !ok {
				return nil, false
			}
			sl.Subs = append(sl.Subs, s)
		}
		res.LL = append(res.LL, sl)
	}
	for _, i := range lk {
		res.LK = append(res.LK, int(i))
	}
	res.GD = fromGdef(gd)
	return res, true
}

func fromGdef(gd *gdef.Table) shGdef {
	res := shGdef{Cls: [][2]int{}, Mac: [][2]int{}, Sets: [][]int{}}
	if gd == nil {
		return res
	}
	if gd.GlyphClass != nil {
		res.Has = true
		res.Cls = unClass(gd.GlyphClass)
	}
	if gd.MarkAttachClass != nil {
		res.Hmac = true
		res.Mac = unClass(gd.MarkAttachClass)
	}
	for _, s := range gd.MarkGlyphSets {
		res.Sets = append(res.Sets, unSet(s))
	}
	return res
}

// ------------------------------------------------------- random generation

type shGen struct {
	rng  *rand.Rand
	ng   int // glyph ids are 1..ng
	nl   int // number of lookups
	gpos bool
	back bool // may contain reverse chaining
	wild bool // may contain inconsistent tables
	deep bool // many nested actions, self-reference
	filt bool // every lookup filters marks
	span int  // size of numbers
}

func (g *shGen) gid() int { return 1 + g.rng.IntN(g.ng) }

// cov returns a non-empty ascending glyph list.
func (g *shGen) cov(p float64) []int {
	res := []int{}
	for i := 1; i <= g.ng; i++ {
		if g.rng.Float64() < p {
			res = append(res, i)
		}
	}
	if len(res) == 0 {
		res = append(res, g.gid())
	}
	return res
}

func (g *shGen) gidList(lo, hi int) []int {
	n := lo + g.rng.IntN(hi-lo+1)
	res := make([]int, n)
	for i := range res {
		res[i] = g.gid()
	}
	return res
}

func (g *shGen) class(n int) [][2]int {
	res := [][2]int{}
	for i := 1; i <= g.ng; i++ {
		if c := g.rng.IntN(n + 1); c > 0 {
			res = append(res, [2]int{i, c})
		}
	}
	return res
}

func (g *shGen) actions(inLen int) [][2]int {
	n := g.rng.IntN(4)
	if g.rng.IntN(5) > 0 {
		n = 1 + g.rng.IntN(3)
	}
	if g.deep && g.rng.IntN(3) > 0 {
		if g.rng.IntN(6) == 0 {
			n = 60 + g.rng.IntN(10)
		}
		res := make([][2]int, n)
		for i := range res {
			res[i] = [2]int{g.rng.IntN(inLen + g.rng.IntN(4)), g.rng.IntN(g.nl)}
			if g.rng.IntN(20) == 0 {
				res[i][g.rng.IntN(2)] = g.rng.IntN(65536)
			}
		}
		return res
	}
	res := make([][2]int, n)
	for i := range res {
		si := g.rng.IntN(inLen)
		if g.rng.IntN(12) == 0 {
			si = g.rng.IntN(inLen + 3)
		}
		li := g.rng.IntN(g.nl)
		if g.nl > 1 && g.rng.IntN(10) > 0 {
			li = 1 + g.rng.IntN(g.nl-1)
		}
		if g.rng.IntN(30) == 0 {
			li = g.nl + g.rng.IntN(2)
		}
		res[i] = [2]int{si, li}
	}
	return res
}

func (g *shGen) num() int { return g.rng.IntN(2*g.span+1) - g.span }

func (g *shGen) val(nilOK bool) []int {
	if nilOK && g.rng.IntN(3) == 0 {
		return []int{}
	}
	v := []int{g.num(), g.num(), g.num()}
	for i := range v {
		if g.rng.IntN(4) == 0 {
			v[i] = 0
		}
	}
	return v
}

func (g *shGen) anchor() [2]int {
	if g.rng.IntN(8) == 0 {
		return [2]int{0, 0}
	}
	return [2]int{g.num(), g.num()}
}

func (g *shGen) ctxSub(ch bool) shSub {
	rng := g.rng
	ctxLen := func() (int, int, int) {
		n := []int{0, 1, 1, 2, 2, 3}[rng.IntN(6)]
		if !ch {
			return n, 0, 0
		}
		return n, []int{0, 0, 1, 1, 2}[rng.IntN(5)], []int{0, 0, 1, 1, 2}[rng.IntN(5)]
	}
	switch rng.IntN(3) {
	case 0:
		cov := g.cov(0.4)
		s := shSub{K: "ctx1", Ch: ch, Cov: cov, Rules: make([][]shRule, len(cov))}
		for i := range s.Rules {
			for k := rng.IntN(3); k >= 0; k-- {
				a, b, c := ctxLen()
				s.Rules[i] = append(s.Rules[i], shRule{raws(g.gidList(a, a)), raws(g.gidList(b, b)), raws(g.gidList(c, c)), g.actions(a + 1)})
			}
		}
		return s
	case 1:
		nc := 1 + rng.IntN(2)
		s := shSub{K: "ctx2", Ch: ch, Cov: g.cov(0.7)}
		s.CDs.Inp = g.class(nc)
		if ch {
			s.CDs.Back, s.CDs.Look = g.class(nc), g.class(nc)
		}
		s.Rules = make([][]shRule, nc+1)
		if g.wild && rng.IntN(3) == 0 {
			s.Rules = s.Rules[:rng.IntN(nc+1)]
		}
		cl := func(n int) []json.RawMessage {
			x := make([]int, n)
			for i := range x {
				x[i] = rng.IntN(nc + 1)
			}
			return raws(x)
		}
		for i := range s.Rules {
			for k := rng.IntN(3); k > 0; k-- {
				a, b, c := ctxLen()
				s.Rules[i] = append(s.Rules[i], shRule{cl(a), cl(b), cl(c), g.actions(a + 1)})
			}
		}
		return s
	default:
		a, b, c := ctxLen()
		cs := func(n int) []json.RawMessage {
			x := make([][]int, n)
			for i := range x {
				x[i] = g.cov(0.5)
			}
			return raws(x)
		}
		return shSub{K: "ctx3", Ch: ch, Cov: g.cov(0.6), Rules: [][]shRule{{{cs(a), cs(b), cs(c), g.actions(a + 1)}}}}
	}
}

func (g *shGen) sub(kind int) shSub {
	rng := g.rng
	if !g.gpos {
		switch kind {
		case 0:
			d := []int{1, 2, g.ng, 65535, 65534, 65536 - g.ng}[rng.IntN(6)]
			return shSub{K: "s1d", Cov: g.cov(0.3), D: d}
		case 1:
			cov := g.cov(0.5)
			return shSub{K: "s1", Cov: cov, Sub: g.gidList(len(cov), len(cov))}
		case 2, 3:
			k := "s2"
			if kind == 3 {
				k = "s3"
			}
			cov := g.cov(0.4)
			s := shSub{K: k, Cov: cov}
			for range cov {
				lo := 1
				if kind == 3 || g.wild {
					lo = 0
				}
				s.Rep = append(s.Rep, g.gidList(lo, 3))
			}
			return s
		case 4:
			cov := g.cov(0.5)
			s := shSub{K: "s4", Cov: cov, Ligs: make([][]shLig, len(cov))}
			for i := range cov {
				for k := 1 + rng.IntN(3); k > 0; k-- {
					s.Ligs[i] = append(s.Ligs[i], shLig{g.gidList(0, 3), g.gid()})
				}
				if rng.IntN(2) == 0 {
					sort.SliceStable(s.Ligs[i], func(a, b int) bool { return len(s.Ligs[i][a].Inp) > len(s.Ligs[i][b].Inp) })
				}
			}
			return s
		case 8:
			cov := g.cov(0.5)
			s := shSub{K: "s8", Cov: cov, Sub: g.gidList(len(cov), len(cov))}
			for k := rng.IntN(3); k > 0; k-- {
				s.Back = append(s.Back, g.cov(0.6))
			}
			for k := rng.IntN(3); k > 0; k-- {
				s.Look = append(s.Look, g.cov(0.6))
			}
			return s
		}
		return g.ctxSub(rng.IntN(2) == 0)
	}
	switch kind {
	case 0:
		cov := g.cov(0.5)
		s := shSub{K: "p1", Fmt: 1 + rng.IntN(2), Cov: cov}
		v := g.val(false)
		for range cov {
			s.Val = append(s.Val, v)
			if s.Fmt == 2 {
				v = g.val(false)
			}
		}
		return s
	case 1:
		s := shSub{K: "p2g"}
		for _, l := range g.cov(0.4) {
			for _, r := range g.cov(0.4) {
				s.Pairs = append(s.Pairs, shPair{l, r, g.val(true), g.val(true)})
			}
		}
		return s
	case 2:
		n1, n2 := 1+rng.IntN(2), 1+rng.IntN(2)
		s := shSub{K: "p2c", Cov: g.cov(0.6), C1: g.class(n1), C2: g.class(n2)}
		if g.wild {
			n1 = max(0, n1-rng.IntN(3))
			n2 = max(0, n2-rng.IntN(3))
		}
		sec := rng.IntN(2) == 0
		for i := 0; i <= n1; i++ {
			row := []shAdj{}
			for j := 0; j <= n2; j++ {
				a := shAdj{A: g.val(true)}
				if sec || rng.IntN(4) == 0 {
					a.B = g.val(true)
				}
				row = append(row, a)
			}
			s.Adj = append(s.Adj, row)
		}
		return s
	case 3:
		cov := g.cov(0.6)
		s := shSub{K: "p3", Cov: cov}
		for range cov {
			s.Recs = append(s.Recs, shRec{g.anchor(), g.anchor()})
		}
		return s
	case 4, 6:
		k := "p4"
		if kind == 6 {
			k = "p6"
		}
		nc := 1 + rng.IntN(2)
		s := shSub{K: k, Mcov: g.cov(0.5), Bcov: g.cov(0.5)}
		for range s.Mcov {
			c := rng.IntN(nc)
			if g.wild && rng.IntN(4) == 0 {
				c += rng.IntN(3)
			}
			a := g.anchor()
			s.Marks = append(s.Marks, shMark{c, a[0], a[1]})
		}
		for range s.Bcov {
			bb := [][2]int{}
			for i := 0; i < nc; i++ {
				bb = append(bb, g.anchor())
			}
			s.Bases = append(s.Bases, bb)
		}
		return s
	}
	return g.ctxSub(rng.IntN(2) == 0)
}

func (g *shGen) gdef() shGdef {
	rng := g.rng
	gd := shGdef{Cls: [][2]int{}, Mac: [][2]int{}, Sets: [][]int{}}
	if rng.IntN(6) == 0 && !g.filt {
		return gd
	}
	gd.Has = true
	for i := 1; i <= g.ng; i++ {
		if c := []int{0, 1, 1, 1, 2, 3, 3, 3, 4}[rng.IntN(9)]; c > 0 {
			gd.Cls = append(gd.Cls, [2]int{i, c})
		}
	}
	if rng.IntN(2) == 0 || g.filt {
		gd.Hmac = true
		gd.Mac = g.class(2)
	}
	k := rng.IntN(3)
	if g.filt {
		k = 2 + rng.IntN(2)
	}
	for ; k > 0; k-- {
		gd.Sets = append(gd.Sets, g.cov(0.5))
	}
	return gd
}

func (g *shGen) flags(gd *shGdef) (shFlags, int) {
	rng := g.rng
	var f shFlags
	mfs := 0
	if g.filt {
		switch rng.IntN(8) {
		case 0:
			f.M = true
		case 1:
		case 2, 3:
			f.A = 1 + rng.IntN(2)
		default:
			f.F = true
			mfs = rng.IntN(len(gd.Sets))
		}
		if rng.IntN(12) == 0 {
			f.L = true
		}
		return f, mfs
	}
	if rng.IntN(2) == 0 {
		f.B = rng.IntN(8) == 0
		f.L = rng.IntN(4) == 0
		f.M = rng.IntN(2) == 0
		if len(gd.Sets) > 0 || g.wild {
			f.F = rng.IntN(3) == 0
			if f.F {
				mfs = rng.IntN(max(1, len(gd.Sets)))
				if g.wild {
					mfs = rng.IntN(len(gd.Sets) + 2)
				}
			}
		}
		if rng.IntN(4) == 0 {
			f.A = rng.IntN(4)
		}
	}
	return f, mfs
}

func (g *shGen) tables() *shTables {
	rng := g.rng
	t := &shTables{GD: g.gdef(), pos: g.gpos}
	for i := 0; i < g.nl; i++ {
		var l shLookup
		l.Fl, l.Mfs = g.flags(&t.GD)
		var kind int
		if i == 0 && g.nl > 1 {
			kind = 5
		} else if g.gpos {
			kind = []int{0, 1, 2, 3, 4, 6, 5}[rng.IntN(7)]
		} else {
			kind = []int{0, 1, 2, 2, 3, 4, 4, 4, 5}[rng.IntN(9)]
			if g.back && rng.IntN(5) == 0 {
				kind = 8
			}
		}
		ns := 1
		if kind != 3 || !g.gpos {
			ns = []int{1, 1, 2, 3}[rng.IntN(4)]
		}
		if kind == 5 {
			ch := rng.IntN(2) == 0
			for k := 0; k < ns; k++ {
				l.Subs = append(l.Subs, g.ctxSub(ch))
			}
		} else {
			for k := 0; k < ns; k++ {
				l.Subs = append(l.Subs, g.sub(kind))
			}
		}
		t.LL = append(t.LL, l)
	}
	t.LK = []int{0}
	if g.nl == 1 || rng.IntN(3) == 0 {
		t.LK = t.LK[:0]
		for i := 0; i < g.nl; i++ {
			if rng.IntN(3) > 0 {
				t.LK = append(t.LK, i)
			}
		}
		if len(t.LK) == 0 {
			t.LK = append(t.LK, 0)
		}
		if rng.IntN(10) == 0 {
			t.LK = append(t.LK, g.nl+rng.IntN(3))
		}
	}
	return t
}

// ruleSeq returns glyphs which satisfy one of the rules of the tables, with
// other glyphs inserted.
func (g *shGen) ruleSeq(t *shTables) []int {
	rng := g.rng
	var res []int
	for try := 0; try < 3 && len(res) < 8; try++ {
		l := t.LL[rng.IntN(len(t.LL))]
		if len(l.Subs) == 0 {
			continue
		}
		s := &l.Subs[rng.IntN(len(l.Subs))]
		noise := func() {
			if rng.IntN(4) == 0 {
				res = append(res, g.gid())
			}
		}
		from := func(x []int) int {
			if len(x) == 0 {
				return g.gid()
			}
			return x[rng.IntN(len(x))]
		}
		inClass := func(cd [][2]int, c int) int {
			for k := 0; k < 10; k++ {
				x := g.gid()
				if classTable(cd)[glyph.ID(x)] == uint16(c) {
					return x
				}
			}
			return g.gid()
		}
		switch s.K {
		case "s4":
			if len(s.Cov) == 0 {
				continue
			}
			i := rng.IntN(len(s.Cov))
			res = append(res, s.Cov[i])
			if len(s.Ligs[i]) > 0 {
				for _, x := range s.Ligs[i][rng.IntN(len(s.Ligs[i]))].Inp {
					noise()
					res = append(res, x)
				}
			}
		case "s8":
			for i := len(s.Back) - 1; i >= 0; i-- {
				res = append(res, from(s.Back[i]))
			}
			res = append(res, from(s.Cov))
			for _, x := range s.Look {
				res = append(res, from(x))
			}
		case "ctx1", "ctx2", "ctx3":
			if len(s.Rules) == 0 {
				continue
			}
			i := rng.IntN(len(s.Rules))
			if len(s.Rules[i]) == 0 {
				continue
			}
			r := s.Rules[i][rng.IntN(len(s.Rules[i]))]
			el := func(cd [][2]int, m json.RawMessage) int {
				switch s.K {
				case "ctx1":
					return rawInts([]json.RawMessage{m})[0]
				case "ctx2":
					return inClass(cd, rawInts([]json.RawMessage{m})[0])
				}
				var x []int
				json.Unmarshal(m, &x)
				return from(x)
			}
			for i := len(r.Back) - 1; i >= 0; i-- {
				res = append(res, el(s.CDs.Back, r.Back[i]))
				noise()
			}
			first := from(s.Cov)
			switch s.K {
			case "ctx1":
				if i < len(s.Cov) {
					first = s.Cov[i]
				}
			case "ctx2":
				first = inClass(s.CDs.Inp, i)
			}
			res = append(res, first)
			for _, m := range r.Inp {
				noise()
				res = append(res, el(s.CDs.Inp, m))
			}
			for _, m := range r.Look {
				noise()
				res = append(res, el(s.CDs.Look, m))
			}
		case "p2g":
			if len(s.Pairs) > 0 {
				x := s.Pairs[rng.IntN(len(s.Pairs))]
				res = append(res, x.L)
				noise()
				res = append(res, x.R)
			}
		case "p4", "p6":
			res = append(res, from(s.Bcov))
			noise()
			res = append(res, from(s.Mcov))
		default:
			res = append(res, from(s.Cov))
		}
		if rng.IntN(3) == 0 {
			break
		}
	}
	return res
}

// seqFor generates an input sequence which is likely to match.
func (g *shGen) seqFor(t *shTables, n int) []shGlyph {
	if g.rng.IntN(3) == 0 {
		return g.seq(n)
	}
	ids := g.ruleSeq(t)
	res := g.seq(len(ids))
	for i := range res {
		res[i].G = ids[i]
	}
	return res
}

// seq generates an input sequence; runes are pairwise different.
func (g *shGen) seq(n int) []shGlyph {
	rng := g.rng
	res := make([]shGlyph, n)
	r := 'a'
	for i := range res {
		k := 1
		if x := rng.IntN(8); x == 0 {
			k = 0
		} else if x == 1 {
			k = 2
		}
		t := []int{}
		for ; k > 0; k-- {
			t = append(t, int(r))
			r++
		}
		res[i] = shGlyph{G: g.gid(), T: t}
		if g.gpos {
			if rng.IntN(4) > 0 {
				res[i].W = rng.IntN(2 * g.span)
			}
			if rng.IntN(4) == 0 {
				res[i].X, res[i].Y = g.num(), g.num()
			}
		}
	}
	return res
}
