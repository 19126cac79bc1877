package main

import (
	"bytes"
	"encoding/json"
	"math/rand/v2"

	"seehuhn.de/go/sfnt/cff"

	"vharness/vh"
)

func emitFont(c *vh.Case, f *t2Font) bool {
	data := f.build()
	var font *cff.Font
	var err error
	msg := vh.Guard(func() { font, err = cff.Read(bytes.NewReader(data)) })
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg, "font": f})
		return false
	}
	out := []any{}
	if err == nil {
		for _, g := range font.Glyphs {
			out = append(out, recGlyph(g))
		}
		c.Mark("accepted")
	} else {
		c.Mark("rejected")
	}
	es := ""
	if err != nil {
		es = err.Error()
	}
	if f.GS == nil {
		f.GS = []t2Subr{}
	}
	for i := range f.FDs {
		if f.FDs[i].LS == nil {
			f.FDs[i].LS = []t2Subr{}
		}
	}
	c.Emit(vh.Rec{"t": "font", "gs": f.GS, "ng": f.NG, "fds": f.FDs, "glyphs": f.Glyphs, "cid": f.CID,
		"ok": err == nil, "out": out, "err": es})
	return err == nil
}

// t2Gen generates charstrings from a grammar.
type t2Gen struct {
	rng     *rand.Rand
	toks    [][]int
	depth   int // operands on the stack
	stems   int
	wset    bool
	arith   bool
	big     bool
	frac    bool
	x, y    float64
	puts    int
	subrs   bool
	lastOps []string
}

func (g *t2Gen) tok(b ...int) { g.toks = append(g.toks, b) }

// lit pushes a literal number.
func (g *t2Gen) lit(x float64) {
	g.depth++
	if x == float64(int(x)) {
		v := int(x)
		switch {
		case g.rng.IntN(12) == 0 && v > -32768 && v < 32768:
			g.tok(28, v>>8&255, v&255)
			return
		case g.rng.IntN(20) == 0:
		case v >= -107 && v <= 107:
			g.tok(v + 139)
			return
		case v >= 108 && v <= 1131:
			v -= 108
			g.tok(247+v>>8, v&255)
			return
		case v <= -108 && v >= -1131:
			v = -v - 108
			g.tok(251+v>>8, v&255)
			return
		default:
			g.tok(28, v>>8&255, v&255)
			return
		}
	}
	v := int32(x * 65536)
	g.tok(255, int(v>>24)&255, int(v>>16)&255, int(v>>8)&255, int(v)&255)
}

func (g *t2Gen) value() float64 {
	r := g.rng
	switch k := r.IntN(20); {
	case k < 4:
		return 0
	case k < 12:
		return float64(r.IntN(215) - 107)
	case k < 15:
		e := []int{107, 108, -107, -108, 1131, 1132, -1131, -1132, 363, 364, 619, -363, -364}
		return float64(e[r.IntN(len(e))])
	case k < 17 && g.frac:
		return float64(r.IntN(1<<22)-1<<21) / 65536
	case k < 18 && g.big:
		return float64(r.IntN(60000) - 30000)
	default:
		return float64(r.IntN(601) - 300)
	}
}

// num pushes one number, possibly by way of a computation.
func (g *t2Gen) num() {
	r := g.rng
	if !g.arith || r.IntN(4) != 0 || g.depth > 40 {
		g.lit(g.value())
		return
	}
	d := g.depth
	small := func() float64 { return float64(r.IntN(21) - 10) }
	switch r.IntN(20) {
	case 0:
		g.lit(small())
		g.lit(small())
		g.tok(12, 10)
	case 1:
		g.lit(small())
		g.lit(small())
		g.tok(12, 11)
	case 2:
		g.lit(small() * 16)
		g.lit([]float64{1, 2, 4, -8, 16, 0.5, 0.25, -2}[r.IntN(8)])
		g.tok(12, 12)
	case 3:
		g.lit(small())
		g.tok(12, 14)
	case 4:
		g.lit(small())
		g.tok(12, 9)
	case 5:
		g.lit(small())
		g.lit([]float64{3, -2, 0.5, 1.25, 0, 1}[r.IntN(6)])
		g.tok(12, 24)
	case 6:
		k := r.IntN(30)
		g.lit(float64(k * k))
		g.tok(12, 26)
	case 7:
		g.lit(small())
		g.lit(small())
		g.tok(12, 18)
	case 8:
		g.lit(small())
		g.lit(small())
		g.tok(12, 28)
		g.tok(12, 11)
	case 9:
		g.lit(small())
		g.tok(12, 27)
		g.tok(12, 10)
	case 10: // ifelse
		g.lit(small())
		g.lit(small())
		g.lit(float64(r.IntN(3)))
		g.lit(float64(r.IntN(3)))
		g.tok(12, 22)
	case 11: // index
		n := 1 + r.IntN(5)
		for i := 0; i < n; i++ {
			g.lit(small())
		}
		g.lit(float64(r.IntN(n+1) - 1))
		g.tok(12, 29)
		for i := 0; i < n; i++ {
			g.tok(12, []int{10, 11}[r.IntN(2)])
		}
	case 12, 13: // roll
		n := 1 + r.IntN(6)
		for i := 0; i < n; i++ {
			g.lit(small())
		}
		g.lit(float64(r.IntN(n + 1)))
		g.lit(float64(r.IntN(15) - 7))
		g.tok(12, 30)
		for i := 1; i < n; i++ {
			g.tok(12, []int{10, 11, 18}[r.IntN(3)])
		}
	case 14: // storage
		i := float64(r.IntN(32))
		g.lit(small())
		g.lit(i)
		g.tok(12, 20)
		if r.IntN(2) == 0 {
			g.lit(small())
			g.lit(float64(r.IntN(32)))
			g.tok(12, 20)
		}
		g.lit(i)
		g.tok(12, 21)
	case 15:
		g.lit(small())
		g.lit(small())
		g.tok(12, []int{3, 4, 15}[r.IntN(3)])
	case 16:
		g.lit(float64(r.IntN(2)))
		g.tok(12, 5)
	case 17:
		k := float64(r.IntN(3))
		g.lit(k)
		g.tok(12, 27)
		g.tok(12, 15)
	default:
		g.lit(g.value() / 2)
		g.tok(12, 14)
	}
	g.depth = d + 1
}

func (g *t2Gen) nums(n int) {
	for i := 0; i < n; i++ {
		g.num()
	}
}

func (g *t2Gen) op(b ...int) {
	g.tok(b...)
	g.depth = 0
}

// width pushes the optional width argument.
func (g *t2Gen) width() int {
	if g.wset {
		return 0
	}
	g.wset = true
	if g.rng.IntN(2) == 0 {
		g.num()
		return 1
	}
	return 0
}

func (g *t2Gen) mask(op int) {
	b := []int{op}
	for i := 0; i < (g.stems+7)/8; i++ {
		b = append(b, g.rng.IntN(256))
	}
	g.op(b...)
}

func (g *t2Gen) moveTo() {
	g.width()
	switch g.rng.IntN(3) {
	case 0:
		g.nums(2)
		g.op(21)
	case 1:
		g.num()
		g.op(22)
	case 2:
		g.num()
		g.op(4)
	}
}

func (g *t2Gen) path() {
	r := g.rng
	few := func(n int) int {
		if r.IntN(8) == 0 {
			return 1 + r.IntN(n)
		}
		return 1 + r.IntN(min(n, 4))
	}
	switch r.IntN(14) {
	case 0:
		g.nums(2 * few(24))
		g.op(5)
	case 1:
		g.nums(few(48))
		g.op(6)
	case 2:
		g.nums(few(48))
		g.op(7)
	case 3:
		g.nums(6 * few(8))
		g.op(8)
	case 4:
		g.nums(6*few(7) + 2)
		g.op(24)
	case 5:
		g.nums(2*few(21) + 6)
		g.op(25)
	case 6:
		g.nums(4*few(11) + r.IntN(2))
		g.op(26)
	case 7:
		g.nums(4*few(11) + r.IntN(2))
		g.op(27)
	case 8, 9:
		g.nums(4*few(11) + r.IntN(2))
		g.op(30 + r.IntN(2))
	case 10:
		g.nums(7)
		g.op(12, 34)
	case 11:
		g.nums(13)
		g.op(12, 35)
	case 12:
		g.nums(9)
		g.op(12, 36)
	case 13:
		g.nums(11)
		g.op(12, 37)
	}
}

// program generates a well-formed charstring.
func (g *t2Gen) program() {
	r := g.rng
	useMask := false
	if r.IntN(2) == 0 {
		useMask = r.IntN(2) == 0
		h := r.IntN(4)
		v := r.IntN(4)
		if r.IntN(8) == 0 {
			h, v = r.IntN(48), r.IntN(48)
		}
		emit := func(n int, op int, implicit bool) {
			for n > 0 {
				w := g.width()
				k := 1 + r.IntN(min(n, (48-w)/2))
				if r.IntN(2) == 0 {
					k = min(n, (48-w)/2)
				}
				g.nums(2 * k)
				n -= k
				g.stems += k
				if n == 0 && implicit {
					return
				}
				g.op(op)
			}
		}
		hop, vop := 1, 3
		if useMask || r.IntN(6) == 0 {
			hop, vop = 18, 23
		}
		emit(h, hop, false)
		implicit := useMask && h > 0 && v > 0 && r.IntN(2) == 0
		emit(v, vop, implicit)
		if g.stems == 0 {
			useMask = false
		}
		if implicit {
			g.mask(19 + r.IntN(2))
		} else if useMask && r.IntN(2) == 0 {
			g.width()
			g.mask(19 + r.IntN(2))
		}
	}
	k := r.IntN(4)
	for i := 0; i < k; i++ {
		g.moveTo()
		for j := r.IntN(4); j >= 0; j-- {
			if useMask && r.IntN(5) == 0 {
				g.mask(19 + r.IntN(2))
			}
			g.path()
		}
	}
	g.width()
	g.op(14)
}

// t2Subst moves random parts of the programs into subroutines.
type t2Subst struct {
	rng  *rand.Rand
	n    int
	subs []t2Subr
	used map[int]bool
	op   int
}

func bias(n int) int {
	if n < 1240 {
		return 107
	} else if n < 33900 {
		return 1131
	}
	return 32768
}

func (s *t2Subst) add(toks [][]int) ([][]int, bool) {
	if s.n == 0 {
		return nil, false
	}
	var i int
	switch s.rng.IntN(4) {
	case 0:
		i = s.n - 1 - s.rng.IntN(min(3, s.n))
	case 1:
		i = s.rng.IntN(min(3, s.n))
	default:
		i = s.rng.IntN(s.n)
	}
	if s.used[i] {
		return nil, false
	}
	v := i - bias(s.n)
	if v < -32000 && v == -32768 {
		return nil, false
	}
	s.used[i] = true
	s.subs = append(s.subs, t2Subr{i, flatToks(toks)})
	g := &t2Gen{rng: s.rng}
	g.lit(float64(v))
	return append(g.toks, []int{s.op}), true
}

func flatToks(toks [][]int) []int {
	res := []int{}
	for _, t := range toks {
		res = append(res, t...)
	}
	return res
}

func outline(rng *rand.Rand, toks [][]int, subs []*t2Subst, depth int) [][]int {
	if depth == 0 || len(toks) < 2 {
		return toks
	}
	a := rng.IntN(len(toks))
	b := a + 1 + rng.IntN(len(toks)-a)
	body := append([][]int{}, toks[a:b]...)
	if rng.IntN(2) == 0 {
		body = outline(rng, body, subs, depth-1)
	}
	last := b == len(toks)
	if !last || rng.IntN(2) == 0 {
		body = append(body, []int{11})
	}
	call, ok := subs[rng.IntN(len(subs))].add(body)
	if !ok {
		return toks
	}
	res := append([][]int{}, toks[:a]...)
	res = append(res, call...)
	return append(res, toks[b:]...)
}

var t2Sizes = []int{0, 1, 2, 107, 108, 214, 215, 216, 300, 1238, 1239, 1240, 1241, 2000, 2263, 2264}
var t2BigSizes = []int{33898, 33899, 33900, 33901, 40000, 65535, 10000, 20000}

func genT2Font(rng *rand.Rand, nGlyphs int, cid bool, big bool, size func() int) (*t2Font, [][][]int) {
	f := &t2Font{CID: cid, OffSize: 1 + rng.IntN(4), FDSelect: rng.IntN(2), Order: rng.IntN(2)}
	f.NG = size()
	nfd := 1
	if cid {
		nfd = 1 + rng.IntN(3)
	}
	gs := &t2Subst{rng: rng, n: f.NG, used: map[int]bool{}, op: 29}
	var ls []*t2Subst
	for i := 0; i < nfd; i++ {
		fd := t2FD{NL: size(), How: rng.IntN(64)}
		if rng.IntN(4) > 0 {
			fd.DW = (rng.IntN(3000) - 200) * 65536
			if rng.IntN(4) == 0 {
				fd.DW += 8192 * rng.IntN(8)
			}
		}
		if rng.IntN(4) > 0 {
			fd.NWI = rng.IntN(3000) - 200
			if rng.IntN(10) == 0 {
				fd.NWI = []int{32767, -32768, 32768, 33000, 40000}[rng.IntN(5)]
			}
			if rng.IntN(4) == 0 {
				fd.NWF = 8192 * rng.IntN(8)
			}
		}
		if rng.IntN(3) == 0 {
			fd.Gap = rng.IntN(10)
		}
		f.FDs = append(f.FDs, fd)
		ls = append(ls, &t2Subst{rng: rng, n: fd.NL, used: map[int]bool{}, op: 10})
	}
	var all [][][]int
	for i := 0; i < nGlyphs; i++ {
		g := &t2Gen{rng: rng, arith: rng.IntN(2) == 0, frac: rng.IntN(3) == 0, big: big && rng.IntN(4) == 0}
		g.program()
		fd := rng.IntN(nfd)
		toks := g.toks
		for k := rng.IntN(4); k > 0; k-- {
			toks = outline(rng, toks, []*t2Subst{gs, ls[fd]}, 1+rng.IntN(10))
		}
		all = append(all, toks)
		f.Glyphs = append(f.Glyphs, t2Glyph{flatToks(toks), fd + 1})
	}
	f.GS = gs.subs
	for i := range f.FDs {
		f.FDs[i].LS = ls[i].subs
	}
	return f, all
}

func c05Families(env *vh.Env) []vh.Family {
	tlc := env.TLCCases("type2.ndjson")
	const chunk = 64
	nTLC := (len(tlc) + chunk - 1) / chunk
	smallSize := func(rng *rand.Rand) func() int {
		return func() int {
			if rng.IntN(3) == 0 {
				return t2Sizes[rng.IntN(len(t2Sizes))]
			}
			return rng.IntN(20)
		}
	}
	return []vh.Family{
		{Name: "tlc", Quick: nTLC, Thor: nTLC, Run: func(c *vh.Case) {
			for k := c.Idx * chunk; k < min(len(tlc), (c.Idx+1)*chunk); k++ {
				var s struct {
					Main []int    `json:"main"`
					LS   []t2Subr `json:"ls"`
					GS   []t2Subr `json:"gs"`
					NL   int      `json:"nl"`
					NG   int      `json:"ng"`
					DW   int      `json:"dw"`
					NWI  int      `json:"nwi"`
					NWF  int      `json:"nwf"`
				}
				if err := json.Unmarshal(tlcUnquote(tlc[k]), &s); err != nil {
					panic(err)
				}
				emitFont(c, &t2Font{GS: s.GS, NG: s.NG, FDs: []t2FD{{LS: s.LS, NL: s.NL, DW: s.DW, NWI: s.NWI, NWF: s.NWF}},
					Glyphs: []t2Glyph{{s.Main, 1}}})
			}
		}},
		{Name: "valid", Quick: 2500, Thor: 40000, Run: func(c *vh.Case) {
			rng := c.Rng
			f, _ := genT2Font(rng, 1+rng.IntN(8), rng.IntN(2) == 0, true, smallSize(rng))
			emitFont(c, f)
			for _, fd := range f.FDs {
				c.Mark("nlocal bias %d", bias(fd.NL))
			}
		}},
		{Name: "sizes", Quick: 160, Thor: 2000, MaxSec: 60, Run: func(c *vh.Case) {
			rng := c.Rng
			all := append(append([]int{}, t2Sizes...), t2BigSizes...)
			f, _ := genT2Font(rng, 6, rng.IntN(2) == 0, false, func() int { return all[(c.Idx+rng.IntN(2)*7)%len(all)] })
			emitFont(c, f)
			for _, fd := range f.FDs {
				c.Mark("nlocal %d", fd.NL)
			}
			c.Mark("nglobal %d", f.NG)
		}},
		{Name: "mutated", Quick: 9000, Thor: 150000, Run: func(c *vh.Case) {
			rng := c.Rng
			f, all := genT2Font(rng, 1, rng.IntN(8) == 0, false, smallSize(rng))
			toks := all[0]
			k := rng.IntN(len(toks))
			what := rng.IntN(12)
			c.Mark("mutation %d", what)
			ops := []int{1, 3, 4, 5, 6, 7, 8, 10, 11, 14, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 139, 140, 200}
			esc := []int{3, 4, 5, 9, 10, 11, 12, 14, 15, 18, 20, 21, 22, 24, 26, 27, 28, 29, 30, 34, 35, 36, 37}
			switch what {
			case 0, 1: // drop a token
				toks = append(append([][]int{}, toks[:k]...), toks[k+1:]...)
			case 2: // insert an operator
				toks = append(append(append([][]int{}, toks[:k]...), []int{ops[rng.IntN(len(ops))]}), toks[k:]...)
			case 3:
				toks = append(append(append([][]int{}, toks[:k]...), []int{12, esc[rng.IntN(len(esc))]}), toks[k:]...)
			case 4: // replace a token
				toks = append([][]int{}, toks...)
				toks[k] = []int{ops[rng.IntN(len(ops))]}
			case 5: // insert an operand
				toks = append(append(append([][]int{}, toks[:k]...), []int{139 + rng.IntN(9)}), toks[k:]...)
			case 6: // many operands
				var many [][]int
				for i := 0; i < 40+rng.IntN(10); i++ {
					many = append(many, []int{139 + rng.IntN(5)})
				}
				toks = append(append(append([][]int{}, toks[:k]...), many...), toks[k:]...)
			case 7: // drop the tail
				toks = toks[:k]
			case 8: // cut at a byte
			case 9: // swap
				toks = append([][]int{}, toks...)
				j := rng.IntN(len(toks))
				toks[k], toks[j] = toks[j], toks[k]
			case 10: // duplicate a part
				j := k + 1 + rng.IntN(len(toks)-k)
				toks = append(append(append([][]int{}, toks[:j]...), toks[k:j]...), toks[j:]...)
			case 11: // change the size of a subroutine index
				if f.NG > 0 && rng.IntN(2) == 0 && len(f.GS) == 0 {
					f.NG--
				} else if len(f.FDs[0].LS) == 0 {
					f.FDs[0].NL = rng.IntN(3)
				} else {
					f.FDs[0].NL += 1 + rng.IntN(2)
				}
			}
			m := flatToks(toks)
			if what == 8 && len(m) > 0 {
				m = m[:rng.IntN(len(m))]
			}
			f.Glyphs[0].Main = m
			emitFont(c, f)
		}},
		{Name: "arith", Quick: 1500, Thor: 20000, Run: func(c *vh.Case) {
			// sequences of stack operators
			rng := c.Rng
			g := &t2Gen{rng: rng}
			bin := []int{3, 4, 10, 11, 12, 15, 24, 28}
			una := []int{5, 9, 14, 26, 27}
			vals := []float64{0, 1, -1, 2, 3, 0.5, -0.25, 100.75, 181, 15, 1.0 / 65536, -1.0 / 65536, 255, -256, 127, 128, 1000, 32, 31}
			d := 0
			for i := 0; i < 4+rng.IntN(20); i++ {
				switch {
				case d >= 2 && rng.IntN(2) == 0:
					o := bin[rng.IntN(len(bin))]
					g.tok(12, o)
					if o != 28 {
						d--
					}
				case d >= 1 && rng.IntN(3) == 0:
					o := una[rng.IntN(len(una))]
					g.tok(12, o)
					if o == 27 {
						d++
					}
				case d >= 4 && rng.IntN(3) == 0:
					g.tok(12, 22)
					d -= 3
				case d >= 1 && rng.IntN(6) == 0:
					g.lit(float64(rng.IntN(d+1) - 1))
					g.tok(12, 29)
					d++
				case d >= 1 && rng.IntN(5) == 0:
					g.lit(float64(rng.IntN(d + 1)))
					g.lit(float64(rng.IntN(21) - 10))
					g.tok(12, 30)
				case d >= 1 && rng.IntN(5) == 0:
					k := float64(rng.IntN(32))
					g.lit(k)
					g.tok(12, 20)
					d--
					g.lit(k)
					g.tok(12, 21)
					d++
				default:
					g.lit(vals[rng.IntN(len(vals))])
					d++
				}
			}
			// draw what is left on the stack
			toks := [][]int{{139}, {22}}
			toks = append(toks, g.toks...)
			toks = append(toks, []int{6 + rng.IntN(2)}, []int{14})
			emitFont(c, &t2Font{FDs: []t2FD{{}}, Glyphs: []t2Glyph{{flatToks(toks), 1}}})
		}},
		{Name: "depth", Quick: 60, Thor: 60, Run: func(c *vh.Case) {
			// chains of nested subroutine calls
			n := 1 + c.Idx%14
			mode := c.Idx / 14
			f := &t2Font{NG: 30, FDs: []t2FD{{NL: 30}}}
			call := func(k int, local bool) []int {
				op := 29
				if local {
					op = 10
				}
				return []int{k - 107 + 139, op}
			}
			isLocal := func(k int) bool { return mode == 1 || mode >= 2 && k%2 == 0 }
			for k := 0; k < n; k++ {
				var body []int
				if k == n-1 {
					body = []int{149, 22, 150, 151, 5}
				} else {
					body = call(k+1, isLocal(k+1))
				}
				if mode == 3 && k == n-1 {
					body = append(body, 14)
				} else {
					body = append(body, 11)
				}
				s := t2Subr{k, body}
				if isLocal(k) {
					f.FDs[0].LS = append(f.FDs[0].LS, s)
				} else {
					f.GS = append(f.GS, s)
				}
			}
			f.Glyphs = []t2Glyph{{append(append(call(0, isLocal(0)), 140, 7), 14), 1}}
			emitFont(c, f)
		}},
	}
}
