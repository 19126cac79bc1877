package main

import (
	"math/rand/v2"
	"sort"

	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
)

type gpoint struct {
	x, y int
	on   bool
}

// encSimple encodes the contours of a simple glyph, choosing randomly between
// the encodings the format allows.
func encSimple(rng *rand.Rand, cc [][]gpoint, ins []byte) []byte {
	var e []byte
	n := 0
	for _, c := range cc {
		n += len(c)
		e = w16(e, n-1)
	}
	e = w16(e, len(ins))
	e = append(e, ins...)
	var fl []byte
	var xs, ys []byte
	px, py := 0, 0
	lazy := rng.IntN(3) // 0: random encodings, 1: optimal, 2: mostly optimal
	coord := func(d int, short, pos byte) (byte, []byte) {
		type opt struct {
			f byte
			b []byte
		}
		var oo []opt
		if d == 0 {
			oo = append(oo, opt{pos, nil})
		}
		if d >= 0 && d <= 255 {
			oo = append(oo, opt{short | pos, []byte{byte(d)}})
		}
		if d <= 0 && d >= -255 {
			oo = append(oo, opt{short, []byte{byte(-d)}})
		}
		oo = append(oo, opt{0, w16(nil, d&0xFFFF)})
		k := 0
		if lazy == 0 || lazy == 2 && rng.IntN(8) == 0 {
			k = rng.IntN(len(oo))
		}
		return oo[k].f, oo[k].b
	}
	rsv := byte(0)
	if rng.IntN(4) == 0 {
		rsv = byte(rng.IntN(4)) << 6
	}
	for _, c := range cc {
		for _, p := range c {
			fx, bx := coord(p.x-px, 2, 16)
			fy, by := coord(p.y-py, 4, 32)
			f := fx | fy | rsv
			if p.on {
				f |= 1
			}
			fl = append(fl, f)
			xs = append(xs, bx...)
			ys = append(ys, by...)
			px, py = p.x, p.y
		}
	}
	mode := rng.IntN(4) // 0: never repeat, 1: always, 2/3: random
	for i := 0; i < len(fl); {
		j := i + 1
		for j < len(fl) && fl[j] == fl[i] && j-i < 256 {
			j++
		}
		rep := j - i - 1
		switch {
		case mode == 0 || mode == 1 && rep == 0:
			rep = -1
		case mode == 1:
		default:
			rep = rng.IntN(rep+2) - 1
		}
		if rep < 0 {
			e = append(e, fl[i])
			i++
		} else {
			e = append(e, fl[i]|8, byte(rep))
			i += rep + 1
		}
	}
	e = append(e, xs...)
	return append(e, ys...)
}

// randContours generates contours with coordinates in the int16 range.
func randContours(rng *rand.Rand, nc, maxPts, span int) [][]gpoint {
	var cc [][]gpoint
	x, y := 0, 0
	mv := func(v int) int {
		prev := v
		switch rng.IntN(8) {
		case 0, 1:
		case 2:
			v += rng.IntN(511) - 255
		case 3:
			v += []int{255, -255, 256, -256, 1, -1}[rng.IntN(6)]
		case 4:
			v = rng.IntN(2*span+1) - span
		default:
			v += rng.IntN(61) - 30
		}
		v = max(prev-32767, min(prev+32767, v))
		return max(-span, min(span, v))
	}
	for i := 0; i < nc; i++ {
		n := 1 + rng.IntN(maxPts)
		var c []gpoint
		stay := rng.IntN(3) == 0
		for j := 0; j < n; j++ {
			if !(stay && rng.IntN(4) > 0) {
				x, y = mv(x), mv(y)
			}
			on := rng.IntN(3) > 0
			if stay && j > 0 {
				on = c[0].on
			}
			c = append(c, gpoint{x, y, on})
		}
		cc = append(cc, c)
	}
	return cc
}

func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(rng.IntN(256))
	}
	return b
}

func randBBox(rng *rand.Rand) funit.Rect16 {
	v := func() funit.Int16 {
		switch rng.IntN(6) {
		case 0:
			return []funit.Int16{-32768, 32767, 0, -1}[rng.IntN(4)]
		}
		return funit.Int16(rng.IntN(4001) - 2000)
	}
	a := funit.Rect16{LLx: v(), LLy: v(), URx: v(), URy: v()}
	if a.LLx > a.URx {
		a.LLx, a.URx = a.URx, a.LLx
	}
	if a.LLy > a.URy {
		a.LLy, a.URy = a.URy, a.LLy
	}
	return a
}

func bboxOf(cc [][]gpoint) funit.Rect16 {
	var r funit.Rect16
	first := true
	for _, c := range cc {
		for _, p := range c {
			x, y := funit.Int16(p.x), funit.Int16(p.y)
			if first {
				r = funit.Rect16{LLx: x, LLy: y, URx: x, URy: y}
				first = false
			}
			r.LLx, r.URx = min(r.LLx, x), max(r.URx, x)
			r.LLy, r.URy = min(r.LLy, y), max(r.URy, y)
		}
	}
	return r
}

// randSimple generates a simple glyph; trail bytes of padding are appended.
func randSimple(rng *rand.Rand, maxC, maxP, span, trail int) *glyf.Glyph {
	nc := rng.IntN(maxC + 1)
	if nc == 0 {
		var e []byte
		if rng.IntN(2) == 0 {
			ins := randBytes(rng, rng.IntN(4))
			e = append(w16(e, len(ins)), ins...)
			e = append(e, make([]byte, trail)...)
		}
		return &glyf.Glyph{Rect16: randBBox(rng), Data: glyf.SimpleGlyph{NumContours: 0, Encoded: e}}
	}
	cc := randContours(rng, nc, maxP, span)
	var ins []byte
	if rng.IntN(2) == 0 {
		ins = randBytes(rng, rng.IntN(20))
	}
	e := encSimple(rng, cc, ins)
	e = append(e, make([]byte, trail)...)
	return &glyf.Glyph{Rect16: bboxOf(cc), Data: glyf.SimpleGlyph{NumContours: int16(nc), Encoded: e}}
}

// randComposite generates a composite glyph with components from pool.
// If draw is set, the outline can be computed by independent software.
func randComposite(rng *rand.Rand, pool []int, maxN int, draw bool) *glyf.Glyph {
	n := 1 + rng.IntN(maxN)
	g := glyf.CompositeGlyph{}
	withIns := rng.IntN(2) == 0
	insAt := rng.IntN(n)
	for i := 0; i < n; i++ {
		fl := glyf.ComponentFlag(rng.IntN(65536)) &^ (glyf.FlagMoreComponents | glyf.FlagWeHaveInstructions)
		if rng.IntN(2) == 0 { // at most one transformation flag
			fl &^= 0xC8
			fl |= []glyf.ComponentFlag{0, 8, 0x40, 0x80}[rng.IntN(4)]
		}
		if draw {
			fl |= glyf.FlagArgsAreXYValues
			fl &^= glyf.FlagScaledComponentOffset
		}
		if i < n-1 {
			fl |= glyf.FlagMoreComponents
		}
		if withIns && (i == insAt || i == n-1 || rng.IntN(3) == 0) {
			fl |= glyf.FlagWeHaveInstructions
		}
		size := 2
		if fl&1 != 0 {
			size = 4
		}
		k := 0
		switch {
		case fl&8 != 0:
			k = 1
		case fl&0x40 != 0:
			k = 2
		case fl&0x80 != 0:
			k = 4
		}
		data := randBytes(rng, size)
		if draw && size == 4 {
			data = append(w16(nil, (rng.IntN(2001)-1000)&0xFFFF), w16(nil, (rng.IntN(2001)-1000)&0xFFFF)...)
		}
		for j := 0; j < k; j++ {
			data = w16(data, rng.IntN(65536))
		}
		g.Components = append(g.Components, glyf.GlyphComponent{
			Flags: fl, GlyphIndex: glyph.ID(pool[rng.IntN(len(pool))]), Data: data,
		})
	}
	if withIns {
		g.Instructions = append([]byte{}, randBytes(rng, rng.IntN(12))...)
	}
	return &glyf.Glyph{Rect16: randBBox(rng), Data: g}
}

// recGlyf describes a glyph for the specification (see Glyf.tla).
func recGlyf(g *glyf.Glyph) map[string]any {
	if g == nil {
		return map[string]any{"k": 0}
	}
	bb := []int{int(g.LLx), int(g.LLy), int(g.URx), int(g.URy)}
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		return map[string]any{"k": 1, "bb": bb, "nc": int(d.NumContours), "e": bytesInts(d.Encoded)}
	case glyf.CompositeGlyph:
		cc := [][]int{}
		for _, c := range d.Components {
			cc = append(cc, append([]int{int(c.Flags), int(c.GlyphIndex)}, bytesInts(c.Data)...))
		}
		return map[string]any{"k": 2, "bb": bb, "c": cc, "hi": d.Instructions != nil, "ins": bytesInts(d.Instructions)}
	}
	return map[string]any{"k": 9}
}

// recGlyfs describes a glyph set as a list of different glyphs and a
// run-length encoded list of indices.
func recGlyfs(gg glyf.Glyphs) (defs []map[string]any, ix [][2]int) {
	defs = []map[string]any{}
	ix = [][2]int{}
	known := map[*glyf.Glyph]int{}
	byVal := map[string]int{}
	for _, g := range gg {
		k, ok := known[g]
		if !ok {
			r := recGlyf(g)
			key := mustJSON(r)
			k, ok = byVal[key]
			if !ok {
				defs = append(defs, r)
				k = len(defs)
				byVal[key] = k
			}
			known[g] = k
		}
		if n := len(ix); n > 0 && ix[n-1][0] == k {
			ix[n-1][1]++
		} else {
			ix = append(ix, [2]int{k, 1})
		}
	}
	return defs, ix
}

// mkSfnt assembles a font file, independently of the library.
func mkSfnt(scaler uint32, tables map[string][]byte) []byte {
	var tags []string
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	n := len(tags)
	e := bitlen(n) - 1
	b := w32(nil, int(scaler))
	b = w16(b, n)
	b = w16(b, 16<<e)
	b = w16(b, e)
	b = w16(b, 16*n-16<<e)
	pos := 12 + 16*n
	for _, t := range tags {
		d := tables[t]
		b = append(b, t...)
		s := uint32(0)
		for i := 0; i < len(d); i++ {
			s += uint32(d[i]) << (24 - 8*(i%4))
		}
		b = w32(b, int(s))
		b = w32(b, pos)
		b = w32(b, len(d))
		pos += (len(d) + 3) &^ 3
	}
	for _, t := range tags {
		b = append(b, tables[t]...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
	}
	return b
}

// minimalTTF wraps glyph tables into a font which other software can parse.
func minimalTTF(glyfData, loca []byte, locFmt, numGlyphs, upem int) []byte {
	head := []byte{0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0x5F, 0x0F, 0x3C, 0xF5, 0, 0}
	head = w16(head, upem)
	head = append(head, make([]byte, 16)...)
	head = append(head, make([]byte, 8)...)
	head = append(head, 0, 0, 0, 8, 0, 2)
	head = w16(head, locFmt)
	head = append(head, 0, 0)
	maxp := make([]byte, 32)
	copy(maxp, []byte{0, 1, 0, 0, byte(numGlyphs >> 8), byte(numGlyphs)})
	hhea := make([]byte, 36)
	hhea[1] = 1
	hhea[35] = 1
	hmtx := make([]byte, 4+2*(numGlyphs-1))
	post := make([]byte, 32)
	post[1] = 3
	cm := []byte{0, 0, 0, 1, 0, 3, 0, 1, 0, 0, 0, 12, 0, 4, 0, 24, 0, 0, 0, 2, 0, 2, 0, 0, 0, 0, 0xFF, 0xFF, 0, 0, 0xFF, 0xFF, 0, 1, 0, 0}
	if len(glyfData) == 0 {
		glyfData = []byte{0}
	}
	return mkSfnt(0x00010000, map[string][]byte{
		"head": head, "maxp": maxp, "hhea": hhea, "hmtx": hmtx, "post": post,
		"cmap": cm, "glyf": glyfData, "loca": loca, "OS/2": make([]byte, 78),
	})
}

// ximgSegs returns the outline of a glyph according to golang.org/x/image, in
// font units.
func ximgSegs(f *sfnt.Font, gid int) ([][]int, error) {
	var b sfnt.Buffer
	segs, err := f.LoadGlyph(&b, sfnt.GlyphIndex(gid), fixed.Int26_6(f.UnitsPerEm()), nil)
	if err != nil {
		return [][]int{}, err
	}
	res := [][]int{}
	for _, s := range segs {
		a := s.Args
		switch s.Op {
		case sfnt.SegmentOpMoveTo:
			res = append(res, []int{0, int(a[0].X), -int(a[0].Y), 0, 0})
		case sfnt.SegmentOpLineTo:
			res = append(res, []int{1, int(a[0].X), -int(a[0].Y), 0, 0})
		case sfnt.SegmentOpQuadTo:
			res = append(res, []int{2, int(a[0].X), -int(a[0].Y), int(a[1].X), -int(a[1].Y)})
		case sfnt.SegmentOpCubeTo:
			res = append(res, []int{3, int(a[0].X), -int(a[0].Y), int(a[1].X), -int(a[1].Y), int(a[2].X), -int(a[2].Y)})
		}
	}
	return res, nil
}
