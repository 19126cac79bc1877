package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"vharness/vh"
)

// interval returns the 16.16 values within 2^-16 of x.
func interval(x float64) (int, int) {
	y := x * 65536
	lo, hi := math.Ceil(y-1), math.Floor(y+1)
	const lim = 1<<31 - 2
	return int(math.Max(lo, -lim)), int(math.Min(hi, lim))
}

func intervals(xx []float64) []int {
	res := []int{}
	for _, x := range xx {
		lo, hi := interval(x)
		res = append(res, lo, hi)
	}
	return res
}

// recGlyphIv records a glyph description with one interval per coordinate.
func recGlyphIv(g *cff.Glyph) map[string]any {
	cmds := make([][]int, len(g.Cmds))
	for i, c := range g.Cmds {
		switch c.Op {
		case cff.OpMoveTo:
			cmds[i] = append([]int{0}, intervals(c.Args)...)
		case cff.OpLineTo:
			cmds[i] = append([]int{1}, intervals(c.Args)...)
		case cff.OpCurveTo:
			cmds[i] = append([]int{2}, intervals(c.Args)...)
		default:
			cmds[i] = []int{3}
			if c.Op == cff.OpCntrMask {
				cmds[i][0] = 4
			}
			for _, b := range c.Args {
				cmds[i] = append(cmds[i], int(b))
			}
		}
	}
	return map[string]any{"cmds": cmds, "h": intervals(g.HStem), "v": intervals(g.VStem), "w": intervals([]float64{g.Width})}
}

// recGlyphRound is like recGlyph, but rounds to 16.16.
func recGlyphRound(g *cff.Glyph) map[string]any {
	r := recGlyph(g)
	rs := func(x []float64) []int {
		res := []int{}
		for _, v := range x {
			res = append(res, scaledRound(v))
		}
		return res
	}
	cmds := [][]int{}
	for i, c := range g.Cmds {
		k := r["cmds"].([][]int)[i]
		if k[0] < 3 {
			k = append([]int{k[0]}, rs(c.Args)...)
		}
		cmds = append(cmds, k)
	}
	return map[string]any{"cmds": cmds, "h": rs(g.HStem), "v": rs(g.VStem), "w": scaledRound(g.Width)}
}

func testCFF(rng *rand.Rand, glyphs []*cff.Glyph, isCID bool) *cff.Font {
	f := &cff.Font{
		FontInfo: &type1.FontInfo{FontName: "Test", FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}},
		Outlines: &cff.Outlines{Glyphs: glyphs},
	}
	npriv := 1
	if isCID {
		npriv = 1 + rng.IntN(3)
		f.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}
		for i := range glyphs {
			f.GIDToCID = append(f.GIDToCID, cid.CID(i))
			_ = i
		}
		sel := make([]int, len(glyphs))
		for i := range sel {
			sel[i] = rng.IntN(npriv)
		}
		f.FDSelect = func(g glyph.ID) int { return sel[g] }
		f.FontInfo.FontMatrix = matrix.Identity
	} else {
		f.FDSelect = func(glyph.ID) int { return 0 }
		for i, g := range glyphs {
			if i == 0 {
				g.Name = ".notdef"
			} else {
				g.Name = fmt.Sprintf("g%d", i)
			}
		}
		f.Encoding = cff.StandardEncoding(glyphs)
	}
	for i := 0; i < npriv; i++ {
		p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
		if rng.IntN(2) == 0 {
			p.BlueValues = []funit.Int16{-10, 0, 500, 510}
		}
		f.Private = append(f.Private, p)
		if isCID {
			f.FontMatrices = append(f.FontMatrices, matrix.Matrix{0.001, 0, 0, 0.001, 0, 0})
		}
	}
	return f
}

// emitCompiled writes the font and records the outcome.
func emitCompiled(c *vh.Case, f *cff.Font) {
	buf := &bytes.Buffer{}
	var err error
	msg := vh.Guard(func() { err = f.Write(buf) })
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	if err != nil {
		c.Mark("refused")
		gg := []any{}
		for _, g := range f.Glyphs {
			gg = append(gg, recGlyphIv(g))
		}
		c.Emit(vh.Rec{"t": "refused", "glyphs": gg, "err": err.Error()})
		return
	}
	p, err := parseCFF(buf.Bytes())
	if err == nil && len(p.CharStrings) != len(f.Glyphs) {
		err = errCFF
	}
	if err != nil {
		c.Emit(vh.Rec{"t": "panic", "msg": "output of Write: " + err.Error()})
		return
	}
	var rd *cff.Font
	var rerr error
	if msg := vh.Guard(func() { rd, rerr = cff.Read(bytes.NewReader(buf.Bytes())) }); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": "Read: " + msg})
		return
	}
	gs := denseSubrs(p.GSubrs)
	for i, g := range f.Glyphs {
		fd := p.FDs[p.FDSel[i]]
		val := func(op int) int {
			if v := fd.Private[op]; len(v) == 1 {
				return scaledRound(v[0])
			}
			return 0
		}
		var nw float64
		if v := fd.Private[21]; len(v) == 1 {
			nw = math.Max(-1e6, math.Min(1e6, v[0]))
		}
		nwi, nwf := splitFix(nw)
		r := vh.Rec{"t": "glyph", "g": recGlyphIv(g), "code": bytesInts(p.CharStrings[i]),
			"gs": gs, "ls": denseSubrs(fd.Subrs), "ng": len(p.GSubrs), "nl": len(fd.Subrs),
			"dw": val(20), "nwi": nwi, "nwf": nwf, "rdok": rerr == nil && len(rd.Glyphs) == len(f.Glyphs)}
		if r["rdok"].(bool) {
			r["rd"] = recGlyphRound(rd.Glyphs[i])
		}
		if g.Width == float64(val(20))/65536 {
			c.Mark("default width used")
		}
		c.Emit(r)
	}
	for _, cs := range p.CharStrings {
		markOps(c, cs)
	}
}

// markOps counts the operators which occur in a charstring (without masks).
func markOps(c *vh.Case, code []byte) {
	for i := 0; i < len(code); {
		b := code[i]
		switch {
		case b == 28:
			i += 3
		case b == 255:
			i += 5
		case b >= 247:
			i += 2
		case b >= 32:
			i++
		case b == 12:
			if i+1 < len(code) {
				c.Mark("op 12 %d", code[i+1])
			}
			i += 2
		case b == 19 || b == 20:
			c.Mark("op %d", b)
			return
		default:
			c.Mark("op %d", b)
			i++
		}
	}
}

type glyphGen struct {
	rng  *rand.Rand
	kind int
}

func (g *glyphGen) delta() float64 {
	r := g.rng
	if r.IntN(3) == 0 {
		return 0
	}
	switch g.kind {
	case 0:
		return float64(r.IntN(400) - 200)
	case 1: // fractions
		return float64(r.IntN(400)-200) + float64(r.IntN(65536))/65536
	case 2: // not representable
		return (r.Float64() - 0.5) * 500
	case 3:
		e := []float64{107, 108, -107, -108, 1131, 1132, -1131, -1132, 363, 364, 0.5, 1.0 / 3, -1.0 / 7, 1.0 / 65536, 0.4 / 65536, 0.6 / 65536, 2.0 / 3}
		return e[r.IntN(len(e))]
	case 4:
		return float64(r.IntN(16000) - 8000)
	default:
		return 1.0 / 3
	}
}

func (g *glyphGen) width(k int) float64 {
	r := g.rng
	switch k {
	case 0:
		return 500
	case 1:
		return float64(r.IntN(1000))
	case 2:
		return float64(r.IntN(2000)) / 8
	case 3:
		return r.Float64() * 1000
	case 4:
		return float64([]int{0, 500, 500, 500, 600, 1000, -100, 32000, -32000}[r.IntN(9)])
	case 5:
		return 0.5
	case 6:
		return float64([]int{32766, -32766, 0, 1}[r.IntN(4)])
	case 7:
		return float64(r.IntN(4)*500) + float64(r.IntN(2))/3
	default:
		return 0
	}
}

func clampC(x float64) float64 { return math.Max(-32000, math.Min(32000, x)) }

func (g *glyphGen) glyph(wk int) *cff.Glyph {
	r := g.rng
	res := &cff.Glyph{Width: g.width(wk)}
	hasStems := r.IntN(3) > 0
	if hasStems {
		nh, nv := r.IntN(5), r.IntN(5)
		switch r.IntN(10) {
		case 0:
			nh, nv = r.IntN(49), r.IntN(49)
		case 1:
			nh, nv = 23+r.IntN(3), 23+r.IntN(3)
		case 2:
			nh, nv = 0, 46+r.IntN(3)
		}
		stems := func(n int) []float64 {
			var s []float64
			x := g.delta()
			for i := 0; i < 2*n; i++ {
				s = append(s, clampC(x))
				x += math.Abs(g.delta()) * 0.3
				if r.IntN(10) == 0 {
					x += g.delta()
				}
			}
			return s
		}
		res.HStem, res.VStem = stems(nh), stems(nv)
	}
	ns := (len(res.HStem) + len(res.VStem)) / 2
	mask := func() {
		if ns == 0 {
			return
		}
		m := cff.GlyphOp{Op: cff.OpHintMask}
		if r.IntN(4) == 0 {
			m.Op = cff.OpCntrMask
		}
		for i := 0; i < (ns+7)/8; i++ {
			m.Args = append(m.Args, float64(r.IntN(256)))
		}
		res.Cmds = append(res.Cmds, m)
	}
	if r.IntN(3) == 0 {
		mask()
		if r.IntN(6) == 0 {
			mask()
		}
	}
	var x, y float64
	step := func() (float64, float64) {
		x, y = clampC(x+g.delta()), clampC(y+g.delta())
		if r.IntN(200) == 0 {
			x = float64(r.IntN(2)*64000 - 32000)
		}
		return x, y
	}
	for k := r.IntN(4); k > 0; k-- {
		res.MoveTo(step())
		n := r.IntN(6)
		if r.IntN(6) == 0 {
			n = r.IntN(70)
		}
		mode := r.IntN(9)
		for i := 0; i < n; i++ {
			m := mode
			if mode == 8 {
				m = r.IntN(8)
			}
			switch m {
			case 0:
				res.LineTo(step())
			case 1: // alternating
				if i%2 == 0 {
					x = clampC(x + g.delta())
				} else {
					y = clampC(y + g.delta())
				}
				res.LineTo(x, y)
			case 2:
				x1, y1 := step()
				x2, y2 := step()
				x3, y3 := step()
				res.CurveTo(x1, y1, x2, y2, x3, y3)
			case 3: // horizontal start, vertical end and back
				if i%2 == 0 {
					x = clampC(x + g.delta())
				} else {
					y = clampC(y + g.delta())
				}
				x1, y1 := x, y
				x2, y2 := step()
				if i%2 == 0 {
					y = clampC(y + g.delta())
				} else {
					x = clampC(x + g.delta())
				}
				if i == n-1 && r.IntN(2) == 0 {
					step()
				}
				res.CurveTo(x1, y1, x2, y2, x, y)
			case 4: // hhcurveto / vvcurveto
				v := mode == 4 && r.IntN(20) == 0
				if i == 0 && r.IntN(2) == 0 {
					step()
				} else if v {
					y = clampC(y + g.delta())
				} else {
					x = clampC(x + g.delta())
				}
				x1, y1 := x, y
				x2, y2 := step()
				if v {
					y = clampC(y + g.delta())
				} else {
					x = clampC(x + g.delta())
				}
				res.CurveTo(x1, y1, x2, y2, x, y)
			case 5: // flex-like
				y0 := y
				x = clampC(x + g.delta())
				if r.IntN(2) == 0 {
					y = clampC(y + g.delta())
				}
				x1, y1 := x, y
				step()
				x2, y2 := x, y
				x = clampC(x + g.delta())
				res.CurveTo(x1, y1, x2, y2, x, y)
				x = clampC(x + g.delta())
				x1, y1 = x, y
				x = clampC(x + g.delta())
				if r.IntN(2) == 0 {
					y = y0
				} else {
					y = clampC(y + g.delta())
				}
				x2, y2 = x, y
				x = clampC(x + g.delta())
				y = y0
				res.CurveTo(x1, y1, x2, y2, x, y)
			case 6: // degenerate
				if r.IntN(2) == 0 {
					res.LineTo(x, y)
				} else {
					res.CurveTo(x, y, x, y, x, y)
				}
			case 7:
				mask()
			}
		}
	}
	return res
}

// segKinds are the kinds of segments which the encoder distinguishes.  All
// deltas which are not required to vanish are different from zero.
const numSegKinds = 10

// addRun appends n segments of the given kind.
func addRun(rng *rand.Rand, res *cff.Glyph, p *[2]float64, kind, n int) {
	d := func() float64 {
		v := float64(1 + rng.IntN(40))
		if rng.IntN(2) == 0 {
			v = -v
		}
		if rng.IntN(8) == 0 {
			v += 1.0 / 3
		}
		return v
	}
	curve := func(a ...float64) {
		x1, y1 := p[0]+a[0], p[1]+a[1]
		x2, y2 := x1+a[2], y1+a[3]
		p[0], p[1] = x2+a[4], y2+a[5]
		res.CurveTo(x1, y1, x2, y2, p[0], p[1])
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 0: // general line
			p[0] += d()
			p[1] += d()
			res.LineTo(p[0], p[1])
		case 1, 2: // alternating lines
			p[(i+kind)%2] += d()
			res.LineTo(p[0], p[1])
		case 3: // horizontal lines
			p[0] += d()
			res.LineTo(p[0], p[1])
		case 4: // general curve
			curve(d(), d(), d(), d(), d(), d())
		case 5, 6: // hhcurveto, vvcurveto, possibly with off-axis start
			o := 0.0
			if i == 0 && rng.IntN(2) == 0 {
				o = d()
			}
			if kind == 5 {
				curve(d(), o, d(), d(), d(), 0)
			} else {
				curve(o, d(), d(), d(), 0, d())
			}
		case 7, 8: // hvcurveto, vhcurveto, possibly with off-axis end
			o := 0.0
			if i == n-1 && rng.IntN(2) == 0 {
				o = d()
			}
			if (i+kind)%2 == 0 {
				curve(d(), 0, d(), d(), o, d())
			} else {
				curve(0, d(), d(), d(), d(), o)
			}
		case 9: // flex
			a, b := d(), d()
			curve(d(), 0, d(), a, d(), 0)
			if rng.IntN(2) == 0 {
				curve(d(), 0, d(), -a, d(), 0)
			} else {
				curve(d(), 0, d(), b, d(), -a-b)
			}
		}
	}
}

var runLengths = []int{1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 22, 23, 24, 25, 26, 46, 47, 48, 49, 50}

func c04Families(env *vh.Env) []vh.Family {
	tlc := env.TLCCases("paths.ndjson")
	const chunk = 100
	nTLC := (len(tlc) + chunk - 1) / chunk
	return []vh.Family{
		{Name: "tlc", Quick: nTLC, Thor: nTLC, Run: func(c *vh.Case) {
			scale := []float64{1, 1.0 / 3, 16, -1.25}[c.Idx%4]
			gg := []*cff.Glyph{{Width: 500}}
			for k := c.Idx * chunk; k < min(len(tlc), (c.Idx+1)*chunk); k++ {
				var p [][]float64
				if err := json.Unmarshal(tlcUnquote(tlc[k]), &p); err != nil {
					panic(err)
				}
				g := &cff.Glyph{Width: float64(500 + k%3)}
				x, y := 10*scale, 20*scale
				g.MoveTo(x, y)
				for _, s := range p {
					var a []float64
					for i := 0; i < len(s); i += 2 {
						x += s[i] * scale
						y += s[i+1] * scale
						a = append(a, x, y)
					}
					if len(s) == 2 {
						g.LineTo(x, y)
					} else {
						g.CurveTo(a[0], a[1], a[2], a[3], a[4], a[5])
					}
				}
				gg = append(gg, g)
			}
			emitCompiled(c, testCFF(c.Rng, gg, c.Idx%2 == 1))
		}},
		{Name: "random", Quick: 2500, Thor: 40000, Run: func(c *vh.Case) {
			rng := c.Rng
			n := 1 + rng.IntN(6)
			wk := rng.IntN(9)
			var gg []*cff.Glyph
			for i := 0; i < n; i++ {
				g := &glyphGen{rng, rng.IntN(6)}
				k := wk
				if rng.IntN(5) == 0 {
					k = rng.IntN(9)
				}
				gg = append(gg, g.glyph(k))
			}
			emitCompiled(c, testCFF(rng, gg, rng.IntN(3) == 0))
		}},
		{Name: "runs", Quick: numSegKinds * len(runLengths), Thor: 8 * numSegKinds * len(runLengths), Run: func(c *vh.Case) {
			// every kind of run, followed by every other kind, around every
			// stack limit
			rng := c.Rng
			kind := c.Idx % numSegKinds
			n := runLengths[c.Idx/numSegKinds%len(runLengths)]
			if kind == 9 {
				n = min(n, 12)
			}
			var gg []*cff.Glyph
			for k2 := 0; k2 < numSegKinds; k2++ {
				g := &cff.Glyph{Width: 500}
				p := &[2]float64{float64(rng.IntN(100)), float64(rng.IntN(100))}
				g.MoveTo(p[0], p[1])
				if rng.IntN(4) == 0 {
					addRun(rng, g, p, rng.IntN(numSegKinds), 1)
				}
				addRun(rng, g, p, kind, n)
				addRun(rng, g, p, k2, 1+rng.IntN(2))
				gg = append(gg, g)
			}
			emitCompiled(c, testCFF(rng, gg, false))
		}},
		{Name: "widths", Quick: 300, Thor: 3000, Run: func(c *vh.Case) {
			rng := c.Rng
			n := 1 + rng.IntN(40)
			var gg []*cff.Glyph
			wk := c.Idx % 9
			for i := 0; i < n; i++ {
				gg = append(gg, &cff.Glyph{Width: (&glyphGen{rng: rng}).width(wk)})
				if rng.IntN(2) == 0 {
					gg[i].MoveTo(float64(rng.IntN(100)), float64(rng.IntN(2)))
				}
			}
			emitCompiled(c, testCFF(rng, gg, rng.IntN(3) == 0))
		}},
		{Name: "drift", Quick: 40, Thor: 400, Run: func(c *vh.Case) {
			// long runs with the same rounding error in each step
			rng := c.Rng
			d := []float64{1.0 / 3, 2.0 / 3, 0.1, 1.4999 / 65536, 0.7 / 65536, 1e-5}[c.Idx%6]
			e := []float64{0, 1, 1.0 / 3, -1.0 / 7}[rng.IntN(4)]
			g := &cff.Glyph{Width: 100}
			x, y := 0.0, 0.0
			g.MoveTo(x, y)
			for i := 0; i < 300; i++ {
				if c.Idx%2 == 0 {
					x += d
					y += e
					g.LineTo(x, y)
				} else {
					g.CurveTo(x+d, y+e*0.25, x+1.5*d, y+e*0.5, x+2*d, y+e)
					x += 2 * d
					y += e
				}
			}
			for i := 0; i < 40; i++ {
				g.HStem = append(g.HStem, float64(i)*d*7)
				g.VStem = append(g.VStem, float64(i)*d*5-100)
			}
			emitCompiled(c, testCFF(rng, []*cff.Glyph{g}, false))
		}},
		{Name: "range", Quick: 200, Thor: 2000, Run: func(c *vh.Case) {
			rng := c.Rng
			g := &cff.Glyph{Width: 100}
			v := []float64{-32000, 32000, 0, 767, 768, -767, 16000, -16000, 800, -31999.5, 31999.99999}
			val := func() float64 {
				if rng.IntN(3) > 0 {
					return v[rng.IntN(3)+2] + float64(rng.IntN(3))
				}
				return v[rng.IntN(len(v))]
			}
			if rng.IntN(2) == 0 {
				g.HStem = []float64{val(), val()}
			}
			g.MoveTo(val(), val())
			for k := rng.IntN(3); k > 0; k-- {
				if rng.IntN(2) == 0 {
					g.LineTo(val(), val())
				} else {
					g.CurveTo(val(), val(), val(), val(), val(), val())
				}
			}
			emitCompiled(c, testCFF(rng, []*cff.Glyph{g}, false))
		}},
	}
}
