package main

import (
	"encoding/json"
	"math/rand/v2"

	xsfnt "golang.org/x/image/font/sfnt"

	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"

	"vharness/vh"
)

func mustJSON(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// emitSet records the encoding of gg (if given), and the decoding of enc.
func emitSet(c *vh.Case, gg glyf.Glyphs, enc *glyf.Encoded) glyf.Glyphs {
	rec := vh.Rec{"t": "set", "foreign": gg == nil, "ok": false, "out": []int{}, "ox": []int{}}
	var dec glyf.Glyphs
	msg := vh.Guard(func() {
		if gg != nil {
			rec["in"], rec["ix"] = recGlyfs(gg)
			enc = gg.Encode()
		}
		rec["fmt"] = int(enc.LocaFormat)
		rec["loca"] = bytesInts(enc.LocaData)
		rec["glyf"] = bytesInts(enc.GlyfData)
		var err error
		dec, err = glyf.Decode(enc)
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["out"], rec["ox"] = recGlyfs(dec)
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return nil
	}
	c.Emit(rec)
	return dec
}

func emitPts(c *vh.Case, nc int, e []byte) {
	rec := vh.Rec{"t": "pts", "nc": nc, "e": bytesInts(e), "ok": false, "cc": []int{}, "ins": []int{}}
	msg := vh.Guard(func() {
		g := glyf.SimpleGlyph{NumContours: int16(nc), Encoded: append([]byte{}, e...)}
		info, err := g.Decode()
		if err != nil {
			return
		}
		rec["ok"] = true
		cc := [][][]int{}
		for _, c := range info.Contours {
			pp := [][]int{}
			for _, p := range c {
				on := 0
				if p.OnCurve {
					on = 1
				}
				pp = append(pp, []int{int(p.X), int(p.Y), on})
			}
			cc = append(cc, pp)
		}
		rec["cc"] = cc
		rec["ins"] = bytesInts(info.Instructions)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func emitComp(c *vh.Case, g *glyf.Glyph) {
	rec := vh.Rec{"t": "comp", "g": recGlyf(g)}
	msg := vh.Guard(func() {
		cc := []int{}
		m := map[glyph.ID]glyph.ID{}
		pairs := [][]int{}
		for _, x := range g.Components() {
			cc = append(cc, int(x))
			if _, ok := m[x]; !ok {
				m[x] = glyph.ID(c.Rng.IntN(65536))
				if c.Rng.IntN(4) == 0 {
					m[x] = g.Components()[0]
				}
				pairs = append(pairs, []int{int(x), int(m[x])})
			}
		}
		m[glyph.ID(c.Rng.IntN(65536))] += 0
		rec["comps"] = cc
		rec["map"] = pairs
		rec["fixed"] = recGlyf(g.FixComponents(m))
		rec["after"] = recGlyf(g)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func emitXi(c *vh.Case, gg glyf.Glyphs, enc *glyf.Encoded, n int) {
	upem := []int{1000, 2048, 16, 16384}[c.Rng.IntN(4)]
	data := minimalTTF(enc.GlyfData, enc.LocaData, int(enc.LocaFormat), len(gg), upem)
	f, err := xsfnt.Parse(data)
	if err != nil {
		c.Emit(vh.Rec{"t": "panic", "msg": "x/image: " + err.Error()})
		return
	}
	var all []map[string]any
	for _, g := range gg {
		all = append(all, recGlyf(g))
	}
	for i := 0; i < n; i++ {
		gid := i
		if n < len(gg) {
			gid = c.Rng.IntN(len(gg))
		}
		segs, err := ximgSegs(f, gid)
		if len(segs) > 2500 {
			continue
		}
		c.Emit(vh.Rec{"t": "xi", "gg": all, "gid": gid, "ok": err == nil, "segs": segs})
		c.Mark("x/image ok=%v segs=%d", err == nil, min(len(segs), 8))
	}
}

// foreignSet lays out the given entries.
func foreignSet(rng *rand.Rand, ee [][]byte) *glyf.Encoded {
	align := []int{2, 4, 2, 4, 1}[rng.IntN(5)]
	enc := &glyf.Encoded{}
	var offs []int
	for _, e := range ee {
		offs = append(offs, len(enc.GlyfData))
		enc.GlyfData = append(enc.GlyfData, e...)
		for len(enc.GlyfData)%align != 0 {
			enc.GlyfData = append(enc.GlyfData, 0)
		}
		if len(e) > 0 && rng.IntN(8) == 0 {
			enc.GlyfData = append(enc.GlyfData, make([]byte, 4*rng.IntN(3))...)
		}
	}
	offs = append(offs, len(enc.GlyfData))
	enc.LocaFormat = int16(rng.IntN(2))
	if align == 1 || len(enc.GlyfData) > 131070 {
		enc.LocaFormat = 1
	}
	for _, o := range offs {
		if enc.LocaFormat == 0 {
			enc.LocaData = w16(enc.LocaData, o/2)
		} else {
			enc.LocaData = w32(enc.LocaData, o)
		}
	}
	return enc
}

func glyfHeader(nc int, bb [4]int) []byte {
	b := w16(nil, nc&0xFFFF)
	for _, v := range bb {
		b = w16(b, v&0xFFFF)
	}
	return b
}

// sizedGlyph returns a glyph whose encoding has the given length (even, >= 26).
func sizedGlyph(rng *rand.Rand, size int) *glyf.Glyph {
	cc := [][]gpoint{{{0, 0, true}, {100, 0, true}, {50, 80, false}}}
	e := encSimple(rng, cc, nil)
	e2 := encSimple(rand.New(rand.NewPCG(1, 2)), cc, randBytes(rng, max(0, size-10-len(e))))
	for d := 0; 10+len(e2) != size && 10+len(e2) != size-1; d++ {
		e2 = encSimple(rand.New(rand.NewPCG(1, 2)), cc, randBytes(rng, max(0, size-10-len(e)+(d+1)/2*(1-d%2*2))))
		if d > 100 {
			panic("sizedGlyph")
		}
	}
	return &glyf.Glyph{Data: glyf.SimpleGlyph{NumContours: 1, Encoded: e2}}
}

func c11Families(env *vh.Env) []vh.Family {
	simple := env.TLCCases("simple.ndjson")
	comp := env.TLCCases("comp.ndjson")
	const per = 100
	chunk := func(n int) int { return (n + per - 1) / per }

	return []vh.Family{
		{Name: "simple", Quick: chunk(len(simple)), Thor: chunk(len(simple)), Run: func(c *vh.Case) {
			var ee [][]byte
			for i := c.Idx * per; i < (c.Idx+1)*per && i < len(simple); i++ {
				var s struct {
					NC int   `json:"nc"`
					E  []int `json:"e"`
				}
				if err := json.Unmarshal(tlcUnquote(simple[i]), &s); err != nil {
					panic(err)
				}
				body := toBytes(s.E)
				emitPts(c, s.NC, body)
				ee = append(ee, append(glyfHeader(s.NC, [4]int{-1, 2, 300, -400}), body...))
				if c.Rng.IntN(6) == 0 {
					ee = append(ee, nil)
				}
			}
			if c.Rng.IntN(3) == 0 {
				emitSet(c, nil, foreignSet(c.Rng, ee))
			}
		}},
		{Name: "composite", Quick: chunk(len(comp)), Thor: chunk(len(comp)), Run: func(c *vh.Case) {
			var ee [][]byte
			for i := c.Idx * per; i < (c.Idx+1)*per && i < len(comp); i++ {
				var e []int
				if err := json.Unmarshal(tlcUnquote(comp[i]), &e); err != nil {
					panic(err)
				}
				nc := -1
				if c.Rng.IntN(10) == 0 {
					nc = -2
				}
				ee = append(ee, append(glyfHeader(nc, [4]int{-32768, 2, 32767, -400}), toBytes(e)...))
			}
			gg := emitSet(c, nil, foreignSet(c.Rng, ee))
			for _, g := range gg {
				emitComp(c, g)
			}
			if gg != nil {
				emitSet(c, gg, nil)
			}
		}},
		{Name: "rand", Quick: 600, Thor: 6000, Run: func(c *vh.Case) {
			rng := c.Rng
			n := 1 + rng.IntN(30)
			gg := make(glyf.Glyphs, n)
			draw := rng.IntN(3) > 0
			for i := range gg {
				switch rng.IntN(6) {
				case 0:
				case 1, 2:
					if i > 0 {
						pool := []int{}
						for j := 0; j < i; j++ {
							pool = append(pool, j)
						}
						if !draw {
							pool = append(pool, 65535, n, rng.IntN(65536))
						}
						gg[i] = randComposite(rng, pool, 4, draw)
						break
					}
					fallthrough
				default:
					span := []int{400, 2000, 2000, 32767}[rng.IntN(4)]
					tr := 0
					if rng.IntN(3) == 0 {
						tr = 1 + rng.IntN(4)
					}
					maxP := 8
					if rng.IntN(60) == 0 {
						maxP = 600
					}
					gg[i] = randSimple(rng, 4, maxP, span, tr)
				}
			}
			for _, g := range gg {
				if g == nil {
					continue
				}
				if s, ok := g.Data.(glyf.SimpleGlyph); ok {
					emitPts(c, int(s.NumContours), s.Encoded)
				}
				emitComp(c, g)
			}
			dec := emitSet(c, gg, nil)
			c.Mark("glyphs %d", n/10)
			if dec != nil {
				// what the library has decoded can be encoded again
				emitSet(c, dec, nil)
				emitXi(c, gg, gg.Encode(), min(n, 6))
			}
		}},
		// long runs of equal flags
		{Name: "runs", Quick: 60, Thor: 400, Run: func(c *vh.Case) {
			rng := c.Rng
			gg := glyf.Glyphs{}
			for k := 0; k < 4; k++ {
				var cc [][]gpoint
				x, y := rng.IntN(100), rng.IntN(100)
				for nc := 1 + rng.IntN(2); nc > 0; nc-- {
					n := []int{254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 514, 768}[rng.IntN(12)] + rng.IntN(3)
					dx, dy := []int{0, 0, 1, -1, 20}[rng.IntN(5)], []int{0, 0, 1, -2, 21}[rng.IntN(5)]
					on := rng.IntN(4) > 0
					var ct []gpoint
					for i := 0; i < n; i++ {
						ct = append(ct, gpoint{x, y, on})
						x, y = x+dx, y+dy
					}
					cc = append(cc, ct)
				}
				e := encSimple(rng, cc, randBytes(rng, rng.IntN(3)))
				gg = append(gg, &glyf.Glyph{Rect16: bboxOf(cc), Data: glyf.SimpleGlyph{NumContours: int16(len(cc)), Encoded: e}})
				emitPts(c, len(cc), e)
			}
			emitSet(c, gg, nil)
		}},
		// total size around the limits of the two loca formats
		{Name: "limit", Quick: 16, Thor: 40, Run: func(c *vh.Case) {
			rng := c.Rng
			sizes := []int{65534, 65536, 65538, 131068, 131070, 131072, 131074, 131076, 196608, 262142, 100000}
			total := sizes[c.Idx%len(sizes)]
			gg := glyf.Glyphs{}
			sum := 0
			for sum < total {
				rest := total - sum
				s := rest
				if rest > 30000 {
					s = 2 * (40 + rng.IntN(14000))
				}
				if rest-s > 0 && rest-s < 60 {
					s = rest - 60
				}
				g := sizedGlyph(rng, s)
				gg = append(gg, g)
				sum += s
				if rng.IntN(3) == 0 {
					gg = append(gg, nil)
				}
			}
			c.Mark("total %d", sum)
			emitSet(c, gg, nil)
		}},
		// many glyphs
		{Name: "many", Quick: 6, Thor: 16, MaxSec: 100, Run: func(c *vh.Case) {
			rng := c.Rng
			n := []int{65535, 65535, 65534, 32768, 40000, 21845}[c.Idx%6]
			gg := make(glyf.Glyphs, n)
			pool := []*glyf.Glyph{nil, randSimple(rng, 2, 4, 100, 0), randSimple(rng, 2, 4, 100, 1), randComposite(rng, []int{1, 2}, 2, true)}
			if c.Idx%6 == 1 {
				pool = pool[:1]
				gg[rng.IntN(n)] = randSimple(rng, 2, 4, 100, 0)
			}
			i := 0
			for i < n {
				g := pool[rng.IntN(len(pool))]
				run := 1 + rng.IntN(400)
				if c.Idx%6 == 0 && g != nil {
					run = 1 + rng.IntN(30)
				}
				for ; run > 0 && i < n; run-- {
					if gg[i] == nil {
						gg[i] = g
					}
					i++
				}
			}
			emitSet(c, gg, nil)
		}},
		// damaged glyphs: no panics, and no other reading of what is still well-formed
		{Name: "damaged", Quick: 800, Thor: 10000, Run: func(c *vh.Case) {
			rng := c.Rng
			n := 1 + rng.IntN(6)
			gg := make(glyf.Glyphs, n)
			for i := range gg {
				switch rng.IntN(5) {
				case 0:
				case 1, 2:
					gg[i] = randComposite(rng, []int{0, 1, 2}, 3, false)
				default:
					gg[i] = randSimple(rng, 3, 6, 400, rng.IntN(2))
				}
			}
			enc := gg.Encode()
			for k := rng.IntN(4); k >= 0; k-- {
				switch rng.IntN(4) {
				case 0:
					if len(enc.LocaData) > 0 {
						enc.LocaData[rng.IntN(len(enc.LocaData))] = byte(rng.IntN(256))
					}
				case 1:
					if len(enc.GlyfData) > 0 {
						enc.GlyfData = enc.GlyfData[:rng.IntN(len(enc.GlyfData))]
					}
				default:
					if len(enc.GlyfData) > 0 {
						enc.GlyfData[rng.IntN(len(enc.GlyfData))] = byte(rng.IntN(256))
					}
				}
			}
			emitSet(c, nil, enc)
			for _, g := range gg {
				if g == nil {
					continue
				}
				if s, ok := g.Data.(glyf.SimpleGlyph); ok && len(s.Encoded) > 0 {
					e := append([]byte{}, s.Encoded...)
					for k := rng.IntN(3); k >= 0; k-- {
						e[rng.IntN(len(e))] = byte(rng.IntN(256))
					}
					if rng.IntN(3) == 0 {
						e = e[:rng.IntN(len(e))]
					}
					emitPts(c, int(s.NumContours), e)
				}
			}
		}},
		// the fonts of the corpus
		{Name: "corpus", Quick: 16, Thor: 60, MaxSec: 100, Run: func(c *vh.Case) {
			var fonts []*corpusFont
			for _, f := range corpus() {
				if _, ok := f.font.Outlines.(*glyf.Outlines); ok {
					fonts = append(fonts, f)
				}
			}
			if len(fonts) == 0 {
				return
			}
			f := fonts[c.Idx%len(fonts)]
			gg := f.font.Outlines.(*glyf.Outlines).Glyphs
			n := 120
			if len(gg) > n {
				a := c.Rng.IntN(len(gg) - n)
				gg = gg[a : a+n]
			}
			emitSet(c, gg, nil)
			for i, g := range gg {
				if g == nil || i%4 != 0 {
					continue
				}
				if s, ok := g.Data.(glyf.SimpleGlyph); ok {
					emitPts(c, int(s.NumContours), s.Encoded)
				}
				emitComp(c, g)
			}
		}},
	}
}
