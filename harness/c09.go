package main

import (
	"encoding/json"
	"math/rand/v2"
	"sort"
	"strings"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"

	"vharness/vh"
)

// runsOf describes a mapping as a list of runs [first, last, gid].
func runsOf(keys []int, get func(int) int) [][]int {
	res := [][]int{}
	for _, c := range keys {
		g := get(c)
		if n := len(res); n > 0 {
			l := res[n-1]
			if l[1]+1 == c && l[2]+(c-l[0]) == g && l[2] != 0 {
				l[1] = c
				continue
			}
		}
		res = append(res, []int{c, c, g})
	}
	return res
}

func runs4(m cmap.Format4) [][]int {
	keys := []int{}
	for k := range m {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	return runsOf(keys, func(c int) int { return int(m[uint16(c)]) })
}

func runs12(m cmap.Format12) [][]int {
	keys := []int{}
	for k := range m {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	return runsOf(keys, func(c int) int { return int(m[uint32(c)]) })
}

// sweep queries the subtable.  It returns the runs found in the given code
// points and the glyphs found elsewhere.
func sweep(sub cmap.Subtable, in []int, other []int) (lib [][]int, sup []int) {
	lib = [][]int{}
	for _, c := range in {
		g := int(sub.Lookup(rune(c)))
		if g == 0 {
			continue
		}
		if n := len(lib); n > 0 && lib[n-1][1]+1 == c && lib[n-1][2]+c-lib[n-1][0] == g {
			lib[n-1][1] = c
			continue
		}
		lib = append(lib, []int{c, c, g})
	}
	sup = []int{}
	for _, c := range other {
		if g := int(sub.Lookup(rune(c))); g != 0 && len(sup) < 10 {
			sup = append(sup, c, g)
		}
	}
	return lib, sup
}

var bmp = func() []int {
	res := make([]int, 65536)
	for i := range res {
		res[i] = i
	}
	return res
}()

var allCodes = func() []int {
	res := make([]int, 0x110000)
	for i := range res {
		res[i] = i
	}
	return res
}()

// supProbe returns supplementary code points which agree with mapped codes
// modulo 65536, and some others.
func supProbe(rng *rand.Rand, runs [][]int, full bool) []int {
	if full {
		return allCodes[65536:]
	}
	var res []int
	for i := 0; i < 64; i++ {
		c := rng.IntN(65536)
		if len(runs) > 0 {
			r := runs[rng.IntN(len(runs))]
			c = r[0] + rng.IntN(r[1]-r[0]+1)
		}
		res = append(res, c&0xFFFF|(1+rng.IntN(16))<<16)
	}
	return append(res, 0x10000, 0x1FFFF, 0x10FFFF)
}

func key4(rng *rand.Rand) cmap.Key {
	return []cmap.Key{{PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}}[rng.IntN(2)]
}

func emitEnc4(c *vh.Case, m cmap.Format4, lang uint16, full bool) {
	runs := runs4(m)
	var b []byte
	msg := vh.Guard(func() { b = m.Encode(lang) })
	refused := false
	if msg != "" {
		if !strings.Contains(msg, "too many mappings") {
			c.Emit(vh.Rec{"t": "panic", "msg": msg})
			return
		}
		refused = true
		c.Mark("enc4 refused")
	}
	rec := vh.Rec{"t": "enc4", "m": runs, "lang": int(lang), "b": []int{}, "refused": refused, "ok": false, "lib": [][]int{}, "sup": []int{}, "probe": [][]int{}}
	if !refused && len(b) <= 65535 {
		rec["b"] = bytesInts(b)
		probe := [][]int{}
		for i := 0; i < 20; i++ {
			cc := c.Rng.IntN(65536)
			if i < 15 && len(runs) > 0 {
				r := runs[c.Rng.IntN(len(runs))]
				cc = min(max(r[0]+c.Rng.IntN(r[1]-r[0]+3)-1, 0), 65535)
			}
			probe = append(probe, []int{cc, int(m[uint16(cc)])})
		}
		rec["probe"] = probe
		key := key4(c.Rng)
		t := cmap.Table{key: b}
		msg := vh.Guard(func() {
			sub, err := t.Get(key)
			if err != nil {
				return
			}
			rec["ok"] = true
			if strings.HasPrefix(c.ID, "tlc/") && c.Idx%4 != 0 {
				rec["lib"], rec["sup"] = sweep12(c, sub, runs, false)
				return
			}
			rec["lib"], rec["sup"] = sweep(sub, bmp, supProbe(c.Rng, runs, full))
		})
		if msg != "" {
			c.Emit(vh.Rec{"t": "panic", "msg": msg})
			return
		}
		c.Mark("segments <2^%d", bitlen(len(b)/8))
	} else if !refused {
		rec["b"] = make([]int, 65536+len(b)%2)
		c.Mark("enc4 overflow")
	}
	c.Emit(rec)
}

func bitlen(n int) int {
	k := 0
	for n > 0 {
		n >>= 1
		k++
	}
	return k
}

func emitEnc12(c *vh.Case, m cmap.Format12, lang uint16, full bool) {
	runs := runs12(m)
	b := m.Encode(lang)
	rec := vh.Rec{"t": "enc12", "m": runs, "lang": int(lang), "b": bytesInts(b), "ok": false, "lib": [][]int{}, "sup": []int{}}
	key := []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}}[c.Rng.IntN(2)]
	t := cmap.Table{key: b}
	msg := vh.Guard(func() {
		sub, err := t.Get(key)
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["lib"], rec["sup"] = sweep12(c, sub, runs, full)
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	c.Emit(rec)
}

// sweep12 queries all code points in and around the runs, or all code points.
func sweep12(c *vh.Case, sub cmap.Subtable, runs [][]int, full bool) ([][]int, []int) {
	if full {
		return sweep(sub, allCodes, nil)
	}
	var in []int
	last := -1
	for _, r := range runs {
		for k := max(r[0]-2, last+1); k <= min(r[1]+2, 0x10FFFF); k++ {
			in = append(in, k)
			last = k
		}
	}
	seen := map[int]bool{}
	for _, k := range in {
		seen[k] = true
	}
	var other []int
	for i := 0; i < 64; i++ {
		k := c.Rng.IntN(0x110000)
		if len(in) > 0 && i < 48 {
			k = in[c.Rng.IntN(len(in))]&0xFFFF | c.Rng.IntN(17)<<16
		}
		if !seen[k] {
			other = append(other, k)
		}
	}
	return sweep(sub, in, other)
}

// randMap4 generates mappings made from runs, gaps and irregular parts.
func randMap4(rng *rand.Rand, size int) cmap.Format4 {
	m := cmap.Format4{}
	code := rng.IntN(300)
	switch rng.IntN(4) {
	case 0:
		code = 65536 - rng.IntN(2*size+2)
	case 1:
		code = rng.IntN(65536)
	}
	gid := rng.IntN(65536)
	if rng.IntN(2) == 0 {
		gid = 65536 - rng.IntN(20)
	}
	for n := 0; n < size && code < 65536; {
		k := 1 + rng.IntN(7)
		if rng.IntN(10) == 0 {
			k = rng.IntN(60)
		}
		switch rng.IntN(6) {
		case 0, 1: // run
			for ; k > 0 && code < 65536; k-- {
				m[uint16(code)] = glyph.ID(gid)
				gid = (gid + 1) & 0xFFFF
				code++
				n++
			}
		case 2: // irregular
			for ; k > 0 && code < 65536; k-- {
				gid = rng.IntN(65536)
				if rng.IntN(6) == 0 {
					gid = 0
				}
				m[uint16(code)] = glyph.ID(gid)
				code++
				n++
			}
		case 3: // constant
			for ; k > 0 && code < 65536; k-- {
				m[uint16(code)] = glyph.ID(gid)
				code++
				n++
			}
		case 4:
			code += k
			n++
		case 5:
			gid = rng.IntN(65536)
			if rng.IntN(3) == 0 {
				gid = 65530 + rng.IntN(6)
			}
			n++
		}
	}
	switch rng.IntN(5) {
	case 0:
		m[0xFFFF] = glyph.ID(rng.IntN(65536))
	case 1:
		m[0xFFFF] = glyph.ID(rng.IntN(65536))
		m[0xFFFE] = m[0xFFFF] - glyph.ID(rng.IntN(2))
	}
	return m
}

func w16(b []byte, x int) []byte { return append(b, byte(x>>8), byte(x)) }
func w32(b []byte, x int) []byte { return append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x)) }

// build4 assembles a format 4 subtable with arbitrary, possibly shared and
// possibly non-zero delta glyph arrays.
func build4(rng *rand.Rand) []byte {
	type seg struct {
		s, e, d, arr int
	}
	var segs []seg
	var vals []int
	code := rng.IntN(400)
	n := rng.IntN(8)
	if rng.IntN(10) == 0 {
		n = rng.IntN(70)
	}
	for i := 0; i < n; i++ {
		l := rng.IntN(6)
		if rng.IntN(8) == 0 {
			l = rng.IntN(40)
		}
		if code+l >= 65535 {
			break
		}
		s := seg{code, code + l, rng.IntN(65536), -1}
		switch rng.IntN(4) {
		case 0:
			s.d = (65536 - code + rng.IntN(5)) & 0xFFFF
		case 1:
			s.d = (65536*2 - code - l + rng.IntN(5)) & 0xFFFF
		}
		if rng.IntN(2) == 0 {
			if rng.IntN(3) == 0 {
				s.d = 0
			}
			if len(vals) > l && rng.IntN(3) == 0 { // share
				s.arr = rng.IntN(len(vals) - l)
			} else {
				s.arr = len(vals)
				for j := 0; j <= l; j++ {
					v := rng.IntN(65536)
					if rng.IntN(3) == 0 {
						v = 0
					}
					if rng.IntN(6) == 0 {
						v = (65536 - s.d) & 0xFFFF
					}
					vals = append(vals, v)
				}
			}
		}
		segs = append(segs, s)
		code += l + 1
		switch rng.IntN(4) {
		case 0:
		case 1:
			code++
		default:
			code += rng.IntN(3000)
		}
	}
	last := seg{65535, 65535, 1, -1}
	switch rng.IntN(6) {
	case 0:
		last.d = rng.IntN(65536)
	case 1:
		last.d = rng.IntN(2)
		last.arr = len(vals)
		vals = append(vals, rng.IntN(4))
	case 2:
		if code < 65500 {
			last.s = 65500 + rng.IntN(36)
		}
	}
	segs = append(segs, last)
	nn := len(segs)
	e := bitlen(nn) - 1
	b := w16(nil, 4)
	b = w16(b, 16+8*nn+2*len(vals))
	b = w16(b, rng.IntN(3))
	b = w16(b, 2*nn)
	b = w16(b, 2<<e)
	b = w16(b, e)
	b = w16(b, 2*nn-2<<e)
	for _, s := range segs {
		b = w16(b, s.e)
	}
	b = w16(b, 0)
	for _, s := range segs {
		b = w16(b, s.s)
	}
	for _, s := range segs {
		b = w16(b, s.d)
	}
	for k, s := range segs {
		if s.arr < 0 {
			b = w16(b, 0)
		} else {
			b = w16(b, 2*(nn-k+s.arr))
		}
	}
	for _, v := range vals {
		b = w16(b, v)
	}
	return b
}

func build6(rng *rand.Rand, first, n int) []byte {
	b := w16(nil, 6)
	b = w16(b, 10+2*n)
	b = w16(b, 0)
	b = w16(b, first)
	b = w16(b, n)
	for i := 0; i < n; i++ {
		v := rng.IntN(65536)
		if rng.IntN(4) == 0 {
			v = 0
		}
		if rng.IntN(3) == 0 {
			v = 300 + i
		}
		b = w16(b, v)
	}
	return b
}

func build0(rng *rand.Rand) []byte {
	b := w16(nil, 0)
	b = w16(b, 262)
	b = w16(b, 0)
	for i := 0; i < 256; i++ {
		v := 0
		switch rng.IntN(3) {
		case 0:
			v = i
		case 1:
			v = rng.IntN(256)
		}
		b = append(b, byte(v))
	}
	return b
}

func build12(rng *rand.Rand, big bool) []byte {
	var gg [][3]int
	code := rng.IntN(1000)
	if rng.IntN(2) == 0 {
		code = 0x10000 - rng.IntN(40)
	}
	n := rng.IntN(9)
	for i := 0; i < n; i++ {
		l := rng.IntN(10)
		if big && rng.IntN(3) == 0 {
			l = rng.IntN(30000)
		}
		g := rng.IntN(65536 - l)
		switch rng.IntN(4) {
		case 0:
			g = 65535 - l
		case 1:
			g = rng.IntN(2)
		}
		if code+l > 0x10FFFF {
			break
		}
		gg = append(gg, [3]int{code, code + l, g})
		code += l + 1
		switch rng.IntN(3) {
		case 1:
			code += rng.IntN(20)
		case 2:
			code += rng.IntN(0x20000)
		}
	}
	if rng.IntN(5) == 0 && code < 0x10FF00 {
		gg = append(gg, [3]int{0x10FFF0, 0x10FFFF, 17})
	}
	b := []byte{0, 12, 0, 0}
	b = w32(b, 16+12*len(gg))
	b = w32(b, 0)
	b = w32(b, len(gg))
	for _, g := range gg {
		for _, x := range g {
			b = w32(b, x)
		}
	}
	return b
}

func emitDec(c *vh.Case, key cmap.Key, b []byte, full bool) {
	rec := vh.Rec{"t": "dec", "p": int(key.PlatformID), "e": int(key.EncodingID), "b": bytesInts(b), "ok": false, "lib": [][]int{}, "sup": []int{}}
	t := cmap.Table{key: b}
	format := int(b[0])<<8 | int(b[1])
	msg := vh.Guard(func() {
		sub, err := t.Get(key)
		if err != nil {
			c.Mark("dec %d rejected", format)
			return
		}
		c.Mark("dec %d ok", format)
		rec["ok"] = true
		if format == 12 {
			var runs [][]int
			for o := 16; o+12 <= len(b) && len(runs) < 100; o += 12 {
				g := func(k int) int {
					return int(b[o+k])<<24 | int(b[o+k+1])<<16 | int(b[o+k+2])<<8 | int(b[o+k+3])
				}
				s, e := g(0), g(4)
				if e <= 0x10FFFF && s <= e {
					runs = append(runs, []int{s, e})
				}
			}
			rec["lib"], rec["sup"] = sweep12(c, sub, runs, full)
		} else {
			rec["lib"], rec["sup"] = sweep(sub, bmp, supProbe(c.Rng, nil, full))
		}
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	c.Emit(rec)
}

func c09Families(env *vh.Env) []vh.Family {
	tlc := env.TLCCases("patterns.ndjson")
	const chunk = 50
	nTLC := (len(tlc) + chunk - 1) / chunk
	lang := func(rng *rand.Rand) uint16 {
		return []uint16{0, 0, 1, 256, 0x1234, 65535}[rng.IntN(6)]
	}
	return []vh.Family{
		{Name: "tlc", Quick: nTLC, Thor: nTLC, Run: func(c *vh.Case) {
			for k := c.Idx * chunk; k < min(len(tlc), (c.Idx+1)*chunk); k++ {
				var p []int
				if err := json.Unmarshal(tlcUnquote(tlc[k]), &p); err != nil {
					panic(err)
				}
				m := cmap.Format4{}
				m12 := cmap.Format12{}
				for i, g := range p[1:] {
					// an explicit .notdef is the same as no entry
					if g != 0 || k%3 == 0 {
						m[uint16(p[0]+i)] = glyph.ID(g)
						m12[uint32(p[0]+i)] = glyph.ID(g)
						if k%2 == 0 && i+1 < len(p[1:]) {
							m12[uint32(p[0]+i+len(p))] = glyph.ID(g)
						}
					}
				}
				emitEnc4(c, m, 0, false)
				emitEnc12(c, m12, lang(c.Rng), false)
			}
		}},
		{Name: "enc4", Quick: 1500, Thor: 30000, Run: func(c *vh.Case) {
			rng := c.Rng
			size := 5 + rng.IntN(60)
			if c.Idx%10 == 0 {
				size = rng.IntN(700)
			}
			emitEnc4(c, randMap4(rng, size), lang(rng), c.Idx%20 == 0)
		}},
		{Name: "enc4big", Quick: 24, Thor: 240, MaxSec: 120, Run: func(c *vh.Case) {
			rng := c.Rng
			m := cmap.Format4{}
			switch c.Idx % 8 {
			case 0: // single runs over everything
				d := rng.IntN(65536)
				for i := 0; i < 65536; i++ {
					m[uint16(i)] = glyph.ID(i + d)
				}
			case 1: // dense random values, close to the limit
				n := 32740 + rng.IntN(20)
				s := rng.IntN(30000)
				for i := 0; i < n; i++ {
					m[uint16(s+i)] = glyph.ID(rng.IntN(65535) + 1)
				}
			case 2: // isolated codes, close to the limit
				n := 8180 + rng.IntN(20)
				for i := 0; i < n; i++ {
					m[uint16(7*i+3)] = glyph.ID(rng.IntN(65535) + 1)
				}
			case 3: // runs of length 4..6
				c0 := 0
				for len(m) < 20000 && c0 < 65530 {
					k := 3 + rng.IntN(4)
					g := rng.IntN(65536)
					for j := 0; j < k && c0 < 65536; j++ {
						m[uint16(c0)] = glyph.ID(g + j)
						c0++
					}
					c0 += rng.IntN(7)
				}
			case 4: // too large
				for i := 0; i < 50000; i++ {
					m[uint16(i)] = glyph.ID(rng.IntN(65536))
				}
			case 5: // number of segments near powers of two
				n := (1 << (1 + rng.IntN(12))) + rng.IntN(3) - 2
				for i := 0; i < n; i++ {
					m[uint16(8*i+2)] = glyph.ID(rng.IntN(65535) + 1)
				}
			case 6:
				m = randMap4(rng, 8000)
			case 7: // everything maps to one glyph, or two
				for i := 0; i < 65536; i++ {
					if i%1000 == 999 || rng.IntN(3000) == 0 {
						continue
					}
					m[uint16(i)] = glyph.ID(i & 0x7FFF)
				}
			}
			emitEnc4(c, m, 0, false)
		}},
		{Name: "enc12", Quick: 800, Thor: 10000, Run: func(c *vh.Case) {
			rng := c.Rng
			m := cmap.Format12{}
			n := rng.IntN(6)
			for i := 0; i < n; i++ {
				off := rng.IntN(17) << 16
				if rng.IntN(2) == 0 {
					off = rng.IntN(0x10F000)
				}
				for k, g := range randMap4(rng, 1+rng.IntN(40)) {
					m[uint32(min(int(k)+off, 0x10FFFF))] = g
				}
			}
			emitEnc12(c, m, lang(rng), c.Idx%50 == 0)
		}},
		{Name: "enc12big", Quick: 4, Thor: 40, MaxSec: 120, Run: func(c *vh.Case) {
			rng := c.Rng
			m := cmap.Format12{}
			n := 65536
			if c.Idx%2 == 1 {
				n = rng.IntN(65536)
			}
			g := rng.IntN(65536)
			code := rng.IntN(0x20000)
			for len(m) < n {
				m[uint32(code)] = glyph.ID(g)
				code++
				g++
				if rng.IntN(200) == 0 {
					code += rng.IntN(300)
				}
				if rng.IntN(200) == 0 {
					g = rng.IntN(65536)
				}
			}
			emitEnc12(c, m, 0, false)
		}},
		{Name: "dec", Quick: 2500, Thor: 30000, Run: func(c *vh.Case) {
			rng := c.Rng
			var b []byte
			key := key4(rng)
			mac := rng.IntN(3) == 0
			switch c.Idx % 5 {
			case 0:
				b = build0(rng)
			case 1, 2:
				b = build4(rng)
			case 3:
				n := rng.IntN(300)
				first := []int{0, 32, 255, 65536 - n, rng.IntN(65536 - n)}[rng.IntN(5)]
				if mac {
					n = rng.IntN(256)
					first = rng.IntN(257 - n)
				}
				b = build6(rng, min(first, 65535), n)
			case 4:
				b = build12(rng, rng.IntN(20) == 0)
				key = cmap.Key{PlatformID: 3, EncodingID: 10}
				mac = false
			}
			if mac {
				key = cmap.Key{PlatformID: 1, EncodingID: 0}
			}
			if rng.IntN(8) == 0 {
				b[rng.IntN(len(b))] = byte(rng.IntN(256))
				if b[0] != 0 || !(b[1] == 0 || b[1] == 4 || b[1] == 6 || b[1] == 12) {
					b[0], b[1] = 0, 4
				}
			}
			emitDec(c, key, b, c.Idx%50 == 0)
		}},
		{Name: "decmac4", Quick: 200, Thor: 2000, Run: func(c *vh.Case) {
			// format 4 with Mac Roman codes
			rng := c.Rng
			m := cmap.Format4{}
			for i := 0; i < 256; i++ {
				if rng.IntN(3) > 0 {
					m[uint16(i)] = glyph.ID(rng.IntN(300))
				}
			}
			emitDec(c, cmap.Key{PlatformID: 1, EncodingID: 0}, m.Encode(0), false)
		}},
		{Name: "table", Quick: 1200, Thor: 12000, Run: func(c *vh.Case) {
			rng := c.Rng
			n := rng.IntN(9)
			if rng.IntN(20) == 0 {
				n = rng.IntN(100)
			}
			var data [][]byte
			tab := cmap.Table{}
			keys := [][]int{}
			index := map[string]int{}
			add := func(k cmap.Key, b []byte) {
				if _, ok := tab[k]; ok {
					return
				}
				i, ok := index[string(b)]
				if !ok {
					data = append(data, b)
					i = len(data)
					index[string(b)] = i
				}
				tab[k] = data[i-1]
				if rng.IntN(2) == 0 {
					tab[k] = append([]byte{}, b...)
				}
				keys = append(keys, []int{int(k.PlatformID), int(k.EncodingID), int(k.Language), i})
			}
			for i := 0; i < n; i++ {
				k := cmap.Key{PlatformID: uint16(rng.IntN(5)), EncodingID: uint16(rng.IntN(12))}
				if rng.IntN(3) == 0 {
					k = []cmap.Key{{PlatformID: 3, EncodingID: 1}, {PlatformID: 3, EncodingID: 10}, {PlatformID: 1}, {PlatformID: 1}, {PlatformID: 0, EncodingID: 3}}[rng.IntN(5)]
				}
				if rng.IntN(10) == 0 {
					k.EncodingID = uint16(rng.IntN(65536))
				}
				if k.PlatformID == 1 {
					k.Language = lang(rng)
				}
				var b []byte
				switch rng.IntN(5) {
				case 0:
					b = build6(rng, rng.IntN(100), rng.IntN(5))
					b[5] = byte(rng.IntN(3))
				case 1:
					if len(data) > 0 {
						b = append([]byte{}, data[rng.IntN(len(data))]...)
					} else {
						b = build6(rng, 7, 1)
					}
				case 2:
					b = cmap.Format4{uint16(rng.IntN(65536)): 3}.Encode(lang(rng))
				case 3:
					b = build12(rng, false)
					b[11] = byte(rng.IntN(3))
				case 4:
					b = build6(rng, 0, 0)
				}
				if k.PlatformID != 1 && rng.IntN(3) == 0 {
					// the language field is ignored here, the subtable may
					// also be used with a Macintosh key
					add(k, b)
					if rng.IntN(2) == 0 {
						l := int(b[4])<<8 | int(b[5])
						if b[1] == 12 {
							l = int(b[10])<<8 | int(b[11])
						}
						add(cmap.Key{PlatformID: 1, EncodingID: uint16(rng.IntN(2)), Language: uint16(l)}, b)
					}
					continue
				}
				if b[1] == 12 {
					b[8], b[9] = 0, 0
					b[10], b[11] = byte(k.Language>>8), byte(k.Language)
				} else {
					b[4], b[5] = byte(k.Language>>8), byte(k.Language)
				}
				add(k, b)
			}
			enc := tab.Encode()
			rec := vh.Rec{"t": "tab", "keys": keys, "data": intsList(data), "b": bytesInts(enc), "ok": false, "dkeys": [][]int{}}
			msg := vh.Guard(func() {
				dec, err := cmap.Decode(enc)
				if err != nil {
					return
				}
				rec["ok"] = true
				dk := [][]int{}
				for k, b := range dec {
					dk = append(dk, []int{int(k.PlatformID), int(k.EncodingID), int(k.Language), index[string(b)]})
				}
				rec["dkeys"] = dk
			})
			if msg != "" {
				c.Emit(vh.Rec{"t": "panic", "msg": msg})
				return
			}
			c.Mark("table n=%d", len(keys))
			c.Mark("shared %d", len(keys)-len(data))
			c.Emit(rec)
		}},
		{Name: "best", Quick: 800, Thor: 5000, Run: func(c *vh.Case) {
			rng := c.Rng
			cand := []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 1, EncodingID: 0}, {PlatformID: 3, EncodingID: 0}, {PlatformID: 0, EncodingID: 2}, {PlatformID: 1, EncodingID: 1}, {PlatformID: 2, EncodingID: 1}}
			tab := cmap.Table{}
			subs := [][]int{}
			for i, k := range cand {
				if i < 5 && c.Idx>>i&1 == 0 || i >= 5 && rng.IntN(3) > 0 {
					continue
				}
				good := 1
				gid := 10 + i
				var b []byte
				if k.EncodingID == 10 || k.PlatformID == 0 && k.EncodingID == 4 {
					b = cmap.Format12{65: glyph.ID(gid), 0x10300: 1}.Encode(0)
				} else {
					b = cmap.Format4{65: glyph.ID(gid)}.Encode(0)
				}
				if c.Idx >= 32 && rng.IntN(4) == 0 {
					good = 0
					switch rng.IntN(2) {
					case 0: // malformed
						b = []byte{0, 4, 0, 10, 0, 0, 0, 0, 0, 0}
					case 1: // format 14 cannot be used
						b = []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
					}
				}
				tab[k] = b
				subs = append(subs, []int{int(k.PlatformID), int(k.EncodingID), good, gid})
			}
			if rng.IntN(2) == 0 {
				var err error
				tab, err = cmap.Decode(tab.Encode())
				if err != nil {
					c.Emit(vh.Rec{"t": "panic", "msg": err.Error()})
					return
				}
			}
			got := -1
			if sub, err := tab.GetBest(); err == nil {
				got = int(sub.Lookup(65))
			}
			c.Emit(vh.Rec{"t": "best", "subs": subs, "got": got})
		}},
		{Name: "install", Quick: 300, Thor: 3000, Run: func(c *vh.Case) {
			rng := c.Rng
			f := &sfnt.Font{}
			var runs [][]int
			if c.Idx%2 == 0 {
				m := randMap4(rng, 30)
				runs = runs4(m)
				f.InstallCMap(m)
			} else {
				m := cmap.Format12{}
				top := []int{0xFFFF, 0xFFFF, 0x10000, 0x10001, 0x10FFFF}[rng.IntN(5)]
				for i := rng.IntN(20); i >= 0; i-- {
					m[uint32(top-rng.IntN(50))] = glyph.ID(rng.IntN(65536))
				}
				runs = runs12(m)
				f.InstallCMap(m)
			}
			subs := [][]int{}
			for k := range f.CMapTable {
				subs = append(subs, []int{int(k.PlatformID), int(k.EncodingID)})
			}
			best := [][]int{}
			tab, err := cmap.Decode(f.CMapTable.Encode())
			if err == nil {
				if sub, err := tab.GetBest(); err == nil {
					best, _ = sweep12(c, sub, runs, c.Idx%20 == 0)
				}
			}
			c.Emit(vh.Rec{"t": "inst", "m": runs, "subs": subs, "best": best})
		}},
	}
}

func intsList(data [][]byte) [][]int {
	res := [][]int{}
	for _, b := range data {
		res = append(res, bytesInts(b))
	}
	return res
}
