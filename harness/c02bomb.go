package main

import (
	"bytes"
	"math/rand/v2"

	"vharness/vh"
)

// Inputs which refer to the same data again and again.

type c02input struct {
	kind string
	data []byte
}

func bigCov(full bool) []byte {
	if full {
		return []byte{0, 2, 0, 1, 0, 0, 0xff, 0xff, 0, 0}
	}
	return []byte{0, 1, 0, 1, 0, 5}
}

func bigClass(full bool) []byte {
	if full {
		return []byte{0, 2, 0, 1, 0, 0, 0xff, 0xff, 0, 1}
	}
	return []byte{0, 1, 0, 5, 0, 1, 0, 1}
}

// sharedLookups is a table in which all lookups and all subtables are the
// same.
func sharedLookups(nl, ns, tp int, sub []byte) []byte {
	var b byteBuf
	b.u16(nl)
	for i := 0; i < nl; i++ {
		b.u16(2 + 2*nl)
	}
	b.u16(tp, 0, ns)
	for i := 0; i < ns; i++ {
		b.u16(6 + 2*ns)
	}
	b = append(b, sub...)
	return rawGtab(rawScriptList([]rawSys{{Script: "DFLT", Required: 0xFFFF, Optional: []int{0}}}),
		rawFeatures([]string{"test"}, [][]int{{0}}), b)
}

// gtabBombs are subtables with m references to the same data.
func gtabBombs(m int, full bool) (res []struct {
	tp, tpPos int
	sub       []byte
}) {
	add := func(tp, tpPos int, sub []byte) {
		res = append(res, struct {
			tp, tpPos int
			sub       []byte
		}{tp, tpPos, sub})
	}
	rep := func(b *byteBuf, n, v int) {
		for i := 0; i < n; i++ {
			b.u16(v)
		}
	}
	long := 1
	if full {
		long = 5000
	}
	{ // coverage tables of a context
		var b byteBuf
		b.u16(3, m, 0)
		rep(&b, m, 6+2*m)
		b = append(b, bigCov(full)...)
		add(5, 7, b)
	}
	{
		var b byteBuf
		b.u16(3, m)
		p := 2 + 2 + 2*m + 2 + 2*m + 2 + 2*m + 2
		rep(&b, m, p)
		b.u16(m)
		rep(&b, m, p)
		b.u16(m)
		rep(&b, m, p)
		b.u16(0)
		b = append(b, bigCov(full)...)
		add(6, 8, b)
	}
	{ // rules of a context
		var b byteBuf
		b.u16(1, 6+2*m, m)
		p := 6 + 2*m + 4 + 2*m
		rep(&b, m, p)
		b.u16(1, m)
		for i := 0; i < m; i++ {
			b.u16(2 + i)
		}
		b.u16(m)
		rep(&b, m, 2+2*m)
		b.u16(long, 0)
		rep(&b, long, 1)
		add(5, 7, b)
	}
	{ // classes
		var b byteBuf
		cls := bigClass(full)
		cov := bigCov(false)
		b.u16(2, 12+2*m, 12+2*m+len(cov), 12+2*m+len(cov), 12+2*m+len(cov), m)
		rep(&b, m, 0)
		b = append(b, cov...)
		b = append(b, cls...)
		add(6, 8, b)
	}
	{ // ligatures
		var b byteBuf
		b.u16(1, 6+2*m, m)
		p := 6 + 2*m + 4 + 2*m
		rep(&b, m, p)
		b.u16(1, m)
		for i := 0; i < m; i++ {
			b.u16(2 + i)
		}
		b.u16(m)
		rep(&b, m, 2+2*m)
		b.u16(3, long)
		rep(&b, long, 1)
		add(4, 0, b)
	}
	{ // sequences
		var b byteBuf
		b.u16(1, 6+2*m, m)
		p := 6 + 2*m + 4 + 2*m
		rep(&b, m, p)
		b.u16(1, m)
		for i := 0; i < m; i++ {
			b.u16(2 + i)
		}
		b.u16(long)
		rep(&b, long, 1)
		add(2, 0, b)
		b = bytes.Clone(b)
		add(3, 0, b)
	}
	{ // pair sets
		var b byteBuf
		b.u16(1, 10+2*m, 0, 0, m)
		p := 10 + 2*m + 4 + 2*m
		rep(&b, m, p)
		b.u16(1, m)
		for i := 0; i < m; i++ {
			b.u16(2 + i)
		}
		b.u16(long)
		for i := 0; i < long; i++ {
			b.u16(i + 1)
		}
		add(0, 2, b)
	}
	{ // class pairs without values
		var b byteBuf
		cov, cls := bigCov(full), bigClass(full)
		n := 1
		if m > 1 {
			n = 65535
		}
		b.u16(2, 16, 0, 0, 16+len(cov), 16+len(cov), n, 0)
		b = append(b, cov...)
		b = append(b, cls...)
		add(0, 2, b)
		b = bytes.Clone(b)
		b.put(12, 1)
		b.put(14, n)
		add(0, 2, b)
		b = bytes.Clone(b)
		b.put(12, 255)
		b.put(14, 255)
		add(0, 2, b)
	}
	{ // ligature attachments
		var b byteBuf
		b.u16(1, 12+4, 12+4+4+2*m-4, 1, 12+4+4+2*m, 12+4+4+2*m+10) // roughly
		b.u16(0, 0)
		b.u16(1, m)
		for i := 0; i < m; i++ {
			b.u16(2 + i)
		}
		b.u16(1, 0, 4, 1, 5, 5)
		b.u16(m)
		rep(&b, m, 2+2*m)
		b.u16(long)
		rep(&b, long, 0)
		add(0, 5, b)
	}
	{ // mark to base without classes and anchors
		var b byteBuf
		cov := bigCov(full)
		b.u16(1, 12, 12, 0, 12+len(cov), 12+len(cov)+2)
		b = append(b, cov...)
		b.u16(0)
		n := 1
		if m > 1 {
			n = 65535
		}
		b.u16(n, 0)
		add(0, 4, b)
		add(0, 6, b)
	}
	return res
}

// subrBomb is a CFF font with subroutines which call the next one m times.
func subrBomb(depth []int, local bool) []byte {
	f := &t2Font{FDs: []t2FD{{}}}
	n := len(depth)
	call := 29
	if local {
		call = 10
	}
	var ss []t2Subr
	for i := 0; i < n; i++ {
		var code []int
		for k := 0; k < depth[i] && i+1 < n; k++ {
			code = append(code, 139+(i+1)-107, call) // bias 107
		}
		if i+1 == n {
			for k := 0; k < depth[i]; k++ {
				code = append(code, 140, 140, 5)
			}
		}
		code = append(code, 11)
		ss = append(ss, t2Subr{I: i, C: code})
	}
	main := []int{139, 139, 21, 139 - 107, call, 14}
	if local {
		f.FDs[0].LS, f.FDs[0].NL = ss, n
	} else {
		f.GS, f.NG = ss, n
	}
	f.Glyphs = []t2Glyph{{Main: main, FD: 1}, {Main: main, FD: 1}}
	return f.build()
}

func c02bomb(kind string, mult []int, full, thorough bool) []c02input {
	var res []c02input
	add := func(k string, d []byte) { res = append(res, c02input{k, d}) }
	leaf := func(small, large int) int {
		if full {
			return large
		}
		return small
	}
	switch kind {
	case "gsub", "gpos", "sfnt":
		if len(mult) != 3 {
			return nil
		}
		if !thorough && full && mult[0] != mult[1] && !(mult[0] == 1 && mult[2] == 1) {
			return nil
		}
		nl, ns := 1, 1
		switch {
		case mult[0] > 1 && mult[1] > 1:
			nl, ns = 75, 78
		case mult[0] > 1:
			nl = 2990
		case mult[1] > 1:
			ns = 5990
		}
		nums := []int{1}
		if mult[2] > 1 {
			nums = []int{1000}
			if nl*ns == 1 || thorough {
				nums = []int{60, 1000, 8000}
			}
		}
		for _, m := range nums {
			for _, x := range gtabBombs(m, full) {
				tp, k := x.tp, "gsub"
				if kind == "gpos" || kind == "sfnt" && x.tp == 0 {
					tp, k = x.tpPos, "gpos"
				}
				if tp == 0 {
					continue
				}
				if kind == "sfnt" {
					if m != 1000 || mult[0] != mult[1] {
						continue
					}
					tag := map[string]string{"gsub": "GSUB", "gpos": "GPOS"}[k]
					add("sfnt", addTable(minimalCFFFont(), tag, sharedLookups(nl, ns, tp, x.sub)))
					continue
				}
				add(k, sharedLookups(nl, ns, tp, x.sub))
			}
		}
		if mult[0] > 1 { // scripts and features which are all the same
			n := 65535
			var b byteBuf
			b.u16(min(n, 5000))
			for i := 0; i < min(n, 5000); i++ {
				b = append(b, "DFLT"...)
				b.u16(2 + 6*5000)
			}
			b.u16(4+6*leaf(0, 5000), leaf(0, 5000))
			for i := 0; i < leaf(0, 5000); i++ {
				b = append(b, "DEU "...)
				b.u16(4 + 6*5000)
			}
			b.u16(0, 0xffff, leaf(0, 4000))
			for i := 0; i < 4000; i++ {
				b.u16(i)
			}
			if kind != "sfnt" {
				add(kind, rawGtab(b, []byte{0, 0}, []byte{0, 0}))
				var f byteBuf
				f.u16(9000)
				for i := 0; i < 9000; i++ {
					f = append(f, "test"...)
					f.u16(2 + 6*9000)
				}
				f.u16(0, leaf(0, 5000))
				for i := 0; i < 5000; i++ {
					f.u16(i)
				}
				t := rawGtab([]byte{0, 0}, nil, nil)
				t = append(t, f...)
				t = append(t, 0, 0)
				copy(t[6:], []byte{0, 12, 0, 10})
				add(kind, t)
			}
		}
	case "cff":
		n := map[int]int{1: 9, 2: 5, 3: 3}[len(mult)]
		var depth []int
		for _, v := range mult {
			for i := 0; i < n; i++ {
				depth = append(depth, map[bool]int{false: 1, true: 40}[v > 1])
			}
		}
		if len(depth) > 9 {
			depth = depth[:9]
		}
		depth[len(depth)-1] = leaf(1, 200)
		add("cff", subrBomb(depth, false))
		add("cff", subrBomb(depth, true))
		if len(mult) == 1 { // font DICTs which share their private DICT
			nf := 1
			if mult[0] > 1 {
				nf = 250
			}
			add("cff", sharedPrivate(nf, leaf(3, 60000)))
			for _, sz := range []int{0x7fffffff, 0x7ffffff0, 0x40000000, -1, -2147483648, 70000} {
				d := subrBomb([]int{1, 1}, true)
				p := bytes.Index(d, []byte{17, 29}) + 2
				d[p], d[p+1], d[p+2], d[p+3] = byte(sz>>24), byte(sz>>16), byte(sz>>8), byte(sz)
				add("cff", d)
			}
		}
	case "name":
		if len(mult) != 1 {
			return nil
		}
		n := 1
		if mult[0] > 1 {
			n = 5400
		}
		for _, p := range [][3]int{{3, 1, 0x409}, {1, 0, 0}} {
			sz := leaf(8, 65000)
			var b byteBuf
			b.u16(0, n, 6+12*n)
			for i := 0; i < n; i++ {
				b.u16(p[0], p[1], p[2], []int{1, 2, 4, 6, 3, 5}[i%6], sz, 0)
			}
			b = append(b, bytes.Repeat([]byte{0, 'x'}, sz/2)...)
			add("name", b)
			for i := 0; i < n; i++ { // many languages
				if p[0] == 3 {
					b.put(6+12*i+4, i)
				} else {
					b.put(6+12*i+4, i%150)
				}
			}
			add("name", b)
		}
	case "gdef":
		if len(mult) != 1 {
			return nil
		}
		n := 1
		if mult[0] > 1 {
			n = 10000
		}
		var b byteBuf
		cls := bigClass(full)
		b.u16(1, 2, 14, 0, 0, 14, 14+len(cls))
		b = append(b, cls...)
		b.u16(1, n)
		for i := 0; i < n; i++ {
			b.u32(4 + 4*n)
		}
		b = append(b, bigCov(full)...)
		add("gdef", b)
	case "kern":
		if len(mult) != 1 {
			return nil
		}
		n := 1
		if mult[0] > 1 {
			n = 20000
		}
		var b byteBuf
		b.u16(0, n)
		np := leaf(1, 65000)
		for i := 0; i < n; i++ {
			b.u16(0, 14, 1, np, 0, 0, 0)
		}
		for i := 0; i < np; i++ {
			b.u16(i, i+1, 1)
		}
		add("kern", b)
	case "cmap":
		if len(mult) != 1 {
			return nil
		}
		n := 1
		if mult[0] > 1 {
			n = 2000
		}
		sub := [][]byte{}
		for _, sz := range []int{leaf(1, 65535), leaf(1, 65536), leaf(1, 0x10FFFF), leaf(1, 0xFFFFFFFE)} {
			var s byteBuf
			s.u16(12, 0)
			s.u32(28, 0, 1, 0, sz, 1)
			sub = append(sub, s)
			s = nil
			s.u16(12, 0)
			s.u32(28, 0, 1, 0xFFFFFFFE-leaf(0, 200), 0xFFFFFFFE, 1)
			sub = append(sub, s)
		}
		var s byteBuf
		s.u16(4, 32, 0, 4, 4, 1, 0, leaf(20, 0xFFFE), 0xFFFF, 0, 10, 0xFFFF, 1, 1, 0, 0)
		sub = append(sub, s)
		s = nil
		s.u16(6, 10+2*leaf(1, 30000), 0, 32, leaf(1, 30000))
		for i := 0; i < leaf(1, 30000); i++ {
			s.u16(i)
		}
		sub = append(sub, s)
		// many groups, each covering few or many characters
		for _, sz := range []int{leaf(1, 65536), leaf(2, 5000), leaf(3, 1000)} {
			for _, g := range []int{1, 40, leaf(400, 400)} {
				if n == 1 && g > 40 && sz < 5000 {
					g = 4000
				}
				s = nil
				s.u16(12, 0)
				s.u32(16+12*g, 0, g)
				for i := 0; i < g; i++ {
					s.u32(i*(sz+5), i*(sz+5)+sz-1, 1)
				}
				sub = append(sub, s)
			}
		}
		for _, s := range sub {
			var b byteBuf
			b.u16(0, n)
			for i := 0; i < n; i++ {
				b.u16(3, 10+i)
				b.u32(4 + 8*n)
			}
			b = append(b, s...)
			add("cmap", b)
		}
	case "coverage", "classdef":
		if len(mult) != 1 {
			return nil
		}
		n := 1
		if mult[0] > 1 {
			n = 60000
		}
		// empty ranges between full ones
		var b byteBuf
		b.u16(2, n)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				b.u16(leaf(i, 0), leaf(i, 0xFFFF), leaf(i, 0))
			} else {
				b.u16(0xFFFF, 0xFFFF, 0)
			}
		}
		if kind == "coverage" {
			add("coverage", b)
			add("covset", b)
			b = nil
			b.u16(2, n)
			for i := 0; i < n; i++ {
				if i == 0 {
					b.u16(0, 0xFFFF, 0)
				} else {
					b.u16(0xFFFF, 0xFFFF, 65535+i)
				}
			}
			add("covset", b)
		} else {
			add("classdef", b)
			b = nil
			b.u16(2, n)
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					b.u16(1, 0xFFFF, 1)
				} else {
					b.u16(0xFFFF, 0, 1)
				}
			}
			add("classdef", b)
		}
	}
	return res
}

func minimalCFFFont() []byte {
	return minimalTTF(nil, []byte{0, 0, 0, 0}, 0, 1, 1000)
}

// sharedPrivate is a CID-keyed font in which nf font DICTs have the same
// private DICT and the same sz bytes of subroutines.
func sharedPrivate(nf, sz int) []byte {
	f := &t2Font{CID: true}
	code := make([]int, sz)
	for i := range code {
		code[i] = 139
	}
	f.FDs = []t2FD{{LS: []t2Subr{{I: 0, C: code}}, NL: 1}}
	f.Glyphs = []t2Glyph{{Main: []int{139, 139, 21, 14}, FD: 1}}
	d := f.build()
	// the FDArray is replaced by one with many copies of its only entry,
	// which is appended to the file
	pos := bytes.Index(d, []byte{12, 36}) // offset of the FDArray precedes
	off := int(d[pos-4])<<24 | int(d[pos-3])<<16 | int(d[pos-2])<<8 | int(d[pos-1])
	osz := int(d[off+2])
	get := func(p int) int {
		v := 0
		for i := 0; i < osz; i++ {
			v = v<<8 | int(d[p+i])
		}
		return v
	}
	l := get(off+3+osz) - 1
	body := off + 3 + 2*osz
	var entries [][]byte
	for i := 0; i < nf; i++ {
		entries = append(entries, d[body:body+l])
	}
	n := len(d)
	d[pos-4], d[pos-3], d[pos-2], d[pos-1] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
	return append(d, cffIdx(entries, 2)...)
}

// c02soup returns an input whose outer structure is valid, and whose inner
// part consists of random fields of plausible size.
func c02soup(rng *rand.Rand) c02input {
	small := func() int {
		switch rng.IntN(12) {
		case 0:
			return rng.IntN(65536)
		case 1:
			return pick(rng, []int{0xFFFF, 0x8000, 0x7FFF, 255, 256})
		case 2, 3, 4, 5:
			return rng.IntN(4)
		case 6:
			return 2 * rng.IntN(60)
		}
		return rng.IntN(30)
	}
	words := func(b *byteBuf, n int) {
		for i := 0; i < n; i++ {
			b.u16(small())
		}
	}
	switch rng.IntN(10) {
	case 0, 1, 2, 3: // subtables
		kind, types := "gsub", 8
		if rng.IntN(2) == 0 {
			kind, types = "gpos", 9
		}
		var b byteBuf
		b.u16(1+rng.IntN(3)/2, 0)
		n := 1 + rng.IntN(20)
		head := rng.IntN(14)
		words(&b, head)
		p := len(b)
		for i := 2; i+1 < p; i += 2 { // let some fields refer to the tail
			if rng.IntN(3) == 0 {
				b.put(i, p+2*rng.IntN(10))
			}
		}
		if rng.IntN(2) == 0 {
			b.u16(1)
			m := rng.IntN(5)
			b.u16(m)
			for i := 0; i < m; i++ {
				b.u16(i + 1 + rng.IntN(2)*rng.IntN(3))
			}
		}
		words(&b, n)
		b.put(2, pick(rng, []int{p, p, p, small()}))
		if rng.IntN(8) == 0 {
			b.put(0, 3)
		}
		return c02input{kind, sharedLookups(1+rng.IntN(2), 1+rng.IntN(2), 1+rng.IntN(types), b)}
	case 4: // character maps
		var s byteBuf
		switch rng.IntN(5) {
		case 0, 1:
			n := 1 + rng.IntN(6)
			var ends, starts []int
			c := 0
			for i := 0; i < n; i++ {
				c += rng.IntN(300)
				starts = append(starts, c)
				c += rng.IntN(40)
				if rng.IntN(20) == 0 {
					c += 60000
				}
				ends = append(ends, min(c, 0xFFFF))
				c++
			}
			s.u16(4, 0, 0, 2*n, 0, 0, 0)
			s.u16(ends...)
			s.u16(0)
			s.u16(starts...)
			for i := 0; i < n; i++ {
				s.u16(small())
			}
			for i := 0; i < n; i++ {
				s.u16(pick(rng, []int{0, 0, 2 * (n - i), 2*(n-i) + 2*rng.IntN(20), small()}))
			}
			words(&s, rng.IntN(60))
			s.put(2, len(s))
		case 2:
			n := rng.IntN(5)
			s.u16(12, 0)
			s.u32(16+12*n, 0, n)
			c := 0
			for i := 0; i < n; i++ {
				if rng.IntN(8) == 0 {
					c = pick(rng, []int{0xFFFF, 0x10FFFF, 0x7FFFFFF0, 0x80000000, 0xFFFFFF00})
				}
				c += rng.IntN(300)
				e := c + rng.IntN(100)
				s.u32(c, e, pick(rng, []int{0, 1, 65530, 0x10FF00, rng.IntN(100000)}))
				c = e + 1
			}
		case 3:
			n := rng.IntN(50)
			s.u16(6, 10+2*n, 0, small(), n)
			words(&s, n)
		default:
			s.u16(pick(rng, []int{0, 2, 8, 10, 13, 14, 1, 3, 65535}), 0, 0)
			words(&s, 128*rng.IntN(3))
			s.put(2, len(s))
		}
		var b byteBuf
		n := 1 + rng.IntN(3)
		b.u16(0, n)
		for i := 0; i < n; i++ {
			b.u16([]int{0, 1, 3}[i], pick(rng, []int{0, 1, 3, 4, 10}))
			b.u32(4 + 8*n)
		}
		return c02input{"cmap", append(b, s...)}
	case 5, 6: // charstrings
		prog := func() []int {
			var code []int
			for i := rng.IntN(40); i > 0; i-- {
				switch rng.IntN(6) {
				case 0, 1, 2:
					code = append(code, 139+rng.IntN(215)-107)
				case 3:
					code = append(code, pick(rng, []int{1, 3, 4, 5, 6, 7, 8, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 30, 31}))
				case 4:
					code = append(code, 12, rng.IntN(40))
				default:
					code = append(code, pick(rng, []int{10, 11, 14, 28, 29, 255, 247, 254, 0, 2, 9, 13, 16}), rng.IntN(256), rng.IntN(256))
				}
			}
			return append(code, 14)
		}
		f := &t2Font{FDs: []t2FD{{}}, CID: rng.IntN(2) == 0}
		for i := 0; i < 3; i++ {
			f.GS = append(f.GS, t2Subr{I: i, C: prog()})
			f.FDs[0].LS = append(f.FDs[0].LS, t2Subr{I: i, C: prog()})
		}
		f.NG, f.FDs[0].NL = 3, 3
		f.Glyphs = []t2Glyph{{Main: prog(), FD: 1}}
		if rng.IntN(2) == 0 {
			f.Glyphs = append(f.Glyphs, t2Glyph{Main: prog(), FD: 1})
		}
		return c02input{"cff", f.build()}
	case 7, 8: // glyphs
		n := 1 + rng.IntN(3)
		var g, loca byteBuf
		for i := 0; i < n; i++ {
			loca.u16(len(g) / 2)
			nc := pick(rng, []int{0, 1, 2, 3, -1, -1, -2, small()})
			g.u16(nc, small(), small(), small(), small())
			if nc < 0 {
				for k := 1 + rng.IntN(3); k > 0; k-- {
					fl := rng.IntN(1 << 13)
					if k > 1 {
						fl |= 0x20
					}
					g.u16(fl, rng.IntN(5))
					words(&g, rng.IntN(6))
				}
			} else {
				e := -1
				for k := 0; k < min(nc, 20); k++ {
					e += rng.IntN(6)
					g.u16(e)
				}
				g.u16(rng.IntN(3))
				g = append(g, randBytes(rng, 2*rng.IntN(30))...)
			}
			if len(g)%2 != 0 {
				g = append(g, 0)
			}
		}
		loca.u16(len(g) / 2)
		return c02input{"glyf", append(append([]byte{0, 0, 0, 0, 0, byte(len(loca))}, loca...), g...)}
	}
	// large inputs
	n := 1 << (10 + rng.IntN(11))
	d := randBytes(rng, n)
	kinds := []string{"kern", "hmtx", "glyf", "cmap", "name", "post", "gsub", "gpos", "gdef", "cff", "sfnt", "header"}
	k := pick(rng, kinds)
	s := c02seed(k, rng)
	copy(d, s[:min(len(s), 8+rng.IntN(len(s)))])
	return c02input{k, d}
}

func c02soups(c *vh.Case) {
	var ss []c02sess
	n := 400
	for i := 0; i < n; i++ {
		x := c02soup(c.Rng)
		ss = append(ss, c02session(c02dec1(x.kind), x.data))
		if x.kind == "glyf" || x.kind == "cmap" || x.kind == "gsub" || x.kind == "gpos" {
			if i%8 == 0 { // the same table inside a font
				f := minimalCFFFont()
				switch x.kind {
				case "cmap":
					f = addTable(f, "cmap", x.data)
				case "gsub":
					f = addTable(f, "GSUB", x.data)
				case "gpos":
					f = addTable(f, "GPOS", x.data)
				case "glyf":
					e := unpackGlyf(x.data)
					ng := max(1, len(e.LocaData)/2-1)
					f = minimalTTF(e.GlyfData, e.LocaData, 0, ng, 1000)
				}
				ss = append(ss, c02session(c02dec1("sfnt"), f))
			}
		}
		c.Alive()
	}
	c02emit(c, ss)
}
