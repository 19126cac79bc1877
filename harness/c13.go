package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strconv"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"vharness/vh"
)

func recMatrix(m matrix.Matrix) [][2]int {
	res := [][2]int{}
	for _, x := range m {
		res = append(res, dec9(x))
	}
	return res
}

func ints16(x []funit.Int16) []int {
	res := []int{}
	for _, v := range x {
		res = append(res, int(v))
	}
	return res
}

// recCFF describes everything but the outlines of a CFF font.
func recCFF(f *cff.Font) map[string]any {
	r := map[string]any{"name": strInts(f.FontInfo.FontName), "cid": f.IsCIDKeyed(), "ros": []int{}, "names": []int{}, "cids": []int{}, "enc": []int{}}
	n := len(f.Glyphs)
	if f.IsCIDKeyed() {
		r["ros"] = [][]int{strInts(f.ROS.Registry), strInts(f.ROS.Ordering), {int(f.ROS.Supplement)}}
		cc := []int{}
		for _, c := range f.GIDToCID {
			cc = append(cc, int(c))
		}
		r["cids"] = cc
	} else {
		nn := [][]int{}
		for _, g := range f.Glyphs {
			nn = append(nn, strInts(g.Name))
		}
		r["names"] = nn
		enc := f.Encoding
		if len(enc) == 0 {
			enc = cff.StandardEncoding(f.Glyphs)
		}
		ee := []int{}
		for _, g := range enc {
			ee = append(ee, int(g))
		}
		r["enc"] = ee
	}
	fd := []int{}
	for i := 0; i < n; i++ {
		fd = append(fd, f.FDSelect(glyph.ID(i)))
	}
	r["fd"] = fd
	pp := []any{}
	for _, p := range f.Private {
		pp = append(pp, map[string]any{"bv": ints16(p.BlueValues), "ob": ints16(p.OtherBlues), "bs": dec9(p.BlueScale),
			"bsh": int(p.BlueShift), "bf": int(p.BlueFuzz), "hw": dec9(p.StdHW), "vw": dec9(p.StdVW), "fb": p.ForceBold})
	}
	r["priv"] = pp
	mm := []any{}
	if f.IsCIDKeyed() {
		for _, m := range f.FontMatrices {
			mm = append(mm, recMatrix(m))
		}
	}
	r["mats"] = mm
	i := f.FontInfo
	r["info"] = map[string]any{"version": strInts(i.Version), "notice": strInts(i.Notice), "copyright": strInts(i.Copyright),
		"full": strInts(i.FullName), "family": strInts(i.FamilyName), "weight": strInts(i.Weight), "fixed": i.IsFixedPitch,
		"angle": dec9(i.ItalicAngle), "upos": dec9(float64(i.UnderlinePosition)), "uth": dec9(float64(i.UnderlineThickness)),
		"mat": recMatrix(i.FontMatrix)}
	return r
}

func fixPair(x float64) [2]int {
	i := math.Floor(x)
	return [2]int{int(i), int((x - i) * 65536)}
}

// widthIv returns the 16.16 numbers around the widths.
func widthIv(gg []*cff.Glyph) [][2][2]int {
	res := [][2][2]int{}
	for _, g := range gg {
		lo := math.Floor(g.Width*65536) / 65536
		hi := math.Ceil(g.Width*65536) / 65536
		res = append(res, [2][2]int{fixPair(lo), fixPair(hi)})
	}
	return res
}

func widthFix(gg []*cff.Glyph) [][2]int {
	res := [][2]int{}
	for _, g := range gg {
		w := g.Width
		if w*65536 != math.Trunc(w*65536) || math.Abs(w) > 1e6 {
			w = -1e6
		}
		res = append(res, fixPair(w))
	}
	return res
}

func emitCFF13(c *vh.Case, f *cff.Font) {
	rec := vh.Rec{"t": "font", "ok": false, "out": []int{}, "in": recCFF(f), "w": widthIv(f.Glyphs), "rok": false, "back": 0, "bw": []int{}}
	msg := vh.Guard(func() {
		buf := &bytes.Buffer{}
		if err := f.Write(buf); err != nil {
			rec["err"] = err.Error()
			return
		}
		rec["ok"] = true
		rec["out"] = bytesInts(buf.Bytes())
		g, err := cff.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			rec["err"] = err.Error()
			return
		}
		rec["rok"] = true
		rec["back"] = recCFF(g)
		rec["bw"] = widthFix(g.Glyphs)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func emitForeign13(c *vh.Case, data []byte) {
	rec := vh.Rec{"t": "foreign", "out": bytesInts(data), "rok": false, "back": 0, "bw": []int{}}
	msg := vh.Guard(func() {
		g, err := cff.Read(bytes.NewReader(data))
		if err != nil {
			rec["err"] = err.Error()
			return
		}
		rec["rok"] = true
		rec["back"] = recCFF(g)
		rec["bw"] = widthFix(g.Glyphs)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

type cff13 struct {
	rng *rand.Rand
}

// real returns a number with at most nine significant digits.
func (g *cff13) real() float64 {
	rng := g.rng
	switch rng.IntN(8) {
	case 0:
		return 0
	case 1:
		return float64(rng.IntN(2001) - 1000)
	case 2:
		return math.Pow(10, float64(rng.IntN(19)-9))
	case 3:
		return math.Nextafter(math.Pow(10, float64(rng.IntN(13)-6)), math.Inf(1-2*rng.IntN(2)))
	}
	digits := 1 + rng.IntN(9)
	m := 0
	for i := 0; i < digits; i++ {
		m = m*10 + rng.IntN(10)
	}
	e := rng.IntN(16) - 10
	if rng.IntN(6) == 0 {
		e = rng.IntN(640) - 330
	}
	s := strconv.Itoa(m) + "e" + strconv.Itoa(e)
	if rng.IntN(2) == 0 {
		s = "-" + s
	}
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 1
	}
	if rng.IntN(4) == 0 && (math.Abs(x) < 1e8 || math.Abs(x) > 1e10) { // more digits than are stored
		x *= 1 + 1e-3*rng.Float64()
	}
	return x
}

func (g *cff13) int32() int32 {
	rng := g.rng
	b := []int{0, 107, 108, 1131, 1132, 32767, 32768, 65535, 1 << 24, 1<<31 - 1, 255, 256}[rng.IntN(12)]
	switch rng.IntN(4) {
	case 0:
		return int32(b)
	case 1:
		return int32(-b - rng.IntN(2))
	case 2:
		return int32(rng.Uint32()) >> rng.IntN(32)
	}
	return int32(rng.IntN(41) - 20)
}

func (g *cff13) str() string {
	rng := g.rng
	switch rng.IntN(5) {
	case 0:
		return ""
	case 1:
		return []string{"Bold", "Roman", "001.000", "Semibold", "A", ".notdef", "Test"}[rng.IntN(7)]
	}
	b := []rune{}
	n := rng.IntN(20)
	if rng.IntN(20) == 0 {
		n = 200 + rng.IntN(200)
	}
	for ; n > 0; n-- {
		b = append(b, rune(32+rng.IntN(95)))
		if rng.IntN(20) == 0 {
			b = append(b, []rune("©äЖ漢😀")[rng.IntN(5)])
		}
	}
	return string(b)
}

func (g *cff13) matrix(def matrix.Matrix) matrix.Matrix {
	m := def
	switch g.rng.IntN(6) {
	case 0, 1:
	case 2:
		q := 1 / float64(16+g.rng.IntN(4000))
		m = matrix.Matrix{q, 0, 0, q, 0, 0}
	case 3:
		m[g.rng.IntN(6)] += []float64{1e-6, 1e-9, 1e-4, -1e-7, 1}[g.rng.IntN(5)]
	case 4:
		m[2] = 0.2 * m[0]
	case 5:
		for i := range m {
			m[i] = g.real()
		}
	}
	return m
}

func (g *cff13) private() *type1.PrivateDict {
	rng := g.rng
	p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
	blues := func(n int) []funit.Int16 {
		var res []funit.Int16
		big := rng.IntN(5) == 0
		for k := 2 * rng.IntN(n+1); k > 0; k-- {
			v := rng.IntN(2001) - 1000
			if big {
				v = rng.IntN(65536) - 32768
			}
			res = append(res, funit.Int16(v))
		}
		sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
		return res
	}
	p.BlueValues, p.OtherBlues = blues(7), blues(5)
	pos := func(max float64) float64 {
		x := math.Abs(g.real())
		if x > max {
			x = max
		}
		return x
	}
	if rng.IntN(2) == 0 {
		p.BlueScale = pos(1)
		if rng.IntN(2) == 0 {
			p.BlueScale = 0.039625 + float64(rng.IntN(2001)-1000)*1e-9
		}
	}
	if rng.IntN(2) == 0 {
		p.BlueShift, p.BlueFuzz = g.int32(), g.int32()
	}
	if rng.IntN(2) == 0 {
		p.StdHW, p.StdVW = pos(10000), pos(10000)
	}
	p.ForceBold = rng.IntN(3) == 0
	return p
}

func (g *cff13) widths(gg []*cff.Glyph) {
	rng := g.rng
	base := rng.IntN(2000)
	mode := rng.IntN(6)
	for _, gl := range gg {
		switch mode {
		case 0:
			gl.Width = float64(base)
		case 1:
			gl.Width = float64(base + rng.IntN(3))
		case 2:
			gl.Width = float64(rng.IntN(32768))
		case 3:
			gl.Width = float64(rng.IntN(2000*65536)) / 65536
		case 4:
			gl.Width = rng.Float64() * 2000
		case 5:
			gl.Width = float64(rng.IntN(65535) - 32767)
		}
		if rng.IntN(4) == 0 {
			gl.Width = float64(base)
		}
	}
}

var expertNames = []string{"space", "exclamsmall", "Hungarumlautsmall", "dollaroldstyle", "comma", "hyphen", "onequarter", "Asmall", "Ydieresissmall", "ff", "fi", "fl", "ffi", "zeroinferior"}

// font generates a font, mostly without outlines.
func (g *cff13) font() *cff.Font {
	rng := g.rng
	n := 1 + rng.IntN(10)
	switch rng.IntN(12) {
	case 0:
		n = 1 + rng.IntN(300)
	case 1:
		n = []int{1, 2, 229, 230, 255, 256, 257, 258, 259, 260}[rng.IntN(10)]
	}
	f := &cff.Font{FontInfo: &type1.FontInfo{}, Outlines: &cff.Outlines{}}
	fg := &fontGen{rng: rng, n: n}
	for i := 0; i < n; i++ {
		gl := &cff.Glyph{}
		switch {
		case n < 20 && rng.IntN(3) == 0:
			gl = fg.randCFFGlyph()
		case rng.IntN(3) == 0:
			gl.MoveTo(float64(rng.IntN(100)), float64(rng.IntN(2)))
			gl.LineTo(50, 50)
		}
		f.Glyphs = append(f.Glyphs, gl)
	}
	g.widths(f.Glyphs)
	fi := f.FontInfo
	fi.FontName = []string{"Test", "", "A", "Example-BoldItalic", "x+y"}[rng.IntN(5)]
	for _, s := range []*string{&fi.Version, &fi.Notice, &fi.Copyright, &fi.FullName, &fi.FamilyName, &fi.Weight} {
		*s = g.str()
	}
	fi.IsFixedPitch = rng.IntN(2) == 0
	if rng.IntN(2) == 0 {
		fi.ItalicAngle = math.Mod(g.real(), 180)
		if rng.IntN(4) == 0 {
			fi.ItalicAngle = []float64{-180, 179.99, -1.0 / 65536, 1e-7, -12.5}[rng.IntN(5)]
		}
	}
	fi.UnderlinePosition, fi.UnderlineThickness = -100, 50
	if rng.IntN(2) == 0 {
		fi.UnderlinePosition, fi.UnderlineThickness = funit.Float64(g.real()), funit.Float64(g.real())
	} else if rng.IntN(2) == 0 {
		fi.UnderlinePosition, fi.UnderlineThickness = funit.Float64(g.int32()), funit.Float64(g.int32())
	}
	if rng.IntN(3) == 0 {
		fi.FontMatrix = g.matrix(matrix.Identity)
		np := 1 + rng.IntN(4)
		if rng.IntN(8) == 0 {
			np = 1 + rng.IntN(256)
		}
		for i := 0; i < np; i++ {
			f.Private = append(f.Private, g.private())
			f.FontMatrices = append(f.FontMatrices, g.matrix([]matrix.Matrix{{0.001, 0, 0, 0.001, 0, 0}, matrix.Identity}[rng.IntN(2)]))
		}
		sel := make([]int, n)
		runs := 1 + rng.IntN(8)
		cur := rng.IntN(np)
		for i := range sel {
			if rng.IntN(runs) == 0 {
				cur = rng.IntN(np)
			}
			sel[i] = cur
		}
		f.FDSelect = func(gid glyph.ID) int { return sel[gid] }
		f.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: []string{"Identity", "Japan1", "A", ""}[rng.IntN(4)], Supplement: g.int32()}
		v := 0
		gap := []int{0, 3, 20, 300}[rng.IntN(4)]
		desc := rng.IntN(4) == 0
		for i := 0; i < n; i++ {
			f.GIDToCID = append(f.GIDToCID, cid.CID(v))
			v++
			if gap > 0 && rng.IntN(gap) == 0 {
				v += 1 + rng.IntN(100)
			}
			if v > 65535 {
				v = 1
			}
			if desc && i == 0 {
				v = 65536 - n
			}
		}
		if n > 2 && rng.IntN(5) == 0 {
			rng.Shuffle(n-1, func(i, j int) {
				f.GIDToCID[i+1], f.GIDToCID[j+1] = f.GIDToCID[j+1], f.GIDToCID[i+1]
			})
		}
		return f
	}
	fi.FontMatrix = g.matrix(matrix.Matrix{0.001, 0, 0, 0.001, 0, 0})
	f.Private = []*type1.PrivateDict{g.private()}
	f.FDSelect = func(glyph.ID) int { return 0 }
	names := fg.names()
	switch rng.IntN(5) {
	case 0: // ISOAdobe order
		for i := range names {
			if i > 0 && i < 229 {
				names[i] = isoNames[i]
			}
		}
	case 1:
		for i := range names {
			if i > 0 && i <= len(expertNames) {
				names[i] = expertNames[i-1]
			}
		}
	case 2:
		k := rng.IntN(60)
		for i := range names {
			if i > 0 && i+k < 229 {
				names[i] = isoNames[i+k]
			}
		}
	}
	used := map[string]bool{}
	for i, s := range names {
		if used[s] {
			s = "u" + itoa(i)
		}
		used[s] = true
		f.Glyphs[i].Name = s
	}
	switch rng.IntN(6) {
	case 0:
		f.Encoding = cff.StandardEncoding(f.Glyphs)
		if rng.IntN(3) == 0 {
			f.Encoding[rng.IntN(256)] = 0
		}
	case 1:
	case 2:
		f.Encoding = make([]glyph.ID, 256)
		for code, name := range map[int]string{32: "space", 33: "exclamsmall", 34: "Hungarumlautsmall", 36: "dollaroldstyle", 44: "comma", 45: "hyphen", 188: "onequarter", 97: "Asmall", 255: "Ydieresissmall", 86: "ff", 87: "fi", 88: "fl", 89: "ffi", 201: ""} {
			for i, gl := range f.Glyphs {
				if gl.Name == name {
					f.Encoding[code] = glyph.ID(i)
				}
			}
		}
	default:
		f.Encoding = make([]glyph.ID, 256)
		m := rng.IntN(min(n, 256))
		codes := rng.Perm(256)
		if rng.IntN(2) == 0 { // runs
			a := rng.IntN(256)
			for i := range codes {
				codes[i] = (a + i) % 256
			}
			for k := rng.IntN(4); k > 0; k-- {
				i, j := rng.IntN(256), rng.IntN(256)
				codes[i], codes[j] = codes[j], codes[i]
			}
		}
		for i := 1; i <= m; i++ {
			f.Encoding[codes[i]] = glyph.ID(i)
		}
		if m > 0 && rng.IntN(2) == 0 {
			for _, c := range codes[m+1:] {
				if rng.IntN(4) == 0 {
					f.Encoding[c] = glyph.ID(1 + rng.IntN(m))
				}
			}
		}
	}
	return f
}

// encodable: the glyphs with codes must be 1, ..., m; and the format must be
// able to hold the runs.
func encodable(enc []glyph.ID) bool {
	seen := map[glyph.ID]int{}
	m := glyph.ID(0)
	for c, g := range enc {
		if g != 0 {
			if _, ok := seen[g]; !ok {
				seen[g] = c
			}
			m = max(m, g)
		}
	}
	if int(m) != len(seen) {
		return false
	}
	if m <= 255 {
		return true
	}
	runs := 1
	for g := glyph.ID(2); g <= m; g++ {
		if seen[g] != seen[g-1]+1 {
			runs++
		}
	}
	return runs <= 255
}

func predefinedEnc(f *cff.Font) bool {
	return f.Encoding == nil
}

// ---------------------------------------------------------------------
// files in foreign formats

func (g *cff13) num(x float64, isReal bool) []byte {
	rng := g.rng
	if !isReal {
		v := int(x)
		opts := []int{29}
		if v >= -32768 && v <= 32767 {
			opts = append(opts, 28)
		}
		if v >= -1131 && v <= 1131 {
			opts = append(opts, 1, 1, 1)
		}
		switch opts[rng.IntN(len(opts))] {
		case 29:
			return dictInt5(v)
		case 28:
			return []byte{28, byte(v >> 8), byte(v)}
		}
		switch {
		case v >= -107 && v <= 107:
			return []byte{byte(v + 139)}
		case v > 0:
			v -= 108
			return []byte{byte(v>>8 + 247), byte(v)}
		default:
			v = -v - 108
			return []byte{byte(v>>8 + 251), byte(v)}
		}
	}
	var s string
	switch rng.IntN(4) {
	case 0:
		s = strconv.FormatFloat(x, 'e', -1, 64)
	case 1:
		s = strconv.FormatFloat(x, 'g', -1, 64)
	default:
		if math.Abs(x) > 1e12 || math.Abs(x) < 1e-12 {
			s = strconv.FormatFloat(x, 'e', -1, 64)
		} else {
			s = strconv.FormatFloat(x, 'f', -1, 64)
		}
	}
	if rng.IntN(3) == 0 && len(s) > 1 && s[0] == '0' && s[1] == '.' {
		s = s[1:]
	}
	if rng.IntN(8) == 0 && s[0] != '-' {
		s = "0" + s
	}
	var nn []byte
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '-' && i > 0:
			nn[len(nn)-1] = 12
		case ch == '-':
			nn = append(nn, 14)
		case ch == 'e':
			nn = append(nn, 11)
		case ch == '.':
			nn = append(nn, 10)
		case ch == '+':
		default:
			nn = append(nn, ch-'0')
		}
	}
	nn = append(nn, 15)
	if len(nn)%2 == 1 {
		nn = append(nn, 15)
	}
	out := []byte{30}
	for i := 0; i < len(nn); i += 2 {
		out = append(out, nn[i]<<4|nn[i+1])
	}
	return out
}

// real9 returns a number with at most nine digits.
func (g *cff13) real9() float64 {
	for {
		x := g.real()
		s := strconv.FormatFloat(x, 'e', 8, 64)
		y, _ := strconv.ParseFloat(s, 64)
		if x == y {
			return x
		}
	}
}

func dictOpBytes(op int) []byte {
	if op >= 1200 {
		return []byte{12, byte(op - 1200)}
	}
	return []byte{byte(op)}
}

// foreign generates a file with arbitrary format choices.
func (g *cff13) foreign() []byte {
	rng := g.rng
	n := 1 + rng.IntN(12)
	if rng.IntN(8) == 0 {
		n = 1 + rng.IntN(280)
	}
	isCID := rng.IntN(3) == 0
	osz := func() int { return 1 + rng.IntN(4) }

	var strs [][]byte
	sid := func(s string) int {
		strs = append(strs, []byte(s))
		return 390 + len(strs)
	}

	// charset
	cs := []int{0}
	predef := -1
	if !isCID && rng.IntN(3) == 0 {
		predef = rng.IntN(3)
		n = min(n, []int{229, 166, 87}[predef])
	}
	used := map[int]bool{0: true}
	for len(cs) < n {
		v := rng.IntN(391)
		if isCID {
			v = rng.IntN(65536)
		} else if rng.IntN(2) == 0 {
			v = sid("c" + itoa(len(cs)))
		}
		for k := 1 + rng.IntN(6); k > 0 && len(cs) < n && v < 65536; k-- {
			if used[v] || (!isCID && v >= 391+len(strs)) {
				break
			}
			used[v] = true
			cs = append(cs, v)
			v++
		}
	}
	var charset []byte
	f := rng.IntN(3)
	charset = append(charset, byte(f))
	for i := 1; i < n; {
		if f == 0 {
			charset = append(charset, byte(cs[i]>>8), byte(cs[i]))
			i++
			continue
		}
		j := i
		for j+1 < n && cs[j+1] == cs[j]+1 && (f == 2 || j-i < 255) && rng.IntN(20) > 0 {
			j++
		}
		charset = append(charset, byte(cs[i]>>8), byte(cs[i]))
		if f == 2 {
			charset = append(charset, byte((j-i)>>8))
		}
		charset = append(charset, byte(j-i))
		i = j + 1
	}

	// private dictionaries
	type pd struct {
		dw, nw     float64
		dwR, nwR   bool
		body       []byte
		data, subr []byte
		off        int
	}
	np := 1
	if isCID {
		np = 1 + rng.IntN(4)
	}
	var pp []*pd
	for i := 0; i < np; i++ {
		p := &pd{}
		var ents [][]byte
		ent := func(op int, args ...[]byte) {
			var e []byte
			for _, a := range args {
				e = append(e, a...)
			}
			ents = append(ents, append(e, dictOpBytes(op)...))
		}
		wn := func() (float64, bool) {
			if rng.IntN(3) == 0 {
				return float64(rng.IntN(16000)-8000) / 8, true
			}
			if rng.IntN(4) == 0 {
				return float64(rng.IntN(65536) - 32768), false
			}
			return float64(rng.IntN(2000)), false
		}
		if rng.IntN(4) > 0 {
			p.dw, p.dwR = wn()
			ent(20, g.num(p.dw, p.dwR))
		}
		if rng.IntN(4) > 0 {
			p.nw, p.nwR = wn()
			ent(21, g.num(p.nw, p.nwR))
		}
		for _, op := range []int{6, 7} {
			if rng.IntN(2) == 0 {
				var aa [][]byte
				for k := 2 * rng.IntN(6); k > 0; k-- {
					aa = append(aa, g.num(float64(rng.IntN(300)), false))
				}
				if len(aa) > 0 {
					ent(op, aa...)
				}
			}
		}
		for _, op := range []int{8, 9, 1212, 1213, 1217, 1218, 1219} { // not represented in the API
			if rng.IntN(6) == 0 {
				ent(op, g.num(float64(rng.IntN(300)), false))
			}
		}
		for _, op := range []int{1210, 1211} {
			if rng.IntN(3) == 0 {
				ent(op, g.num(float64(g.int32()), false))
			}
		}
		if rng.IntN(3) == 0 {
			ent(1214, g.num(float64(rng.IntN(2)), false))
		}
		if rng.IntN(2) == 0 {
			x := math.Abs(g.real9())
			for x > 1 {
				x = math.Abs(g.real9())
			}
			ent(1209, g.num(x, true))
		}
		for _, op := range []int{10, 11} {
			x := math.Abs(g.real9())
			switch {
			case rng.IntN(3) == 0:
				ent(op, g.num(float64(rng.IntN(10001)), false))
			case x <= 10000:
				ent(op, g.num(x, true))
			}
		}
		rng.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
		for _, e := range ents {
			p.body = append(p.body, e...)
		}
		if rng.IntN(2) == 0 {
			p.subr = cffIdx([][]byte{{11}, {11}}[:rng.IntN(3)], osz())
		}
		gap := rng.IntN(3)
		p.data = append([]byte{}, p.body...)
		if p.subr != nil {
			for extra := 0; ; extra++ {
				num := dictInt5(len(p.body) + 6 + gap)
				p.data = append(append(append([]byte{}, p.body...), num...), 19)
				break
			}
			p.data = append(p.data, bytes.Repeat([]byte{0}, gap)...)
			p.data = append(p.data[:len(p.body)+6+gap], p.subr...)
		}
		pp = append(pp, p)
	}
	dictLen := func(p *pd) int {
		if p.subr != nil {
			return len(p.body) + 6
		}
		return len(p.body)
	}

	// glyphs
	sel := make([]int, n)
	cur := 0
	for i := range sel {
		if rng.IntN(3) == 0 {
			cur = rng.IntN(np)
		}
		sel[i] = cur
	}
	t2num := func(x float64) []byte {
		v := int(math.Round(x * 65536))
		if v%65536 != 0 || rng.IntN(5) == 0 {
			return []byte{255, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
		}
		v /= 65536
		if v >= -1131 && v <= 1131 && rng.IntN(3) > 0 {
			b := g.num(float64(v), false)
			for b[0] == 29 {
				b = g.num(float64(v), false)
			}
			return b
		}
		return []byte{28, byte(v >> 8), byte(v)}
	}
	var cc [][]byte
	for i := 0; i < n; i++ {
		var code []byte
		if rng.IntN(3) > 0 {
			p := pp[sel[i]]
			// keep the width in the range of 16.16 numbers
			d := float64(rng.IntN(500))
			if rng.IntN(3) == 0 {
				d = float64(rng.IntN(65536*4000)-65536*2000) / 65536
			}
			if rng.IntN(4) == 0 {
				d = float64(rng.IntN(65536) - 32768)
			}
			if math.Abs(p.nw+d) > 32767 {
				d = -p.nw / 2
				d = math.Trunc(d)
			}
			code = append(code, t2num(d)...)
		}
		switch rng.IntN(5) {
		case 0:
			code = append(code, 149, 150, 21, 14)
		case 1:
			code = append(code, 149, 22, 150, 6, 14)
		case 2:
			code = append(code, 149, 150, 1, 160, 4, 14)
		case 3:
			code = append(code, 149, 150, 151, 152, 18, 149, 150, 20, 0xC0, 160, 4, 150, 7, 14)
			if i := bytes.IndexByte(code, 20); i >= 0 {
				code = code[:len(code)-1]
				code = append(code, 14)
			}
		default:
			code = append(code, 14)
		}
		cc = append(cc, code)
	}

	// encoding
	encKind := 0
	var enc []byte
	if !isCID {
		encKind = rng.IntN(4)
		if encKind >= 2 {
			m := rng.IntN(min(n, 256))
			codes := rng.Perm(256)
			if rng.IntN(2) == 0 {
				sort.Ints(codes)
			}
			if encKind == 2 {
				m = min(m, 255)
				enc = append(enc, 0, byte(m))
				for i := 0; i < m; i++ {
					enc = append(enc, byte(codes[i]))
				}
			} else {
				enc = append(enc, 1, 0)
				for i := 0; i < m; {
					j := i
					for j+1 < m && codes[j+1] == codes[j]+1 && rng.IntN(10) > 0 {
						j++
					}
					if enc[1] == 255 {
						m = i
						break
					}
					enc = append(enc, byte(codes[i]), byte(j-i))
					enc[1]++
					i = j + 1
				}
			}
			if m > 0 && rng.IntN(2) == 0 {
				enc[0] |= 128
				k := min(rng.IntN(5), 256-m)
				enc = append(enc, byte(k))
				tab := cs
				if predef >= 0 {
					tab = predefCharset(predef)
				}
				for i := 0; i < k; i++ {
					s := tab[1+rng.IntN(m)]
					enc = append(enc, byte(codes[m+i]), byte(s>>8), byte(s))
				}
			}
		}
	}

	// FDSelect
	var fds []byte
	if rng.IntN(2) == 0 {
		fds = append(fds, 0)
		for _, s := range sel {
			fds = append(fds, byte(s))
		}
	} else {
		fds = []byte{3, 0, 0}
		k := 0
		for i := range sel {
			if i == 0 || sel[i] != sel[i-1] || rng.IntN(6) == 0 {
				fds = append(fds, byte(i>>8), byte(i), byte(sel[i]))
				k++
			}
		}
		fds[1], fds[2] = byte(k>>8), byte(k)
		fds = append(fds, byte(n>>8), byte(n))
	}

	// the top DICT, without offsets
	var topEnts [][]byte
	ros := []byte(nil)
	if isCID {
		ros = append(ros, g.num(float64(sid("Adobe")), false)...)
		ros = append(ros, g.num(float64(sid("X"+itoa(rng.IntN(10)))), false)...)
		ros = append(ros, g.num(float64(g.int32()), false)...)
		ros = append(ros, 12, 30)
	}
	for _, op := range []int{0, 1, 2, 3, 4, 1200} {
		if rng.IntN(2) == 0 {
			s := rng.IntN(391)
			if rng.IntN(2) == 0 {
				s = sid(g.str())
			}
			topEnts = append(topEnts, append(g.num(float64(s), false), dictOpBytes(op)...))
		}
	}
	if rng.IntN(3) == 0 {
		topEnts = append(topEnts, append(g.num(float64(rng.IntN(2)), false), 12, 1))
	}
	if rng.IntN(3) == 0 {
		x := g.real9()
		for math.Abs(x) >= 180 {
			x = g.real9()
		}
		topEnts = append(topEnts, append(g.num(x, x != math.Trunc(x) || rng.IntN(2) == 0), 12, 2))
	}
	for _, op := range []int{3, 4} {
		if rng.IntN(3) == 0 {
			if rng.IntN(2) == 0 {
				topEnts = append(topEnts, append(g.num(g.real9(), true), 12, byte(op)))
			} else {
				topEnts = append(topEnts, append(g.num(float64(rng.IntN(2000)-1000), false), 12, byte(op)))
			}
		}
	}
	mat := func() []byte {
		var e []byte
		for i := 0; i < 6; i++ {
			switch {
			case i%3 == 0:
				e = append(e, g.num([]float64{0.001, 0.00048828125, 0.0005, 1}[rng.IntN(4)], true)...)
			case rng.IntN(2) == 0:
				e = append(e, g.num(0, rng.IntN(2) == 0)...)
			case rng.IntN(2) == 0:
				e = append(e, g.num(g.real9(), true)...)
			default:
				e = append(e, g.num(float64(rng.IntN(9)-4), false)...)
			}
		}
		return append(e, 12, 7)
	}
	if rng.IntN(3) == 0 {
		topEnts = append(topEnts, mat())
	}
	if rng.IntN(4) == 0 {
		topEnts = append(topEnts, append(dictInt5(2), 12, 6)) // CharstringType
	}
	if rng.IntN(4) == 0 {
		topEnts = append(topEnts, append(append(append(append(dictInt5(0), dictInt5(-5)...), dictInt5(10)...), dictInt5(10)...), 5)) // FontBBox
	}
	rng.Shuffle(len(topEnts), func(i, j int) { topEnts[i], topEnts[j] = topEnts[j], topEnts[i] })
	fdMats := make([][]byte, np)
	for i := range fdMats {
		if rng.IntN(2) == 0 {
			fdMats[i] = mat()
		}
	}
	hdr := byte(4 + rng.IntN(3))
	out := append([]byte{1, byte(rng.IntN(2)), hdr, byte(osz())}, make([]byte, int(hdr)-4)...)
	out = append(out, cffIdx([][]byte{[]byte([]string{"Test", "", "Foo-Bar"}[rng.IntN(3)])}, osz())...)
	o1 := osz()
	var oCharset, oEnc, oCS, oFDS, oFDA int
	mkTop := func() []byte {
		d := append([]byte{}, ros...)
		put := func(op int, vals ...int) {
			for _, v := range vals {
				d = append(d, dictInt5(v)...)
			}
			d = append(d, dictOpBytes(op)...)
		}
		for i, e := range topEnts {
			d = append(d, e...)
			if i == 0 {
				put(17, oCS)
			}
		}
		if len(topEnts) == 0 {
			put(17, oCS)
		}
		switch {
		case predef < 0:
			put(15, oCharset)
		case predef > 0:
			put(15, predef)
		}
		if isCID {
			put(1236, oFDA)
			put(1237, oFDS)
		} else {
			switch encKind {
			case 1:
				put(16, 1)
			case 2, 3:
				put(16, oEnc)
			}
			put(18, dictLen(pp[0]), pp[0].off)
		}
		return cffIdx([][]byte{d}, o1)
	}
	rest := append(cffIdx(strs, osz()), cffIdx(nil, 1)...)
	base := len(out) + len(mkTop()) + len(rest)
	var tail []byte
	add := func(b []byte) int {
		for k := rng.IntN(4); k > 0 && rng.IntN(3) == 0; k-- {
			tail = append(tail, 0xAA)
		}
		o := base + len(tail)
		tail = append(tail, b...)
		return o
	}
	parts := []func(){
		func() { oCharset = add(charset) },
		func() { oEnc = add(enc) },
		func() { oCS = add(cffIdx(cc, osz())) },
		func() { oFDS = add(fds) },
		func() {
			for _, p := range pp {
				p.off = add(p.data)
			}
			var dd [][]byte
			for i, p := range pp {
				d := append([]byte{}, fdMats[i]...)
				d = append(append(append(d, dictInt5(dictLen(p))...), dictInt5(p.off)...), 18)
				dd = append(dd, d)
			}
			oFDA = add(cffIdx(dd, osz()))
		},
	}
	rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	for _, p := range parts {
		p()
	}
	out = append(out, mkTop()...)
	out = append(out, rest...)
	return append(out, tail...)
}

func predefCharset(k int) []int {
	var res []int
	r := func(a, b int) {
		for i := a; i <= b; i++ {
			res = append(res, i)
		}
	}
	switch k {
	case 0:
		r(0, 228)
	case 1:
		r(0, 1)
		r(229, 238)
		r(13, 15)
		r(99, 99)
		r(239, 248)
		r(27, 28)
		r(249, 266)
		r(109, 110)
		r(267, 318)
		r(158, 158)
		r(155, 155)
		r(163, 163)
		r(319, 326)
		r(150, 150)
		r(164, 164)
		r(169, 169)
		r(327, 378)
	case 2:
		r(0, 1)
		r(231, 232)
		r(235, 238)
		r(13, 15)
		r(99, 99)
		r(239, 248)
		r(27, 28)
		r(249, 251)
		r(253, 266)
		r(109, 110)
		r(267, 270)
		r(272, 272)
		r(300, 302)
		r(305, 305)
		r(314, 315)
		r(158, 158)
		r(155, 155)
		r(163, 163)
		r(320, 326)
		r(150, 150)
		r(164, 164)
		r(169, 169)
		r(327, 346)
	}
	return res
}

// isoNames are the names of the ISOAdobe character set.
var isoNames = func() []string {
	var res []string
	o := &t2Font{Glyphs: make([]t2Glyph, 229)}
	for i := range o.Glyphs {
		o.Glyphs[i] = t2Glyph{FD: 1, Main: []int{14}}
	}
	o.FDs = make([]t2FD, 1)
	f, err := cff.Read(bytes.NewReader(o.build()))
	if err != nil {
		panic(err)
	}
	for _, g := range f.Glyphs {
		res = append(res, g.Name)
	}
	return res
}()

// tlcCFF builds a font from a small case enumerated by TLC.
func tlcCFF(rng *rand.Rand, raw json.RawMessage) *cff.Font {
	var t struct {
		CIDs []int // empty for simple fonts
		Enc  [][2]int
		FD   []int
		Num  int
	}
	if err := json.Unmarshal([]byte(tlcUnquote(raw)), &t); err != nil {
		panic(err)
	}
	_ = fmt.Sprint
	n := len(t.FD)
	var gg []*cff.Glyph
	for i := 0; i < n; i++ {
		gg = append(gg, &cff.Glyph{Width: float64(100 * (i % 3))})
	}
	f := testCFF(rng, gg, len(t.CIDs) > 0)
	f.Private[0].BlueShift = int32(t.Num)
	if len(t.CIDs) > 0 {
		np := 0
		for _, d := range t.FD {
			np = max(np, d+1)
		}
		f.Private, f.FontMatrices = nil, nil
		for i := 0; i < np; i++ {
			f.Private = append(f.Private, &type1.PrivateDict{BlueScale: 0.039625, BlueShift: int32(t.Num) + int32(i), BlueFuzz: 1})
			f.FontMatrices = append(f.FontMatrices, matrix.Matrix{0.001, 0, 0, 0.001, 0, 0})
		}
		f.FDSelect = func(g glyph.ID) int { return t.FD[g] }
		for i, c := range t.CIDs {
			f.GIDToCID[i] = cid.CID(c)
		}
	} else {
		f.Encoding = make([]glyph.ID, 256)
		for _, e := range t.Enc {
			f.Encoding[e[0]] = glyph.ID(e[1])
		}
	}
	return f
}

func c13Families(env *vh.Env) []vh.Family {
	tlc := env.TLCCases("cff.ndjson")
	per := 20
	nt := (len(tlc) + per - 1) / per
	ntq := min(nt, 60)
	return []vh.Family{
		{Name: "tlc", Quick: ntq, Thor: nt, Run: func(c *vh.Case) {
			for i := c.Idx * per; i < (c.Idx+1)*per && i < len(tlc); i++ {
				k := i
				if c.Env.Tier != "thorough" && nt > ntq {
					k = c.Rng.IntN(len(tlc))
				}
				emitCFF13(c, tlcCFF(c.Rng, tlc[k]))
			}
		}},
		{Name: "font", Quick: 2500, Thor: 40000, Run: func(c *vh.Case) {
			g := &cff13{c.Rng}
			f := g.font()
			if f.ROS == nil && f.Encoding != nil && !encodable(f.Encoding) {
				f.Encoding = nil
			}
			c.Mark("cid=%v n=%d", f.ROS != nil, min(len(f.Glyphs), 10))
			emitCFF13(c, f)
		}},
		{Name: "foreign", Quick: 2500, Thor: 40000, Run: func(c *vh.Case) {
			g := &cff13{c.Rng}
			emitForeign13(c, g.foreign())
		}},
		{Name: "large", Quick: 24, Thor: 60, Run: func(c *vh.Case) {
			// sections beyond 64 KiB, many glyphs
			g := &cff13{c.Rng}
			f := g.font()
			for f.ROS == nil {
				f = g.font()
			}
			n := 1500 + c.Rng.IntN(1500)
			for len(f.Glyphs) < n {
				gl := &cff.Glyph{Width: float64(c.Rng.IntN(1000))}
				if c.Idx%2 == 0 {
					gl.MoveTo(1, 2)
					for k := 0; k < 20; k++ {
						gl.LineTo(float64(c.Rng.IntN(3000)), float64(c.Rng.IntN(3000)))
					}
				}
				f.Glyphs = append(f.Glyphs, gl)
				f.GIDToCID = append(f.GIDToCID, cid.CID(int(f.GIDToCID[len(f.GIDToCID)-1])%60000+1+c.Rng.IntN(2)))
			}
			np := len(f.Private)
			period := []int{1, 3, 4, 5, 7, 10, 40, 300}[c.Rng.IntN(8)]
			f.FDSelect = func(gid glyph.ID) int { return int(gid) / period % np }
			emitCFF13(c, f)
		}},
	}
}
