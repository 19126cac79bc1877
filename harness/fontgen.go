package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/os2"
)

// fopt controls the generation of fonts.
type fopt struct {
	kind    string // "ttf", "cff", "cid", "" = any
	n       int    // number of glyphs; 0 = random, small
	draw    bool   // outlines and composites which other software can draw
	badName bool   // missing, duplicate and invalid glyph names
	cmap    string // "", "none", "4", "12", "both", "mac"
	integer bool   // integer CFF coordinates
}

type fontGen struct {
	rng *rand.Rand
	o   fopt
	n   int
}

// genFont generates a font value which the library can represent in a file.
func genFont(rng *rand.Rand, o fopt) *sfnt.Font {
	g := &fontGen{rng: rng, o: o, n: o.n}
	if g.n == 0 {
		g.n = 1 + rng.IntN(12)
		if rng.IntN(20) == 0 {
			g.n = 1 + rng.IntN(300)
		}
	}
	if g.o.kind == "" {
		g.o.kind = []string{"ttf", "ttf", "cff", "cid"}[rng.IntN(4)]
	}
	f := &sfnt.Font{}
	g.meta(f)
	switch g.o.kind {
	case "ttf":
		g.ttf(f)
	default:
		g.cff(f)
	}
	f.CMapTable = g.cmaps()
	return f
}

func (g *fontGen) i16() funit.Int16 {
	switch g.rng.IntN(12) {
	case 0:
		return []funit.Int16{-32768, 32767, 0, -1, 1}[g.rng.IntN(5)]
	case 1:
		return funit.Int16(g.rng.IntN(65536) - 32768)
	}
	return funit.Int16(g.rng.IntN(4001) - 2000)
}

func (g *fontGen) str(ascii bool) string {
	rng := g.rng
	n := rng.IntN(30)
	switch rng.IntN(6) {
	case 0:
		n = 0
	case 1:
		n = rng.IntN(400)
	}
	res := make([]rune, n)
	for i := range res {
		res[i] = rune(32 + rng.IntN(95))
		if !ascii && rng.IntN(6) == 0 {
			// characters of the Mac Roman set
			res[i] = pick(rng, []rune("äöüÄÖÜßéèêëçñ©®™†°•¶ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø¿¡¬√ƒ≈∆«»…ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ‡·‚„‰"))
		}
		if !ascii && rng.IntN(25) == 0 {
			res[i] = pick(rng, []rune("漢Ж𝄞😀ǅ\u0301\u200d\uFFFD"))
		}
	}
	return string(res)
}

func pick[T any](rng *rand.Rand, x []T) T { return x[rng.IntN(len(x))] }

func (g *fontGen) time() time.Time {
	lo := time.Date(1904, 1, 1, 0, 0, 1, 0, time.UTC).Unix()
	switch g.rng.IntN(8) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(lo+int64(g.rng.IntN(100)), 0).UTC()
	case 2:
		return time.Unix(lo+1<<32-5+int64(g.rng.IntN(10)), 0).UTC()
	case 3:
		return time.Date(1970+g.rng.IntN(2), 1, 1, 0, 0, g.rng.IntN(3), 0, time.UTC)
	}
	return time.Unix(lo+g.rng.Int64N(1<<33), 0).UTC()
}

func (g *fontGen) meta(f *sfnt.Font) {
	rng := g.rng
	f.FamilyName = []string{"Test", "Example Sans", "Ünïcode Faß", "a/b(c)[d]<e>{f}%g", "漢字", "x", "Grüße 100%"}[rng.IntN(7)]
	if rng.IntN(3) == 0 {
		f.FamilyName = "F" + g.str(false)
	}
	f.Width = os2.Width(1 + rng.IntN(9))
	f.Weight = os2.Weight(100 * (1 + rng.IntN(9)))
	if rng.IntN(4) == 0 {
		f.Weight = os2.Weight(1 + rng.IntN(1000))
	}
	f.IsBold = rng.IntN(3) == 0
	if rng.IntN(2) == 0 {
		f.ItalicAngle = float64(rng.IntN(41*65536)-20*65536) / 65536
		if rng.IntN(3) == 0 {
			f.ItalicAngle = []float64{-12, 1.0 / 65536, -1.0 / 65536, 45, -90, 89.5, -180, 30000, -32768}[rng.IntN(9)]
		}
	}
	f.IsItalic = f.ItalicAngle != 0 || rng.IntN(5) == 0
	if f.IsItalic {
		f.IsOblique = rng.IntN(2) == 0
	}
	if !f.IsBold && !f.IsItalic {
		f.IsRegular = rng.IntN(2) == 0
	}
	switch rng.IntN(3) {
	case 0:
		f.IsSerif = true
	case 1:
		f.IsScript = true
	}
	f.CodePageRange = os2.CodePageRange(rng.Uint64())
	if rng.IntN(2) == 0 {
		f.CodePageRange = 0
		f.CodePageRange.Set(os2.CodePage(rng.IntN(64)))
	}
	f.Version = head.Version(rng.Uint32N(4 << 16))
	if rng.IntN(3) == 0 {
		f.Version = []head.Version{0x10000, 0, 0x18000, 65535 << 16, 0x1FFFF, 66}[rng.IntN(6)]
	}
	f.CreationTime = g.time()
	f.ModificationTime = g.time()
	if f.CreationTime.IsZero() && f.ModificationTime.IsZero() {
		f.ModificationTime = time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC)
	}
	for _, p := range []*string{&f.Description, &f.SampleText, &f.Copyright, &f.Trademark, &f.License, &f.LicenseURL} {
		if rng.IntN(2) == 0 {
			*p = g.str(false)
		}
	}
	f.PermUse = os2.Permissions(rng.IntN(4))
	f.UnitsPerEm = []uint16{1000, 2048, 16, 16384, 1024, 256, 1234}[rng.IntN(7)]
	q := 1 / float64(f.UnitsPerEm)
	f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
	f.Ascent = g.i16()
	f.Descent = g.i16()
	f.LineGap = g.i16()
	f.CapHeight = funit.Int16(1 + rng.IntN(1000))
	f.XHeight = funit.Int16(1 + rng.IntN(1000))
	if rng.IntN(8) == 0 {
		f.CapHeight, f.XHeight = 32767, 0
	}
	f.UnderlinePosition = funit.Float64(g.i16())
	f.UnderlineThickness = funit.Float64(g.i16())
}

func (g *fontGen) width() int {
	rng := g.rng
	switch rng.IntN(12) {
	case 0:
		return 0
	case 1:
		return []int{32767, 1, 255, 256}[rng.IntN(4)]
	case 2, 3, 4:
		return 500
	}
	return rng.IntN(1500)
}

var goodNames = []string{"A", "B", "a", "b", "f", "i", "l", "space", "Adieresis", "zero", "one", "f_i", "a.sc", "uni0041", "nonmarkingreturn", "afii10017", "Euro", "x"}

// names generates unique glyph names.
func (g *fontGen) names() []string {
	res := make([]string, g.n)
	used := map[string]bool{}
	for i := range res {
		s := goodNames[g.rng.IntN(len(goodNames))]
		switch g.rng.IntN(10) {
		case 0:
			s = "n" + itoa(g.rng.IntN(100000))
		case 1:
			s = fmt.Sprintf("%s.%d", s, g.rng.IntN(5))
		case 2:
			if g.rng.IntN(6) == 0 {
				for len(s) < 20+g.rng.IntN(100) {
					s += "_" + goodNames[g.rng.IntN(len(goodNames))]
				}
			}
		}
		if i == 0 {
			s = ".notdef"
		}
		for used[s] {
			s = "g" + itoa(i) + "x" + itoa(g.rng.IntN(1000))
		}
		used[s] = true
		res[i] = s
	}
	return res
}

// damageNames removes, duplicates and changes names.
func (g *fontGen) damageNames(nn []string) {
	rng := g.rng
	p := rng.IntN(3)
	for i := range nn {
		if p == 0 && rng.IntN(4) > 0 {
			continue
		}
		switch rng.IntN(8) {
		case 0, 1, 2:
			nn[i] = ""
		case 3:
			nn[i] = nn[rng.IntN(len(nn))]
		case 4:
			nn[i] = []string{".notdef", "A_B", "orn001", "orn002", "A.1", "bad name", "A.1.1", "äö", "(", "B_C.1", "fi"}[rng.IntN(11)]
		}
	}
}

func (g *fontGen) ttf(f *sfnt.Font) {
	rng := g.rng
	o := &glyf.Outlines{Tables: map[string][]byte{}}
	draw := g.o.draw || rng.IntN(2) == 0
	for i := 0; i < g.n; i++ {
		var gl *glyf.Glyph
		switch k := rng.IntN(7); {
		case k == 0:
		case k <= 2 && i > 0:
			var pool []int
			for j := 0; j < i; j++ {
				pool = append(pool, j)
			}
			if !draw && rng.IntN(3) == 0 && !g.o.draw {
				pool = append(pool, g.n-1)
			}
			gl = randComposite(rng, pool, 3, draw)
		default:
			gl = randSimple(rng, 3, 8, []int{400, 2000, 2000, 16000}[rng.IntN(4)], 0)
		}
		o.Glyphs = append(o.Glyphs, gl)
		o.Widths = append(o.Widths, funit.Int16(g.width()))
	}
	if rng.IntN(3) == 0 { // constant tail
		k := rng.IntN(g.n)
		for i := k; i < g.n; i++ {
			o.Widths[i] = o.Widths[k]
		}
	}
	if rng.IntN(4) > 0 {
		o.Names = g.names()
		if g.o.badName {
			g.damageNames(o.Names)
			switch rng.IntN(6) {
			case 0:
				o.Names = o.Names[:rng.IntN(len(o.Names)+1)]
			case 1:
				o.Names = append(o.Names, "extra")
			}
		}
	}
	for _, t := range []string{"cvt ", "fpgm", "prep", "gasp"} {
		if rng.IntN(3) == 0 {
			b := randBytes(rng, 1+rng.IntN(40))
			o.Tables[t] = b
		}
	}
	m := &maxp.TTFInfo{}
	u := func() uint16 { return uint16(rng.IntN(65536)) }
	*m = maxp.TTFInfo{MaxPoints: u(), MaxContours: u(), MaxCompositePoints: u(), MaxCompositeContours: u(), MaxZones: u(), MaxTwilightPoints: u(), MaxStorage: u(), MaxFunctionDefs: u(), MaxInstructionDefs: u(), MaxStackElements: u(), MaxSizeOfInstructions: u(), MaxComponentElements: u(), MaxComponentDepth: u()}
	o.Maxp = m
	f.Outlines = o
}

// randCFFGlyph generates an outline consisting of closed subpaths.
func (g *fontGen) randCFFGlyph() *cff.Glyph {
	rng := g.rng
	gl := &cff.Glyph{Width: float64(g.width())}
	span := []int{500, 2000, 8000}[rng.IntN(3)]
	frac := !g.o.integer && rng.IntN(6) == 0
	c := func() float64 {
		v := float64(rng.IntN(2*span+1) - span)
		if frac {
			v += float64(rng.IntN(16)) / 16
		}
		return v
	}
	if rng.IntN(4) == 0 {
		for k := 1 + rng.IntN(3); k > 0; k-- {
			a := float64(rng.IntN(200) - 50 + 100*len(gl.HStem))
			gl.HStem = append(gl.HStem, a, a+20)
		}
		for i := 2; i < len(gl.HStem); i += 2 {
			if gl.HStem[i] <= gl.HStem[i-1] {
				gl.HStem[i] = gl.HStem[i-1] + 5
				gl.HStem[i+1] = gl.HStem[i] + 20
			}
		}
	}
	for k := rng.IntN(4); k > 0; k-- {
		x, y := c(), c()
		gl.MoveTo(x, y)
		for j := 1 + rng.IntN(5); j > 0; j-- {
			switch rng.IntN(4) {
			case 0:
				gl.LineTo(x, c())
			case 1:
				gl.CurveTo(c(), c(), c(), c(), c(), c())
			default:
				gl.LineTo(c(), c())
			}
		}
	}
	return gl
}

func (g *fontGen) private(f *sfnt.Font) *type1.PrivateDict {
	rng := g.rng
	p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
	if rng.IntN(2) == 0 {
		v := -20 - rng.IntN(10)
		for k := 1 + rng.IntN(7); k > 0; k-- {
			p.BlueValues = append(p.BlueValues, funit.Int16(v), funit.Int16(v+rng.IntN(15)))
			v += 20 + rng.IntN(200)
		}
	}
	if rng.IntN(3) == 0 {
		p.OtherBlues = []funit.Int16{-250, -240}
	}
	if rng.IntN(3) == 0 {
		p.BlueScale = float64(rng.IntN(100000)) / 1000000
		p.BlueShift = int32(rng.IntN(20))
		p.BlueFuzz = int32(rng.IntN(3))
	}
	if rng.IntN(2) == 0 {
		p.StdHW = float64(rng.IntN(300))
		p.StdVW = float64(rng.IntN(3000)) / 8
	}
	p.ForceBold = rng.IntN(4) == 0
	return p
}

func (g *fontGen) cff(f *sfnt.Font) {
	rng := g.rng
	o := &cff.Outlines{}
	for i := 0; i < g.n; i++ {
		o.Glyphs = append(o.Glyphs, g.randCFFGlyph())
	}
	if g.o.kind == "cid" {
		np := 1 + rng.IntN(3)
		if rng.IntN(10) == 0 {
			np = 1 + rng.IntN(20)
		}
		for i := 0; i < np; i++ {
			o.Private = append(o.Private, g.private(f))
			m := matrix.Identity
			switch rng.IntN(4) {
			case 0:
				m = matrix.Matrix{2, 0, 0, 2, 0, 0}
			case 1:
				m = matrix.Matrix{1, 0, 0.25, 1, 10, -20}
			}
			o.FontMatrices = append(o.FontMatrices, m)
		}
		sel := make([]int, g.n)
		cur := rng.IntN(np)
		for i := range sel {
			if rng.IntN(3) == 0 {
				cur = rng.IntN(np)
			}
			sel[i] = cur
		}
		o.FDSelect = func(gid glyph.ID) int { return sel[gid] }
		o.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: []string{"Identity", "Japan1", "Test"}[rng.IntN(3)], Supplement: int32(rng.IntN(8))}
		v := 0
		for i := 0; i < g.n; i++ {
			o.GIDToCID = append(o.GIDToCID, cid.CID(v))
			v++
			if rng.IntN(4) == 0 {
				v += min(rng.IntN(100), 65536-v-g.n+i)
			}
		}
		if g.n > 2 && rng.IntN(4) == 0 { // not ascending
			rng.Shuffle(g.n-1, func(i, j int) {
				o.GIDToCID[i+1], o.GIDToCID[j+1] = o.GIDToCID[j+1], o.GIDToCID[i+1]
			})
		}
		if rng.IntN(2) == 0 {
			// the matrix for the whole font is the identity
			q := 1 / float64(f.UnitsPerEm)
			for i := range o.FontMatrices {
				o.FontMatrices[i] = o.FontMatrices[i].Mul(matrix.Matrix{q, 0, 0, q, 0, 0})
			}
			f.FontMatrix = matrix.Identity
		}
	} else {
		o.Private = []*type1.PrivateDict{g.private(f)}
		o.FDSelect = func(glyph.ID) int { return 0 }
		nn := g.names()
		if g.o.badName {
			g.damageNames(nn)
			nn[0] = ".notdef"
		}
		for i, gl := range o.Glyphs {
			gl.Name = nn[i]
		}
		switch rng.IntN(3) {
		case 0:
			o.Encoding = cff.StandardEncoding(o.Glyphs)
		case 1:
			o.Encoding = make([]glyph.ID, 256)
			// glyphs 1..m are encoded, some of them more than once
			m := rng.IntN(min(g.n, 200))
			codes := rng.Perm(256)
			for i := 1; i <= m; i++ {
				o.Encoding[codes[i]] = glyph.ID(i)
			}
			if m > 0 {
				for _, c := range codes[m+1 : m+1+rng.IntN(min(20, 256-m-1))] {
					o.Encoding[c] = glyph.ID(1 + rng.IntN(m))
				}
			}
		default:
			o.Encoding = make([]glyph.ID, 256)
			a := rng.IntN(200)
			for i := 1; i < g.n && a+i < 256; i++ {
				o.Encoding[a+i] = glyph.ID(i)
			}
		}
	}
	f.Outlines = o
}

// cmaps generates the cmap table of the font.
func (g *fontGen) cmaps() cmap.Table {
	rng := g.rng
	k := g.o.cmap
	if k == "" {
		k = []string{"none", "4", "4", "12", "both", "mac"}[rng.IntN(6)]
	}
	if k == "none" {
		return nil
	}
	m := map[int]glyph.ID{}
	if g.n > 1 {
		a := 32 + rng.IntN(90)
		for i := 1; i < g.n; i++ {
			switch rng.IntN(6) {
			case 0:
				continue
			case 1:
				a = []int{0x41, 0x61, 0xE9, 0x391, 0x4E00, 0xE000, 0xFFF0, 0x20}[rng.IntN(8)]
			}
			m[a] = glyph.ID(i)
			a++
			if rng.IntN(8) == 0 {
				m[a] = glyph.ID(i)
				a++
			}
		}
	}
	f4 := cmap.Format4{}
	f12 := cmap.Format12{}
	for c, gid := range m {
		if c < 0xFFFF {
			f4[uint16(c)] = gid
		}
		f12[uint32(c)] = gid
	}
	if g.n > 1 {
		for j := rng.IntN(5); j > 0; j-- {
			f12[uint32(0x10000+rng.IntN(0xFFFFF))] = glyph.ID(1 + rng.IntN(g.n-1))
		}
		if rng.IntN(4) == 0 {
			f12[0x10FFFF] = 1
		}
	}
	t := cmap.Table{}
	switch k {
	case "4":
		t[cmap.Key{PlatformID: 3, EncodingID: 1}] = f4.Encode(0)
		if rng.IntN(2) == 0 {
			t[cmap.Key{PlatformID: 0, EncodingID: 3}] = f4.Encode(0)
		}
	case "12":
		t[cmap.Key{PlatformID: 3, EncodingID: 10}] = f12.Encode(0)
	case "both":
		t[cmap.Key{PlatformID: 3, EncodingID: 1}] = f4.Encode(0)
		t[cmap.Key{PlatformID: 3, EncodingID: 10}] = f12.Encode(0)
		t[cmap.Key{PlatformID: 0, EncodingID: 4}] = f12.Encode(0)
	case "mac":
		f0 := &cmap.Format0{}
		for i := range f0.Data {
			if rng.IntN(3) == 0 && g.n > 1 {
				f0.Data[i] = byte(rng.IntN(min(g.n, 256)))
			}
		}
		t[cmap.Key{PlatformID: 1, EncodingID: 0}] = f0.Encode(0)
	}
	return t
}

// dec9 describes a number by 9 decimal digits and an exponent.
func dec9(x float64) [2]int {
	if x == 0 {
		return [2]int{0, 0}
	}
	s := strconv.FormatFloat(math.Abs(x), 'e', -1, 64)
	if strings.IndexByte(s, 'e') > 10 {
		s = strconv.FormatFloat(math.Abs(x), 'e', 8, 64)
	}
	mant, exp, _ := strings.Cut(s, "e")
	mant = (strings.Replace(mant, ".", "", 1) + "00000000")[:9]
	m, _ := strconv.Atoi(mant)
	e, _ := strconv.Atoi(exp)
	if x < 0 {
		m = -m
	}
	return [2]int{m, e}
}
