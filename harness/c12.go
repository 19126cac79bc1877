package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
	"time"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/geom/rect"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/post"

	"vharness/vh"
)

func boxInts(b funit.Rect16) []int {
	return []int{int(b.LLx), int(b.LLy), int(b.URx), int(b.URy)}
}

func boxesInts(bb []funit.Rect16) [][]int {
	res := [][]int{}
	for _, b := range bb {
		res = append(res, boxInts(b))
	}
	return res
}

func vec[T ~int16 | ~uint16 | ~int](x []T) []int {
	res := []int{}
	for _, v := range x {
		res = append(res, int(v))
	}
	return res
}

func round(x float64) int {
	if math.IsNaN(x) || math.Abs(x) > 2e9 {
		return 2000000001
	}
	return int(math.Round(x))
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

func i16(rng *rand.Rand) funit.Int16 {
	switch rng.IntN(6) {
	case 0:
		return []funit.Int16{-32768, 32767, 0, -1, 1}[rng.IntN(5)]
	case 1:
		return funit.Int16(rng.IntN(4001) - 2000)
	}
	return funit.Int16(rng.IntN(65536) - 32768)
}

// ---- hhea and hmtx ----

func recHmtx(info *hmtx.Info) map[string]any {
	return map[string]any{"w": vec(info.Widths), "lsb": vec(info.LSB),
		"asc": int(info.Ascent), "desc": int(info.Descent), "gap": int(info.LineGap), "off": int(info.CaretOffset)}
}

func emitHmtx(c *vh.Case, info *hmtx.Info, dir []int, exact bool) {
	rec := vh.Rec{"t": "hmtx", "w": vec(info.Widths), "hasl": info.LSB != nil, "hase": info.GlyphExtents != nil,
		"lsb": vec(info.LSB), "ext": boxesInts(info.GlyphExtents),
		"asc": int(info.Ascent), "desc": int(info.Descent), "gap": int(info.LineGap), "off": int(info.CaretOffset),
		"dir": dir, "exact": exact, "ok": false, "b": map[string]any{}, "hhea2": []int{}, "hmtx2": []int{}}
	msg := vh.Guard(func() {
		hh, hm := info.Encode()
		rec["hhea"], rec["hmtx"] = bytesInts(hh), bytesInts(hm)
		b, err := hmtx.Decode(hh, hm)
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["b"] = recHmtx(b)
		hh2, hm2 := b.Encode()
		rec["hhea2"], rec["hmtx2"] = bytesInts(hh2), bytesInts(hm2)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// caret returns an angle and a description of the slope.
func caret(rng *rand.Rand) (angle float64, dir []int, exact bool) {
	switch rng.IntN(4) {
	case 0:
		return 0, []int{0, 1}, true
	case 1, 2: // slopes which can be represented
		for {
			m := []int{3, 20, 1000, 32767}[rng.IntN(4)]
			run, rise := rng.IntN(2*m+1)-m, rng.IntN(2*m+1)-m
			g := gcd(run, rise)
			if g == 0 {
				continue
			}
			run, rise = run/g, rise/g
			if max(run, -run, rise, -rise) > 150 {
				// several fractions may be equally close in floating point
				continue
			}
			return math.Atan2(float64(rise), float64(run)) - math.Pi/2, []int{run, rise}, true
		}
	}
	a := (rng.Float64()*2 - 1) * math.Pi
	switch rng.IntN(4) {
	case 0:
		a = []float64{math.Pi / 2, -math.Pi / 2, math.Pi, -math.Pi, 1e-5, -1e-5, 1e-9, math.Pi/2 - 1e-5, math.Pi/2 + 1e-5, -math.Pi/2 + 2e-5}[rng.IntN(10)]
	case 1:
		a = (rng.Float64() - 0.5) / 2
	}
	return a, dirOf(a), false
}

func dirOf(a float64) []int {
	return []int{round(60000 * math.Cos(a+math.Pi/2)), round(60000 * math.Sin(a+math.Pi/2))}
}

func randHmtx(c *vh.Case, big bool) {
	rng := c.Rng
	n := 1 + rng.IntN(12)
	if big {
		n = []int{255, 256, 257, 1000, 4000}[rng.IntN(5)]
	}
	info := &hmtx.Info{Ascent: i16(rng), Descent: i16(rng), LineGap: i16(rng), CaretOffset: i16(rng)}
	var dir []int
	var exact bool
	info.CaretAngle, dir, exact = caret(rng)
	wide := rng.IntN(4) == 0
	num := func(lo, hi int) funit.Int16 {
		if wide {
			return i16(rng)
		}
		return funit.Int16(lo + rng.IntN(hi-lo+1))
	}
	neg := rng.IntN(8) == 0
	for i := 0; i < n; i++ {
		w := num(0, 1200)
		if w < 0 && !neg {
			w = w ^ -1
		}
		if i > 0 && rng.IntN(3) == 0 {
			w = info.Widths[i-1]
		}
		info.Widths = append(info.Widths, w)
	}
	switch tail := rng.IntN(n + 1); {
	case rng.IntN(2) == 0:
		for i := tail; i < n; i++ {
			info.Widths[i] = info.Widths[tail]
		}
	}
	kind := rng.IntN(3)
	if kind != 0 {
		info.GlyphExtents = make([]funit.Rect16, n)
		for i := range info.GlyphExtents {
			if rng.IntN(4) == 0 {
				continue
			}
			e := funit.Rect16{LLx: num(-300, 500), LLy: num(-300, 500), URx: num(0, 1200), URy: num(0, 1200)}
			if e.URx < e.LLx {
				e.URx, e.LLx = e.LLx, e.URx
			}
			if e.URy < e.LLy {
				e.URy, e.LLy = e.LLy, e.URy
			}
			info.GlyphExtents[i] = e
		}
	}
	if kind != 1 {
		info.LSB = make([]funit.Int16, n)
		for i := range info.LSB {
			if kind == 2 && rng.IntN(2) == 0 {
				info.LSB[i] = info.GlyphExtents[i].LLx
				continue
			}
			info.LSB[i] = num(-200, 300)
		}
	}
	emitHmtx(c, info, dir, exact)
}

// emitHmtxDec records the decoding of tables with n long records.
func emitHmtxDec(c *vh.Case, hhea, data []byte, ng int) {
	rec := vh.Rec{"t": "hmtxdec", "hhea": bytesInts(hhea), "hmtx": bytesInts(data), "ng": ng, "ok": false, "b": map[string]any{}}
	msg := vh.Guard(func() {
		b, err := hmtx.Decode(hhea, data)
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["b"] = recHmtx(b)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func rawHhea(rng *rand.Rand, n int) []byte {
	b := randBytes(rng, 36)
	copy(b, []byte{0, 1, 0, 0})
	for i := 24; i < 34; i++ {
		b[i] = 0
	}
	b[34], b[35] = byte(n>>8), byte(n)
	return b
}

// ---- head ----

const macEpoch = 2082844800

func time8(t time.Time) []int {
	v := int64(0)
	if !t.IsZero() {
		v = t.Unix() + macEpoch
	}
	res := make([]int, 8)
	for i := range res {
		res[i] = int(uint64(v) >> (56 - 8*i) & 255)
	}
	return res
}

func randTime(rng *rand.Rand) time.Time {
	switch rng.IntN(5) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(-macEpoch+[]int64{1, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, -1, -100000}[rng.IntN(9)], 0)
	case 2:
		return time.Unix(rng.Int64N(4e9), rng.Int64N(1e9)).In(time.FixedZone("x", 3600*rng.IntN(10)))
	}
	return time.Unix(-macEpoch+1+rng.Int64N(1<<33), 0).UTC()
}

func recHead(info *head.Info) map[string]any {
	return map[string]any{
		"rev": []int{int(info.FontRevision >> 16), int(info.FontRevision & 0xFFFF)},
		"yb":  info.HasYBaseAt0, "xb": info.HasXBaseAt0, "nl": info.IsNonlinear, "upem": int(info.UnitsPerEm),
		"c": time8(info.Created), "m": time8(info.Modified), "box": boxInts(info.FontBBox),
		"bold": info.IsBold, "ital": info.IsItalic, "shad": info.HasShadow, "cond": info.IsCondensed, "exp": info.IsExtended,
		"ppem": int(info.LowestRecPPEM), "loca": int(info.LocaFormat),
	}
}

func randHead(c *vh.Case, bits int) {
	rng := c.Rng
	b := func(k int) bool { return bits>>k&1 != 0 }
	info := &head.Info{FontRevision: head.Version(rng.Uint32()), HasYBaseAt0: b(0), HasXBaseAt0: b(1), IsNonlinear: b(2),
		UnitsPerEm: uint16(16 + rng.IntN(16384-15)), Created: randTime(rng), Modified: randTime(rng),
		FontBBox: funit.Rect16{LLx: i16(rng), LLy: i16(rng), URx: i16(rng), URy: i16(rng)},
		IsBold:   b(3), IsItalic: b(4), HasShadow: b(5), IsCondensed: b(6), IsExtended: b(7),
		LowestRecPPEM: uint16(rng.IntN(65536)), LocaFormat: int16(bits >> 8 & 1)}
	rec := vh.Rec{"t": "head", "in": recHead(info), "ok": false, "back": map[string]any{}}
	msg := vh.Guard(func() {
		enc := info.Encode()
		rec["b"] = bytesInts(enc)
		got, err := head.Read(bytes.NewReader(enc))
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["back"] = recHead(got)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// ---- maxp ----

func ttfInts(t *maxp.TTFInfo) []int {
	if t == nil {
		return []int{}
	}
	return vec([]uint16{t.MaxPoints, t.MaxContours, t.MaxCompositePoints, t.MaxCompositeContours, t.MaxZones, t.MaxTwilightPoints,
		t.MaxStorage, t.MaxFunctionDefs, t.MaxInstructionDefs, t.MaxStackElements, t.MaxSizeOfInstructions, t.MaxComponentElements, t.MaxComponentDepth})
}

func randMaxp(c *vh.Case) {
	rng := c.Rng
	info := &maxp.Info{NumGlyphs: 1 + rng.IntN(65535)}
	if rng.IntN(3) == 0 {
		info.NumGlyphs = []int{1, 255, 256, 65535, 32768}[rng.IntN(5)]
	}
	if rng.IntN(4) > 0 {
		u := func() uint16 {
			if rng.IntN(4) == 0 {
				return []uint16{0, 255, 256, 65535}[rng.IntN(4)]
			}
			return uint16(rng.IntN(65536))
		}
		info.TTF = &maxp.TTFInfo{MaxPoints: u(), MaxContours: u(), MaxCompositePoints: u(), MaxCompositeContours: u(), MaxZones: u(), MaxTwilightPoints: u(), MaxStorage: u(), MaxFunctionDefs: u(), MaxInstructionDefs: u(), MaxStackElements: u(), MaxSizeOfInstructions: u(), MaxComponentElements: u(), MaxComponentDepth: u()}
	}
	f := func(i *maxp.Info) map[string]any { return map[string]any{"n": i.NumGlyphs, "ttf": ttfInts(i.TTF)} }
	rec := vh.Rec{"t": "maxp", "in": f(info), "ok": false, "back": map[string]any{}}
	msg := vh.Guard(func() {
		enc := info.Encode()
		rec["b"] = bytesInts(enc)
		got, err := maxp.Read(bytes.NewReader(enc))
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["back"] = f(got)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// ---- OS/2 ----

func permInt(p os2.Permissions) int {
	switch p {
	case os2.PermInstall:
		return 0
	case os2.PermEdit:
		return 1
	case os2.PermView:
		return 2
	case os2.PermRestricted:
		return 3
	}
	return -1
}

func cpInts(cp os2.CodePageRange) []int {
	return []int{int(cp >> 16 & 0xFFFF), int(cp & 0xFFFF), int(cp >> 48 & 0xFFFF), int(cp >> 32 & 0xFFFF)}
}

func recOS2(i *os2.Info) map[string]any {
	ur := []int{}
	for _, x := range i.UnicodeRange {
		ur = append(ur, int(x>>16), int(x&0xFFFF))
	}
	return map[string]any{
		"avg": int(i.AvgGlyphWidth), "weight": int(i.WeightClass), "width": int(i.WidthClass),
		"perm": permInt(i.PermUse), "nosub": i.PermNoSubsetting, "bmp": i.PermOnlyBitmap,
		"geom": vec([]funit.Int16{i.SubscriptXSize, i.SubscriptYSize, i.SubscriptXOffset, i.SubscriptYOffset,
			i.SuperscriptXSize, i.SuperscriptYSize, i.SuperscriptXOffset, i.SuperscriptYOffset, i.StrikeoutSize, i.StrikeoutPosition}),
		"class": int(uint16(i.FamilyClass)), "panose": bytesInts(i.Panose[:]), "ur": ur, "vendor": strInts(i.Vendor),
		"ital": i.IsItalic, "bold": i.IsBold, "reg": i.IsRegular, "obl": i.IsOblique,
		"first": int(i.FirstCharIndex), "last": int(i.LastCharIndex),
		"asc": int(i.Ascent), "desc": int(i.Descent), "gap": int(i.LineGap), "wasc": int(i.WinAscent), "wdesc": int(i.WinDescent),
		"cp": cpInts(i.CodePageRange), "xh": int(i.XHeight), "cap": int(i.CapHeight),
	}
}

func randOS2(c *vh.Case, bits int) {
	rng := c.Rng
	b := func(k int) bool { return bits>>k&1 != 0 }
	i := &os2.Info{WeightClass: os2.Weight(1 + rng.IntN(1000)), WidthClass: os2.Width(1 + rng.IntN(9)),
		IsItalic: b(0), IsBold: b(1), IsRegular: b(2), IsOblique: b(3),
		PermUse:          []os2.Permissions{os2.PermInstall, os2.PermEdit, os2.PermView, os2.PermRestricted}[bits>>4&3],
		PermNoSubsetting: b(6), PermOnlyBitmap: b(7),
		FirstCharIndex: uint16(rng.IntN(65536)), LastCharIndex: uint16(rng.IntN(65536)),
		Ascent: i16(rng), Descent: i16(rng), WinAscent: i16(rng), WinDescent: i16(rng), LineGap: i16(rng),
		CapHeight: funit.Int16(rng.IntN(32768)), XHeight: funit.Int16(rng.IntN(32768)), AvgGlyphWidth: i16(rng),
		SubscriptXSize: i16(rng), SubscriptYSize: i16(rng), SubscriptXOffset: i16(rng), SubscriptYOffset: i16(rng),
		SuperscriptXSize: i16(rng), SuperscriptYSize: i16(rng), SuperscriptXOffset: i16(rng), SuperscriptYOffset: i16(rng),
		StrikeoutSize: i16(rng), StrikeoutPosition: i16(rng), FamilyClass: int16(i16(rng)),
	}
	if rng.IntN(3) == 0 {
		i.FirstCharIndex, i.LastCharIndex = 0xFFFF, 0xFFFF
	}
	if rng.IntN(6) == 0 {
		i.CapHeight, i.XHeight = 0, 0
	}
	for j := range i.Panose {
		i.Panose[j] = byte(rng.IntN(256))
	}
	for j := range i.UnicodeRange {
		i.UnicodeRange[j] = rng.Uint32()
	}
	if rng.IntN(2) == 0 {
		i.UnicodeRange = os2.UnicodeRange{}
		i.UnicodeRange.Set(os2.UnicodeRangeBit(rng.IntN(128)))
	}
	i.CodePageRange = os2.CodePageRange(rng.Uint64())
	if rng.IntN(2) == 0 {
		i.CodePageRange = 0
		i.CodePageRange.Set(os2.CodePage(rng.IntN(64)))
	}
	for j := 0; j < 4; j++ {
		i.Vendor += string(rune(33 + rng.IntN(90)))
	}
	rec := vh.Rec{"t": "os2", "in": recOS2(i), "ok": false, "back": map[string]any{}}
	msg := vh.Guard(func() {
		enc := i.Encode()
		rec["b"] = bytesInts(enc)
		got, err := os2.Read(bytes.NewReader(enc))
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["back"] = recOS2(got)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// ---- post ----

func angleInts(a float64) []int {
	v := int(math.Round(a * 65536))
	return []int{v >> 16, v & 0xFFFF}
}

func recPost(p *post.Info) map[string]any {
	return map[string]any{"angle": angleInts(p.ItalicAngle), "up": int(p.UnderlinePosition), "ut": int(p.UnderlineThickness), "fixed": p.IsFixedPitch}
}

func randPost(c *vh.Case) {
	rng := c.Rng
	p := &post.Info{ItalicAngle: float64(rng.Int64N(1<<32)-1<<31) / 65536, UnderlinePosition: i16(rng), UnderlineThickness: i16(rng), IsFixedPitch: rng.IntN(2) == 0}
	switch rng.IntN(4) {
	case 0:
		p.ItalicAngle = []float64{0, 1.0 / 65536, -1.0 / 65536, 32767 + 65535.0/65536, -32768, -12, -0.5}[rng.IntN(7)]
	case 1:
		p.ItalicAngle = float64(rng.IntN(91)-45) / 8
	}
	if rng.IntN(3) == 0 {
		p.Names = []string{".notdef", "A", "xyz"}[:1+rng.IntN(3)]
	}
	rec := vh.Rec{"t": "post", "in": recPost(p), "ok": false, "back": map[string]any{}}
	msg := vh.Guard(func() {
		enc := p.Encode()
		rec["b"] = bytesInts(enc)
		got, err := post.Read(bytes.NewReader(enc))
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["back"] = recPost(got)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// ---- complete files ----

// rawBoxes returns the boxes stored with TrueType outlines.
func rawBoxes(f *sfnt.Font) []funit.Rect16 {
	var res []funit.Rect16
	for _, g := range f.Outlines.(*glyf.Outlines).Glyphs {
		if g == nil {
			res = append(res, funit.Rect16{})
		} else {
			res = append(res, g.Rect16)
		}
	}
	return res
}

func emitMetricsFile(c *vh.Case, f *sfnt.Font) {
	rec := vh.Rec{"t": "file", "ok": false, "got": map[string]any{}, "codes": []int{}, "ttf": []int{}}
	var w, w8 []int
	var fw []float64
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		for _, x := range o.Widths {
			fw = append(fw, float64(x))
		}
		rec["ttf"] = ttfInts(o.Maxp)
		rec["ext"] = boxesInts(rawBoxes(f))
	case *cff.Outlines:
		for _, g := range o.Glyphs {
			fw = append(fw, g.Width)
		}
	}
	for _, x := range fw {
		w = append(w, int(x))
		w8 = append(w8, round(x*8))
	}
	rec["w"], rec["w8"] = w, w8
	rec["dir"] = dirOf(f.ItalicAngle / 180 * math.Pi)
	// first and last character
	if sub, _ := f.CMapTable.GetBest(); sub != nil {
		lo, hi := math.MaxInt32, -1
		switch s := sub.(type) {
		case cmap.Format4:
			for c, g := range s {
				if g != 0 {
					lo, hi = min(lo, int(c)), max(hi, int(c))
				}
			}
		case cmap.Format12:
			for c, g := range s {
				if g != 0 {
					lo, hi = min(lo, int(c)), max(hi, int(c))
				}
			}
		}
		if hi >= 0 {
			rec["codes"] = []int{lo, hi}
		}
	}
	class := 0
	if f.IsSerif {
		class = 3
	} else if f.IsScript {
		class = 10
	}
	rec["hd"] = map[string]any{"rev": []int{int(f.Version >> 16), int(f.Version & 0xFFFF)}, "upem": int(f.UnitsPerEm),
		"c": time8(f.CreationTime), "m": time8(f.ModificationTime), "bold": f.IsBold, "ital": f.ItalicAngle != 0}
	rec["hh"] = map[string]any{"asc": int(f.Ascent), "desc": int(f.Descent), "gap": int(f.LineGap)}
	oo := map[string]any{"weight": int(f.Weight), "width": int(f.Width), "perm": permInt(f.PermUse), "obl": f.IsOblique,
		"reg": f.IsRegular, "cp": cpInts(f.CodePageRange), "xh": int(f.XHeight), "cap": int(f.CapHeight),
		"asc": int(f.Ascent), "desc": int(f.Descent), "gap": int(f.LineGap), "class": class << 8}
	if !f.IsRegular {
		oo["bold"] = f.IsBold
		oo["ital"] = f.ItalicAngle != 0
	}
	rec["oo"] = oo
	rec["pp"] = map[string]any{"angle": angleInts(f.ItalicAngle), "up": round(float64(f.UnderlinePosition)), "ut": round(float64(f.UnderlineThickness))}
	rb := func(f *sfnt.Font) map[string]any {
		m := map[string]any{"asc": int(f.Ascent), "desc": int(f.Descent), "gap": int(f.LineGap), "upem": int(f.UnitsPerEm),
			"c": time8(f.CreationTime), "m": time8(f.ModificationTime), "weight": int(f.Weight), "width": int(f.Width),
			"perm": permInt(f.PermUse), "cp": cpInts(f.CodePageRange), "cap": int(f.CapHeight), "bold": f.IsBold,
			"angle": angleInts(f.ItalicAngle), "up": round(float64(f.UnderlinePosition)), "ut": round(float64(f.UnderlineThickness)),
			"reg": f.IsRegular, "obl": f.IsOblique, "ttf": []int{}, "ws": []int{}}
		if f.XHeight != 0 {
			m["xh"] = int(f.XHeight)
		}
		ws := []int{}
		for _, x := range f.Widths() {
			ws = append(ws, int(x))
		}
		m["ws"] = ws
		if o, ok := f.Outlines.(*glyf.Outlines); ok {
			m["ttf"] = ttfInts(o.Maxp)
		}
		return m
	}
	want := rb(f)
	if !f.IsBold && strings.Contains(f.Subfamily(), "Bold") {
		// the reader infers boldness from the name of the font
		delete(want, "bold")
		delete(want, "reg")
	}
	rec["rb"] = want
	msg := vh.Guard(func() {
		if rec["ext"] == nil {
			rec["ext"] = boxesInts(f.GlyphBBoxes())
		}
		buf := &bytes.Buffer{}
		_, err := f.Write(buf)
		if err != nil {
			panic(err)
		}
		r := bytes.NewReader(buf.Bytes())
		dir, err := header.Read(r)
		if err != nil {
			panic(err)
		}
		for tag, key := range map[string]string{"head": "head", "hhea": "hhea", "hmtx": "hmtx", "maxp": "maxp", "OS/2": "os2", "post": "post"} {
			b, err := dir.ReadTableBytes(r, tag)
			if err != nil {
				panic(err)
			}
			if tag == "post" {
				b = b[:min(len(b), 32)]
			}
			rec[key] = bytesInts(b)
		}
		g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["got"] = rb(g)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// ---- queries ----

// intCmds describes an outline in units of 1/u; big reports large coordinates.
func intCmds(g *cff.Glyph, u float64) (cc [][]int, big bool) {
	cc = [][]int{}
	for _, cmd := range g.Cmds {
		if cmd.Op > cff.OpCurveTo {
			continue
		}
		s := []int{int(cmd.Op - cff.OpMoveTo + 1)}
		for _, x := range cmd.Args {
			v := round(x * u)
			if v > 60000 || v < -60000 {
				big = true
			}
			s = append(s, v)
		}
		cc = append(cc, s)
	}
	return cc, big
}

func pdfBox(b rect.Rect) []int {
	return []int{round(b.LLx * 100), round(b.LLy * 100), round(b.URx * 100), round(b.URy * 100)}
}

func scaleAll(x []float64, q float64) []int {
	res := []int{}
	for _, v := range x {
		res = append(res, round(v*q))
	}
	return res
}

// emitQuery records the answers to all metric queries.  For CFF fonts, the
// font matrix has entries m/10^4, and the matrices of the font dictionaries
// have entries fds/2.
func emitQuery(c *vh.Case, f *sfnt.Font, u int, m []int, fds [][]int, fd []int, small bool) {
	rec := vh.Rec{"t": "query", "cid": fds != nil, "m": m, "fds": fds, "fd": fd, "small": small, "u": u, "upem": int(f.UnitsPerEm), "mok": false, "wm": []int{}}
	if fds == nil {
		rec["fds"] = []int{}
	}
	msg := vh.Guard(func() {
		n := f.NumGlyphs()
		rec["ws"] = scaleAll(f.Widths(), 8)
		rec["wp"] = scaleAll(f.WidthsPDF(), 100000)
		var gw, gwp []float64
		bb := []funit.Rect16{}
		bp := [][]int{}
		for i := 0; i < n; i++ {
			gid := glyph.ID(i)
			gw = append(gw, f.GlyphWidth(gid))
			gwp = append(gwp, f.GlyphWidthPDF(gid))
			bb = append(bb, f.GlyphBBox(gid))
			bp = append(bp, pdfBox(f.Outlines.GlyphBBoxPDF(f.FontMatrix, gid)))
		}
		rec["gw"], rec["gwp"] = scaleAll(gw, 8), scaleAll(gwp, 100)
		rec["bb"], rec["bbs"] = boxesInts(bb), boxesInts(f.GlyphBBoxes())
		rec["bp"], rec["fbp"] = bp, pdfBox(f.FontBBoxPDF())
		rec["fb"] = boxInts(f.FontBBox())
		rec["fixed"] = f.IsFixedPitch()
		var w8 []float64
		switch o := f.Outlines.(type) {
		case *glyf.Outlines:
			rec["kind"] = "ttf"
			rec["raw"] = boxesInts(rawBoxes(f))
			for _, w := range o.Widths {
				w8 = append(w8, float64(w))
			}
		case *cff.Outlines:
			rec["kind"] = "cff"
			cc := [][][]int{}
			for _, g := range o.Glyphs {
				w8 = append(w8, g.Width)
				x, big := intCmds(g, float64(u))
				if big {
					x = [][]int{{9}}
				}
				if len(x) == 0 {
					x = [][]int{{0}}
				}
				cc = append(cc, x)
			}
			rec["cc"] = cc
			if wm := f.WidthsMapPDF(); wm != nil {
				rec["mok"] = true
				var ww []float64
				for _, g := range o.Glyphs {
					ww = append(ww, wm[g.Name])
				}
				rec["wm"] = scaleAll(ww, 100)
			}
			cf := f.AsCFF()
			rec["cw"] = scaleAll(cf.Widths(), 8)
			rec["cwp"] = scaleAll(cf.WidthsPDF(), 100)
			var gp []float64
			for i := range o.Glyphs {
				gp = append(gp, cf.GlyphWidthPDF(glyph.ID(i)))
			}
			rec["cgp"] = scaleAll(gp, 100)
			rec["cfb"] = boxInts(o.BBox())
			rec["cfp"] = pdfBox(cf.FontBBoxPDF())
		}
		rec["w8"] = scaleAll(w8, 8)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func queryFont(c *vh.Case) {
	rng := c.Rng
	if rng.IntN(3) == 0 {
		f := genFont(rng, fopt{kind: "ttf"})
		if rng.IntN(3) == 0 {
			fixWidths(rng, f)
		}
		emitQuery(c, f, 1, []int{}, nil, []int{}, false)
		return
	}
	// CFF
	n := 1 + rng.IntN(6)
	small := rng.IntN(3) > 0
	u := 1
	span := 300
	if !small {
		span = []int{500, 2000, 20000, 50000}[rng.IntN(4)]
		if span <= 2000 {
			u = []int{1, 16}[rng.IntN(2)]
		}
		span = min(span, 32000)
	}
	coord := func() float64 {
		if rng.IntN(12) == 0 {
			return 0
		}
		return float64(rng.IntN(2*span*u+1)-span*u) / float64(u)
	}
	o := &cff.Outlines{FDSelect: func(glyph.ID) int { return 0 }, Private: []*type1.PrivateDict{{}}}
	base := rng.IntN(8001)
	fixed := rng.IntN(3) == 0
	for i := 0; i < n; i++ {
		w := float64(rng.IntN(16001)) / 8
		if rng.IntN(2) == 0 {
			w = math.Floor(w)
		}
		if fixed {
			w = float64(base+rng.IntN(9)-4) / 8
			if rng.IntN(2) == 0 {
				w = float64(base) / 8
			}
			if rng.IntN(4) == 0 {
				w = 0
			}
		}
		g := &cff.Glyph{Name: fmt.Sprintf("n%d", i), Width: max(w, 0)}
		for k := rng.IntN(3); k > 0; k-- {
			g.MoveTo(coord(), coord())
			for j := 1 + rng.IntN(4); j > 0; j-- {
				if rng.IntN(2) == 0 {
					g.LineTo(coord(), coord())
				} else {
					g.CurveTo(coord(), coord(), coord(), coord(), coord(), coord())
				}
			}
		}
		o.Glyphs = append(o.Glyphs, g)
	}
	f := genFont(rng, fopt{kind: "ttf", n: 1})
	f.Outlines = o
	entry := func(lim int) int { return rng.IntN(2*lim+1) - lim }
	randM := func(lim, tr int) []int {
		for {
			m := []int{entry(lim), entry(lim), entry(lim), entry(lim), entry(tr), entry(tr)}
			switch rng.IntN(4) {
			case 0:
				m = []int{max(lim/2, 1), 0, 0, max(lim/2, 1), 0, 0}
			case 1:
				m[1] = 0
			case 2:
				m[2] = 0
			}
			if m[0]*m[3]-m[1]*m[2] != 0 {
				return m
			}
		}
	}
	var fds [][]int
	fd := []int{}
	var m []int
	if rng.IntN(2) == 0 {
		o.ROS = &cid.SystemInfo{Registry: "a", Ordering: "b"}
		m = randM(10, 200)
		for i := range m {
			m[i] *= 2
		}
		for k := 1 + rng.IntN(3); k > 0; k-- {
			d := randM(4, 100)
			if rng.IntN(3) == 0 {
				d = []int{2, 0, 0, 2, 0, 0}
			}
			fds = append(fds, d)
			var mm matrix.Matrix
			for i, x := range d {
				mm[i] = float64(x) / 2
			}
			o.FontMatrices = append(o.FontMatrices, mm)
		}
		for len(o.Private) < len(fds) {
			o.Private = append(o.Private, &type1.PrivateDict{})
		}
		for i := range o.Glyphs {
			fd = append(fd, rng.IntN(len(fds)))
			o.GIDToCID = append(o.GIDToCID, cid.CID(i))
		}
		o.FDSelect = func(gid glyph.ID) int { return fd[gid] }
	} else {
		m = randM(40, 2000)
		o.Encoding = make([]glyph.ID, 256)
	}
	for i, x := range m {
		f.FontMatrix[i] = float64(x) / 1e4
	}
	emitQuery(c, f, u, m, fds, fd, small)
}

// fixWidths makes all non-zero widths equal.
func fixWidths(rng *rand.Rand, f *sfnt.Font) {
	o := f.Outlines.(*glyf.Outlines)
	for i := range o.Widths {
		o.Widths[i] = []funit.Int16{600, 600, 0}[rng.IntN(3)]
	}
	if rng.IntN(4) == 0 {
		o.Widths[len(o.Widths)-1] = 601
	}
}

func c12Families(env *vh.Env) []vh.Family {
	lh := env.TLCCases("hmtx.ndjson")
	lf := env.TLCCases("flags.ndjson")
	perCase := 60
	return []vh.Family{
		{Name: "tlchmtx", Quick: (len(lh) + perCase - 1) / perCase, Thor: (len(lh) + perCase - 1) / perCase, Run: func(c *vh.Case) {
			for _, raw := range lh[c.Idx*perCase : min(len(lh), (c.Idx+1)*perCase)] {
				var s struct {
					W, Lsb []int
					Ext    [][4]int
					N      int
					D      []int
				}
				if err := json.Unmarshal(tlcUnquote(raw), &s); err != nil {
					panic(err)
				}
				emitHmtxDec(c, rawHhea(c.Rng, s.N), toBytes(s.D), len(s.W))
				info := &hmtx.Info{}
				for i, w := range s.W {
					info.Widths = append(info.Widths, funit.Int16(w))
					info.LSB = append(info.LSB, funit.Int16(s.Lsb[i]))
					e := s.Ext[i]
					info.GlyphExtents = append(info.GlyphExtents, funit.Rect16{LLx: funit.Int16(e[0]), LLy: funit.Int16(e[1]), URx: funit.Int16(e[2]), URy: funit.Int16(e[3])})
				}
				switch c.Rng.IntN(3) {
				case 0:
					info.LSB = nil
				case 1:
					info.GlyphExtents = nil
				}
				var dir []int
				var exact bool
				info.CaretAngle, dir, exact = caret(c.Rng)
				emitHmtx(c, info, dir, exact)
			}
		}},
		{Name: "tlcflags", Quick: (len(lf) + perCase - 1) / perCase, Thor: (len(lf) + perCase - 1) / perCase, Run: func(c *vh.Case) {
			for _, raw := range lf[c.Idx*perCase : min(len(lf), (c.Idx+1)*perCase)] {
				var s struct{ Bits int }
				if err := json.Unmarshal(tlcUnquote(raw), &s); err != nil {
					panic(err)
				}
				randHead(c, s.Bits)
				randOS2(c, s.Bits)
			}
		}},
		{Name: "hmtx", Quick: 900, Thor: 12000, Run: func(c *vh.Case) { randHmtx(c, c.Idx%100 == 0) }},
		{Name: "hmtxdec", Quick: 200, Thor: 2000, Run: func(c *vh.Case) {
			ng := 1 + c.Rng.IntN(20)
			n := 1 + c.Rng.IntN(ng)
			emitHmtxDec(c, rawHhea(c.Rng, n), randBytes(c.Rng, 4*n+2*(ng-n)), ng)
		}},
		{Name: "small", Quick: 500, Thor: 6000, Run: func(c *vh.Case) {
			randMaxp(c)
			randPost(c)
			randHead(c, c.Rng.IntN(512))
			randOS2(c, c.Rng.IntN(256))
		}},
		{Name: "tail", Quick: 6, Thor: 40, Run: func(c *vh.Case) {
			// every length of the constant tail
			n := []int{1, 2, 8, 17, 33, 40}[c.Idx%6]
			for k := 0; k <= n; k++ {
				info := &hmtx.Info{LSB: make([]funit.Int16, n), Widths: make([]funit.Int16, n)}
				for i := range info.Widths {
					info.Widths[i] = funit.Int16(100 + i*c.Rng.IntN(2)%3)
					info.LSB[i] = i16(c.Rng)
					if i >= k {
						info.Widths[i] = 77
					}
				}
				emitHmtx(c, info, []int{0, 1}, true)
			}
		}},
		{Name: "file", Quick: 400, Thor: 5000, Run: func(c *vh.Case) {
			f := genFont(c.Rng, fopt{})
			if f.IsGlyf() && c.Rng.IntN(4) == 0 {
				fixWidths(c.Rng, f)
			}
			emitMetricsFile(c, f)
		}},
		{Name: "query", Quick: 900, Thor: 12000, Run: queryFont},
	}
}
