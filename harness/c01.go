package main

// C01: whole-font write/read round trip.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/post"

	"vharness/vh"
)

var rtDebug = os.Getenv("RTDEBUG") != "" // show texts instead of digests

// rtDig returns a digest of a text.
func rtDig(s string) string {
	if rtDebug {
		return s
	}
	h := fnv.New128a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum(nil))
}

func rtTime(t time.Time) string {
	if t.IsZero() {
		return "zero"
	}
	return strconv.FormatInt(t.Unix(), 10)
}

func rtMat(m matrix.Matrix) string {
	var res []string
	for _, x := range m {
		res = append(res, strconv.FormatFloat(x, 'g', 9, 64))
	}
	return strings.Join(res, " ")
}

func rtGlyf(g *glyf.Glyph) string {
	if g == nil {
		return "blank"
	}
	s := fmt.Sprint(g.Rect16)
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		info, err := d.Decode()
		if err != nil {
			return s + fmt.Sprint("bad", d.NumContours, d.Encoded)
		}
		return s + fmt.Sprint("simple", info.Contours, len(info.Contours), info.Instructions)
	case glyf.CompositeGlyph:
		s += "comp"
		for _, c := range d.Components {
			s += fmt.Sprint(" ", uint16(c.Flags), c.GlyphIndex, c.Data)
		}
		return s + fmt.Sprint(d.Instructions)
	}
	return s + "?"
}

func rtCFF(g *cff.Glyph) string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "%q %v %v", g.Name, g.HStem, g.VStem)
	for _, c := range g.Cmds {
		fmt.Fprintf(b, " %d %v", c.Op, c.Args)
	}
	return b.String()
}

func rtInfo(info *gtab.Info) string {
	if info == nil {
		return ""
	}
	// missing value records are the same as zero ones
	return rtDig(strings.ReplaceAll(mustJSON(canInfo(info)), "[0,0,0,0,0,0,0,0]", "[]"))
}

// rtTrim removes rules for classes which do not exist.
func rtTrim(info *gtab.Info) {
	if info == nil {
		return
	}
	for _, l := range info.LookupList {
		for _, st := range l.Subtables {
			switch x := st.(type) {
			case *gtab.SeqContext2:
				x.Rules = x.Rules[:min(len(x.Rules), x.Input.NumClasses())]
			case *gtab.ChainedSeqContext2:
				x.Rules = x.Rules[:min(len(x.Rules), x.Input.NumClasses())]
			}
		}
	}
}

func rtGdef(t *gdef.Table) string {
	if t == nil {
		return ""
	}
	return rtDig(mustJSON([]any{canClass(t.GlyphClass), canClass(t.MarkAttachClass), canSets(t.MarkGlyphSets)}))
}

func rtCmap(t cmap.Table) string {
	if len(t) == 0 {
		return ""
	}
	var res []string
	for k, d := range t {
		res = append(res, fmt.Sprint(k, d))
	}
	sort.Strings(res)
	return rtDig(strings.Join(res, "\n"))
}

func rtHeight(f *sfnt.Font, r rune) int {
	if sub, _ := f.CMapTable.GetBest(); sub != nil {
		if gid := sub.Lookup(r); gid != 0 && int(gid) < f.NumGlyphs() {
			return int(f.GlyphBBox(gid).URy)
		}
	}
	return 0
}

// rtLigs tells whether the reader may add standard ligatures to the font.
func rtLigs(f *sfnt.Font) bool {
	sub, _ := f.CMapTable.GetBest()
	if sub == nil {
		return false
	}
	for r := rune(0xFB00); r <= 0xFB04; r++ {
		if sub.Lookup(r) != 0 {
			return true
		}
	}
	return false
}

// rtFont describes a font value for the specification (see RoundTrip.tla).
func rtFont(f *sfnt.Font) obj {
	q := strconv.QuoteToASCII
	r := obj{
		"family": q(f.FamilyName), "text": []string{q(f.Description), q(f.SampleText), q(f.Copyright), q(f.Trademark), q(f.License), q(f.LicenseURL)},
		"w": int(f.Weight), "width": int(f.Width), "reg": f.IsRegular, "b": f.IsBold, "i": f.IsItalic, "o": f.IsOblique,
		"serif": f.IsSerif, "script": f.IsScript, "cp": strconv.FormatUint(uint64(f.CodePageRange), 16),
		"ver": []int{int(f.Version >> 16), int(f.Version & 0xFFFF)}, "times": []string{rtTime(f.CreationTime), rtTime(f.ModificationTime)},
		"perm": int(f.PermUse), "upm": int(f.UnitsPerEm), "fm": rtMat(f.FontMatrix),
		"vert": []int{int(f.Ascent), int(f.Descent), int(f.LineGap)}, "cap": int(f.CapHeight), "xh": int(f.XHeight),
		"der":  []int{rtHeight(f, 'H'), rtHeight(f, 'x')},
		"angz": math.Round(f.ItalicAngle*65536) != 0, "ang": strconv.FormatFloat(math.Round(f.ItalicAngle*65536), 'f', 0, 64),
		"angx": strconv.FormatFloat(f.ItalicAngle, 'g', -1, 64),
		"ul":   []int{int(math.Floor(float64(f.UnderlinePosition) * 4)), int(math.Floor(float64(f.UnderlineThickness) * 4))},
		"n":    f.NumGlyphs(), "fixed": f.IsFixedPitch(), "ligs": rtLigs(f),
		"cmap": rtCmap(f.CMapTable), "gdef": rtGdef(f.Gdef), "gsub": rtInfo(f.Gsub), "gpos": rtInfo(f.Gpos),
	}
	// widths in units of 1/16, and exactly
	w16 := []int{}
	for _, w := range f.Widths() {
		if len(w16) >= 300 {
			break
		}
		w16 = append(w16, int(math.Round(w*16)))
	}
	r["w16"] = w16
	r["widths"] = rtDig(fmt.Sprint(f.Widths()))
	var gg []string
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		r["kind"] = "ttf"
		for _, g := range o.Glyphs {
			gg = append(gg, rtGlyf(g))
		}
		r["names"] = rtDig(fmt.Sprintf("%q", o.Names))
		var tt []string
		for k, d := range o.Tables {
			tt = append(tt, fmt.Sprint(k, len(d), d))
		}
		sort.Strings(tt)
		mx := "none"
		if o.Maxp != nil {
			mx = fmt.Sprint(*o.Maxp)
		}
		r["extra"] = rtDig(strings.Join(tt, "\n") + mx)
	case *cff.Outlines:
		r["kind"] = "cff"
		for _, g := range o.Glyphs {
			gg = append(gg, rtCFF(g))
		}
		x := recCFF(&cff.Font{FontInfo: f.GetFontInfo(), Outlines: o})
		delete(x, "info") // derived from the other fields
		delete(x, "name")
		r["names"] = rtDig(mustJSON(x["names"]))
		delete(x, "names")
		r["extra"] = rtDig(mustJSON(x))
	}
	r["outlines"] = rtDig(strings.Join(gg, "\n"))
	return r
}

func rtWrite(f *sfnt.Font) ([]byte, string) {
	var b []byte
	es := ""
	if msg := vh.Guard(func() {
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			es = "error: " + err.Error()
		}
		b = buf.Bytes()
	}); msg != "" {
		es = "panic: " + msg
	}
	return b, es
}

func rtRead(b []byte) (*sfnt.Font, string) {
	var f *sfnt.Font
	es := ""
	if msg := vh.Guard(func() {
		var err error
		if f, err = sfnt.Read(bytes.NewReader(b)); err != nil {
			es = "error: " + err.Error()
		}
	}); msg != "" {
		es = "panic: " + msg
	}
	return f, es
}

func bdig(b []byte) string { return rtDig(string(b)) }

// rtCycle reads a file and follows it through one more cycle.
func rtCycle(rec vh.Rec, b []byte) {
	f1, es := rtRead(b)
	rec["err"] = es
	rec["stage"] = 0
	if es != "" {
		return
	}
	msg := vh.Guard(func() {
		rec["f1"] = rtFont(f1)
		w1, es := rtWrite(f1)
		rec["err"], rec["stage"] = es, 1
		if es != "" {
			return
		}
		w1b, _ := rtWrite(f1)
		rec["w1"] = []string{bdig(w1), bdig(w1b)}
		f2, es := rtRead(w1)
		rec["err"], rec["stage"] = es, 2
		if es != "" {
			return
		}
		rec["f1b"] = rtFont(f1)
		rec["f2"] = rtFont(f2)
		w2, es := rtWrite(f2)
		rec["err"], rec["stage"] = es, 3
		if es != "" {
			return
		}
		rec["w2"] = bdig(w2)
		rec["stage"] = 4
		if !bytes.Equal(w1, w2) {
			rec["diff"] = rtDiff(w1, w2)
		}
	})
	if msg != "" {
		rec["err"] = "panic: " + msg
	}
}

// rtDiff names the tables in which two files differ.
func rtDiff(a, b []byte) string {
	var res []string
	h, err := header.Read(bytes.NewReader(a))
	if err != nil {
		return "?"
	}
	for k := range h.Toc {
		if !bytes.Equal(sfntTable(a, k), sfntTable(b, k)) {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return strings.Join(res, " ")
}

func rtFile(c *vh.Case, b []byte) {
	rec := vh.Rec{"t": "file"}
	rtCycle(rec, b)
	c.Emit(rec)
	c.Alive()
}

func rtValue(c *vh.Case, f *sfnt.Font) {
	rec := vh.Rec{"t": "font", "stage": -1}
	rec["f0"] = rtFont(f)
	w0, es := rtWrite(f)
	if es != "" {
		rec["err"] = es
		c.Emit(rec)
		return
	}
	w0b, _ := rtWrite(f)
	rec["w0"] = []string{bdig(w0), bdig(w0b)}
	rec["f0b"] = rtFont(f)
	rtCycle(rec, w0)
	c.Emit(rec)
	c.Alive()
}

// rtLayout adds layout tables of all kinds.
func rtLayout(rng *rand.Rand, f *sfnt.Font) {
	if rng.IntN(2) == 0 {
		addLayout(rng, f)
		rtTrim(f.Gsub)
		rtTrim(f.Gpos)
		return
	}
	g := &otlGen{rng: rng, tags: c02tags()}
	info := func(gpos bool) *gtab.Info {
		nf := rng.IntN(4)
		return &gtab.Info{ScriptList: g.scripts(rng.IntN(4), nf), FeatureList: g.features(nf, 3), LookupList: g.lookups(gpos, 1+rng.IntN(4))}
	}
	if rng.IntN(3) > 0 {
		f.Gsub = info(false)
	}
	if rng.IntN(3) > 0 {
		f.Gpos = info(true)
	}
	for _, x := range []*gtab.Info{f.Gsub, f.Gpos} {
		if x != nil && vh.Guard(func() { x.Encode() }) != "" {
			f.Gsub, f.Gpos = nil, nil // too large
		}
	}
	if rng.IntN(2) == 0 {
		t := &gdef.Table{}
		t.GlyphClass = g.class(10, 4)
		if rng.IntN(2) == 0 {
			t.MarkAttachClass = g.class(10, 4)
		}
		if rng.IntN(2) == 0 {
			t.MarkGlyphSets = g.sets(1+rng.IntN(3), 5)
		}
		f.Gdef = t
	}
}

func rtRand(c *vh.Case) {
	rng := c.Rng
	for k := 0; k < 6; k++ {
		f := genFont(rng, fopt{})
		if rng.IntN(3) == 0 {
			moreCMaps(rng, f)
		}
		if rng.IntN(2) == 0 {
			rtLayout(rng, f)
		}
		if rng.IntN(4) == 0 {
			f.UnderlinePosition += funit.Float64(rng.IntN(4)) / 4
			if f.UnderlinePosition > 32767 {
				f.UnderlinePosition = 0
			}
		}
		if rng.IntN(4) == 0 {
			f.ItalicAngle = float64(rng.IntN(3000)-1500) / 100
		}
		if rng.IntN(4) == 0 {
			f.CapHeight, f.XHeight = funit.Int16(rng.IntN(3)-1), funit.Int16(rng.IntN(3)-1)
		}
		if rng.IntN(4) == 0 {
			f.Weight = pick(rng, []os2.Weight{649, 650, 700, 749, 750, 350, 449, 400, 1, 1000, 600, 800})
		}
		if rng.IntN(5) == 0 {
			f.FamilyName = pick(rng, []string{"Bold", "A Bold B", "Semi Bold", "Black", "Italic", "X Extra Light", "Condensed", "Regular", ""})
		}
		if o, ok := f.Outlines.(*cff.Outlines); ok && rng.IntN(6) == 0 {
			for _, g := range o.Glyphs {
				g.Width += float64(rng.IntN(16)) / 16
				if g.Width > 32767 {
					g.Width = 32767
				}
			}
		}
		rtValue(c, f)
	}
}

// rtBig checks fonts with many glyphs.
func rtBig(c *vh.Case) {
	rng := c.Rng
	n := []int{65535, 257, 1000, 256, 65534, 1241, 255, 5000, 33000}[c.Idx%9]
	kind := []string{"ttf", "cff", "cid"}[(c.Idx/9+c.Idx)%3]
	if kind == "cff" && n > 60000 {
		n = 60000 - rng.IntN(3) // the names need string IDs
	}
	f := genFont(rng, fopt{kind: kind, n: n})
	if o, ok := f.Outlines.(*glyf.Outlines); ok && n > 60000 {
		o.Names = nil // too many strings for the "post" table
	}
	if rng.IntN(2) == 0 {
		rtLayout(rng, f)
	}
	rtValue(c, f)
}

// rtStyles replays the font values of the model.
type rtModelFont struct {
	W, Ang, Der, Cap  int
	Fam, I, O, B, Reg bool
}

func rtBase(kind string) *sfnt.Font {
	rng := rand.New(rand.NewPCG(7, 7))
	f := genFont(rng, fopt{kind: kind, n: 3, cmap: "none"})
	f.FamilyName = "Model"
	f.Width = os2.WidthNormal
	f.IsBold, f.IsItalic, f.IsOblique, f.IsRegular, f.IsSerif, f.IsScript = false, false, false, false, false, false
	f.ItalicAngle = 0
	f.Gsub, f.Gpos, f.Gdef = nil, nil, nil
	return f
}

// rtSetHeight maps the letter H to a glyph of the given height.
func rtSetHeight(f *sfnt.Font, der int) {
	f.CMapTable = nil
	if der == 0 {
		return
	}
	f.InstallCMap(cmap.Format4{'H': 1})
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		g := randSimple(rand.New(rand.NewPCG(1, 2)), 1, 3, 100, 0)
		g.Rect16.LLy, g.Rect16.URy = funit.Int16(min(der, 0)-10), funit.Int16(der)
		gg := append(glyf.Glyphs{}, o.Glyphs...)
		gg[1] = g
		o2 := *o
		o2.Glyphs = gg
		f.Outlines = &o2
	case *cff.Outlines:
		g := &cff.Glyph{Name: o.Glyphs[1].Name, Width: o.Glyphs[1].Width}
		g.MoveTo(10, float64(der))
		g.LineTo(20, float64(der-30))
		g.LineTo(0, float64(der-20))
		gg := append([]*cff.Glyph{}, o.Glyphs...)
		gg[1] = g
		o2 := *o
		o2.Glyphs = gg
		f.Outlines = &o2
	}
}

func rtTLCFont(c *vh.Case) {
	cc := c.Env.TLCCases("fonts.ndjson")
	for i := 16 * c.Idx; i < min(16*c.Idx+16, len(cc)); i++ {
		var x rtModelFont
		if err := json.Unmarshal(tlcUnquote(cc[i]), &x); err != nil {
			panic(err)
		}
		f := rtBase([]string{"ttf", "cff"}[i%2])
		f.Weight = os2.Weight(x.W)
		f.ItalicAngle = float64(x.Ang)
		f.IsItalic, f.IsOblique, f.IsBold, f.IsRegular = x.I, x.O, x.B, x.Reg
		f.CapHeight = funit.Int16(x.Cap)
		if x.Fam {
			f.FamilyName = "Model Bold"
		}
		f.Version = 0x10000 + 111
		rtSetHeight(f, x.Der)
		rtValue(c, f)
	}
}

type rtModelFile struct {
	Fam  bool
	Der  int
	Head []struct {
		B, I bool
		Rev  int
	}
	Os2 []struct {
		W, Cap       int
		Reg, B, I, O bool
	}
	Name []struct {
		B, I bool
		Ver  int
	}
	Post []struct{ Ang, Up int }
	Cff  []struct{ Ver, Up, Ang int }
}

func rtTables(f *sfnt.Font) (uint32, map[string][]byte) {
	b := fontBytes(f)
	h, err := header.Read(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	tt := map[string][]byte{}
	for k := range h.Toc {
		tt[k] = sfntTable(b, k)
	}
	return h.ScalerType, tt
}

func rtTLCFile(c *vh.Case) {
	cc := c.Env.TLCCases("files.ndjson")
	for i := 32 * c.Idx; i < min(32*c.Idx+32, len(cc)); i++ {
		var x rtModelFile
		if err := json.Unmarshal(tlcUnquote(cc[i]), &x); err != nil {
			panic(err)
		}
		for k, kind := range []string{"ttf", "cff"} {
			if kind == "ttf" && len(x.Head) == 0 || (i+k)%2 == 0 && c.Env.Tier != "thorough" && len(x.Head) > 0 {
				continue // TrueType fonts need a head table
			}
			f := rtBase(kind)
			rtSetHeight(f, x.Der)
			if len(x.Cff) > 0 { // the values in the CFF table
				f.UnderlinePosition = funit.Float64(x.Cff[0].Up) / 2
				f.Version = head.Version(x.Cff[0].Ver) * 7
			}
			f.FamilyName = "Model"
			if x.Fam {
				f.FamilyName = "Model Bold"
			}
			scaler, tt := rtTables(f)
			if len(x.Head) == 0 {
				delete(tt, "head")
			} else {
				hd := bytes.Clone(tt["head"])
				byteBuf(hd).set(44, b2i(x.Head[0].B)+2*b2i(x.Head[0].I))
				v := 65536 + x.Head[0].Rev*7 // about a tenth of a thousandth is 6.5
				byteBuf(hd).set(4, v>>16)
				byteBuf(hd).set(6, v&0xFFFF)
				tt["head"] = hd
			}
			if len(x.Os2) == 0 {
				delete(tt, "OS/2")
			} else {
				o := bytes.Clone(tt["OS/2"])
				y := x.Os2[0]
				byteBuf(o).set(4, y.W)
				byteBuf(o).set(62, b2i(y.I)+32*b2i(y.B)+64*b2i(y.Reg)+512*b2i(y.O))
				byteBuf(o).set(88, y.Cap&0xFFFF)
				tt["OS/2"] = o
			}
			if len(x.Name) == 0 {
				delete(tt, "name")
			} else {
				y := x.Name[0]
				s := []string{}
				if y.B {
					s = append(s, "Bold")
				}
				if y.I {
					s = append(s, "Italic")
				}
				t := &name.Table{Family: f.FamilyName, Subfamily: strings.Join(s, " ")}
				if y.Ver >= 0 {
					t.Version = fmt.Sprintf("Version 1.%04d", y.Ver)
				}
				tt["name"] = (&name.Info{Windows: name.Tables{"en-US": t}}).Encode(1)
			}
			if len(x.Post) == 0 {
				delete(tt, "post")
			} else {
				tt["post"] = (&post.Info{ItalicAngle: float64(x.Post[0].Ang), UnderlinePosition: funit.Int16(x.Post[0].Up / 2)}).Encode()
			}
			rtFile(c, mkSfnt(scaler, tt))
		}
	}
}

// rtFiles changes the tables of a file in ways the reader accepts.
func rtFiles(c *vh.Case) {
	rng := c.Rng
	for k := 0; k < 12; k++ {
		f := genFont(rng, fopt{cmap: pick(rng, []string{"", "4"})})
		if rng.IntN(3) == 0 {
			rtLayout(rng, f)
		}
		scaler, tt := rtTables(f)
		var tags []string
		for _, t := range []string{"head", "hhea", "OS/2", "name", "post", "maxp", "cmap", "hmtx", "GDEF"} {
			if tt[t] != nil {
				tags = append(tags, t)
			}
		}
		for m := 1 + rng.IntN(3); m > 0; m-- {
			t := pick(rng, tags)
			d := bytes.Clone(tt[t])
			if len(d) == 0 {
				continue
			}
			switch rng.IntN(6) {
			case 0:
				if t == "hmtx" {
					continue
				}
				delete(tt, t)
				continue
			case 1:
				switch t {
				case "OS/2":
					d = rtOS2(rng)
				case "name":
					d = rawName(rng)
				case "post":
					d = rawPost(rng)
				case "maxp":
					d = d[:6]
					byteBuf(d).set(2, 0x5000)
					byteBuf(d).set(0, 0)
				case "hhea":
					tt["hhea"] = d
					tt["kern"] = kernBytes(randKern(rng, 5))
				}
			case 2, 3:
				p := rng.IntN(len(d)-1) &^ 1
				byteBuf(d).set(p, pick(rng, []int{0, 1, 0x7FFF, 0x8000, 0xFFFF, rng.IntN(65536), rng.IntN(256), rng.IntN(256) << 8}))
			default:
				d[rng.IntN(len(d))] ^= 1 << rng.IntN(8)
			}
			tt[t] = d
		}
		if rng.IntN(4) == 0 {
			tt["xtra"] = randBytes(rng, 10)
		}
		rtFile(c, mkSfnt(scaler, tt))
	}
}

// rtOS2 generates OS/2 tables of all versions.
func rtOS2(rng *rand.Rand) []byte {
	v := rng.IntN(6)
	n := 78
	switch {
	case v == 0 && rng.IntN(2) == 0:
		n = 68
	case v == 1:
		n = 86
	case v >= 2 && v < 5:
		n = 96
	case v == 5:
		n = 100
	}
	d := byteBuf(randBytes(rng, n))
	d.set(0, v)
	d.set(4, pick(rng, []int{100, 400, 700, 650, 749, 900, 0, rng.IntN(1001)}))
	d.set(6, 1+rng.IntN(9))
	return d
}

// rtForeign reads files with foreign table encodings.
func rtForeign(c *vh.Case) {
	rng := c.Rng
	switch c.Idx % 4 {
	case 0: // layout tables with an unusual arrangement
		f := genFont(rng, fopt{})
		scaler, tt := rtTables(f)
		g := &otlGen{rng: rng, tags: c02tags()}
		for _, gpos := range []bool{false, true} {
			nf := rng.IntN(4)
			info := &gtab.Info{ScriptList: g.scripts(rng.IntN(4), nf), FeatureList: g.features(nf, 3), LookupList: g.lookups(gpos, 1+rng.IntN(4))}
			var b []byte
			if vh.Guard(func() { b = g.relayout(info, gpos) }) == "" {
				tt[map[bool]string{false: "GSUB", true: "GPOS"}[gpos]] = b
			}
		}
		rtFile(c, mkSfnt(scaler, tt))
	case 1: // CFF data from other programs
		g := &cff13{rng: rng}
		for k := 0; k < 4; k++ {
			data := g.foreign()
			x, err := cff.Read(bytes.NewReader(data))
			if err != nil {
				continue
			}
			f := rtBase("cff")
			f.Outlines = x.Outlines
			ww := make([]funit.Int16, len(x.Glyphs))
			for i := range ww {
				ww[i] = funit.Int16(rng.IntN(2000))
			}
			tt := map[string][]byte{"CFF ": data}
			tt["hhea"], tt["hmtx"] = (&hmtx.Info{Widths: ww, GlyphExtents: make([]funit.Rect16, len(ww)), CaretAngle: float64(rng.IntN(3)) / 10}).Encode()
			rtFile(c, mkSfnt(header.ScalerTypeCFF, tt))
		}
	case 2: // glyph data from other programs
		var ee [][]byte
		for i, n := 0, 1+rng.IntN(8); i < n; i++ {
			if rng.IntN(4) == 0 {
				ee = append(ee, nil)
				continue
			}
			gg := glyf.Glyphs{randSimple(rng, 3, 8, 2000, 3)}
			if i > 0 && rng.IntN(3) == 0 {
				gg[0] = randComposite(rng, []int{0, i - 1}, 3, rng.IntN(2) == 0)
			}
			d := gg.Encode().GlyfData
			ee = append(ee, append(d, randBytes(rng, rng.IntN(4))...))
		}
		enc := foreignSet(rng, ee)
		if enc == nil {
			return
		}
		rtFile(c, minimalTTF(enc.GlyfData, enc.LocaData, int(enc.LocaFormat), len(ee), 1000))
	default: // kern tables, reordered tables
		f := genFont(rng, fopt{kind: "ttf", cmap: "4"})
		f.Gpos = nil
		d := addTable(fontBytes(f), "kern", kernBytes(randKern(rng, 20)))
		rtFile(c, reorder(rng, d))
	}
}

// rtCorpus follows existing fonts through the cycle.
func rtCorpus(c *vh.Case) {
	cc := corpus()
	if len(cc) == 0 {
		return
	}
	x := cc[c.Idx%len(cc)]
	rtFile(c, x.data)
	if f, es := rtRead(x.data); es == "" && c.Env.Tier == "thorough" {
		rtValue(c, f)
	}
}

// rtOrder writes one font after the maps in it have been filled in different orders.
func rtOrder(c *vh.Case) {
	rng := c.Rng
	f := genFont(rng, fopt{n: 20})
	rtLayout(rng, f)
	if f.Gsub != nil { // the same entries, inserted in another order
		f.Gsub = rtReinsert(rng, f.Gsub)
	}
	var dd []string
	w0, es := rtWrite(f)
	for k := 0; k < 12 && es == ""; k++ {
		g := *f
		if g.Gsub != nil {
			g.Gsub = rtReinsert(rng, g.Gsub)
		}
		t := cmap.Table{}
		keys := make([]cmap.Key, 0, len(f.CMapTable))
		for k := range f.CMapTable {
			keys = append(keys, k)
		}
		rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			t[k] = f.CMapTable[k]
		}
		if f.CMapTable != nil {
			g.CMapTable = t
		}
		var w []byte
		w, es = rtWrite(&g)
		dd = append(dd, bdig(w))
	}
	c.Emit(vh.Rec{"t": "order", "w0": bdig(w0), "w": dd, "err": es})
}

func rtReinsert(rng *rand.Rand, info *gtab.Info) *gtab.Info {
	res := *info
	res.ScriptList = gtab.ScriptListInfo{}
	var tags []language.Tag
	for t := range info.ScriptList {
		tags = append(tags, t)
	}
	rng.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	for _, t := range tags {
		res.ScriptList[t] = info.ScriptList[t]
	}
	return &res
}

func c01Families(env *vh.Env) []vh.Family {
	nf := (len(env.TLCCases("files.ndjson")) + 31) / 32
	nv := (len(env.TLCCases("fonts.ndjson")) + 15) / 16
	nc := len(corpusFiles())
	qc := min(nc, 12)
	return []vh.Family{
		{Name: "tlcfile", Quick: nf, Thor: nf, Run: rtTLCFile},
		{Name: "tlcfont", Quick: nv, Thor: nv, Run: rtTLCFont},
		{Name: "rand", Quick: 500, Thor: 20000, Run: rtRand, MaxSec: 60},
		{Name: "files", Quick: 300, Thor: 10000, Run: rtFiles, MaxSec: 60},
		{Name: "foreign", Quick: 240, Thor: 6000, Run: rtForeign, MaxSec: 60},
		{Name: "order", Quick: 60, Thor: 1500, Run: rtOrder, MaxSec: 60},
		{Name: "big", Quick: 9, Thor: 54, Run: rtBig, MaxSec: 120},
		{Name: "corpus", Quick: qc, Thor: nc, Run: rtCorpus, MaxSec: 120},
	}
}

var _ = glyph.ID(0)
