package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"golang.org/x/text/language"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/post"

	"vharness/vh"
)

// Decode sessions: a decoder is called with some bytes, and the value it
// returns is handed to the library's accessors, one after another.

type c02step func() error

// c02dec is a decoder, together with the accessors of the decoded values.
type c02dec struct {
	name   string
	decode func(b []byte) (any, error)
	steps  func(v any) []c02step
}

func ok1(f func()) c02step { return func() error { f(); return nil } }

type countWriter int

func (w *countWriter) Write(p []byte) (int, error) { *w += countWriter(len(p)); return len(p), nil }

// someGIDs are valid glyph IDs for a font with n glyphs.
func someGIDs(n int) []glyph.ID {
	var res []glyph.ID
	for i := 0; i < n && i < 40; i++ {
		res = append(res, glyph.ID(i))
	}
	for i := max(40, n-20); i < n; i++ {
		res = append(res, glyph.ID(i))
	}
	return res
}

var someRunes = []rune{0, 1, 32, 'A', 'f', 0x7f, 0x80, 0xff, 0x100, 0x3b1, 0xd7ff, 0xd800, 0xe000, 0xf041, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0x7fffffff, -1}

func cmapSteps(t cmap.Table) []c02step {
	var res []c02step
	use := func(s cmap.Subtable) {
		for _, r := range someRunes {
			s.Lookup(r)
		}
		lo, hi := s.CodeRange()
		n := 0
		for r := lo; r <= hi && n < 3000; r++ {
			s.Lookup(r)
			n++
		}
	}
	enc := func(s cmap.Subtable) { s.Encode(0); s.Encode(1) }
	var keys []cmap.Key
	for k := range t {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		return a.PlatformID < b.PlatformID || a.PlatformID == b.PlatformID && (a.EncodingID < b.EncodingID ||
			a.EncodingID == b.EncodingID && a.Language < b.Language)
	})
	if len(keys) > 40 {
		keys = keys[:40]
	}
	for _, k := range append(keys, cmap.Key{PlatformID: 7, EncodingID: 7}) {
		res = append(res, func() error {
			s, err := t.Get(k)
			if err == nil {
				use(s)
			}
			return err
		}, func() error {
			s, err := t.Get(k)
			if err == nil {
				enc(s)
			}
			return err
		}, func() error {
			s, err := t.GetNoLang(k.PlatformID, k.EncodingID)
			if err == nil {
				use(s)
			}
			return err
		})
	}
	return append(res,
		func() error {
			s, err := t.GetBest()
			if err == nil {
				use(s)
				enc(s)
			}
			return err
		},
		ok1(func() { t.Encode() }))
}

func glyphsSteps(gg glyf.Glyphs) []c02step {
	var res []c02step
	var gids []int
	for i := range gg {
		if len(gg) < 300 || i%(len(gg)/200) == 0 {
			gids = append(gids, i)
		}
	}
	res = append(res, func() error {
		var last error
		for _, i := range gids {
			if gg[i] == nil {
				continue
			}
			if s, ok := gg[i].Data.(glyf.SimpleGlyph); ok {
				if _, err := s.Decode(); err != nil {
					last = err
				}
			}
		}
		return last
	}, ok1(func() {
		for _, i := range gids {
			gg[i].Components()
			if gg[i] == nil {
				continue
			}
			if d, ok := gg[i].Data.(glyf.CompositeGlyph); ok {
				for _, c := range d.Components[:min(len(d.Components), 50)] {
					_ = c.Flags.String()
				}
			}
		}
	}), ok1(func() {
		o := &glyf.Outlines{Glyphs: gg}
		o.NumGlyphs()
		for _, i := range gids {
			o.GlyphBBoxPDF(matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}, glyph.ID(i))
		}
	}), ok1(func() { gg.Encode() }))
	return res
}

func cffSteps(f *cff.Font) []c02step {
	gids := someGIDs(f.NumGlyphs())
	return []c02step{
		ok1(func() { f.FontBBoxPDF() }),
		ok1(func() { f.Widths() }),
		ok1(func() { f.WidthsPDF() }),
		ok1(func() { f.WidthsMapPDF() }),
		ok1(func() { f.BBox() }),
		ok1(func() { f.BuiltinEncoding() }),
		ok1(func() {
			for _, g := range gids {
				f.GlyphWidthPDF(g)
				f.GlyphBBoxPDF(f.FontMatrix, g)
				f.Glyphs[g].Extent()
				_ = f.Glyphs[g].String()
			}
		}),
		ok1(func() { f.Clone() }),
		func() error { var w countWriter; return f.Write(&w) },
	}
}

func fontSteps(f *sfnt.Font) []c02step {
	gids := someGIDs(f.NumGlyphs())
	res := []c02step{
		ok1(func() { f.NumGlyphs(); f.IsGlyf(); f.IsCFF(); f.IsFixedPitch() }),
		ok1(func() { f.Widths() }),
		ok1(func() { f.WidthsPDF() }),
		ok1(func() { f.WidthsMapPDF() }),
		ok1(func() { f.FontBBox() }),
		ok1(func() { f.FontBBoxPDF() }),
		ok1(func() { f.GlyphBBoxes() }),
		ok1(func() {
			for _, g := range gids {
				f.GlyphWidth(g)
				f.GlyphWidthPDF(g)
				f.GlyphBBox(g)
			}
		}),
		ok1(func() {
			for _, g := range gids {
				f.GlyphName(g)
			}
		}),
		ok1(func() { f.BuiltinEncoding() }),
		ok1(func() { f.MakeGlyphNames() }),
		ok1(func() { f.GetFontInfo(); f.FullName(); f.PostScriptName(); f.Subfamily() }),
		ok1(func() { f.Clone() }),
		func() error { var w countWriter; _, err := f.Write(&w); return err },
	}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		res = append(res, glyphsSteps(o.Glyphs)...)
		res = append(res, func() error { var w countWriter; _, err := f.WriteTrueTypePDF(&w); return err })
	case *cff.Outlines:
		res = append(res, func() error { var w countWriter; return f.WriteOpenTypeCFFPDF(&w) })
		res = append(res, func() error { return f.AsCFF().Write(&countWriterZ{}) })
		res = append(res, ok1(func() { f.AsCFF().WidthsPDF(); f.AsCFF().FontBBoxPDF() }))
	}
	if f.CMapTable != nil {
		res = append(res, cmapSteps(f.CMapTable)...)
	}
	if f.Gsub != nil {
		res = append(res, ok1(func() { f.Gsub.Encode() }))
	}
	if f.Gpos != nil {
		res = append(res, ok1(func() { f.Gpos.Encode() }))
	}
	if f.Gdef != nil {
		res = append(res, ok1(func() { f.Gdef.Encode() }))
	}
	return res
}

type countWriterZ struct{}

func (countWriterZ) Write(p []byte) (int, error) { return len(p), nil }

// packGlyf combines the inputs of glyf.Decode into one byte string.
func packGlyf(e *glyf.Encoded) []byte {
	var b byteBuf
	b.u16(int(e.LocaFormat), len(e.LocaData)>>16, len(e.LocaData))
	b = append(b, e.LocaData...)
	return append(b, e.GlyfData...)
}

func unpackGlyf(b []byte) *glyf.Encoded {
	e := &glyf.Encoded{}
	if len(b) < 6 {
		e.GlyfData = b
		return e
	}
	e.LocaFormat = int16(b[0])<<8 | int16(b[1])
	n := int(b[2])<<24 | int(b[3])<<16 | int(b[4])<<8 | int(b[5])
	b = b[6:]
	n = min(n, len(b))
	e.LocaData, e.GlyfData = b[:n:n], b[n:]
	return e
}

var c02decs = []*c02dec{
	{"sfnt", func(b []byte) (any, error) { return sfnt.Read(bytes.NewReader(b)) },
		func(v any) []c02step { return fontSteps(v.(*sfnt.Font)) }},
	{"header", func(b []byte) (any, error) {
		h, err := header.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return []any{h, b}, nil
	}, func(v any) []c02step {
		h, b := v.([]any)[0].(*header.Info), v.([]any)[1].([]byte)
		res := []c02step{ok1(func() { h.Has("glyf", "head") })}
		res = append(res, func() error {
			tt := map[string][]byte{}
			for k := range h.Toc {
				d, err := h.ReadTableBytes(bytes.NewReader(b), k)
				if err != nil {
					return err
				}
				if k != "head" || len(d) >= 12 {
					tt[k] = d
				}
			}
			var w countWriter
			_, err := header.Write(&w, h.ScalerType, tt)
			return err
		}, func() error {
			_, err := h.TableReader(bytes.NewReader(b), "none")
			return err
		})
		return res
	}},
	{"cff", func(b []byte) (any, error) { return cff.Read(bytes.NewReader(b)) },
		func(v any) []c02step { return cffSteps(v.(*cff.Font)) }},
	{"cmap", func(b []byte) (any, error) {
		t, err := cmap.Decode(b)
		if err == nil { // subtables are decoded on demand
			t.GetBest()
			n := 0
			for k := range t {
				if n++; n > 3 || len(t) > 3 {
					break
				}
				t.Get(k)
			}
		}
		return t, err
	},
		func(v any) []c02step { return cmapSteps(v.(cmap.Table)) }},
	{"glyf", func(b []byte) (any, error) {
		gg, err := glyf.Decode(unpackGlyf(b))
		for _, g := range gg { // outlines are decoded on demand
			if g != nil {
				if s, ok := g.Data.(glyf.SimpleGlyph); ok {
					s.Decode()
				}
			}
		}
		return gg, err
	},
		func(v any) []c02step { return glyphsSteps(v.(glyf.Glyphs)) }},
	{"gsub", func(b []byte) (any, error) { return gtab.Read(bytes.NewReader(b), gtab.TypeGsub) },
		func(v any) []c02step { return []c02step{ok1(func() { v.(*gtab.Info).Encode() })} }},
	{"gpos", func(b []byte) (any, error) { return gtab.Read(bytes.NewReader(b), gtab.TypeGpos) },
		func(v any) []c02step { return []c02step{ok1(func() { v.(*gtab.Info).Encode() })} }},
	{"gdef", func(b []byte) (any, error) { return gdef.Read(bytes.NewReader(b)) },
		func(v any) []c02step {
			t := v.(*gdef.Table)
			return []c02step{ok1(func() { t.IsMark(0); t.IsMark(65535) }), ok1(func() { t.Encode() })}
		}},
	{"coverage", func(b []byte) (any, error) {
		return coverage.Read(parser.New(bytes.NewReader(b)), 0)
	}, func(v any) []c02step {
		t := v.(coverage.Table)
		return []c02step{ok1(func() { t.Glyphs(); t.Contains(3); t.ToSet() }), ok1(func() { t.EncodeLen(); t.Encode() })}
	}},
	{"covset", func(b []byte) (any, error) {
		return coverage.ReadSet(parser.New(bytes.NewReader(b)), 0)
	}, func(v any) []c02step {
		t := v.(coverage.Set)
		return []c02step{ok1(func() { t.Glyphs() }), ok1(func() { c := t.ToTable(); c.EncodeLen(); c.Encode() })}
	}},
	{"classdef", func(b []byte) (any, error) {
		return classdef.Read(parser.New(bytes.NewReader(b)), 0)
	}, func(v any) []c02step {
		t := v.(classdef.Table)
		return []c02step{ok1(func() { t.NumClasses(); t.Glyphs() }), ok1(func() { t.AppendLen(); t.Append(nil) })}
	}},
	{"name", func(b []byte) (any, error) { return name.Decode(b) },
		func(v any) []c02step {
			t := v.(*name.Info)
			return []c02step{ok1(func() { t.Encode(1) }), ok1(func() { t.Encode(10) }), ok1(func() {
				for _, x := range []name.Tables{t.Mac, t.Windows} {
					for k := range x {
						_ = x[k].String()
					}
				}
			})}
		}},
	{"head", func(b []byte) (any, error) { return head.Read(bytes.NewReader(b)) },
		func(v any) []c02step {
			t := v.(*head.Info)
			return []c02step{ok1(func() { t.Encode() }), ok1(func() { _ = t.FontRevision.String(); t.FontRevision.Round() })}
		}},
	{"hmtx", func(b []byte) (any, error) {
		n := min(36, len(b))
		return hmtx.Decode(b[:n:n], b[n:])
	}, func(v any) []c02step {
		return []c02step{ok1(func() { v.(*hmtx.Info).Encode() })}
	}},
	{"maxp", func(b []byte) (any, error) { return maxp.Read(bytes.NewReader(b)) },
		func(v any) []c02step { return []c02step{ok1(func() { v.(*maxp.Info).Encode() })} }},
	{"os2", func(b []byte) (any, error) { return os2.Read(bytes.NewReader(b)) },
		func(v any) []c02step {
			t := v.(*os2.Info)
			return []c02step{ok1(func() { t.Encode() }), ok1(func() {
				_ = t.WeightClass.String() + t.WidthClass.String() + t.PermUse.String()
				t.WeightClass.Rounded()
			})}
		}},
	{"post", func(b []byte) (any, error) { return post.Read(bytes.NewReader(b)) },
		func(v any) []c02step { return []c02step{ok1(func() { v.(*post.Info).Encode() })} }},
	{"kern", func(b []byte) (any, error) { return kern.Read(bytes.NewReader(b)) },
		func(v any) []c02step { return []c02step{ok1(func() { v.(kern.Info).Encode() })} }},
}

func c02dec1(name string) *c02dec {
	for _, d := range c02decs {
		if d.name == name {
			return d
		}
	}
	panic(name)
}

// Measurements.  Sessions run in parallel; one which may have allocated
// too much is repeated while no other session is running.

var c02mu sync.RWMutex

func c02allocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func c02cpu() int64 { // milliseconds used by this thread
	var ru syscall.Rusage
	if syscall.Getrusage(1, &ru) != nil {
		return 0
	}
	return (ru.Utime.Nano() + ru.Stime.Nano()) / 1e6
}

type c02sess struct {
	kind string
	n    int
	kb   int
	ms   int
	ev   string
	why  string
}

func c02run(d *c02dec, data []byte) (any, c02sess) {
	s := c02sess{kind: d.name, n: len(data)}
	in := bytes.Clone(data)
	var v any
	var err error
	runtime.LockOSThread()
	a0, t0 := c02allocs(), c02cpu()
	msg := vh.Guard(func() { v, err = d.decode(in) })
	a1, t1 := c02allocs(), c02cpu()
	runtime.UnlockOSThread()
	s.kb, s.ms = int(min((a1-a0)>>10, 2000000000)), int(t1-t0)
	switch {
	case msg != "":
		s.ev, s.why = "P", msg
	case err != nil:
		s.ev = "E"
	default:
		s.ev = "V"
	}
	return v, s
}

// c02session runs one session.
func c02session(d *c02dec, data []byte) c02sess { return c02sessionDeep(d, data, true) }

func c02sessionDeep(d *c02dec, data []byte, deep bool) c02sess {
	c02mu.RLock()
	v, s := c02run(d, data)
	c02mu.RUnlock()
	lim := 12000 + len(data)/1024
	switch d.name {
	case "sfnt", "gsub", "gpos", "gdef", "cff":
		lim = 750000
	case "coverage", "covset", "classdef", "cmap":
		lim = 40000
	}
	if s.kb > lim {
		v = nil
		c02mu.Lock()
		v, s = c02run(d, data)
		c02mu.Unlock()
	}
	if s.ev != "V" {
		return s
	}
	if s.kb > 60000 && !deep {
		return s // the accessors would take too long
	}
	var ev []byte
	var steps []c02step
	msg := vh.Guard(func() { steps = d.steps(v) })
	if msg != "" {
		s.ev, s.why = "Vp", msg
		return s
	}
	for i, f := range steps {
		var err error
		msg := vh.Guard(func() { err = f() })
		switch {
		case msg != "":
			ev = append(ev, 'p')
			if s.why == "" {
				s.why = fmt.Sprintf("step %d: %s", i, msg)
			}
		case err != nil:
			ev = append(ev, 'e')
		default:
			ev = append(ev, 'v')
		}
	}
	s.ev += string(ev)
	return s
}

func c02emit(c *vh.Case, ss []c02sess) {
	by := map[string][]c02sess{}
	for _, s := range ss {
		by[s.kind] = append(by[s.kind], s)
	}
	var kinds []string
	for k := range by {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		n, kb, ms, ev := []int{}, []int{}, []int{}, []string{}
		why := ""
		for _, s := range by[k] {
			n, kb, ms, ev = append(n, s.n), append(kb, s.kb), append(ms, s.ms), append(ev, s.ev)
			if why == "" {
				why = s.why
			}
		}
		c.Emit(vh.Rec{"t": "decode", "kind": k, "n": n, "kb": kb, "ms": ms, "ev": ev, "why": why})
	}
}

var c02tags = sync.OnceValue(func() []language.Tag {
	return []language.Tag{language.MustParse("und-Latn-x-latn"), language.MustParse("und-Grek-x-grek"),
		language.MustParse("und-Cyrl-x-cyrl"), language.MustParse("und-Zzzz-x-dflt"), language.MustParse("und-Arab-x-arab")}
})

// Seeds.

func fuzzCorpus(dir string) [][]byte {
	var res [][]byte
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	filepath.WalkDir(filepath.Join(root, dir), func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		for _, l := range strings.Split(string(data), "\n") {
			l = strings.TrimSpace(l)
			if s, ok := strings.CutPrefix(l, "[]byte("); ok {
				if q, err := strconv.Unquote(strings.TrimSuffix(s, ")")); err == nil {
					res = append(res, []byte(q))
				}
			}
		}
		return nil
	})
	return res
}

var c02corpus = sync.OnceValue(func() map[string][][]byte {
	res := map[string][][]byte{}
	for k, dd := range map[string][]string{
		"sfnt": {"testdata/fuzz/FuzzFont"}, "cff": {"cff/testdata/fuzz/FuzzFont"},
		"cmap": {"cmap/testdata/fuzz/FuzzCmapHeader"}, "head": {"head/testdata/fuzz/FuzzHead"},
		"name": {"name/testdata/fuzz/FuzzNames"}, "classdef": {"opentype/classdef/testdata/fuzz"},
		"coverage": {"opentype/coverage/testdata/fuzz"}, "covset": {"opentype/coverage/testdata/fuzz"},
		"gdef": {"opentype/gdef/testdata/fuzz"}, "gsub": {"opentype/gtab/testdata/fuzz/FuzzGsub"},
		"os2": {"os2/testdata/fuzz"}, "post": {"post/testdata/fuzz"}, "glyf": {"glyf/testdata/fuzz"},
	} {
		for _, d := range dd {
			res[k] = append(res[k], fuzzCorpus(d)...)
		}
	}
	return res
})

func fontBytes(f *sfnt.Font) []byte {
	var b bytes.Buffer
	if _, err := f.Write(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func sfntTable(data []byte, tag string) []byte {
	r := bytes.NewReader(data)
	h, err := header.Read(r)
	if err != nil {
		return nil
	}
	d, err := h.ReadTableBytes(r, tag)
	if err != nil {
		return nil
	}
	return d
}

// c02seed returns a valid input for a decoder.
func c02seed(kind string, rng *rand.Rand) []byte {
	if cc := c02corpus()[kind]; len(cc) > 0 && rng.IntN(5) == 0 {
		return pick(rng, cc)
	}
	font := func(kind string) []byte {
		ff := smallFonts()
		if kind == "" && len(ff) > 0 && rng.IntN(3) == 0 {
			d := pick(rng, ff)
			if len(d) < 40000 {
				return d
			}
		}
		f := genFont(rng, fopt{kind: kind, n: pick(rng, []int{0, 0, 1, 3, 12})})
		if rng.IntN(2) == 0 {
			addLayout(rng, f)
		}
		return fontBytes(f)
	}
	tab := func(tag string) []byte { return sfntTable(font(""), tag) }
	switch kind {
	case "sfnt", "header":
		return font("")
	case "cff":
		return sfntTable(font(pick(rng, []string{"cff", "cid"})), "CFF ")
	case "cmap":
		if d := tab("cmap"); d != nil {
			return d
		}
		return cmap4(map[rune]int{65: 1, 66: 2, 67: 5}).Encode()
	case "glyf":
		var gg glyf.Glyphs
		for i, n := 0, 1+rng.IntN(5); i < n; i++ {
			switch rng.IntN(5) {
			case 0:
				gg = append(gg, nil)
			case 1:
				gg = append(gg, randComposite(rng, []int{0, 1, 2}, 3, rng.IntN(2) == 0))
			default:
				gg = append(gg, randSimple(rng, 3, 6, 3000, 3))
			}
		}
		return packGlyf(gg.Encode())
	case "gsub", "gpos":
		g := &otlGen{rng: rng, tags: c02tags()}
		info := &gtab.Info{ScriptList: g.scripts(rng.IntN(4), 3), FeatureList: g.features(rng.IntN(4), 3),
			LookupList: g.lookups(kind == "gpos", 1+rng.IntN(4))}
		var d []byte
		if vh.Guard(func() { d = info.Encode() }) == "" && len(d) < 40000 {
			return d
		}
		return rawGtab(rawScriptList([]rawSys{{Script: "DFLT", Required: 0xFFFF, Optional: []int{0}}}),
			rawFeatures([]string{"test"}, [][]int{{0}}), []byte{0, 0})
	case "gdef":
		g := &otlGen{rng: rng}
		t := &gdef.Table{}
		if rng.IntN(3) > 0 {
			t.GlyphClass = g.class(10, 4)
		}
		if rng.IntN(3) > 0 {
			t.MarkAttachClass = g.class(10, 4)
		}
		if rng.IntN(2) > 0 {
			t.MarkGlyphSets = g.sets(1+rng.IntN(3), 5)
		}
		return t.Encode()
	case "coverage", "covset":
		return covTable((&otlGen{rng: rng}).glyphs(1 + rng.IntN(20))).Encode()
	case "classdef":
		return (&otlGen{rng: rng}).class(1+rng.IntN(20), 4).Append(nil)
	case "name", "head", "maxp", "post", "OS/2":
		return tab(kind)
	case "os2":
		return tab("OS/2")
	case "hmtx":
		d := font("")
		return append(sfntTable(d, "hhea"), sfntTable(d, "hmtx")...)
	case "kern":
		k := kern.Info{}
		for i := 0; i < 1+rng.IntN(10); i++ {
			k[glyph.Pair{Left: glyph.ID(rng.IntN(20)), Right: glyph.ID(rng.IntN(20))}] = 7
		}
		return k.Encode()
	}
	panic(kind)
}

func c02mutate(rng *rand.Rand, d []byte) []byte {
	d = bytes.Clone(d)
	for k := 1 + rng.IntN(3); k > 0 && len(d) > 0; k-- {
		p := rng.IntN(len(d))
		if rng.IntN(2) == 0 { // table headers are more interesting
			p = rng.IntN(min(len(d), 64))
		}
		switch rng.IntN(9) {
		case 0:
			d[p] = pick(rng, []byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff})
		case 1:
			d[p] += byte(rng.IntN(5) - 2)
		case 2:
			d[p] ^= 1 << rng.IntN(8)
		case 3:
			if p+1 < len(d) {
				x := pick(rng, []int{0, 1, 2, len(d) - 1, len(d), len(d) + 1, 0x7fff, 0x8000, 0xfffe, 0xffff, rng.IntN(65536), p})
				d[p], d[p+1] = byte(x>>8), byte(x)
			}
		case 4:
			if p+3 < len(d) {
				x := pick(rng, []int{0, 1, len(d) - 1, len(d), 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xffff, 0x10000, p})
				d[p], d[p+1], d[p+2], d[p+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
			}
		case 5: // copy a block elsewhere
			n := min(1+rng.IntN(16), len(d)-p)
			q := rng.IntN(len(d) - n + 1)
			copy(d[q:q+n], bytes.Clone(d[p:p+n]))
		case 6: // delete
			n := min(1+rng.IntN(8), len(d)-p)
			d = append(d[:p], d[p+n:]...)
		case 7: // insert
			d = append(d[:p], append(randBytes(rng, 1+rng.IntN(8)), d[p:]...)...)
		case 8:
			if rng.IntN(3) == 0 {
				d = d[:p]
			} else {
				n := min(1+rng.IntN(8), len(d)-p)
				copy(d[p:p+n], randBytes(rng, n))
			}
		}
	}
	return d
}

// c02inTable applies a change to one table of a font file, keeping the
// directory consistent.
func c02inTable(rng *rand.Rand, d []byte) []byte {
	r := bytes.NewReader(d)
	h, err := header.Read(r)
	if err != nil {
		return c02mutate(rng, d)
	}
	tt := map[string][]byte{}
	var tags []string
	for k := range h.Toc {
		tt[k], err = h.ReadTableBytes(r, k)
		if err != nil {
			return c02mutate(rng, d)
		}
		tags = append(tags, k)
	}
	if len(tags) == 0 {
		return c02mutate(rng, d)
	}
	sort.Strings(tags)
	for n := 1 + rng.IntN(2); n > 0; n-- {
		t := pick(rng, tags)
		if rng.IntN(12) == 0 {
			delete(tt, t)
			continue
		}
		if rng.IntN(8) == 0 { // a table of another font
			var o []byte
			switch t {
			case "hhea":
				o = []byte{}
			case "CFF ":
				o = c02seed("cff", rng)
			case "GSUB", "GPOS", "GDEF":
				o = c02seed(strings.ToLower(t), rng)
			case "OS/2", "name", "head", "maxp", "post", "cmap":
				o = c02seed(t, rng)
			default:
				o = tt[t]
			}
			tt[t] = o
			continue
		}
		tt[t] = c02mutate(rng, tt[t])
	}
	return mkSfnt(h.ScalerType, tt)
}

// c02fuzz: random changes of valid inputs.
func c02fuzz(kind string, count int) func(c *vh.Case) {
	return func(c *vh.Case) {
		rng := c.Rng
		d := c02dec1(kind)
		var ss []c02sess
		seed := c02seed(kind, rng)
		ss = append(ss, c02session(d, seed))
		for i := 0; i < count; i++ {
			if i%40 == 39 {
				seed = c02seed(kind, rng)
			}
			var in []byte
			switch {
			case kind == "sfnt" && rng.IntN(4) > 0:
				in = c02inTable(rng, seed)
			case rng.IntN(60) == 0:
				in = randBytes(rng, rng.IntN(100))
			default:
				in = c02mutate(rng, seed)
			}
			ss = append(ss, c02session(d, in))
			c.Alive()
		}
		c02emit(c, ss)
	}
}

// c02sweep: all truncations of one input, and all changes of single fields
// to extreme values.
func c02sweep(kind string, limit int) func(c *vh.Case) {
	return func(c *vh.Case) {
		rng := c.Rng
		d := c02dec1(kind)
		var ss []c02sess
		seed := c02seed(kind, rng)
		for k := 0; k < 12 && len(seed) > 2500; k++ {
			seed = c02seed(kind, rng)
		}
		var ins []func() []byte
		for i := 0; i <= len(seed); i++ {
			ins = append(ins, func() []byte { return seed[:i] })
		}
		for i := range seed {
			for _, x := range []byte{0, 1, 0x7f, 0x80, 0xff, seed[i] + 1, seed[i] - 1} {
				ins = append(ins, func() []byte { t := bytes.Clone(seed); t[i] = x; return t })
			}
		}
		for i := 0; i+1 < len(seed); i += 2 {
			for _, x := range []int{0, 1, len(seed) - 1, len(seed), 0x7fff, 0x8000, 0xffff} {
				ins = append(ins, func() []byte {
					t := bytes.Clone(seed)
					t[i], t[i+1] = byte(x>>8), byte(x)
					return t
				})
			}
		}
		for i := 0; i+3 < len(seed); i += 2 {
			for _, x := range []int{0, 0x7fffffff, 0x80000000, 0xffffffff, len(seed)} {
				ins = append(ins, func() []byte {
					t := bytes.Clone(seed)
					t[i], t[i+1], t[i+2], t[i+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
					return t
				})
			}
		}
		if len(ins) > limit {
			rng.Shuffle(len(ins), func(i, j int) { ins[i], ins[j] = ins[j], ins[i] })
			ins = ins[:limit]
		}
		for _, in := range ins {
			ss = append(ss, c02session(d, in()))
			c.Alive()
		}
		c02emit(c, ss)
	}
}

func c02tlc(c *vh.Case) {
	cc := c.Env.TLCCases("sessions.ndjson")
	if c.Idx >= len(cc) {
		return
	}
	var x struct {
		Kind string `json:"kind"`
		Mult []int  `json:"mult"`
		Leaf int    `json:"leaf"`
	}
	if err := json.Unmarshal(tlcUnquote(cc[c.Idx]), &x); err != nil {
		panic(err)
	}
	var ss []c02sess
	for _, b := range c02bomb(x.Kind, x.Mult, x.Leaf > 1, c.Env.Tier == "thorough") {
		ss = append(ss, c02sessionDeep(c02dec1(b.kind), b.data, c.Env.Tier == "thorough"))
		c.Alive()
	}
	if len(ss) > 0 {
		c02emit(c, ss)
	}
}

func c02Families(env *vh.Env) []vh.Family {
	res := []vh.Family{
		{Name: "tlc", Quick: len(env.TLCCases("sessions.ndjson")), Thor: len(env.TLCCases("sessions.ndjson")), Run: c02tlc, MaxSec: 60},
		{Name: "soup", Quick: 250, Thor: 6000, Run: c02soups, MaxSec: 60},
	}
	for _, d := range c02decs {
		q, s := 30, 4
		lim := 1500
		switch d.name {
		case "sfnt":
			q, s = 120, 12
		case "cff", "gsub", "gpos":
			q, s = 80, 12
			lim = 2500
		}
		cnt := 200
		if env.Tier == "thorough" {
			lim, cnt = 20000, 400
		}
		res = append(res,
			vh.Family{Name: "fuzz-" + d.name, Quick: q, Thor: 20 * q, Run: c02fuzz(d.name, cnt), MaxSec: 40},
			vh.Family{Name: "sweep-" + d.name, Quick: s, Thor: 10 * s, Run: c02sweep(d.name, lim), MaxSec: 60})
	}
	return res
}
