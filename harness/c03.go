package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math/rand/v2"
	"sort"

	ximg "golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"

	"vharness/vh"
)

func strInts(s string) []int { return bytesInts([]byte(s)) }

func recTables(tt map[string][]byte) []map[string]any {
	keys := []string{}
	for k := range tt {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	res := []map[string]any{}
	for _, k := range keys {
		if tt[k] == nil {
			continue
		}
		res = append(res, map[string]any{"tag": strInts(k), "d": bytesInts(tt[k])})
	}
	return res
}

// emitCont writes a container and reads it back.
func emitCont(c *vh.Case, scaler uint32, tt map[string][]byte) {
	rec := vh.Rec{"t": "cont", "ok": false, "out": []int{}, "n": 0, "rok": false, "toc": []int{}}
	rec["scaler"] = []int{int(scaler >> 24), int(scaler >> 16 & 255), int(scaler >> 8 & 255), int(scaler & 255)}
	valid := map[string][]byte{}
	for k, d := range tt {
		if len(k) == 4 && d != nil {
			valid[k] = bytes.Clone(d)
		}
		if d != nil && len(d) == 0 && len(k) == 4 {
			valid[k] = []byte{}
		}
	}
	rec["in"] = recTables(valid)
	msg := vh.Guard(func() {
		buf := &bytes.Buffer{}
		n, err := header.Write(buf, scaler, tt)
		rec["n"] = int(n)
		if err != nil {
			return
		}
		rec["ok"] = true
		rec["out"] = bytesInts(buf.Bytes())
		r := bytes.NewReader(buf.Bytes())
		h, err := header.Read(r)
		if err != nil {
			return
		}
		got := map[string][]byte{}
		for tag, t := range h.Toc {
			d, err := h.ReadTableBytes(r, tag)
			if err != nil {
				return
			}
			if len(d) != int(t.Length) {
				return
			}
			if d == nil {
				d = []byte{}
			}
			got[tag] = d
		}
		rec["rok"] = true
		rec["toc"] = recTables(got)
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
	c.Mark("tables=%d", min(len(valid), 40))
}

func randTag(rng *rand.Rand) string {
	known := []string{"head", "hhea", "maxp", "OS/2", "name", "cmap", "post", "cvt ", "fpgm", "prep", "loca", "glyf", "CFF ", "VORG", "EBDT", "GDEF", "GSUB", "GPOS", "DSIG", "gasp", "kern", "hmtx", "PCLT", "vhea", "vmtx"}
	if rng.IntN(3) > 0 {
		return known[rng.IntN(len(known))]
	}
	b := make([]byte, 4)
	for i := range b {
		b[i] = byte(32 + rng.IntN(95))
	}
	return string(b)
}

func randContainer(rng *rand.Rand) (uint32, map[string][]byte) {
	scaler := []uint32{header.ScalerTypeTrueType, header.ScalerTypeCFF, header.ScalerTypeApple}[rng.IntN(3)]
	if rng.IntN(20) == 0 {
		scaler = rng.Uint32()
	}
	tt := map[string][]byte{}
	n := rng.IntN(20)
	switch rng.IntN(20) {
	case 0:
		n = []int{15, 16, 17, 31, 32, 33, 63, 64, 65}[rng.IntN(9)]
	case 1:
		n = rng.IntN(3)
	}
	for len(tt) < n {
		tag := randTag(rng)
		l := rng.IntN(40)
		if rng.IntN(20) == 0 {
			l = rng.IntN(3000)
		}
		d := randBytes(rng, l)
		switch rng.IntN(6) {
		case 0: // checksum carries
			for i := range d {
				d[i] = 255
			}
		case 1:
			for i := range d {
				d[i] = 0
			}
		}
		if tag == "head" && rng.IntN(4) > 0 {
			d = randBytes(rng, []int{54, 54, 12, 13, 56, 8, 100}[rng.IntN(7)])
		}
		tt[tag] = d
	}
	if rng.IntN(6) == 0 {
		for k := 1 + rng.IntN(3); k > 0; k-- {
			tt[randTag(rng)] = nil
		}
	}
	if rng.IntN(10) == 0 {
		tt[[]string{"", "abc", "abcde", "x"}[rng.IntN(4)]] = randBytes(rng, rng.IntN(10))
	}
	return scaler, tt
}

// cffCmds describes the path of a CFF glyph with integer coordinates.
func cffCmds(g *cff.Glyph) [][]int {
	res := [][]int{}
	for _, cmd := range g.Cmds {
		a := []int{}
		for _, x := range cmd.Args {
			a = append(a, int(x))
		}
		switch cmd.Op {
		case cff.OpMoveTo:
			res = append(res, append([]int{0}, a...))
		case cff.OpLineTo:
			res = append(res, append([]int{1}, a...))
		case cff.OpCurveTo:
			res = append(res, append([]int{3}, a...))
		}
	}
	return res
}

type writeForm int

const (
	formFull writeForm = iota
	formTrueTypePDF
	formCFFPDF
)

// emitFontFile writes a font and records the file and what x/image finds in it.
func emitFontFile(c *vh.Case, f *sfnt.Font, form writeForm, extra []any, look bool) {
	rng := c.Rng
	rec := vh.Rec{"t": "font", "ok": false, "out": []int{}, "n": 0, "want": []int{}, "x": false, "xerr": false,
		"num": 0, "xn": 0, "upem": 0, "xupem": 0, "map": []int{}, "xmap": []int{}, "adv": []int{}, "xadv": []int{},
		"names": []string{}, "xnames": []string{}, "gg": []int{}, "cmds": []int{}, "segs": []int{}}
	gl, isTTF := f.Outlines.(*glyf.Outlines)
	rec["kind"] = "cff"
	if isTTF {
		rec["kind"] = "ttf"
	}
	var data []byte
	msg := vh.Guard(func() {
		want := map[string]bool{}
		add := func(tags ...string) {
			for _, t := range tags {
				want[t] = true
			}
		}
		buf := &bytes.Buffer{}
		var n int64
		var err error
		switch form {
		case formFull:
			n, err = f.Write(buf)
			add("hhea", "hmtx", "OS/2", "name", "post", "maxp", "head")
			if f.Gdef != nil {
				add("GDEF")
			}
			if f.Gsub != nil {
				add("GSUB")
			}
			if f.Gpos != nil {
				add("GPOS")
			}
		case formTrueTypePDF:
			n, err = f.WriteTrueTypePDF(buf, extra...)
			add("hhea", "hmtx", "maxp", "head")
			for i := 0; i+1 < len(extra); i += 2 {
				add(extra[i].(string))
			}
		case formCFFPDF:
			err = f.WriteOpenTypeCFFPDF(buf)
			n = int64(buf.Len())
		}
		if isTTF {
			add("glyf", "loca")
			for t := range gl.Tables {
				add(t)
			}
		} else {
			add("CFF ")
		}
		if f.CMapTable != nil {
			add("cmap")
		}
		rec["n"] = int(n)
		if err != nil {
			rec["err"] = err.Error()
			return
		}
		rec["ok"] = true
		data = buf.Bytes()
		rec["out"] = bytesInts(data)
		ww := [][]int{}
		for t := range want {
			ww = append(ww, strInts(t))
		}
		rec["want"] = ww
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	c.Mark("%v form=%d", rec["kind"], form)
	if !look || data == nil || f.CMapTable == nil {
		c.Emit(rec)
		return
	}

	n := f.NumGlyphs()
	rec["x"] = true
	msg = vh.Guard(func() {
		xf, err := xsfnt.Parse(data)
		if err != nil {
			rec["xerr"] = true
			rec["err"] = err.Error()
			return
		}
		rec["num"], rec["xn"] = n, xf.NumGlyphs()
		rec["upem"], rec["xupem"] = int(f.UnitsPerEm), int(xf.UnitsPerEm())

		best, err := f.CMapTable.GetBest()
		var b xsfnt.Buffer
		runes := map[rune]bool{0: true, 0xFFFD: true, 0xFFFE: true, 0x10FFFF: true, 0x10000: true}
		if best != nil {
			lo, hi := best.CodeRange()
			for k := 0; k < 400 && lo+rune(k) <= hi; k++ {
				if best.Lookup(lo+rune(k)) != 0 || k < 20 {
					runes[lo+rune(k)] = true
				}
				if best.Lookup(hi-rune(k)) != 0 {
					runes[hi-rune(k)] = true
				}
			}
		}
		for _, r := range goodRunes {
			runes[r] = true
		}
		for k := 0; k < 20; k++ {
			runes[rune(rng.IntN(0x110000))] = true
		}
		rr := []rune{}
		for r := range runes {
			if r >= 0 && r <= 0x10FFFF && r != 0xFFFF {
				rr = append(rr, r)
			}
		}
		sort.Slice(rr, func(i, j int) bool { return rr[i] < rr[j] })
		m, xm := [][]int{}, [][]int{}
		for _, r := range rr {
			g := 0
			if best != nil {
				g = int(best.Lookup(r))
			}
			m = append(m, []int{int(r), g})
			xg, err := xf.GlyphIndex(&b, r)
			if err != nil {
				xg = 0xFFFF
			}
			xm = append(xm, []int{int(r), int(xg)})
		}
		rec["map"], rec["xmap"] = m, xm

		adv, xadv := []int{}, []int{}
		names, xnames := []string{}, []string{}
		for gid := 0; gid < n; gid++ {
			adv = append(adv, int(f.GlyphWidth(glyph.ID(gid))))
			a, err := xf.GlyphAdvance(&b, xsfnt.GlyphIndex(gid), fixed.Int26_6(f.UnitsPerEm), ximg.HintingNone)
			if err != nil {
				a = -99999
			}
			xadv = append(xadv, int(a))
			if isTTF && gl.Names != nil && form == formFull {
				names = append(names, gl.Names[gid])
				s, err := xf.GlyphName(&b, xsfnt.GlyphIndex(gid))
				if err != nil {
					s = "error: " + err.Error()
				}
				xnames = append(xnames, s)
			}
		}
		rec["adv"], rec["xadv"], rec["names"], rec["xnames"] = adv, xadv, names, xnames

		segs := []map[string]any{}
		cmds := [][][]int{}
		if isTTF {
			gg := []map[string]any{}
			for _, g := range gl.Glyphs {
				gg = append(gg, recGlyf(g))
			}
			rec["gg"] = gg
		}
		for k := 0; k < min(n, 12); k++ {
			gid := k
			if n > 12 {
				gid = rng.IntN(n)
			}
			s, err := ximgSegs(xf, gid)
			if len(s) > 1500 {
				continue
			}
			segs = append(segs, map[string]any{"gid": gid, "ok": err == nil, "s": s})
			if !isTTF {
				cmds = append(cmds, cffCmds(f.Outlines.(*cff.Outlines).Glyphs[gid]))
			}
			c.Mark("outline %v ok=%v", rec["kind"], err == nil)
		}
		rec["segs"], rec["cmds"] = segs, cmds
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": "x/image: " + msg})
		return
	}
	c.Emit(rec)
}

var goodRunes = []rune("AaZz09 éßΑЖ漢ﬁ\uE000\U0001F600")

func randExtra(rng *rand.Rand) []any {
	var res []any
	for k := rng.IntN(4); k > 0; k-- {
		t := []string{"cmap", "name", "post", "xyzw", "OS/2", "    "}[rng.IntN(6)]
		res = append(res, t, randBytes(rng, rng.IntN(30)))
	}
	return res
}

func c03Families(env *vh.Env) []vh.Family {
	tlc := env.TLCCases("tables.ndjson")
	per := 40
	nt := (len(tlc) + per - 1) / per
	ntq := min(nt, 60)
	return []vh.Family{
		{Name: "tlc", Quick: ntq, Thor: nt, Run: func(c *vh.Case) {
			for i := c.Idx * per; i < (c.Idx+1)*per && i < len(tlc); i++ {
				k := i
				if c.Env.Tier != "thorough" && nt > ntq {
					k = c.Rng.IntN(len(tlc))
				}
				var tt []struct {
					Tag []int
					D   []int
				}
				if json.Unmarshal([]byte(tlcUnquote(tlc[k])), &tt) != nil {
					panic("bad case")
				}
				m := map[string][]byte{}
				for _, t := range tt {
					m[string(toBytes(t.Tag))] = append([]byte{}, toBytes(t.D)...)
				}
				emitCont(c, header.ScalerTypeTrueType, m)
			}
		}},
		{Name: "cont", Quick: 1500, Thor: 30000, Run: func(c *vh.Case) {
			s, tt := randContainer(c.Rng)
			emitCont(c, s, tt)
		}},
		{Name: "many", Quick: 6, Thor: 40, Run: func(c *vh.Case) {
			n := []int{255, 256, 257, 300, 1000, 4095, 127, 128, 129, 511, 512, 2047, 2048}[c.Idx%13]
			tt := map[string][]byte{}
			for i := 0; len(tt) < n; i++ {
				tt[string([]byte{byte(32 + c.Rng.IntN(95)), byte(32 + c.Rng.IntN(95)), byte(32 + i%95), byte(32 + i/95)})] = randBytes(c.Rng, c.Rng.IntN(6))
			}
			emitCont(c, header.ScalerTypeTrueType, tt)
		}},
		{Name: "font", Quick: 1200, Thor: 20000, Run: func(c *vh.Case) {
			o := fopt{kind: []string{"ttf", "ttf", "cff", "cid"}[c.Rng.IntN(4)], draw: true, integer: true}
			f := genFont(c.Rng, o)
			emitFontFile(c, f, formFull, nil, true)
		}},
		{Name: "any", Quick: 300, Thor: 6000, Run: func(c *vh.Case) {
			f := genFont(c.Rng, fopt{})
			emitFontFile(c, f, formFull, nil, false)
		}},
		{Name: "pdf", Quick: 400, Thor: 6000, Run: func(c *vh.Case) {
			f := genFont(c.Rng, fopt{draw: true, integer: true})
			if _, ok := f.Outlines.(*glyf.Outlines); ok {
				emitFontFile(c, f, formTrueTypePDF, randExtra(c.Rng), false)
			} else {
				emitFontFile(c, f, formCFFPDF, nil, false)
			}
		}},
		{Name: "corpus", Quick: 12, Thor: 60, Run: func(c *vh.Case) {
			cc := corpus()
			if len(cc) == 0 {
				return
			}
			cf := cc[c.Rng.IntN(len(cc))]
			if len(cf.data) > 90000 {
				// a part of the font only: the models are evaluated on every byte
				var gids []glyph.ID
				gids = append(gids, 0)
				for k := 0; k < 60; k++ {
					gids = append(gids, glyph.ID(1+c.Rng.IntN(cf.font.NumGlyphs()-1)))
				}
				var sub *sfnt.Font
				msg := vh.Guard(func() {
					f := cf.font.Clone()
					f.Gsub, f.Gpos, f.Gdef = nil, nil, nil
					sub = f.Subset(uniqGids(gids))
				})
				if msg != "" || sub == nil {
					c.Emit(vh.Rec{"t": "panic", "msg": msg})
					return
				}
				emitFontFile(c, sub, formFull, nil, false)
				return
			}
			f, err := sfnt.Read(bytes.NewReader(cf.data))
			if err != nil {
				return
			}
			emitFontFile(c, f, formFull, nil, false)
		}},
	}
}

func uniqGids(gg []glyph.ID) []glyph.ID {
	seen := map[glyph.ID]bool{}
	var res []glyph.ID
	for _, g := range gg {
		if !seen[g] {
			seen[g] = true
			res = append(res, g)
		}
	}
	return res
}

var _ = io.Discard
