package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/post"

	"vharness/vh"
)

// baseTables returns the tables of a TrueType font with n blank glyphs.
func baseTables(n int) map[string][]byte {
	rng := rand.New(rand.NewPCG(1, 1))
	f := genFont(rng, fopt{kind: "ttf", n: 1, cmap: "4"})
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		panic(err)
	}
	r := bytes.NewReader(buf.Bytes())
	h, err := header.Read(r)
	if err != nil {
		panic(err)
	}
	tt := map[string][]byte{}
	for k := range h.Toc {
		d, err := h.ReadTableBytes(r, k)
		if err != nil {
			panic(err)
		}
		tt[k] = d
	}
	delete(tt, "kern")
	byteBuf(tt["maxp"]).set(4, n)
	byteBuf(tt["hhea"]).set(34, 1)
	byteBuf(tt["head"]).set(50, 1)
	tt["hmtx"] = make([]byte, 4+2*(n-1))
	tt["glyf"] = make([]byte, 4)
	tt["loca"] = make([]byte, 4*(n+1))
	return tt
}

func (b byteBuf) set(p, v int) {
	b[p] = byte(v >> 8)
	b[p+1] = byte(v)
}

func xFont(n int, tables map[string][]byte) (*xsfnt.Font, error) {
	tt := baseTables(n)
	for k, v := range tables {
		tt[k] = v
	}
	buf := &bytes.Buffer{}
	if _, err := header.Write(buf, header.ScalerTypeTrueType, tt); err != nil {
		panic(err)
	}
	return xsfnt.Parse(buf.Bytes())
}

type nmEntry struct {
	P  int    `json:"p"`
	T  string `json:"t"`
	ID int    `json:"id"`
	S  []int  `json:"s"`
}

type nmBig struct {
	P  int    `json:"p"`
	T  string `json:"t"`
	ID int    `json:"id"`
	N  int    `json:"n"`
	H  int    `json:"h"`
}

func setName(t *name.Table, id int, s string) {
	switch id {
	case 0:
		t.Copyright = s
	case 1:
		t.Family = s
	case 2:
		t.Subfamily = s
	case 3:
		t.Identifier = s
	case 4:
		t.FullName = s
	case 5:
		t.Version = s
	case 6:
		t.PostScriptName = s
	case 7:
		t.Trademark = s
	case 8:
		t.Manufacturer = s
	case 9:
		t.Designer = s
	case 10:
		t.Description = s
	case 11:
		t.VendorURL = s
	case 12:
		t.DesignerURL = s
	case 13:
		t.License = s
	case 14:
		t.LicenseURL = s
	case 16:
		t.TypographicFamily = s
	case 17:
		t.TypographicSubfamily = s
	case 18:
		t.MacFullName = s
	case 19:
		t.SampleText = s
	case 20:
		t.CIDFontName = s
	case 21:
		t.WWSFamily = s
	case 22:
		t.WWSSubfamily = s
	case 23:
		t.LightBackgroundPalette = s
	case 24:
		t.DarkBackgroundPalette = s
	case 25:
		t.VariationsPostScriptName = s
	default:
		if t.Extra == nil {
			t.Extra = map[name.ID]string{}
		}
		t.Extra[name.ID(id)] = s
	}
}

func nameFields(t *name.Table) map[int]string {
	res := map[int]string{
		0: t.Copyright, 1: t.Family, 2: t.Subfamily, 3: t.Identifier, 4: t.FullName, 5: t.Version, 6: t.PostScriptName,
		7: t.Trademark, 8: t.Manufacturer, 9: t.Designer, 10: t.Description, 11: t.VendorURL, 12: t.DesignerURL,
		13: t.License, 14: t.LicenseURL, 16: t.TypographicFamily, 17: t.TypographicSubfamily, 18: t.MacFullName,
		19: t.SampleText, 20: t.CIDFontName, 21: t.WWSFamily, 22: t.WWSSubfamily, 23: t.LightBackgroundPalette,
		24: t.DarkBackgroundPalette, 25: t.VariationsPostScriptName,
	}
	for k, v := range t.Extra {
		res[int(k)] = v
	}
	for k, v := range res {
		if v == "" {
			delete(res, k)
		}
	}
	return res
}

func toInfo(es []nmEntry) *name.Info {
	info := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
	for _, e := range es {
		m := info.Mac
		if e.P == 3 {
			m = info.Windows
		}
		if m[e.T] == nil {
			m[e.T] = &name.Table{}
		}
		setName(m[e.T], e.ID, cpString(e.S))
	}
	return info
}

func runeInts(s string) []int {
	res := []int{}
	for _, r := range s {
		res = append(res, int(r))
	}
	return res
}

func cpString(s []int) string {
	rr := make([]rune, len(s))
	for i, c := range s {
		rr[i] = rune(c)
	}
	return string(rr)
}

func fromInfo(info *name.Info) []nmEntry {
	res := []nmEntry{}
	add := func(p int, m name.Tables) {
		for tag, t := range m {
			for id, s := range nameFields(t) {
				res = append(res, nmEntry{p, tag, id, runeInts(s)})
			}
		}
	}
	if info != nil {
		add(1, info.Mac)
		add(3, info.Windows)
	}
	return res
}

func emitName(c *vh.Case, es []nmEntry) {
	info := toInfo(es)
	rec := vh.Rec{"t": "name", "in": es, "b": []int{}, "out": []nmEntry{}, "same": true, "xi": []nmEntry{}, "xskip": []int{}}
	var data []byte
	if msg := vh.Guard(func() {
		data = info.Encode(1)
		rec["b"] = bytesInts(data)
		for i := 0; i < 3; i++ {
			if !bytes.Equal(data, info.Encode(1)) {
				rec["same"] = false
			}
		}
		back, err := name.Decode(data)
		if err == nil {
			rec["out"] = fromInfo(back)
		}
	}); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	f, err := xFont(1, map[string][]byte{"name": data})
	if err != nil {
		panic(err)
	}
	xi := []nmEntry{}
	skip := []int{}
	seen := map[int]bool{}
	for _, e := range es {
		if seen[e.ID] || len(e.S) == 0 {
			continue
		}
		seen[e.ID] = true
		wide := false
		for _, e2 := range es {
			for _, cp := range e2.S {
				if e2.ID == e.ID && cp > 0xFFFF {
					wide = true // x/image does not support surrogate pairs
				}
			}
		}
		s, err := f.Name(nil, xsfnt.NameID(e.ID))
		if wide || err != nil {
			if wide {
				skip = append(skip, e.ID)
			}
			continue
		}
		xi = append(xi, nmEntry{0, "", e.ID, runeInts(s)})
	}
	rec["xi"] = xi
	rec["xskip"] = skip
	c.Emit(rec)
}

func hash31(s string) int {
	h := fnv.New32a()
	h.Write([]byte(s))
	return int(h.Sum32() & 0x7FFFFFFF)
}

func bigEntries(es []nmEntry) []nmBig {
	res := []nmBig{}
	for _, e := range es {
		if len(e.S) > 0 {
			res = append(res, nmBig{e.P, e.T, e.ID, len(e.S), hash31(cpString(e.S))})
		}
	}
	return res
}

func emitNameBig(c *vh.Case, es []nmEntry) {
	rec := vh.Rec{"t": "namebig", "in": bigEntries(es), "out": []nmBig{}, "recs": []map[string]int{}, "n": 0, "store": 0}
	if msg := vh.Guard(func() {
		data := toInfo(es).Encode(1)
		back, err := name.Decode(data)
		if err == nil {
			rec["out"] = bigEntries(fromInfo(back))
		}
		u := func(p int) int { return int(data[p])<<8 | int(data[p+1]) }
		rr := []map[string]int{}
		for i := 0; i < u(2) && 18+12*i <= len(data); i++ {
			p := 6 + 12*i
			rr = append(rr, map[string]int{"plat": u(p), "enc": u(p + 2), "lang": u(p + 4), "id": u(p + 6), "len": u(p + 8), "off": u(p + 10)})
		}
		rec["recs"], rec["n"], rec["store"] = rr, len(data), u(4)
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

type nmTables struct {
	L     []string
	Mac   []string
	Win   []string
	Names [][]int
}

var romanRunes = func() []int {
	var res []int
	for _, r := range mac.Decode(func() []byte {
		b := make([]byte, 256)
		for i := range b {
			b[i] = byte(i)
		}
		return b
	}()) {
		res = append(res, int(r))
	}
	return res
}()

func genStr(rng *rand.Rand, plat, maxLen int) []int {
	n := 1 + rng.IntN(min(8, maxLen))
	if rng.IntN(10) == 0 {
		n = 1 + rng.IntN(maxLen)
	}
	s := []int{}
	for len(s) < n {
		switch {
		case rng.IntN(3) > 0:
			s = append(s, 32+rng.IntN(95))
		case plat == 1:
			s = append(s, romanRunes[rng.IntN(256)])
		case rng.IntN(4) == 0:
			s = append(s, 0x10000+rng.IntN(0x100000))
		case rng.IntN(4) == 0:
			s = append(s, []int{0, 0x7F, 0x80, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0xFF, 0x100}[rng.IntN(14)])
		default:
			cp := rng.IntN(0xFFFF)
			if cp >= 0xD800 && cp < 0xE000 {
				cp -= 0x1000
			}
			s = append(s, cp)
		}
	}
	return s
}

func genEntries(rng *rand.Rand, tb *nmTables, n, maxLen int) []nmEntry {
	es := []nmEntry{}
	seen := map[string]bool{}
	var pool [][]int
	for i := 0; i < n; i++ {
		e := nmEntry{P: 1 + 2*rng.IntN(2)}
		if e.P == 1 {
			e.T = pick(rng, tb.Mac)
		} else {
			e.T = pick(rng, tb.Win)
		}
		e.ID = rng.IntN(27)
		if rng.IntN(3) == 0 {
			e.ID = []int{15, 25, 26, 255, 256, 257, 32767, 32768, 65535, rng.IntN(65536)}[rng.IntN(10)]
		}
		key := fmt.Sprint(e.P, e.T, e.ID)
		if seen[key] {
			continue
		}
		seen[key] = true
		if len(pool) > 0 && rng.IntN(3) == 0 {
			e.S = slices.Clone(pool[rng.IntN(len(pool))])
			switch rng.IntN(6) {
			case 0: // similar strings
				e.S[rng.IntN(len(e.S))] = 65 + rng.IntN(26)
			case 1:
				e.S = append(e.S, 65+rng.IntN(26))
			case 2:
				e.S = append([]int{65 + rng.IntN(26)}, e.S...)
			}
		}
		ok := len(e.S) > 0
		for _, cp := range e.S {
			if e.P == 1 && mac.Decode(mac.Encode(string(rune(cp)))) != string(rune(cp)) {
				ok = false
			}
		}
		if !ok {
			e.S = genStr(rng, e.P, maxLen)
		}
		if len(e.S) > 1 && rng.IntN(8) == 0 {
			e.S = e.S[:len(e.S)/2]
		}
		pool = append(pool, e.S)
		es = append(es, e)
	}
	return es
}

// rawName writes a name table from another producer.
func rawName(rng *rand.Rand) []byte {
	type rec struct{ v [6]int }
	var recs []rec
	var st byteBuf
	seen := map[string]bool{}
	for i := rng.IntN(12); i >= 0; i-- {
		p := pick(rng, []int{0, 1, 1, 1, 3, 3, 3, 3})
		enc := 0
		if p == 3 {
			enc = 1
		}
		if rng.IntN(6) == 0 {
			enc = rng.IntN(11)
		}
		lang := rng.IntN(152)
		if p == 3 {
			lang = 0x400 + rng.IntN(0x70) + 0x400*rng.IntN(6)
			if rng.IntN(3) == 0 {
				lang = 0x409
			}
		}
		id := rng.IntN(30)
		key := fmt.Sprint(p, enc, lang, id)
		if seen[key] {
			continue
		}
		seen[key] = true
		var b []byte
		if p == 1 {
			b = randBytes(rng, rng.IntN(8))
		} else {
			for k := rng.IntN(6); k > 0; k-- {
				cp := genStr(rng, 3, 1)[0]
				if cp > 0xFFFF {
					cp -= 0x10000
					(*byteBuf)(&b).u16(0xD800+cp>>10, 0xDC00+cp&0x3FF)
				} else {
					(*byteBuf)(&b).u16(cp)
				}
			}
		}
		off := len(st)
		if k := bytes.Index(st, b); k >= 0 && rng.IntN(2) == 0 {
			off = k
		} else {
			if rng.IntN(3) == 0 { // unused bytes
				st = append(st, randBytes(rng, rng.IntN(3))...)
			}
			off = len(st)
			st = append(st, b...)
		}
		recs = append(recs, rec{[6]int{p, enc, lang, id, len(b), off}})
	}
	sort.Slice(recs, func(i, j int) bool {
		for k := 0; k < 4; k++ {
			if recs[i].v[k] != recs[j].v[k] {
				return recs[i].v[k] < recs[j].v[k]
			}
		}
		return false
	})
	var b byteBuf
	gap := rng.IntN(2) * rng.IntN(5)
	b.u16(0, len(recs), 6+12*len(recs)+gap)
	for _, r := range recs {
		b.u16(r.v[:]...)
	}
	b = append(b, randBytes(rng, gap)...)
	return append(b, st...)
}

func emitNameRaw(c *vh.Case, data []byte) {
	rec := vh.Rec{"t": "nameraw", "b": bytesInts(data), "out": []nmEntry{}}
	if msg := vh.Guard(func() {
		info, err := name.Decode(data)
		if err == nil {
			rec["out"] = fromInfo(info)
		}
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// emitLangs reads a name record for every language id in a range.
func emitLangs(c *vh.Case, plat, lo, hi int) {
	type found struct {
		ID   int    `json:"id"`
		Tag  string `json:"tag"`
		Back []int  `json:"back"`
	}
	res := []found{}
	msg := vh.Guard(func() {
		for id := lo; id <= hi; id++ {
			var b byteBuf
			b.u16(0, 1, 18, plat, plat/2, id, 1, 2, 0)
			b = append(b, 0x41, 0x42)
			info, err := name.Decode(b)
			if err != nil {
				continue
			}
			for _, e := range fromInfo(info) {
				f := found{ID: id, Tag: e.T, Back: []int{}}
				d := info.Encode(1)
				for i := 0; i < int(d[3]); i++ {
					f.Back = append(f.Back, int(d[6+12*i+4])<<8|int(d[6+12*i+5]))
				}
				res = append(res, f)
			}
		}
	})
	if msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	c.Emit(vh.Rec{"t": "langs", "plat": plat, "lo": lo, "hi": hi, "found": res})
}

func emitMac(c *vh.Case) {
	rec := vh.Rec{"t": "mac", "dec": []int{}, "enc": []int{}}
	all := []map[string]int{}
	dec := []int{}
	enc := []int{}
	for i := 0; i < 256; i++ {
		s := mac.Decode([]byte{byte(i)})
		if r := mac.DecodeOne(byte(i)); string(r) != s {
			s = "!!"
		}
		cp := runeInts(s)
		if len(cp) != 1 {
			cp = []int{-1}
		}
		dec = append(dec, cp[0])
		b := mac.Encode(s)
		if len(b) != 1 {
			b = []byte{0}
		}
		enc = append(enc, int(b[0]))
	}
	for cp := rune(0); cp <= 0x10FFFF; cp++ {
		if cp >= 0xD800 && cp < 0xE000 {
			continue
		}
		b := mac.Encode(string(cp))
		if len(b) != 1 {
			all = append(all, map[string]int{"cp": int(cp), "b": -1})
		} else if b[0] != '?' || cp == '?' {
			all = append(all, map[string]int{"cp": int(cp), "b": int(b[0])})
		}
	}
	rec["dec"], rec["enc"], rec["all"] = dec, enc, all
	c.Emit(rec)
}

func nameBytes(names []string) [][]int {
	res := [][]int{}
	for _, n := range names {
		res = append(res, bytesInts([]byte(n)))
	}
	return res
}

func emitPost(c *vh.Case, names []string) {
	rec := vh.Rec{"t": "post", "in": nameBytes(names), "has": names != nil, "b": []int{}, "out": [][]int{}, "ohas": false, "xi": [][]int{}}
	var data []byte
	if msg := vh.Guard(func() {
		in := &post.Info{ItalicAngle: -12, UnderlinePosition: -100, UnderlineThickness: 50, Names: names}
		data = in.Encode()
		rec["b"] = bytesInts(data)
		out, err := post.Read(bytes.NewReader(data))
		if err == nil {
			rec["ohas"] = out.Names != nil
			rec["out"] = nameBytes(out.Names)
		}
	}); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	if len(names) > 0 {
		rec["xi"] = nameBytes(xNames(data, len(names)))
	}
	c.Emit(rec)
}

func xNames(postData []byte, n int) []string {
	f, err := xFont(n, map[string][]byte{"post": postData})
	if err != nil {
		return nil
	}
	var res []string
	for i := 0; i < n; i++ {
		s, err := f.GlyphName(nil, xsfnt.GlyphIndex(i))
		if err != nil {
			s = "!" + err.Error()
		}
		res = append(res, s)
	}
	return res
}

func genNames(rng *rand.Rand, std []string, n int) []string {
	switch rng.IntN(12) {
	case 0:
		return nil
	case 1:
		return append([]string{}, std...)
	case 2:
		x := append([]string{}, std...)
		x[rng.IntN(len(x))] = "changed"
		return x
	case 3:
		return append([]string{}, std[:1+rng.IntN(257)]...)
	case 4:
		return append(append([]string{}, std...), "extra")
	case 5:
		return []string{}
	}
	res := []string{}
	for len(res) < n {
		switch k := rng.IntN(10); {
		case k < 3:
			res = append(res, pick(rng, std))
		case k < 5 && len(res) > 0:
			res = append(res, pick(rng, res))
		case k == 5:
			res = append(res, "")
		case k == 6:
			m := 255
			if rng.IntN(2) == 0 {
				m = 1 + rng.IntN(255)
			}
			res = append(res, strings.Repeat(string(rune(33+rng.IntN(90))), m))
		case k == 7:
			res = append(res, string(randBytes(rng, 1+rng.IntN(6))))
		default:
			res = append(res, fmt.Sprintf("g%d.alt", rng.IntN(10000)))
		}
	}
	return res
}

func emitPostBig(c *vh.Case, names []string, std []string) {
	cust := map[string]bool{}
	m := 0
	isStd := map[string]bool{}
	for _, s := range std {
		isStd[s] = true
	}
	for _, s := range names {
		if !isStd[s] {
			cust[s] = true
		}
		m = max(m, len(s))
	}
	rec := vh.Rec{"t": "postbig", "n": len(names), "custom": len(cust), "max": m, "on": 0, "diff": []int{}, "xdiff": []int{}}
	var data []byte
	if msg := vh.Guard(func() {
		in := &post.Info{Names: names}
		data = in.Encode()
		out, err := post.Read(bytes.NewReader(data))
		if err != nil {
			return
		}
		rec["on"] = len(out.Names)
		diff := []int{}
		for i, s := range out.Names {
			if (i >= len(names) || s != names[i]) && len(diff) < 20 {
				diff = append(diff, i)
			}
		}
		rec["diff"] = diff
	}); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	f, err := xFont(len(names), map[string][]byte{"post": data})
	if err != nil {
		panic(err)
	}
	xdiff := []int{}
	for k := 0; k < 60; k++ {
		i := c.Rng.IntN(len(names))
		if k < 2 {
			i = k * (len(names) - 1)
		}
		s, err := f.GlyphName(nil, xsfnt.GlyphIndex(i))
		if err != nil && strings.Contains(err.Error(), "unsupported") {
			continue // more than 32767 names
		}
		if err != nil || s != names[i] {
			xdiff = append(xdiff, i)
		}
	}
	rec["xdiff"] = xdiff
	c.Emit(rec)
}

// rawPost writes a format 2 table with strings in random order.
func rawPost(rng *rand.Rand) []byte {
	var b byteBuf
	b.u32(0x00020000, 0, 0, 0, 0, 0, 0, 0)
	if rng.IntN(10) == 0 {
		byteBuf(b).set(0, pick(rng, []int{1, 3}))
		return b
	}
	n := rng.IntN(20)
	ns := rng.IntN(20)
	b.u16(n)
	for i := 0; i < n; i++ {
		if ns == 0 || rng.IntN(3) == 0 {
			b.u16(rng.IntN(258))
		} else {
			b.u16(258 + rng.IntN(ns))
		}
	}
	for i := 0; i < ns; i++ {
		k := rng.IntN(8)
		b = append(b, byte(k))
		b = append(b, randBytes(rng, k)...)
	}
	return b
}

func emitPostRaw(c *vh.Case, data []byte) {
	rec := vh.Rec{"t": "postraw", "b": bytesInts(data), "out": [][]int{}, "ohas": false}
	if msg := vh.Guard(func() {
		out, err := post.Read(bytes.NewReader(data))
		if err == nil {
			rec["ohas"] = out.Names != nil
			rec["out"] = nameBytes(out.Names)
		}
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

type sysRec struct {
	L string `json:"l"`
	R int    `json:"r"`
	O []int  `json:"o"`
}

func sysRecs(ss []rawSys) []sysRec {
	res := []sysRec{}
	for _, s := range ss {
		o := s.Optional
		if o == nil {
			o = []int{}
		}
		res = append(res, sysRec{s.Script + "/" + s.Lang, s.Required, o})
	}
	return res
}

// emitTags passes language systems through the library.
func emitTags(c *vh.Case, ss []rawSys, nf int) {
	tags := make([]string, nf)
	lookups := make([][]int, nf)
	for i := range tags {
		tags[i] = fmt.Sprintf("t%03d", i)
	}
	data := rawGtab(rawScriptList(ss), rawFeatures(tags, lookups), []byte{0, 0})
	rec := vh.Rec{"t": "tags", "in": sysRecs(ss), "out": []sysRec{}, "tags": []string{}, "same": true}
	if msg := vh.Guard(func() {
		info, err := gtab.Read(bytes.NewReader(data), []gtab.Type{gtab.TypeGsub, gtab.TypeGpos}[c.Rng.IntN(2)])
		if err != nil {
			panic(err)
		}
		tt := []string{}
		for tag := range info.ScriptList {
			p, err := language.Parse(tag.String())
			if err != nil {
				tt = append(tt, "invalid")
			} else {
				tt = append(tt, p.String())
			}
		}
		rec["tags"] = tt
		d2 := info.Encode()
		for i := 0; i < 2; i++ {
			if !bytes.Equal(d2, info.Encode()) {
				rec["same"] = false
			}
		}
		out, err := parseScripts(d2)
		if err == nil {
			rec["out"] = sysRecs(out)
		}
	}); msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

func c14Families(env *vh.Env) []vh.Family {
	tb := &nmTables{}
	for _, raw := range env.TLCCases("langs.ndjson") {
		if err := json.Unmarshal(tlcUnquote(raw), tb); err != nil {
			panic(err)
		}
	}
	var std []string
	for _, b := range tb.Names {
		std = append(std, string(toBytes(b)))
	}
	var scripts []string
	for _, raw := range env.TLCCases("scripts.ndjson") {
		var s struct{ S string }
		if err := json.Unmarshal(tlcUnquote(raw), &s); err != nil {
			panic(err)
		}
		scripts = append(scripts, s.S)
	}
	sort.Strings(scripts)
	tn := env.TLCCases("names.ndjson")
	tr := env.TLCCases("nameraw.ndjson")
	tp := env.TLCCases("post.ndjson")
	chunk := func(x []json.RawMessage, idx int) []json.RawMessage {
		return x[idx*50 : min(len(x), (idx+1)*50)]
	}
	num := func(x []json.RawMessage) int { return (len(x) + 49) / 50 }
	return []vh.Family{
		{Name: "tlcname", Quick: num(tn), Thor: num(tn), Run: func(c *vh.Case) {
			for _, raw := range chunk(tn, c.Idx) {
				var s struct{ Es []nmEntry }
				if err := json.Unmarshal(tlcUnquote(raw), &s); err != nil {
					panic(err)
				}
				emitName(c, s.Es)
			}
		}},
		{Name: "tlcraw", Quick: num(tr), Thor: num(tr), Run: func(c *vh.Case) {
			for _, raw := range chunk(tr, c.Idx) {
				var s struct{ B []int }
				if err := json.Unmarshal(tlcUnquote(raw), &s); err != nil {
					panic(err)
				}
				emitNameRaw(c, toBytes(s.B))
			}
		}},
		{Name: "tlcpost", Quick: num(tp), Thor: num(tp), Run: func(c *vh.Case) {
			pool := map[string]string{"[1]": ".notdef", "[2,3]": "A", "[]": "dcroat", "[4]": "a.b", "[2]": "x", "[5,6,7]": "longer.name"}
			for _, raw := range chunk(tp, c.Idx) {
				var s struct{ N []json.RawMessage }
				if err := json.Unmarshal(tlcUnquote(raw), &s); err != nil {
					panic(err)
				}
				names := []string{}
				for _, n := range s.N {
					names = append(names, pool[string(n)])
				}
				emitPost(c, names)
			}
		}},
		{Name: "codec", Quick: 20, Thor: 400, Run: func(c *vh.Case) {
			if c.Idx == 0 {
				emitMac(c)
			}
			for i := 0; i < 20; i++ {
				b := randBytes(c.Rng, c.Rng.IntN(20))
				s := mac.Decode(b)
				c.Emit(vh.Rec{"t": "macs", "b": bytesInts(b), "s": runeInts(s), "b2": bytesInts(mac.Encode(s))})
			}
		}},
		{Name: "lang", Quick: 32, Thor: 32, Run: func(c *vh.Case) {
			emitLangs(c, 1+2*(c.Idx%2), c.Idx/2*4096, c.Idx/2*4096+4095)
		}},
		{Name: "name", Quick: 150, Thor: 3000, Run: func(c *vh.Case) {
			for i := 0; i < 4; i++ {
				emitName(c, genEntries(c.Rng, tb, c.Rng.IntN(12), []int{60, 60, 60, 600}[i]))
			}
		}},
		{Name: "alllang", Quick: 8, Thor: 40, Run: func(c *vh.Case) {
			es := []nmEntry{}
			for _, p := range []int{1, 3} {
				for _, t := range map[int][]string{1: tb.Mac, 3: tb.Win}[p] {
					es = append(es, nmEntry{p, t, []int{1, 6, 300, 65535}[c.Rng.IntN(4)], genStr(c.Rng, p, 4)})
				}
			}
			emitName(c, es)
		}},
		{Name: "big", Quick: 24, Thor: 200, MaxSec: 60, Run: func(c *vh.Case) {
			var es []nmEntry
			switch c.Idx % 6 {
			case 4, 5: // strings which differ in one place
				n := []int{4, 30, 100, 256, 300, 700, 2000, 5000}[c.Rng.IntN(8)]
				if c.Idx == 4 || c.Idx == 10 {
					n = 300 + c.Idx*100
				}
				base := make([]int, n)
				for i := range base {
					base[i] = 65 + c.Rng.IntN(26)
				}
				for i := 0; i < min(30, 60000/n); i++ {
					s := slices.Clone(base)
					switch i % 4 {
					case 0, 1:
						s[c.Rng.IntN(n)] = 97 + i%26
					case 2:
						k := c.Rng.IntN(n)
						s = append(append(append([]int{}, s[:k]...), 97+i%26), s[k:]...)
					case 3:
						s = s[:1+c.Rng.IntN(n)]
					}
					if i%8 == 3 {
						es = append(es, nmEntry{3, tb.Win[i], 1, s})
					} else {
						es = append(es, nmEntry{1, tb.Mac[i], 1, s})
					}
				}
			case 0: // one string of maximal length
				es = genEntries(c.Rng, tb, 10, 1000)
				s := make([]int, 32767-c.Rng.IntN(3))
				for i := range s {
					s[i] = 0x4E00 + c.Rng.IntN(1000)
				}
				es = append(es, nmEntry{3, "en-US", 40000, s})
			case 1: // offsets close to the limit
				left := 65535
				for i := 0; left > 2000; i++ {
					k := 500 + c.Rng.IntN(700)
					s := make([]int, k)
					for j := range s {
						s[j] = 65 + c.Rng.IntN(26)
					}
					es = append(es, nmEntry{1, tb.Mac[i%100], 1 + i/100, s})
					left -= k
				}
				s := make([]int, 65535-c.Rng.IntN(3))
				for j := range s {
					s[j] = 65 + c.Rng.IntN(26)
				}
				es = append(es, nmEntry{1, "en", 65000, s})
				c.Rng.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
			case 2: // many records
				n := 5000 + c.Rng.IntN(460)
				for i := 0; i < n; i++ {
					es = append(es, nmEntry{3, tb.Win[i%200], 256 + i/200, []int{48 + i%10, 48 + c.Rng.IntN(10), 48 + c.Rng.IntN(10)}})
				}
			case 3: // long shared strings
				a := genStr(c.Rng, 1, 60)
				for len(a) < 30000 {
					a = append(a, a...)
				}
				a = a[:30000]
				for i := 0; i < 40; i++ {
					es = append(es, nmEntry{3, tb.Win[i], 1 + i, a}, nmEntry{1, tb.Mac[i], 1 + i, []int{65 + i%3, 66}})
				}
			}
			emitNameBig(c, es)
		}},
		{Name: "oversize", Quick: 1, Thor: 3, Run: func(c *vh.Case) {
			var es []nmEntry
			for i := 0; i < 4; i++ {
				s := make([]int, 30000)
				for j := range s {
					s[j] = 0x4E00 + c.Rng.IntN(1000)
				}
				es = append(es, nmEntry{3, tb.Win[i], 1, s})
			}
			emitNameBig(c, es)
		}},
		{Name: "nameraw", Quick: 150, Thor: 3000, Run: func(c *vh.Case) {
			for i := 0; i < 5; i++ {
				emitNameRaw(c, rawName(c.Rng))
			}
		}},
		{Name: "post", Quick: 100, Thor: 2000, Run: func(c *vh.Case) {
			for i := 0; i < 2; i++ {
				emitPost(c, genNames(c.Rng, std, 1+c.Rng.IntN(40)))
			}
		}},
		{Name: "postbig", Quick: 8, Thor: 40, MaxSec: 60, Run: func(c *vh.Case) {
			n := []int{65535, 40000, 1000, 33000}[c.Idx%4]
			names := make([]string, n)
			for i := range names {
				names[i] = fmt.Sprintf("uni%05X", i)
				if i < 258 || c.Rng.IntN(50) == 0 {
					names[i] = pick(c.Rng, std)
				}
				if c.Idx%4 == 2 {
					names[i] += strings.Repeat("q", 255-len(names[i]))
				}
			}
			emitPostBig(c, names, std)
		}},
		{Name: "postraw", Quick: 100, Thor: 2000, Run: func(c *vh.Case) {
			for i := 0; i < 5; i++ {
				emitPostRaw(c, rawPost(c.Rng))
			}
		}},
		{Name: "script", Quick: len(scripts), Thor: len(scripts), MaxSec: 60, Run: func(c *vh.Case) {
			s := scripts[c.Idx]
			ss := []rawSys{{Script: s, Required: 0xFFFF, Optional: []int{0}}}
			for i, l := range tb.L {
				ss = append(ss, rawSys{Script: s, Lang: l, Required: i % 7, Optional: []int{i % 10, i / 10 % 10}})
			}
			emitTags(c, ss, 10)
		}},
		{Name: "systems", Quick: 200, Thor: 4000, Run: func(c *vh.Case) {
			rng := c.Rng
			nf := 1 + rng.IntN(6)
			var ss []rawSys
			seen := map[string]bool{}
			for i := rng.IntN(20); i >= 0; i-- {
				s := rawSys{Script: pick(rng, scripts), Required: 0xFFFF}
				if len(ss) > 0 && rng.IntN(2) == 0 {
					s.Script = ss[rng.IntN(len(ss))].Script
				}
				if rng.IntN(3) > 0 {
					s.Lang = pick(rng, tb.L)
				}
				if rng.IntN(3) == 0 {
					s.Required = rng.IntN(nf)
				}
				for j := rng.IntN(nf + 1); j > 0; j-- {
					s.Optional = append(s.Optional, rng.IntN(nf))
				}
				if seen[s.Script+s.Lang] {
					continue
				}
				seen[s.Script+s.Lang] = true
				ss = append(ss, s)
			}
			emitTags(c, ss, nf)
		}},
	}
}
