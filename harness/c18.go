package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/header"

	"vharness/vh"
)

var errFault = errors.New("injected fault")

// faultWriter is the destination.  It accepts cap bytes.
//
// Modes: 0 the write which exceeds the capacity is accepted in part,
// 1 the write which exceeds the capacity is rejected as a whole,
// 2 like 0, but the destination recovers after the first fault,
// 3 like 1, but the destination recovers after the first fault,
// 4 like 0, but without an error for the first short write.
type faultWriter struct {
	cap    int
	mode   int
	failed bool
	got    []byte
	calls  [][]int // length, accepted, error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	n, err := w.write(p)
	w.got = append(w.got, p[:n]...)
	e := 0
	if err != nil {
		e = 1
	}
	w.calls = append(w.calls, []int{len(p), n, e})
	return n, err
}

func (w *faultWriter) write(p []byte) (int, error) {
	rem := w.cap - len(w.got)
	if w.failed {
		if w.mode == 2 || w.mode == 3 {
			return len(p), nil
		}
		if w.mode == 4 && len(p) == 0 {
			return 0, nil
		}
		return 0, errFault
	}
	if len(p) <= rem {
		return len(p), nil
	}
	w.failed = true
	switch w.mode {
	case 1, 3:
		return 0, errFault
	case 4:
		return rem, nil
	}
	return rem, errFault
}

// A wform writes a font in one of the supported ways; the count is -1 if the function does
// not report one.
type wform struct {
	name string
	f    func(w io.Writer) (int64, error)
}

func wforms(f *sfnt.Font) []wform {
	res := []wform{{"Write", f.Write}}
	if f.IsGlyf() {
		res = append(res, wform{"WriteTrueTypePDF", func(w io.Writer) (int64, error) { return f.WriteTrueTypePDF(w, "cvt ", []byte{1, 2, 3}) }})
	} else {
		res = append(res, wform{"WriteOpenTypeCFFPDF", func(w io.Writer) (int64, error) { return -1, f.WriteOpenTypeCFFPDF(w) }})
		res = append(res, wform{"cff.Write", func(w io.Writer) (int64, error) { return -1, f.AsCFF().Write(w) }})
	}
	return res
}

func points(rng *rand.Rand, data []byte, all int) []int {
	n := len(data)
	var res []int
	if n <= all {
		for k := 0; k <= n; k++ {
			res = append(res, k)
		}
		return res
	}
	set := map[int]bool{0: true, 1: true, n: true, n - 1: true, n - 2: true, n - 3: true, n - 4: true}
	near := func(k int) {
		for d := -4; d <= 4; d++ {
			if k+d >= 0 && k+d <= n {
				set[k+d] = true
			}
		}
	}
	if len(data) > 12 {
		nt := int(binary.BigEndian.Uint16(data[4:]))
		for i := 0; i < nt && 28+16*i <= n; i++ {
			off := int(binary.BigEndian.Uint32(data[20+16*i:]))
			near(off)
			near(off + int(binary.BigEndian.Uint32(data[24+16*i:])))
			near(12 + 16*i)
		}
	}
	for len(set) < all {
		set[rng.IntN(n+1)] = true
	}
	for k := range set {
		res = append(res, k)
	}
	sort.Ints(res)
	return res
}

func emitWrites(c *vh.Case, form wform, modes []int, all int) {
	rng := c.Rng
	ref := &faultWriter{cap: 1 << 30}
	var n int64
	var err error
	if msg := vh.Guard(func() { n, err = form.f(ref) }); msg != "" {
		c.Emit(vh.Rec{"t": "panic", "msg": msg})
		return
	}
	if err != nil {
		panic(err)
	}
	full := bytes.Clone(ref.got)
	for _, mode := range modes {
		kk := points(rng, full, all)
		rec := vh.Rec{"t": "write", "form": form.name, "mode": mode, "len": len(full), "n0": int(n), "k": kk}
		var ns, acc, er, pre []int
		var calls [][][]int
		msg := vh.Guard(func() {
			for _, k := range kk {
				w := &faultWriter{cap: k, mode: mode}
				n, err := form.f(w)
				ns = append(ns, int(n))
				acc = append(acc, len(w.got))
				er = append(er, b2i(err != nil))
				pre = append(pre, b2i(bytes.HasPrefix(full, w.got)))
				calls = append(calls, w.calls)
			}
		})
		if msg != "" {
			rec = vh.Rec{"t": "panic", "msg": msg}
		} else {
			rec["n"], rec["acc"], rec["err"], rec["pre"], rec["calls"] = ns, acc, er, pre, calls
		}
		c.Emit(rec)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- sources ----

// atSource is a random access source which fails.
type atSource struct {
	data  []byte
	lim   int  // accesses at or after this offset fail
	part  bool // deliver the bytes before the fault
	calls int
	after int // calls with this number and later fail; -1 = never
}

func (s *atSource) Read(p []byte) (int, error) { panic("sequential access to a random access source") }

func (s *atSource) ReadAt(p []byte, off int64) (int, error) {
	i := s.calls
	s.calls++
	if s.after >= 0 && i >= s.after {
		return 0, errFault
	}
	end := int(off) + len(p)
	if off >= int64(len(s.data)) && s.lim > len(s.data) {
		return 0, io.EOF
	}
	if end > s.lim {
		n := 0
		if s.part && int(off) < s.lim {
			n = copy(p, s.data[off:s.lim])
		}
		return n, errFault
	}
	n := copy(p, s.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// stream is a sequential source which delivers k bytes and then fails with err.
type stream struct {
	data  []byte
	k     int
	pos   int
	err   error
	mode  int // 0: full reads, 1: small reads, 2: the error comes with the last data
	count int
}

func (s *stream) Read(p []byte) (int, error) {
	n := min(len(p), s.k-s.pos)
	if s.mode == 1 {
		s.count++
		n = min(n, 1+s.count%37)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if n == 0 || s.mode == 2 && s.pos == s.k {
		return n, s.err
	}
	return n, nil
}

func emitReads(c *vh.Case, data []byte, all int) {
	rng := c.Rng
	nt := int(binary.BigEndian.Uint16(data[4:]))
	hd := bytesInts(data[:12+16*nt])
	try := func(r io.Reader) int {
		f, err := sfnt.Read(r)
		if err == nil && f == nil {
			return 2
		}
		return b2i(err != nil)
	}
	src := map[string]func(k int) io.Reader{
		"trunc":     func(k int) io.Reader { return bytes.NewReader(data[:k]) },
		"truncs":    func(k int) io.Reader { return &stream{data: data, k: k, err: io.EOF, mode: 1} },
		"truncs2":   func(k int) io.Reader { return &stream{data: data, k: k, err: io.EOF, mode: 2} },
		"stream":    func(k int) io.Reader { return &stream{data: data, k: k, err: errFault} },
		"streams":   func(k int) io.Reader { return &stream{data: data, k: k, err: errFault, mode: 1} },
		"stream2":   func(k int) io.Reader { return &stream{data: data, k: k, err: errFault, mode: 2} },
		"unexp":     func(k int) io.Reader { return &stream{data: data, k: k, err: io.ErrUnexpectedEOF} },
		"at":        func(k int) io.Reader { return &atSource{data: data, lim: k, after: -1} },
		"atpartial": func(k int) io.Reader { return &atSource{data: data, lim: k, after: -1, part: true} },
	}
	names := []string{"trunc", "truncs", "truncs2", "stream", "streams", "stream2", "unexp", "at", "atpartial"}
	for _, name := range names {
		kk := points(rng, data, all)
		rec := vh.Rec{"t": "read", "mode": name, "hd": hd, "len": len(data), "k": kk}
		msg := vh.Guard(func() {
			var er []int
			for _, k := range kk {
				er = append(er, try(src[name](k)))
			}
			rec["err"] = er
			rec["ok"] = try(bytes.NewReader(data)) == 0
			rec["oks"] = try(&stream{data: data, k: len(data), err: io.EOF, mode: rng.IntN(3)}) == 0
		})
		if msg != "" {
			rec = vh.Rec{"t": "panic", "msg": msg}
		}
		c.Emit(rec)
	}
	// faults after a number of calls
	rec := vh.Rec{"t": "calls"}
	msg := vh.Guard(func() {
		s := &atSource{data: data, lim: 1 << 30, after: -1}
		rec["ok"] = try(s) == 0
		total := s.calls
		rec["total"] = total
		var er []int
		step := 1 + total/200
		for i := rng.IntN(step); i < total; i += step {
			er = append(er, try(&atSource{data: data, lim: 1 << 30, after: i}))
		}
		rec["err"] = er
	})
	if msg != "" {
		rec = vh.Rec{"t": "panic", "msg": msg}
	}
	c.Emit(rec)
}

// reorder lays out the tables of a font file in a random order.
func reorder(rng *rand.Rand, data []byte) []byte {
	r := bytes.NewReader(data)
	info, err := header.Read(r)
	if err != nil {
		panic(err)
	}
	var tags []string
	for tag := range info.Toc {
		tags = append(tags, tag)
	}
	sort.Strings(tags)
	order := rng.Perm(len(tags))
	if i := sort.SearchStrings(tags, pick(rng, []string{"OS/2", "cmap", "name", "post", "hmtx", "head", "GDEF", "kern", "hhea"})); i < len(tags) && rng.IntN(2) == 0 {
		for j, o := range order {
			if o == i { // make this the last table
				order[j], order[len(order)-1] = order[len(order)-1], order[j]
			}
		}
	}
	out := make([]byte, 12+16*len(tags))
	copy(out, data[:12])
	for _, i := range order {
		rec := info.Toc[tags[i]]
		e := out[12+16*i:]
		copy(e, tags[i])
		binary.BigEndian.PutUint32(e[8:], uint32(len(out)))
		binary.BigEndian.PutUint32(e[12:], rec.Length)
		out = append(out, data[rec.Offset:rec.Offset+rec.Length]...)
		if rng.IntN(2) == 0 {
			for len(out)%4 != 0 {
				out = append(out, 0)
			}
		}
	}
	return out
}

func c18Font(rng *rand.Rand, idx int) *sfnt.Font {
	f := genFont(rng, fopt{kind: []string{"ttf", "cff", "cid"}[idx%3], n: 1 + rng.IntN(5)})
	addLayout(rng, f)
	return f
}

func c18Families(env *vh.Env) []vh.Family {
	cp := corpus()
	pc := env.TLCCases("pieces.ndjson")
	return []vh.Family{
		{Name: "write", Quick: 30, Thor: 300, Run: func(c *vh.Case) {
			f := c18Font(c.Rng, c.Idx)
			for _, form := range wforms(f) {
				emitWrites(c, form, []int{c.Rng.IntN(5), c.Rng.IntN(5)}, 6000)
			}
		}},
		{Name: "container", Quick: 30, Thor: 300, Run: func(c *vh.Case) {
			scaler, tt := randContainer(c.Rng)
			for k, v := range tt { // these are not written
				if v == nil || len(k) != 4 {
					delete(tt, k)
				}
			}
			if len(tt) == 0 {
				return
			}
			emitWrites(c, wform{"header.Write", func(w io.Writer) (int64, error) { return header.Write(w, scaler, tt) }}, []int{0, 1, 2, 3, 4}, 1500)
		}},
		{Name: "tlc", Quick: (len(pc) + 49) / 50, Thor: (len(pc) + 49) / 50, Run: func(c *vh.Case) {
			for _, raw := range pc[c.Idx*50 : min(len(pc), (c.Idx+1)*50)] {
				var s struct{ Pieces []int }
				if err := json.Unmarshal(tlcUnquote(raw), &s); err != nil {
					panic(err)
				}
				tt := map[string][]byte{}
				for i, n := range s.Pieces {
					tt[fmt.Sprintf("tab%d", i)] = randBytes(c.Rng, n)
				}
				emitWrites(c, wform{"header.Write", func(w io.Writer) (int64, error) { return header.Write(w, header.ScalerTypeCFF, tt) }}, []int{c.Rng.IntN(5), c.Rng.IntN(5)}, 1500)
			}
		}},
		{Name: "read", Quick: 24, Thor: 300, MaxSec: 120, Run: func(c *vh.Case) {
			f := c18Font(c.Rng, c.Idx)
			buf := &bytes.Buffer{}
			if _, err := f.Write(buf); err != nil {
				panic(err)
			}
			data := buf.Bytes()
			if c.Idx%2 == 1 {
				data = reorder(c.Rng, data)
			}
			emitReads(c, data, 6000)
		}},
		{Name: "corpus", Quick: 2 * len(cp), Thor: 4 * len(cp), MaxSec: 300, Run: func(c *vh.Case) {
			f := cp[c.Idx%len(cp)]
			data := f.data
			if c.Idx >= len(cp) {
				data = reorder(c.Rng, data)
			}
			n := 150
			if c.Env.Tier == "thorough" {
				n = 1500
			}
			emitReads(c, data, n)
			for _, form := range wforms(f.font) {
				emitWrites(c, form, []int{c.Rng.IntN(5)}, 20)
			}
		}},
	}
}
