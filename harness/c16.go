package main

// C16: one font used by many goroutines.

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/geom/rect"

	"seehuhn.de/go/geom/matrix"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"

	"vharness/vh"
)

// ccOp is an operation which does not modify the font.  Gate is called at the
// places where the operation can be made to wait.
type ccOp struct {
	key   string
	write bool
	run   func(f *sfnt.Font, gate func()) string

	solo  string
	gates int
}

func (o *ccOp) do(f *sfnt.Font, gate func()) (res string) {
	if msg := vh.Guard(func() { res = o.run(f, gate) }); msg != "" {
		return msg
	}
	return rtDig(res)
}

type gateWriter struct {
	gate func()
	got  []byte
}

func (w *gateWriter) Write(p []byte) (int, error) {
	w.gate()
	w.got = append(w.got, p...)
	w.gate()
	return len(p), nil
}

func ccWriteForm(f *sfnt.Font, form string, gate func()) string {
	for _, wf := range wforms(f) {
		if wf.name == form {
			w := &gateWriter{gate: gate}
			n, err := wf.f(w)
			return fmt.Sprint(n, err, len(w.got), " ") + string(w.got)
		}
	}
	return "no such form"
}

// ccFont describes how to make a font; different calls give equal fonts.
type ccFont struct {
	seed uint64
	how  int
}

func (d ccFont) make(cur *atomic.Pointer[func()]) *sfnt.Font {
	for try := uint64(0); ; try++ {
		f := d.try(rand.New(rand.NewPCG(d.seed, 16+try<<8)))
		span := 0
		for k := range f.CMapTable {
			if t, err := f.CMapTable.Get(k); err == nil {
				lo, hi := t.CodeRange()
				span += int(hi) - int(lo)
			}
		}
		if span > 70000 && try < 50 {
			continue // slow
		}
		if o, ok := f.Outlines.(*cff.Outlines); ok && cur != nil {
			sel := o.FDSelect
			o.FDSelect = func(gid glyph.ID) int {
				if g := cur.Load(); g != nil {
					(*g)()
				}
				return sel(gid)
			}
		}
		return f
	}
}

func (d ccFont) try(rng *rand.Rand) *sfnt.Font {
	n := 0
	kind := []string{"ttf", "cff", "cid", "ttf", "cff", "cid", "ttf", "ttf"}[d.how%8]
	if d.how%8 == 7 {
		n = 258
	}
	f := genFont(rng, fopt{kind: kind, n: n, badName: rng.IntN(2) == 0, cmap: pick(rng, []string{"", "4", "12", "both"})})
	if rng.IntN(3) == 0 {
		moreCMaps(rng, f)
	}
	switch rng.IntN(4) {
	case 0:
	case 1:
		rtLayout(rng, f)
	default:
		addLayout(rng, f)
	}
	reread := false
	switch d.how % 8 {
	case 3, 4, 5, 6:
		reread = rng.IntN(2) == 0
	case 7:
		reread = true
	}
	if reread {
		b, es := rtWrite(f)
		if es == "" {
			switch {
			case d.how%8 == 7: // names from the standard list
				b = addTable(b, "post", append([]byte{0, 1, 0, 0}, make([]byte, 28)...))
			case rng.IntN(3) == 0 && f.Gpos == nil:
				b = addTable(b, "kern", kernBytes(randKern(rng, 5)))
			}
			if g, es := rtRead(b); es == "" {
				f = g
			}
		}
	}
	return f
}

// ccOps generates operations for a font.
func ccOps(rng *rand.Rand, f *sfnt.Font, count int) []*ccOp {
	n := f.NumGlyphs()
	var chars []rune
	vh.Guard(func() { chars = mappedChars(f) })
	if len(chars) == 0 {
		chars = []rune("AVfi")
	}
	var res []*ccOp
	add := func(write bool, key string, run func(f *sfnt.Font, gate func()) string) {
		res = append(res, &ccOp{key: key, write: write, run: run})
	}
	forms := wforms(f)
	for len(res) < count {
		switch k := rng.IntN(17); k {
		case 0, 1, 2, 3:
			form := forms[rng.IntN(len(forms))].name
			add(true, form, func(f *sfnt.Font, gate func()) string { return ccWriteForm(f, form, gate) })
		case 4, 5:
			gids := []glyph.ID{0}
			for i := 1; i < n; i++ {
				if rng.IntN(2) == 0 && len(gids) < 40 {
					gids = append(gids, glyph.ID(i))
				}
			}
			if k == 5 {
				rng.Shuffle(len(gids)-1, func(i, j int) { gids[i+1], gids[j+1] = gids[j+1], gids[i+1] })
			}
			form := forms[rng.IntN(len(forms))].name
			add(true, fmt.Sprint("Subset ", len(gids), " ", form), func(f *sfnt.Font, gate func()) string {
				s := f.Subset(gids)
				gate()
				d := string(mustJSON(rtFont(s)))
				gate()
				s.FamilyName = "Subset"
				return d + ccWriteForm(s, form, gate)
			})
		case 6:
			form := forms[rng.IntN(len(forms))].name
			add(true, "Clone "+form, func(f *sfnt.Font, gate func()) string {
				g := f.Clone()
				gate()
				g.FamilyName += " Copy"
				g.IsBold, g.Weight = !g.IsBold, g.Weight%900+100
				g.Ascent, g.CapHeight = 1, 2
				gate()
				d := string(mustJSON(rtFont(g)))
				g.Gsub, g.Gpos = nil, nil
				return d + ccWriteForm(g, form, gate)
			})
		case 7, 8:
			add(false, "measure", func(f *sfnt.Font, gate func()) string {
				s := fmt.Sprint(f.FontBBox())
				gate()
				s += fmt.Sprint(f.FontBBoxPDF())
				gate()
				s += fmt.Sprint(f.Widths())
				gate()
				s += fmt.Sprint(f.WidthsPDF())
				gate()
				s += fmt.Sprint(f.WidthsMapPDF())
				gate()
				s += fmt.Sprint(f.GlyphBBoxes(), f.IsFixedPitch())
				for i := 0; i < n; i += 1 + n/20 {
					gate()
					gid := glyph.ID(i)
					s += fmt.Sprint(f.GlyphBBox(gid), f.GlyphWidth(gid), f.GlyphWidthPDF(gid), f.Outlines.(interface {
						GlyphBBoxPDF(matrix.Matrix, glyph.ID) rect.Rect
					}).GlyphBBoxPDF(f.FontMatrix, gid))
				}
				return s
			})
		case 9:
			add(false, "names", func(f *sfnt.Font, gate func()) string {
				s := fmt.Sprint(f.MakeGlyphNames())
				gate()
				s += fmt.Sprint(f.FullName(), f.Subfamily(), f.PostScriptName(), f.BuiltinEncoding())
				for i := 0; i < n; i += 1 + n/20 {
					gate()
					s += f.GlyphName(glyph.ID(i))
				}
				return s + fmt.Sprint(f.MakeGlyphNames())
			})
		case 10:
			add(false, "GetFontInfo", func(f *sfnt.Font, gate func()) string {
				info := f.GetFontInfo()
				gate()
				s := fmt.Sprint(*info)
				info.FamilyName, info.Weight, info.Version = "x", "y", "z" // not shared with the font
				info.FontMatrix[0] = 7
				gate()
				return s + fmt.Sprint(*f.GetFontInfo())
			})
		case 11, 12, 13:
			lang := pick(rng, []language.Tag{language.Und, language.English, language.German, language.Turkish, language.MustParse("zh-Hant")})
			sg, sp := randSw(rng), randSw(rng)
			mg, mp := sg.toMap(rng), sp.toMap(rng)
			var texts []string
			for i := 0; i < 1+rng.IntN(4); i++ {
				texts = append(texts, randText(rng, chars, rng.IntN(12)))
			}
			add(false, fmt.Sprint("Layout ", lang, " ", len(texts)), func(f *sfnt.Font, gate func()) string {
				l, err := f.NewLayouter(lang, mg, mp)
				if err != nil {
					return "error " + err.Error()
				}
				s := ""
				for _, t := range texts {
					gate()
					seq := l.Layout(t)
					gate()
					s += fmt.Sprint(seq)
					for i := range seq { // the slice belongs to this layouter
						seq[i].XOffset++
					}
				}
				return s
			})
		case 14:
			gpos := rng.IntN(2) == 0
			var seq []glyph.Info
			for i := 0; i < rng.IntN(15); i++ {
				seq = append(seq, glyph.Info{GID: glyph.ID(rng.IntN(n)), Text: []rune{rune('a' + i)}})
			}
			lk := rng.Uint64()
			add(false, fmt.Sprint("Apply ", gpos), func(f *sfnt.Font, gate func()) string {
				info := f.Gsub
				if gpos {
					info = f.Gpos
				}
				if info == nil {
					return "none"
				}
				var ll []gtab.LookupIndex
				for i := range info.LookupList {
					if lk>>(i%64)&1 == 0 {
						ll = append(ll, gtab.LookupIndex(i))
					}
				}
				ctx := gtab.NewContext(info.LookupList, f.Gdef, ll)
				s := ""
				for i := 0; i < 2; i++ {
					gate()
					in := make([]glyph.Info, len(seq))
					for j, g := range seq {
						in[j] = glyph.Info{GID: g.GID, Text: append([]rune{}, g.Text...)}
					}
					out := ctx.Apply(in)
					gate()
					s += fmt.Sprint(out)
				}
				return s
			})
		case 15:
			if f.Gsub == nil && f.Gpos == nil {
				continue
			}
			add(false, "Explain", func(f *sfnt.Font, gate func()) string {
				s := ""
				if f.Gsub != nil {
					s = builder.ExplainGsub(f)
				}
				gate()
				if f.Gpos != nil {
					s += strings.Join(builder.ExplainGpos(f), "\n")
				}
				return s
			})
		case 16:
			add(false, "cmap", func(f *sfnt.Font, gate func()) string {
				s := rtCmap(f.CMapTable)
				var keys []cmap.Key
				for k := range f.CMapTable {
					keys = append(keys, k)
				}
				sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
				for _, k := range keys {
					gate()
					t, err := f.CMapTable.Get(k)
					s += fmt.Sprint(k, err == nil)
					if err != nil {
						continue
					}
					for _, c := range chars {
						s += fmt.Sprint(t.Lookup(c), " ")
					}
					gate()
					s += string(t.Encode(k.Language))
				}
				if f.Gdef != nil {
					s += rtGdef(f.Gdef)
				}
				if o, ok := f.Outlines.(*glyf.Outlines); ok {
					gate()
					e := o.Glyphs.Encode()
					s += string(e.GlyfData) + string(e.LocaData)
				}
				return s + string(f.CMapTable.Encode())
			})
		}
	}
	return res
}

// ccSolo runs all operations alone, each on a font of its own.  Operations
// which do not always give the same result even then are removed.
func ccSolo(d ccFont, ops []*ccOp) []*ccOp {
	var res []*ccOp
	for _, o := range ops {
		var cnt atomic.Int64
		gate := func() { cnt.Add(1) }
		var cur atomic.Pointer[func()]
		cur.Store(&gate)
		o.solo = o.do(d.make(&cur), gate)
		o.gates = int(cnt.Load())
		if o.do(d.make(nil), func() {}) == o.solo {
			res = append(res, o)
		}
	}
	return res
}

// ccSess is a goroutine whose progress is controlled.
type ccSess struct {
	resume, yield chan struct{}
	ops           []*ccOp
	segs          []int
	stops         []map[int]bool // after which gates to wait
	res           []string
	gate          func()
	mu            sync.Mutex
	cnt, op, done int
}

func (s *ccSess) wait() {
	s.yield <- struct{}{}
	<-s.resume
}

func (s *ccSess) main(f *sfnt.Font) {
	<-s.resume
	for i, o := range s.ops {
		s.op, s.cnt = i, 0
		s.done = 0
		s.res[i] = o.do(f, s.gate)
		for s.done < s.segs[i]-1 {
			s.done++
			s.wait()
		}
		if i < len(s.ops)-1 {
			s.wait()
		}
	}
	s.yield <- struct{}{}
}

type ccSched struct {
	Prog [][]struct {
		Kind string
		N    int
	}
	Sched []int
}

// ccForce runs one schedule.
func ccForce(c *vh.Case, d ccFont, f *sfnt.Font, cur *atomic.Pointer[func()], wr, rd []*ccOp, x *ccSched) {
	rng := c.Rng
	ss := make([]*ccSess, len(x.Prog))
	for g, p := range x.Prog {
		s := &ccSess{resume: make(chan struct{}), yield: make(chan struct{}, 200), res: make([]string, len(p))}
		for _, q := range p {
			pool := rd
			if q.Kind == "write" {
				pool = wr
			}
			o := pool[rng.IntN(len(pool))]
			stops := map[int]bool{}
			for len(stops) < min(q.N-1, o.gates) {
				stops[1+rng.IntN(o.gates)] = true
			}
			s.ops = append(s.ops, o)
			s.segs = append(s.segs, q.N)
			s.stops = append(s.stops, stops)
		}
		s.gate = func() {
			s.mu.Lock() // the operation may use several goroutines
			defer s.mu.Unlock()
			s.cnt++
			if s.stops[s.op][s.cnt] {
				s.done++
				s.wait()
			}
		}
		ss[g] = s
	}
	var wg sync.WaitGroup
	for _, s := range ss {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.main(f)
		}()
	}
	held := false
	for _, g := range x.Sched {
		s := ss[g-1]
		cur.Store(&s.gate)
		s.resume <- struct{}{}
		tm := time.NewTimer(2 * time.Second)
		select {
		case <-s.yield:
		case <-tm.C:
			held = true
		}
		tm.Stop()
		if held {
			break
		}
	}
	cur.Store(nil)
	if held {
		for _, s := range ss {
			close(s.resume)
		}
	}
	wg.Wait()
	rec := vh.Rec{"t": "sched", "held": held, "prog": x.Prog, "sched": x.Sched}
	var prog [][]obj
	var ops, res, solo [][]string
	for g, s := range ss {
		var k, q []string
		var pp []obj
		for i, o := range s.ops {
			k, q = append(k, o.key), append(q, o.solo)
			pp = append(pp, obj{"kind": x.Prog[g][i].Kind, "n": x.Prog[g][i].N})
		}
		ops, res, solo, prog = append(ops, k), append(res, s.res), append(solo, q), append(prog, pp)
	}
	rec["prog"], rec["ops"], rec["res"], rec["solo"] = prog, ops, res, solo
	rec["before"], rec["after"] = "", ""
	if held {
		c.Mark("held")
	}
	c.Emit(rec)
}

const ccBatch = 24

func ccForced(c *vh.Case) {
	ss := c.Env.TLCCases("schedules.ndjson")
	d := ccFont{seed: c.Rng.Uint64(), how: c.Idx}
	var cur atomic.Pointer[func()]
	f := d.make(&cur)
	before := string(mustJSON(rtFont(d.make(nil))))
	ops := ccSolo(d, ccOps(c.Rng, f, 14))
	var wr, rd []*ccOp
	for _, o := range ops {
		if o.write {
			wr = append(wr, o)
		} else {
			rd = append(rd, o)
		}
	}
	if len(wr) == 0 || len(rd) == 0 {
		return
	}
	n := len(ss)
	step := 1
	if n > ccBatch*4000 {
		step = 7919 // a prime
	}
	for i := ccBatch * c.Idx; i < ccBatch*(c.Idx+1); i++ {
		var x ccSched
		if err := json.Unmarshal(tlcUnquote(ss[i*step%n]), &x); err != nil {
			panic(err)
		}
		ccForce(c, d, f, &cur, wr, rd, &x)
		c.Alive()
	}
	after := string(mustJSON(rtFont(f)))
	c.Emit(vh.Rec{"t": "free", "died": "", "races": []string{}, "ops": [][]string{}, "res": [][]string{}, "solo": [][]string{},
		"before": rtDig(before), "after": rtDig(after)})
}

// ccFree is run in a process of its own: all operations start at the same
// time, before anything else has used the library.
func ccFree(seed uint64, how, ng, nops int) vh.Rec {
	d := ccFont{seed: seed, how: how}
	rng := rand.New(rand.NewPCG(seed, 17))
	f := d.make(nil)
	pool := ccOps(rng, f, 3+rng.IntN(8))
	ops := make([][]*ccOp, ng)
	res := make([][]string, ng)
	for g := range ops {
		for i := 0; i < nops; i++ {
			ops[g] = append(ops[g], pool[rng.IntN(len(pool))])
		}
		res[g] = make([]string, nops)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, o := range ops[g] {
				res[g][i] = o.do(f, func() {})
			}
		}()
	}
	close(start)
	wg.Wait()
	after := string(mustJSON(rtFont(f)))
	before := string(mustJSON(rtFont(d.make(nil))))
	stable := map[*ccOp]bool{}
	for _, o := range ccSolo(d, pool) {
		stable[o] = true
	}
	keys, out, solo := [][]string{}, [][]string{}, [][]string{}
	for g := range ops {
		k, r, s := []string{}, []string{}, []string{}
		for i, o := range ops[g] {
			if stable[o] {
				k, r, s = append(k, o.key), append(r, res[g][i]), append(s, o.solo)
			}
		}
		keys, out, solo = append(keys, k), append(out, r), append(solo, s)
	}
	return vh.Rec{"t": "free", "ops": keys, "res": out, "solo": solo, "before": rtDig(before), "after": rtDig(after), "died": "", "races": []string{}}
}

// ccChild is the main function of the process which runs ccFree.
func ccChild(args []string) {
	seed, _ := strconv.ParseUint(args[0], 10, 64)
	how, _ := strconv.Atoi(args[1])
	ng, _ := strconv.Atoi(args[2])
	nops, _ := strconv.Atoi(args[3])
	os.Stdout.Write(append([]byte("RESULT "), mustJSON(ccFree(seed, how, ng, nops))...))
}

var (
	ccRace  = regexp.MustCompile(`(?s)WARNING: DATA RACE\n(.*?)\n==================`)
	ccFrame = regexp.MustCompile(`(?m)^  (seehuhn\S+)\(`)
	ccDeath = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*)$`)
)

func ccRun(c *vh.Case) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	seed := c.Rng.Uint64()
	ng := 2 + c.Rng.IntN(7)
	nops := 1 + c.Rng.IntN(4)
	cmd := exec.Command(exe, "cc-child", strconv.FormatUint(seed, 10), strconv.Itoa(c.Idx), strconv.Itoa(ng), strconv.Itoa(nops))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=5", "GOMAXPROCS="+strconv.Itoa([]int{4, 2, 8, 3}[c.Rng.IntN(4)]))
	var out, errs strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !timer.Stop() {
		panic("c16: child process timed out")
	}
	rec := vh.Rec{}
	if s, ok := strings.CutPrefix(out.String(), "RESULT "); ok && err == nil {
		if err := json.Unmarshal([]byte(s), &rec); err != nil {
			panic(err)
		}
	} else {
		why := fmt.Sprint("error ", err)
		if m := ccDeath.FindString(errs.String()); m != "" {
			why = m
		}
		rec = vh.Rec{"t": "free", "died": why}
	}
	races := map[string]bool{}
	for _, m := range ccRace.FindAllStringSubmatch(errs.String(), -1) {
		var fr []string
		for _, q := range ccFrame.FindAllStringSubmatch(m[1], 3) {
			fr = append(fr, q[1])
		}
		races[strings.Join(fr, " / ")] = true
	}
	rr := []string{}
	for k := range races {
		rr = append(rr, k)
	}
	sort.Strings(rr)
	rec["races"] = rr
	c.Mark("%d goroutines", ng)
	c.Emit(rec)
}

func c16Families(env *vh.Env) []vh.Family {
	n := (len(env.TLCCases("schedules.ndjson")) + ccBatch - 1) / ccBatch
	return []vh.Family{
		{Name: "free", Quick: 320, Thor: 8000, Run: ccRun, MaxSec: 120},
		{Name: "forced", Quick: n, Thor: min(n, 4000), Run: ccForced, MaxSec: 60},
	}
}

var _ io.Writer = (*gateWriter)(nil)
