package main

import (
	"encoding/json"
	"fmt"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/testcases"

	"vharness/vh"
)

// runShaper applies the tables to the input and records the call.
func runShaper(c *vh.Case, fam string, sc *shCase) {
	ll, gd, lk := sc.toGtab()
	var out []shGlyph
	msg := ""
	done := make(chan struct{})
	go func() {
		defer close(done)
		msg = vh.Guard(func() { out = fromSeq(gtab.NewContext(ll, gd, lk).Apply(toSeq(sc.In))) })
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		msg = "shaping does not terminate"
	}
	rec := vh.Rec{"t": "apply", "fam": fam, "ll": sc.LL, "gd": sc.GD, "lk": sc.LK, "in": sc.In, "out": out}
	if msg != "" {
		rec["t"] = "panic"
		rec["msg"] = msg
		rec["out"] = []int{}
	}
	same := len(out) == len(sc.In)
	for i := range out {
		if same && fmt.Sprint(out[i]) != fmt.Sprint(sc.In[i]) {
			same = false
		}
	}
	c.Mark("%s changed=%v", fam, !same)
	for _, l := range sc.LL {
		for _, s := range l.Subs {
			c.Mark("kind %s", s.K)
		}
	}
	c.Emit(rec)
}

// raw parses a case written by TLC.
func tlcUnquote(m json.RawMessage) []byte {
	var s string
	if err := json.Unmarshal(m, &s); err == nil {
		return []byte(s)
	}
	return m
}

func c06Families(env *vh.Env) []vh.Family {
	mk := func(fam string, gpos, filt bool, seqs int) func(c *vh.Case) {
		return func(c *vh.Case) {
			rng := c.Rng
			g := &shGen{rng: rng, gpos: gpos, ng: 2 + rng.IntN(6), nl: 1 + rng.IntN(5), span: 60, back: rng.IntN(4) == 0, filt: filt}
			t := g.tables()
			for i := 0; i < seqs; i++ {
				runShaper(c, fam, &shCase{shTables: *t, In: g.seqFor(t, rng.IntN(9)+i%3)})
			}
		}
	}
	tlc := env.TLCCases("shaper.ndjson")
	fams := []vh.Family{
		{Name: "gsub", Quick: 14000, Thor: 200000, Run: mk("gsub", false, false, 4)},
		{Name: "gpos", Quick: 6000, Thor: 80000, Run: mk("gpos", true, false, 3)},
		{Name: "gsubflags", Quick: 6000, Thor: 100000, Run: mk("gsubflags", false, true, 3)},
		{Name: "gposflags", Quick: 3000, Thor: 40000, Run: mk("gposflags", true, true, 3)},
		{Name: "tlc", Quick: (len(tlc) + 49) / 50, Thor: (len(tlc) + 49) / 50, Run: func(c *vh.Case) {
			for i := c.Idx * 50; i < min(len(tlc), c.Idx*50+50); i++ {
				var sc shCase
				if err := json.Unmarshal(tlcUnquote(tlc[i]), &sc); err != nil {
					panic("bad TLC case: " + err.Error())
				}
				runShaper(c, "tlc", &sc)
			}
		}},
	}
	if fg, err := testcases.NewFontGen(); err == nil {
		fams = append(fams, vh.Family{Name: "doc", Quick: len(testcases.Gsub), Thor: len(testcases.Gsub), Serial: true, Run: func(c *vh.Case) {
			test := testcases.Gsub[c.Idx]
			info, err := fg.GsubTestFont(c.Idx)
			if err != nil {
				return
			}
			lk := info.Gsub.FindLookups(language.AmericanEnglish, nil)
			t, ok := fromGtab(info.Gsub.LookupList, info.Gdef, lk)
			if !ok {
				return
			}
			sc := &shCase{shTables: *t}
			for _, r := range test.In {
				sc.In = append(sc.In, shGlyph{G: int(fg.CMap.Lookup(r)), T: []int{int(r)}})
			}
			// the documented result
			var out []shGlyph
			text := test.Text
			if text == "" {
				text = test.In
			}
			for _, r := range test.Out {
				out = append(out, shGlyph{G: int(fg.CMap.Lookup(r)), T: []int{}})
			}
			tt := []int{}
			for _, r := range text {
				tt = append(tt, int(r))
			}
			restrict(&sc.shTables, sc.In)
			c.Emit(vh.Rec{"t": "doc", "fam": "doc", "name": test.Name, "ll": sc.LL, "gd": sc.GD, "lk": sc.LK, "in": sc.In, "out": nn(out), "text": tt})
			runShaper(c, "doc", sc)
		}})
	}
	return append(fams, c06FontFamilies(env)...)
}

var _ = glyph.ID(0)
