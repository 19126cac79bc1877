package main

import (
	"math/rand/v2"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

var layoutTags = []string{"und-Zzzz-x-dflt", "und-Latn-x-latn", "de-Latn-x-latn-deu", "en-Latn-x-latn-eng", "und-Cyrl-x-cyrl", "ru-Cyrl-x-cyrl-rus", "und-Arab-x-arab", "und-Grek-x-grek"}
var layoutFeatures = []string{"liga", "kern", "calt", "mark", "smcp", "ss01", "ccmp", "dlig", "zero", "test"}

// genInfo generates a layout table for glyphs 1..ng.
func genInfo(rng *rand.Rand, g *shGen) *gtab.Info {
	t := g.tables()
	return infoFor(rng, t)
}

func infoFor(rng *rand.Rand, t *shTables) *gtab.Info {
	gpos := t.gpos()
	for i := range t.LL { // all subtables of a lookup have the same type
		l := &t.LL[i]
		var keep []shSub
		for _, s := range l.Subs {
			if s.subType(gpos) == l.Subs[0].subType(gpos) {
				keep = append(keep, s)
			}
		}
		l.Subs = keep
	}
	ll, _, _ := t.toGtab()
	return infoWith(rng, ll)
}

// infoWith adds features and scripts to a lookup list.
func infoWith(rng *rand.Rand, ll gtab.LookupList) *gtab.Info {
	info := &gtab.Info{LookupList: ll, ScriptList: gtab.ScriptListInfo{}}
	nf := 1 + rng.IntN(5)
	for i := 0; i < nf; i++ {
		f := &gtab.Feature{Tag: pick(rng, layoutFeatures)}
		for j := range ll {
			if rng.IntN(2) == 0 {
				f.Lookups = append(f.Lookups, gtab.LookupIndex(j))
			}
		}
		if rng.IntN(3) == 0 {
			rng.Shuffle(len(f.Lookups), func(i, j int) { f.Lookups[i], f.Lookups[j] = f.Lookups[j], f.Lookups[i] })
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	for n := 1 + rng.IntN(4); n > 0; n-- {
		ff := &gtab.Features{Required: 0xFFFF}
		if rng.IntN(3) == 0 {
			ff.Required = gtab.FeatureIndex(rng.IntN(nf))
		}
		for i := 0; i < nf; i++ {
			if rng.IntN(2) == 0 {
				ff.Optional = append(ff.Optional, gtab.FeatureIndex(i))
			}
		}
		info.ScriptList[language.MustParse(pick(rng, layoutTags))] = ff
	}
	return info
}

// addLayout adds GSUB, GPOS and GDEF tables to a font.
func addLayout(rng *rand.Rand, f *sfnt.Font) {
	ng := f.NumGlyphs() - 1
	if ng < 1 {
		return
	}
	g := &shGen{rng: rng, ng: min(ng, 30), nl: 1 + rng.IntN(4), span: 100}
	var gd *shGdef
	if rng.IntN(4) > 0 {
		t := g.tables()
		gd = &t.GD
		f.Gsub = infoFor(rng, t)
	}
	if rng.IntN(4) > 0 {
		g.gpos = true
		g.nl = 1 + rng.IntN(4)
		t := g.tables()
		if gd == nil {
			gd = &t.GD
		}
		f.Gpos = infoFor(rng, t)
	}
	if gd != nil {
		f.Gdef = gd.toGtab()
	}
}
