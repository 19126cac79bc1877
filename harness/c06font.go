package main

import (
	"bytes"
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"vharness/vh"
)

// corpusFiles lists the font files present in the sandbox.
func corpusFiles() []string {
	var res []string
	pats := []string{
		"/usr/share/fonts/truetype/dejavu/*.ttf",
		"/root/go/pkg/mod/golang.org/x/image@v0.18.0/font/testdata/*.ttf",
		"/root/go/pkg/mod/golang.org/x/image@v0.18.0/font/testdata/*.otf",
	}
	for _, p := range pats {
		m, _ := filepath.Glob(p)
		res = append(res, m...)
	}
	filepath.WalkDir("/root/go/pkg/mod/github.com", func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() && (strings.HasSuffix(p, ".ttf") || strings.HasSuffix(p, ".otf")) {
			res = append(res, p)
		}
		return nil
	})
	sort.Strings(res)
	return res
}

type corpusFont struct {
	name string
	data []byte
	font *sfnt.Font
}

var corpus = sync.OnceValue(func() []*corpusFont {
	var res []*corpusFont
	for _, f := range corpusFiles() {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		font, err := sfnt.Read(bytes.NewReader(data))
		if err != nil {
			continue
		}
		res = append(res, &corpusFont{filepath.Base(f), data, font})
	}
	return res
})

// restrict removes everything from the tables which mentions glyphs that can
// not occur when shaping the given input.  This does not change the result.
func restrict(t *shTables, in []shGlyph) {
	rel := map[int]bool{}
	for _, g := range in {
		rel[g.G] = true
	}
	// reachable lookups
	used := map[int]bool{}
	var visit func(i int)
	eachRule := func(s *shSub, f func(r *shRule)) {
		for i := range s.Rules {
			for j := range s.Rules[i] {
				f(&s.Rules[i][j])
			}
		}
	}
	visit = func(i int) {
		if i >= len(t.LL) || used[i] {
			return
		}
		used[i] = true
		for k := range t.LL[i].Subs {
			eachRule(&t.LL[i].Subs[k], func(r *shRule) {
				for _, a := range r.Act {
					visit(a[1])
				}
			})
		}
	}
	for _, i := range t.LK {
		visit(i)
	}
	for i := range t.LL {
		if !used[i] {
			t.LL[i].Subs = []shSub{}
		}
	}
	// closure
	for changed := true; changed; {
		changed = false
		add := func(g int) {
			if !rel[g] {
				rel[g] = true
				changed = true
			}
		}
		for i := range t.LL {
			for k := range t.LL[i].Subs {
				s := &t.LL[i].Subs[k]
				for j, g := range s.Cov {
					if !rel[g] {
						continue
					}
					switch s.K {
					case "s1d":
						add((g + s.D) % 65536)
					case "s1", "s8":
						add(s.Sub[j])
					case "s2", "s3":
						for _, x := range s.Rep[j] {
							add(x)
						}
					case "s4":
						for _, l := range s.Ligs[j] {
							ok := true
							for _, x := range l.Inp {
								ok = ok && rel[x]
							}
							if ok {
								add(l.Out)
							}
						}
					}
				}
			}
		}
	}
	set := func(x []int) []int {
		res := []int{}
		for _, g := range x {
			if rel[g] {
				res = append(res, g)
			}
		}
		return res
	}
	cls := func(x [][2]int) [][2]int {
		res := [][2]int{}
		for _, g := range x {
			if rel[g[0]] {
				res = append(res, g)
			}
		}
		return res
	}
	sets := func(x []json.RawMessage) []json.RawMessage {
		res := []json.RawMessage{}
		for _, m := range x {
			var s []int
			json.Unmarshal(m, &s)
			res = append(res, raws([][]int{set(s)})[0])
		}
		return res
	}
	for i := range t.LL {
		for k := range t.LL[i].Subs {
			s := &t.LL[i].Subs[k]
			n := shSub{K: s.K, Ch: s.Ch, Fmt: s.Fmt, D: s.D}
			for j, g := range s.Cov {
				if !rel[g] {
					continue
				}
				n.Cov = append(n.Cov, g)
				switch s.K {
				case "s1", "s8":
					n.Sub = append(n.Sub, s.Sub[j])
				case "s2", "s3":
					n.Rep = append(n.Rep, s.Rep[j])
				case "s4":
					ll := []shLig{}
					for _, l := range s.Ligs[j] {
						if len(set(l.Inp)) == len(l.Inp) {
							ll = append(ll, l)
						}
					}
					n.Ligs = append(n.Ligs, ll)
				case "ctx1":
					if j < len(s.Rules) {
						n.Rules = append(n.Rules, s.Rules[j])
					}
				case "p1":
					n.Val = append(n.Val, s.Val[j])
				case "p3":
					n.Recs = append(n.Recs, s.Recs[j])
				}
			}
			for _, b := range s.Back {
				n.Back = append(n.Back, set(b))
			}
			for _, b := range s.Look {
				n.Look = append(n.Look, set(b))
			}
			switch s.K {
			case "ctx1":
				for x := range n.Rules {
					rr := []shRule{}
					for _, r := range n.Rules[x] {
						if len(set(rawInts(r.Inp))) == len(r.Inp) && len(set(rawInts(r.Back))) == len(r.Back) && len(set(rawInts(r.Look))) == len(r.Look) {
							rr = append(rr, r)
						}
					}
					n.Rules[x] = rr
				}
			case "ctx2":
				n.Rules = s.Rules
				n.CDs = shCDs{cls(s.CDs.Inp), cls(s.CDs.Back), cls(s.CDs.Look)}
			case "ctx3":
				r := s.Rules[0][0]
				n.Rules = [][]shRule{{{sets(r.Inp), sets(r.Back), sets(r.Look), r.Act}}}
			}
			for _, p := range s.Pairs {
				if rel[p.L] && rel[p.R] {
					n.Pairs = append(n.Pairs, p)
				}
			}
			n.C1, n.C2, n.Adj = cls(s.C1), cls(s.C2), s.Adj
			if s.K == "p2c" {
				// drop the unused rows and columns at the end
				n1, n2 := 0, 0
				for _, g := range n.C1 {
					n1 = max(n1, g[1])
				}
				for _, g := range n.C2 {
					n2 = max(n2, g[1])
				}
				n.Adj = nil
				for x := 0; x <= n1 && x < len(s.Adj); x++ {
					n.Adj = append(n.Adj, s.Adj[x][:min(len(s.Adj[x]), n2+1)])
				}
			}
			for j, g := range s.Mcov {
				if rel[g] {
					n.Mcov = append(n.Mcov, g)
					n.Marks = append(n.Marks, s.Marks[j])
				}
			}
			for j, g := range s.Bcov {
				if rel[g] {
					n.Bcov = append(n.Bcov, g)
					n.Bases = append(n.Bases, s.Bases[j])
				}
			}
			t.LL[i].Subs[k] = n
		}
		// subtables which can never apply
		var keep []shSub
		for _, s := range t.LL[i].Subs {
			dead := len(s.Cov) == 0 && len(s.Pairs) == 0 && (len(s.Mcov) == 0 || len(s.Bcov) == 0)
			if !dead {
				keep = append(keep, s)
			}
		}
		t.LL[i].Subs = nn(keep)
	}
	t.GD.Cls, t.GD.Mac = cls(t.GD.Cls), cls(t.GD.Mac)
	for i := range t.GD.Sets {
		t.GD.Sets[i] = set(t.GD.Sets[i])
	}
}

// renumber removes the lookups which can not be reached, keeping the order.
func (t *shTables) size() int {
	b, _ := json.Marshal(t)
	return len(b)
}

var fontTexts = []string{
	"affine fi ffl office", "AVATAR To, Te. Wy", "e\u0301a\u0300\u0323o\u0308\u0304", "1/2 3rd 0123", "Straße ĳ ǆ",
	"\u0645\u0631\u062d\u0628\u0627", "\u0627\u0644\u0644\u0647", "\u0644\u0627 \u0644\u0622", "\u05e9\u05c1\u05dc\u05d5\u05b9\u05dd", "i\u0307\u0301 j\u0301 \u0131\u0308",
	"\u0e01\u0e33\u0e35\u0e48", "fj fk fb fh ff", "LT VA P. r, 11", "x\u0302\u0303\u0331\u0330y", "\u0628\u064e\u0651\u0645\u064f",
}

func c06FontFamilies(env *vh.Env) []vh.Family {
	run := func(c *vh.Case) {
		fonts := corpus()
		if len(fonts) == 0 {
			return
		}
		rng := c.Rng
		f := fonts[rng.IntN(len(fonts))]
		cm, err := f.font.CMapTable.GetBest()
		if err != nil {
			return
		}
		s := []rune(fontTexts[rng.IntN(len(fontTexts))])
		if rng.IntN(2) == 0 {
			// mutate the text
			o := []rune(fontTexts[rng.IntN(len(fontTexts))])
			for k := 0; k < 3; k++ {
				s[rng.IntN(len(s))] = o[rng.IntN(len(o))]
			}
		}
		if len(s) > 12 {
			a := rng.IntN(len(s) - 8)
			s = s[a : a+8]
		}
		var in []shGlyph
		for i, r := range s {
			in = append(in, shGlyph{G: int(cm.Lookup(r)), T: []int{1000 + i}})
		}
		for pass := 0; pass < 2; pass++ {
			info := f.font.Gsub
			name := "fontgsub"
			if pass == 1 {
				info = f.font.Gpos
				name = "fontgpos"
			}
			if info == nil {
				continue
			}
			// a random selection of the font's lookups
			var lk []gtab.LookupIndex
			if rng.IntN(2) == 0 {
				lk = info.FindLookups([]language.Tag{language.English, language.Arabic, language.Hebrew, language.Und}[rng.IntN(4)], nil)
			} else {
				for i := range info.LookupList {
					if rng.IntN(3) == 0 {
						lk = append(lk, gtab.LookupIndex(i))
					}
				}
			}
			t, ok := fromGtab(info.LookupList, f.font.Gdef, lk)
			if !ok {
				continue
			}
			if pass == 1 {
				for i := range in {
					if !f.font.Gdef.IsMark(toSeq(in)[i].GID) {
						in[i].W = int(f.font.GlyphWidth(toSeq(in)[i].GID))
					}
				}
			}
			// the real tables are applied, the restricted ones recorded
			var out []shGlyph
			msg := vh.Guard(func() { out = fromSeq(gtab.NewContext(info.LookupList, f.font.Gdef, lk).Apply(toSeq(in))) })
			restrict(t, in)
			if t.size() > 60000 {
				c.Mark("font case too large")
				continue
			}
			rec := vh.Rec{"t": "apply", "fam": name, "font": f.name, "ll": t.LL, "gd": t.GD, "lk": t.LK, "in": in, "out": out}
			if msg != "" {
				rec["t"], rec["msg"], rec["out"] = "panic", msg, []int{}
			}
			c.Mark("font %s", f.name)
			c.Emit(rec)
			if pass == 0 {
				in = append([]shGlyph(nil), out...)
			}
		}
	}
	return []vh.Family{{Name: "font", Quick: 600, Thor: 12000, Run: run}}
}
