package main

import (
	"fmt"
	"sort"
)

// rawSys is one language system of a script list in binary form.
type rawSys struct {
	Script   string
	Lang     string // "" for the default language system
	Required int
	Optional []int
}

type byteBuf []byte

func (b *byteBuf) u16(x ...int) {
	for _, v := range x {
		*b = append(*b, byte(v>>8), byte(v))
	}
}

func (b *byteBuf) u32(x ...int) {
	for _, v := range x {
		*b = append(*b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
}

func (b *byteBuf) put(p, v int) {
	(*b)[p] = byte(v >> 8)
	(*b)[p+1] = byte(v)
}

// rawScriptList encodes language systems.
func rawScriptList(ss []rawSys) []byte {
	by := map[string][]rawSys{}
	var scripts []string
	for _, s := range ss {
		if by[s.Script] == nil {
			scripts = append(scripts, s.Script)
		}
		by[s.Script] = append(by[s.Script], s)
	}
	sort.Strings(scripts)
	var b byteBuf
	b.u16(len(scripts))
	for _, s := range scripts {
		b = append(b, s...)
		b.u16(0)
	}
	for i, s := range scripts {
		pos := len(b)
		b.put(2+6*i+4, pos)
		ll := by[s]
		sort.Slice(ll, func(i, j int) bool { return ll[i].Lang < ll[j].Lang })
		n := len(ll)
		if ll[0].Lang == "" {
			n--
		}
		b.u16(0, n)
		at := map[int]int{}
		for j, l := range ll {
			if l.Lang == "" {
				at[j] = pos
				continue
			}
			b = append(b, l.Lang...)
			at[j] = len(b)
			b.u16(0)
		}
		for j, l := range ll {
			b.put(at[j], len(b)-pos)
			b.u16(0, l.Required, len(l.Optional))
			b.u16(l.Optional...)
		}
	}
	return b
}

// rawGtab encodes a layout table with the given parts.
func rawGtab(scripts, features, lookups []byte) []byte {
	var b byteBuf
	b.u16(1, 0, 10, 10+len(scripts), 10+len(scripts)+len(features))
	b = append(b, scripts...)
	b = append(b, features...)
	return append(b, lookups...)
}

// rawFeatures encodes features; each is a tag and a list of lookups.
func rawFeatures(tags []string, lookups [][]int) []byte {
	var b byteBuf
	b.u16(len(tags))
	for _, t := range tags {
		b = append(b, t...)
		b.u16(0)
	}
	for i := range tags {
		b.put(2+6*i+4, len(b))
		b.u16(0, len(lookups[i]))
		b.u16(lookups[i]...)
	}
	return b
}

// parseScripts decodes the script list of a layout table.
func parseScripts(d []byte) (res []rawSys, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("script list: %v", r)
		}
	}()
	u := func(p int) int { return int(d[p])<<8 | int(d[p+1]) }
	sl := u(4)
	sys := func(p int, script, lang string) {
		s := rawSys{Script: script, Lang: lang, Required: u(p + 2), Optional: []int{}}
		for i := 0; i < u(p+4); i++ {
			s.Optional = append(s.Optional, u(p+6+2*i))
		}
		res = append(res, s)
	}
	for i := 0; i < u(sl); i++ {
		p := sl + 2 + 6*i
		tag := string(d[p : p+4])
		q := sl + u(p+4)
		if u(q) != 0 {
			sys(q+u(q), tag, "")
		}
		for j := 0; j < u(q+2); j++ {
			r := q + 4 + 6*j
			sys(q+u(r+4), tag, string(d[r:r+4]))
		}
	}
	return res, nil
}
