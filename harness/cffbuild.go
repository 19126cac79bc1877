package main

import (
	"encoding/binary"
	"math"

	"seehuhn.de/go/sfnt/cff"
)

// This file contains a small writer for CFF files, which is independent of
// the code under test.

func cffIdx(items [][]byte, offSize int) []byte {
	n := len(items)
	if n == 0 {
		return []byte{0, 0}
	}
	total := 1
	for _, x := range items {
		total += len(x)
	}
	for offSize < 4 && total >= 1<<(8*offSize) {
		offSize++
	}
	out := []byte{byte(n >> 8), byte(n), byte(offSize)}
	pos := 1
	put := func() {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(pos))
		out = append(out, b[4-offSize:]...)
	}
	put()
	for _, x := range items {
		pos += len(x)
		put()
	}
	for _, x := range items {
		out = append(out, x...)
	}
	return out
}

// dictInt5 encodes an integer with a fixed length.
func dictInt5(x int) []byte {
	return []byte{29, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

// dictNum encodes a number in one of the possible ways.
func dictNum(x float64, how int) []byte {
	if x == math.Trunc(x) && how%3 != 2 {
		v := int(x)
		switch {
		case how%3 == 0 && v >= -107 && v <= 107:
			return []byte{byte(v + 139)}
		case how%3 == 0 && v >= 108 && v <= 1131:
			v -= 108
			return []byte{byte(v>>8 + 247), byte(v)}
		case how%3 == 0 && v <= -108 && v >= -1131:
			v = -v - 108
			return []byte{byte(v>>8 + 251), byte(v)}
		case v >= -32768 && v <= 32767 && how%2 == 0:
			return []byte{28, byte(v >> 8), byte(v)}
		default:
			return dictInt5(v)
		}
	}
	// real number; multiples of 1/8 only
	s := []byte{}
	y := x
	if y < 0 {
		s = append(s, 0xe)
		y = -y
	}
	ip := int(y)
	for _, c := range itoa(ip) {
		s = append(s, byte(c-'0'))
	}
	if fr := y - float64(ip); fr != 0 {
		s = append(s, 0xa)
		for _, c := range pad(itoa(int(fr*100000)), 5) {
			s = append(s, byte(c-'0'))
		}
	}
	s = append(s, 0xf)
	if len(s)%2 == 1 {
		s = append(s, 0xf)
	}
	out := []byte{30}
	for i := 0; i < len(s); i += 2 {
		out = append(out, s[i]<<4|s[i+1])
	}
	return out
}

func itoa(x int) string {
	if x == 0 {
		return "0"
	}
	var s []byte
	for x > 0 {
		s = append([]byte{byte('0' + x%10)}, s...)
		x /= 10
	}
	return string(s)
}

func pad(s string, n int) string {
	for len(s) < n {
		s = "0" + s
	}
	return s
}

type t2Subr struct {
	I int   `json:"i"`
	C []int `json:"c"`
}

// t2FD is a font DICT, with its private DICT and local subroutines.
type t2FD struct {
	LS  []t2Subr `json:"ls"`
	NL  int      `json:"nl"`
	DW  int      `json:"dw"` // scaled by 65536, multiples of 8192
	NWI int      `json:"nwi"`
	NWF int      `json:"nwf"`
	// encoding choices
	How int `json:"-"`
	Gap int `json:"-"`
}

type t2Glyph struct {
	Main []int `json:"main"`
	FD   int   `json:"fd"` // 1-based
}

type t2Font struct {
	GS     []t2Subr  `json:"gs"`
	NG     int       `json:"ng"`
	FDs    []t2FD    `json:"fds"`
	Glyphs []t2Glyph `json:"glyphs"`
	CID    bool      `json:"cid"`

	OffSize  int `json:"-"`
	FDSelect int `json:"-"` // format
	Order    int `json:"-"` // placement of the sections
}

func toBytes(x []int) []byte {
	res := make([]byte, len(x))
	for i, v := range x {
		res[i] = byte(v)
	}
	return res
}

func subrIndex(n int, subs []t2Subr, offSize int) []byte {
	items := make([][]byte, n)
	filler := []byte{11}
	for i := range items {
		items[i] = filler
	}
	for k := len(subs) - 1; k >= 0; k-- {
		items[subs[k].I] = toBytes(subs[k].C)
	}
	return cffIdx(items, offSize)
}

// build assembles the CFF file.
func (f *t2Font) build() []byte {
	osz := max(1, f.OffSize)
	var out []byte
	out = append(out, 1, 0, 4, 4)
	out = append(out, cffIdx([][]byte{[]byte("Test")}, osz)...)
	var strs [][]byte
	if f.CID {
		strs = [][]byte{[]byte("Adobe"), []byte("Identity")}
	}
	gsubrs := subrIndex(f.NG, f.GS, osz)

	ncs := len(f.Glyphs)
	charstrings := make([][]byte, ncs)
	for i, g := range f.Glyphs {
		charstrings[i] = toBytes(g.Main)
	}
	csIdx := cffIdx(charstrings, osz)

	// the top DICT has a fixed length, so that offsets can be computed
	top := func(offCS, offPriv, lenPriv, offFDA, offFDS, offCharset int) []byte {
		var d []byte
		if f.CID {
			d = append(d, 28, 391>>8, 391&255, 28, 392>>8, 392&255, 139, 12, 30) // ROS
		}
		d = append(d, dictInt5(offCS)...)
		d = append(d, 17)
		if f.CID {
			d = append(d, dictInt5(offCharset)...)
			d = append(d, 15)
			d = append(d, dictInt5(offFDA)...)
			d = append(d, 12, 36)
			d = append(d, dictInt5(offFDS)...)
			d = append(d, 12, 37)
		} else {
			d = append(d, dictInt5(lenPriv)...)
			d = append(d, dictInt5(offPriv)...)
			d = append(d, 18)
		}
		return cffIdx([][]byte{d}, osz)
	}
	base := len(out) + len(top(0, 0, 0, 0, 0, 0)) + len(cffIdx(strs, osz)) + len(gsubrs)

	// everything after the global subrs
	var tail []byte
	off := func() int { return base + len(tail) }

	var offCS, offCharset, offFDS, offFDA int
	privOff := make([]int, len(f.FDs))
	privLen := make([]int, len(f.FDs))
	putCS := func() {
		offCS = off()
		tail = append(tail, csIdx...)
	}
	putPriv := func() {
		for i, fd := range f.FDs {
			sub := subrIndex(fd.NL, fd.LS, osz)
			mk := func(subrOff int) []byte {
				var d []byte
				if fd.DW != 0 || fd.How&8 != 0 {
					d = append(d, dictNum(float64(fd.DW)/65536, fd.How)...)
					d = append(d, 20)
				}
				if fd.NWI != 0 || fd.NWF != 0 || fd.How&16 != 0 {
					d = append(d, dictNum(float64(fd.NWI)+float64(fd.NWF)/65536, fd.How/3)...)
					d = append(d, 21)
				}
				if fd.NL > 0 {
					d = append(d, dictInt5(subrOff)...)
					d = append(d, 19)
				}
				return d
			}
			n := len(mk(0))
			privOff[i], privLen[i] = off(), n
			tail = append(tail, mk(n+fd.Gap)...)
			for k := 0; k < fd.Gap; k++ {
				tail = append(tail, 0xEE)
			}
			if fd.NL > 0 {
				tail = append(tail, sub...)
			}
		}
	}
	if f.Order&1 == 0 {
		putCS()
		putPriv()
	} else {
		putPriv()
		putCS()
	}
	if f.CID {
		offCharset = off()
		n := ncs - 1
		if n > 0 {
			tail = append(tail, 2, 0, 1, byte((n-1)>>8), byte(n-1))
		} else {
			tail = append(tail, 0)
		}
		offFDS = off()
		if f.FDSelect == 0 {
			tail = append(tail, 0)
			for _, g := range f.Glyphs {
				tail = append(tail, byte(g.FD-1))
			}
		} else {
			var rr []byte
			nr := 0
			for i, g := range f.Glyphs {
				if i == 0 || f.Glyphs[i-1].FD != g.FD {
					rr = append(rr, byte(i>>8), byte(i), byte(g.FD-1))
					nr++
				}
			}
			tail = append(tail, 3, byte(nr>>8), byte(nr))
			tail = append(tail, rr...)
			tail = append(tail, byte(ncs>>8), byte(ncs))
		}
		offFDA = off()
		var dd [][]byte
		for i := range f.FDs {
			d := append(dictInt5(privLen[i]), dictInt5(privOff[i])...)
			dd = append(dd, append(d, 18))
		}
		tail = append(tail, cffIdx(dd, osz)...)
	}
	out = append(out, top(offCS, privOff[0], privLen[0], offFDA, offFDS, offCharset)...)
	out = append(out, cffIdx(strs, osz)...)
	out = append(out, gsubrs...)
	out = append(out, tail...)
	return out
}

// scaled converts a number to 16.16 fixed point.
func scaled(x float64) (int, bool) {
	y := x * 65536
	if y != math.Trunc(y) || math.Abs(y) >= 1<<31-1 {
		return 1<<31 - 1, false
	}
	return int(y), true
}

func scaledSlice(x []float64) []int {
	res := make([]int, len(x))
	for i, v := range x {
		res[i], _ = scaled(v)
	}
	return res
}

// recGlyph converts a glyph as returned by the code under test.
func recGlyph(g *cff.Glyph) map[string]any {
	cmds := make([][]int, len(g.Cmds))
	for i, c := range g.Cmds {
		switch c.Op {
		case cff.OpMoveTo:
			cmds[i] = append([]int{0}, scaledSlice(c.Args)...)
		case cff.OpLineTo:
			cmds[i] = append([]int{1}, scaledSlice(c.Args)...)
		case cff.OpCurveTo:
			cmds[i] = append([]int{2}, scaledSlice(c.Args)...)
		case cff.OpHintMask, cff.OpCntrMask:
			cmds[i] = []int{3}
			if c.Op == cff.OpCntrMask {
				cmds[i][0] = 4
			}
			for _, b := range c.Args {
				cmds[i] = append(cmds[i], int(b))
			}
		default:
			cmds[i] = []int{99}
		}
	}
	w, _ := scaled(g.Width)
	return map[string]any{"cmds": cmds, "h": scaledSlice(g.HStem), "v": scaledSlice(g.VStem), "w": w}
}
