package main

import (
	"errors"
	"fmt"
	"math"
	"strconv"
)

// An independent parser for the parts of CFF files which the checks need.

var errCFF = errors.New("malformed CFF")

type cffParsed struct {
	Major, Minor int
	Names        [][]byte
	Top          map[int][]float64
	Strings      [][]byte
	GSubrs       [][]byte
	CharStrings  [][]byte
	CID          bool
	FDs          []cffFD
	FDSel        []int // per glyph, 0-based
	Charset      []int // SID or CID per glyph; nil for predefined
	CharsetID    int
	EncodingOffs int
	Data         []byte
	Spans        [][2]int // byte ranges used
}

type cffFD struct {
	Dict    map[int][]float64
	Private map[int][]float64
	Subrs   [][]byte
}

func (p *cffParsed) index(pos int) (items [][]byte, end int) {
	d := p.Data
	start := pos
	if pos < 0 || pos+2 > len(d) {
		panic(errCFF)
	}
	n := int(d[pos])<<8 | int(d[pos+1])
	pos += 2
	if n == 0 {
		p.Spans = append(p.Spans, [2]int{start, pos})
		return nil, pos
	}
	osz := int(d[pos])
	pos++
	if osz < 1 || osz > 4 || pos+(n+1)*osz > len(d) {
		panic(errCFF)
	}
	offs := make([]int, n+1)
	for i := range offs {
		for k := 0; k < osz; k++ {
			offs[i] = offs[i]<<8 | int(d[pos])
			pos++
		}
	}
	base := pos - 1
	if offs[0] != 1 || base+offs[n] > len(d) {
		panic(errCFF)
	}
	for i := 0; i < n; i++ {
		if offs[i+1] < offs[i] {
			panic(errCFF)
		}
		items = append(items, d[base+offs[i]:base+offs[i+1]])
	}
	p.Spans = append(p.Spans, [2]int{start, base + offs[n]})
	return items, base + offs[n]
}

func cffDict(d []byte) map[int][]float64 {
	res := map[int][]float64{}
	var st []float64
	for i := 0; i < len(d); {
		b := int(d[i])
		switch {
		case b == 12:
			res[1200+int(d[i+1])] = st
			st = nil
			i += 2
		case b <= 21:
			res[b] = st
			st = nil
			i++
		case b == 28:
			st = append(st, float64(int16(uint16(d[i+1])<<8|uint16(d[i+2]))))
			i += 3
		case b == 29:
			st = append(st, float64(int32(uint32(d[i+1])<<24|uint32(d[i+2])<<16|uint32(d[i+3])<<8|uint32(d[i+4]))))
			i += 5
		case b == 30:
			i++
			s := ""
			for done := false; !done; i++ {
				for _, nb := range []byte{d[i] >> 4, d[i] & 15} {
					if done {
						break
					}
					switch {
					case nb < 10:
						s += string('0' + rune(nb))
					case nb == 10:
						s += "."
					case nb == 11:
						s += "e"
					case nb == 12:
						s += "e-"
					case nb == 14:
						s += "-"
					case nb == 15:
						done = true
					default:
						panic(errCFF)
					}
				}
			}
			x, err := strconv.ParseFloat(s, 64)
			if err != nil {
				panic(errCFF)
			}
			st = append(st, x)
		case b >= 32 && b <= 246:
			st = append(st, float64(b-139))
			i++
		case b >= 247 && b <= 250:
			st = append(st, float64((b-247)*256+int(d[i+1])+108))
			i += 2
		case b >= 251 && b <= 254:
			st = append(st, float64(-(b-251)*256-int(d[i+1])-108))
			i += 2
		default:
			panic(errCFF)
		}
	}
	if len(st) > 0 {
		panic(errCFF)
	}
	return res
}

func dInt(d map[int][]float64, op int, def int) int {
	if v, ok := d[op]; ok && len(v) == 1 {
		return int(v[0])
	}
	return def
}

func parseCFF(data []byte) (p *cffParsed, err error) {
	defer func() {
		if r := recover(); r != nil {
			p, err = nil, fmt.Errorf("CFF parser: %v", r)
		}
	}()
	p = &cffParsed{Data: data, Major: int(data[0]), Minor: int(data[1])}
	if p.Major != 1 || data[3] < 1 || data[3] > 4 {
		panic(errCFF)
	}
	hdr := int(data[2])
	p.Spans = append(p.Spans, [2]int{0, hdr})
	var tops [][]byte
	var pos int
	p.Names, pos = p.index(hdr)
	tops, pos = p.index(pos)
	p.Strings, pos = p.index(pos)
	p.GSubrs, _ = p.index(pos)
	if len(p.Names) != 1 || len(tops) != 1 {
		panic(errCFF)
	}
	p.Top = cffDict(tops[0])
	p.CharStrings, _ = p.index(dInt(p.Top, 17, 0))
	n := len(p.CharStrings)
	_, p.CID = p.Top[1230]
	private := func(d map[int][]float64) cffFD {
		fd := cffFD{Dict: d}
		pr := d[18]
		if len(pr) != 2 {
			panic(errCFF)
		}
		a, b := int(pr[1]), int(pr[1]+pr[0])
		if a < 0 || b > len(data) || b < a {
			panic(errCFF)
		}
		p.Spans = append(p.Spans, [2]int{a, b})
		fd.Private = cffDict(data[a:b])
		if s := dInt(fd.Private, 19, 0); s > 0 {
			fd.Subrs, _ = p.index(a + s)
		}
		return fd
	}
	p.FDSel = make([]int, n)
	if p.CID {
		fds, _ := p.index(dInt(p.Top, 1236, 0))
		for _, b := range fds {
			p.FDs = append(p.FDs, private(cffDict(b)))
		}
		o := dInt(p.Top, 1237, 0)
		switch data[o] {
		case 0:
			for i := range p.FDSel {
				p.FDSel[i] = int(data[o+1+i])
			}
			p.Spans = append(p.Spans, [2]int{o, o + 1 + n})
		case 3:
			nr := int(data[o+1])<<8 | int(data[o+2])
			q := o + 3
			for r := 0; r < nr; r++ {
				first := int(data[q])<<8 | int(data[q+1])
				fd := int(data[q+2])
				next := int(data[q+3])<<8 | int(data[q+4])
				if r == 0 && first != 0 || next <= first || next > n || r == nr-1 && next != n {
					panic(errCFF)
				}
				for g := first; g < next; g++ {
					p.FDSel[g] = fd
				}
				q += 3
			}
			p.Spans = append(p.Spans, [2]int{o, q + 2})
		default:
			panic(errCFF)
		}
		for _, f := range p.FDSel {
			if f >= len(p.FDs) {
				panic(errCFF)
			}
		}
	} else {
		p.FDs = []cffFD{private(p.Top)}
	}
	p.CharsetID = dInt(p.Top, 15, 0)
	if p.CharsetID > 2 {
		q := p.CharsetID
		start := q
		f := data[q]
		q++
		p.Charset = []int{0}
		for len(p.Charset) < n {
			first := int(data[q])<<8 | int(data[q+1])
			q += 2
			left := 0
			switch f {
			case 0:
			case 1:
				left = int(data[q])
				q++
			case 2:
				left = int(data[q])<<8 | int(data[q+1])
				q += 2
			default:
				panic(errCFF)
			}
			for k := 0; k <= left; k++ {
				p.Charset = append(p.Charset, first+k)
			}
		}
		if len(p.Charset) != n {
			panic(errCFF)
		}
		p.Spans = append(p.Spans, [2]int{start, q})
	}
	p.EncodingOffs = dInt(p.Top, 16, 0)
	return p, nil
}

func denseSubrs(ss [][]byte) []t2Subr {
	res := []t2Subr{}
	for i, s := range ss {
		res = append(res, t2Subr{i, bytesInts(s)})
	}
	return res
}

func bytesInts(b []byte) []int {
	res := make([]int, len(b))
	for i, x := range b {
		res[i] = int(x)
	}
	return res
}

func scaledRound(x float64) int {
	y := math.Round(x * 65536)
	if math.Abs(y) > 1<<31-2 || y != y {
		return 1<<31 - 1
	}
	return int(y)
}

// splitFix returns the integer part and the fraction of a 16.16 number.
func splitFix(x float64) (int, int) {
	y := math.Round(x * 65536)
	i := math.Floor(y / 65536)
	return int(i), int(y - i*65536)
}
