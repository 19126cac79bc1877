package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand/v2"

	"seehuhn.de/go/sfnt/parser"

	"vharness/vh"
)

// shortReader is a ReadSeekSizer which returns short reads.
type shortReader struct {
	r    *bytes.Reader
	rng  *rand.Rand
	mode int
}

func (s *shortReader) Size() int64 { return s.r.Size() }

func (s *shortReader) Seek(off int64, whence int) (int64, error) { return s.r.Seek(off, whence) }

func (s *shortReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	switch s.mode {
	case 1: // one byte at a time
		return s.r.Read(p[:1])
	case 2: // random short reads
		return s.r.Read(p[:1+s.rng.IntN(len(p))])
	case 3: // data together with EOF
		n, err := s.r.Read(p)
		if err == nil && s.r.Len() == 0 {
			err = io.EOF
		}
		return n, err
	case 4: // short reads, data together with EOF
		n, err := s.r.Read(p[:1+s.rng.IntN(min(len(p), 700))])
		if err == nil && s.r.Len() == 0 {
			err = io.EOF
		}
		return n, err
	case 5: // occasional empty reads
		if s.rng.IntN(3) == 0 {
			return 0, nil
		}
		return s.r.Read(p[:1+s.rng.IntN(len(p))])
	default:
		return s.r.Read(p)
	}
}

type bvOp struct {
	Op  string `json:"op"`
	Arg int    `json:"arg"`
}

func bvPattern(seed, n int) []byte {
	res := make([]byte, n)
	for i := range res {
		res[i] = byte(((i*i)/7 + 13*i + 31*seed + i/256) % 256)
	}
	return res
}

func bvSession(c *vh.Case, data []byte, explicit bool, seed, mode int, next func(i int, pos int64) (bvOp, bool)) {
	open := vh.Rec{"t": "open", "n": len(data), "seed": seed, "d": []int{}, "mode": mode}
	if explicit {
		open["d"] = vh.Ints(data)
	}
	c.Emit(open)

	orig := append([]byte(nil), data...)
	var rd parser.ReadSeekSizer
	switch mode {
	case 0:
		rd = bytes.NewReader(data)
	case 6:
		// a section in the middle of a larger file
		big := append(append([]byte{0xAA, 0x55, 0xAA}, data...), 0x11, 0x22, 0x33, 0x44)
		rd = io.NewSectionReader(bytes.NewReader(big), 3, int64(len(data)))
	default:
		rd = &shortReader{r: bytes.NewReader(data), rng: c.Rng, mode: mode}
	}
	p := parser.New(rd)
	for i := 0; ; i++ {
		op, ok := next(i, p.Pos())
		if !ok {
			break
		}
		rec := vh.Rec{"t": "op", "op": op.Op, "arg": op.Arg}
		var val []int
		var err error
		msg := vh.Guard(func() {
			switch op.Op {
			case "seek":
				err = p.SeekPos(int64(op.Arg))
			case "discard":
				err = p.Discard(op.Arg)
			case "pos":
				val = []int{int(p.Pos())}
			case "size":
				val = []int{int(p.Size())}
			case "u8":
				var x uint8
				x, err = p.ReadUint8()
				val = []int{int(x)}
			case "u16":
				var x uint16
				x, err = p.ReadUint16()
				val = []int{int(x)}
			case "i16":
				var x int16
				x, err = p.ReadInt16()
				val = []int{int(x)}
			case "u32":
				var x uint32
				x, err = p.ReadUint32()
				val = []int{int(x >> 16), int(x & 0xFFFF)}
			case "bytes":
				var b []byte
				b, err = p.ReadBytes(op.Arg)
				val = vh.Ints(b)
			case "slice":
				var b []uint16
				b, err = p.ReadUint16Slice()
				val = vh.Ints(b)
			case "read":
				buf := make([]byte, op.Arg)
				var n int
				n, err = p.Read(buf)
				if n < 0 || n > len(buf) {
					val = []int{-1}
				} else {
					val = vh.Ints(buf[:n])
				}
			}
		})
		if msg != "" {
			c.Emit(vh.Rec{"t": "panic", "op": op.Op, "arg": op.Arg, "msg": msg})
			return
		}
		rec["ok"] = err == nil
		switch {
		case err == nil:
			rec["err"] = ""
		case errors.Is(err, io.ErrUnexpectedEOF):
			rec["err"] = "eof"
		default:
			rec["err"] = "other:" + err.Error()
		}
		if err != nil && op.Op != "read" {
			val = nil
		}
		if val == nil {
			val = []int{}
		}
		rec["val"] = val
		rec["pos"] = int(p.Pos())
		c.Emit(rec)
		c.Mark("op:%s ok:%v", op.Op, err == nil)
	}
	if !bytes.Equal(orig, data) {
		c.Emit(vh.Rec{"t": "panic", "op": "input modified", "arg": 0, "msg": "input modified"})
	}
}

func c17Families(env *vh.Env) []vh.Family {
	cases := env.TLCCases("byteview.ndjson")
	return []vh.Family{
		{
			// histories generated by TLC from the specification
			Name: "tlc", Quick: len(cases), Thor: len(cases),
			Run: func(c *vh.Case) {
				var s string
				var in struct {
					N   int
					Ops []bvOp
				}
				if json.Unmarshal(cases[c.Idx], &s) != nil || json.Unmarshal([]byte(s), &in) != nil {
					panic("bad case")
				}
				seed := c.Idx % 17
				mode := []int{0, 2, 6, 4}[c.Idx%4]
				bvSession(c, bvPattern(seed, in.N), false, seed, mode, func(i int, _ int64) (bvOp, bool) {
					if i >= len(in.Ops) {
						// probe the final state
						if i == len(in.Ops) {
							return bvOp{"bytes", 1}, true
						} else if i == len(in.Ops)+1 {
							return bvOp{"pos", 0}, true
						}
						return bvOp{}, false
					}
					return in.Ops[i], true
				})
			},
		},
		{
			Name: "rand", Quick: 2400, Thor: 40000,
			Run: func(c *vh.Case) {
				rng := c.Rng
				bases := []int{0, 1, 2, 3, 4, 1020, 1023, 1024, 1025, 1030, 2046, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 5000}
				n := bases[rng.IntN(len(bases))]
				if rng.IntN(3) == 0 {
					n = rng.IntN(5001)
				}
				seed := rng.IntN(1000)
				mode := rng.IntN(7)
				data := bvPattern(seed, n)
				explicit := rng.IntN(4) == 0
				if explicit {
					for i := range data {
						if rng.IntN(2) == 0 {
							data[i] = byte(rng.UintN(256))
						} else {
							// makes small slice lengths likely
							data[i] = byte(rng.UintN(3))
						}
					}
				}
				steps := 10 + rng.IntN(50)
				bound := func() int {
					b := bases[rng.IntN(len(bases))] + rng.IntN(5) - 2
					return max(b, 0)
				}
				bvSession(c, data, explicit, seed, mode, func(i int, pos int64) (bvOp, bool) {
					if i >= steps {
						return bvOp{}, false
					}
					switch r := rng.IntN(20); r {
					case 0, 1:
						return bvOp{"seek", bound()}, true
					case 2:
						return bvOp{"seek", rng.IntN(n + 20)}, true
					case 3:
						// near the current position
						return bvOp{"seek", max(0, int(pos)+rng.IntN(41)-20)}, true
					case 4:
						// just before/after the end of the buffer
						return bvOp{"seek", max(0, int(pos)+1024+rng.IntN(5)-2)}, true
					case 5:
						return bvOp{"discard", rng.IntN(8)}, true
					case 6:
						return bvOp{"discard", bound()}, true
					case 7:
						return bvOp{"u8", 0}, true
					case 8, 9:
						return bvOp{"u16", 0}, true
					case 10:
						return bvOp{"i16", 0}, true
					case 11:
						return bvOp{"u32", 0}, true
					case 12:
						return bvOp{"slice", 0}, true
					case 13:
						return bvOp{"bytes", []int{0, 1, 2, 5, 17, 100, 511, 1000, 1023, 1024}[rng.IntN(10)]}, true
					case 14:
						return bvOp{"bytes", rng.IntN(40)}, true
					case 15:
						return bvOp{"read", []int{0, 1, 3, 10, 100, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 5000}[rng.IntN(14)]}, true
					case 16:
						// exactly to the end, or one past it
						d := n - int(pos) + rng.IntN(3) - 1
						if d < 0 {
							d = 0
						}
						if d <= 1024 && rng.IntN(2) == 0 {
							return bvOp{"bytes", d}, true
						}
						return bvOp{"read", d}, true
					case 17:
						return bvOp{"seek", max(0, n-rng.IntN(6))}, true
					case 18:
						return bvOp{"size", 0}, true
					default:
						return bvOp{"pos", 0}, true
					}
				})
			},
		},
	}
}
