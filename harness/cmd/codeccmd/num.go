package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"sort"

	"github.com/donnie4w/gofer/util"
	"verifharness/vh"
)

func beValue(b []byte, width int) uint64 {
	if len(b) > width {
		b = b[:width]
	}
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func u03(r *vh.Run) {
	r.Rule("all 65536 16-bit values; boundary, bit-pattern and random 32- and 64-bit values and slices; decoding of every length 0-20 with generated bytes; compared with encoding/binary; counted by distinct values")
	r.SeqCases("sixteen", 1, 1, func(c *vh.Case) {
		var prev []byte
		for i := 0; i < 65536; i++ {
			v := int16(i)
			b := util.Int16ToBytes(v)
			want := []byte{byte(i >> 8), byte(i)}
			if !c.Check(bytes.Equal(b, want) && util.BytesToInt16(b) == v, "int16", "int16 %d: %x, back %d", v, b, util.BytesToInt16(b)) {
				return
			}
			if prev != nil {
				c.Check(bytes.Compare(prev, b) < 0, "order", "order of %x and %x", prev, b)
			}
			prev = b
			c.Distinct(uint64(i))
		}
		c.Eval(65536)
		c.Observe("int16_values", 65536)
	})
	r.SeqCases("wide", r.N(60, 2000), 4, func(c *vh.Case) {
		type enc struct {
			v uint64
			b []byte
		}
		var e64, e32 []enc
		for k := 0; k < 500; k++ {
			v := c.R.Uint64()
			switch c.R.IntN(5) {
			case 0:
				v = 1<<c.R.IntN(64) - uint64(c.R.IntN(3)) + 1
			case 1:
				v = uint64(int64(c.R.IntN(300) - 150))
			case 2:
				v >>= c.R.IntN(64)
			case 3:
				v = []uint64{0, math.MaxInt64, 1 << 63, math.MaxUint64, math.MaxInt32, 1 << 31, math.MaxUint32, 1 << 32}[c.R.IntN(8)]
			}
			b := util.Int64ToBytes(int64(v))
			w := binary.BigEndian.AppendUint64(nil, v)
			c.Check(bytes.Equal(b, w), "int64", "Int64ToBytes(%d) = %x", int64(v), b)
			g, same := guarded(w)
			c.Check(util.BytesToInt64(g) == int64(v), "int64", "BytesToInt64(%x) = %d", w, util.BytesToInt64(w))
			c.Check(same(), "input-modified", "BytesToInt64 modified its input")
			e64 = append(e64, enc{v, b})
			x := int32(v)
			b = util.Int32ToBytes(x)
			w = binary.BigEndian.AppendUint32(nil, uint32(x))
			c.Check(bytes.Equal(b, w), "int32", "Int32ToBytes(%d) = %x", x, b)
			c.Check(util.BytesToInt32(w) == x, "int32", "BytesToInt32(%x) = %d", w, util.BytesToInt32(w))
			e32 = append(e32, enc{uint64(uint32(x)), b})
			c.Distinct(v)
		}
		for _, es := range [][]enc{e64, e32} {
			sort.Slice(es, func(i, j int) bool { return es[i].v < es[j].v })
			for i := 1; i < len(es); i++ {
				cmp := bytes.Compare(es[i-1].b, es[i].b)
				c.Check((cmp == 0) == (es[i-1].v == es[i].v) && cmp <= 0, "order", "bytes of %d and %d are ordered %d (%x, %x)", es[i-1].v, es[i].v, cmp, es[i-1].b, es[i].b)
			}
		}
		c.Eval(1000)
		c.Observe("wide_values", 1000)
	})
	r.SeqCases("lengths", r.N(400, 8000), 4, func(c *vh.Case) {
		for n := 0; n <= 20; n++ {
			b := make([]byte, n)
			fill(c.R, b)
			if c.R.IntN(3) == 0 && n > 0 {
				b[0] |= 0x80
			}
			if n == 0 && c.I%2 == 0 {
				b = nil
			}
			g, same := guarded(b)
			v64, v32, v16 := util.BytesToInt64(g), util.BytesToInt32(g), util.BytesToInt16(g)
			c.Check(same(), "input-modified", "decoding modified its input %x", b)
			c.Check(v64 == int64(beValue(b, 8)), "lengths", "BytesToInt64(%x) = %d", b, v64)
			c.Check(v32 == int32(beValue(b, 4)), "lengths", "BytesToInt32(%x) = %d", b, v32)
			c.Check(v16 == int16(beValue(b, 2)), "lengths", "BytesToInt16(%x) = %d", b, v16)
			c.Distinct(vh.Hash("len", b))
			c.Eval(3)
		}
		c.Observe("lengths_decoded", 21)
	})
	r.SeqCases("arrays", r.N(1500, 20000), 4, func(c *vh.Case) {
		n := []int{0, 1, 2, 7, 63, 512}[c.R.IntN(6)]
		if c.I%60 == 0 { // around the powers of two up to half a million
			n = max(1<<(10+c.I/60%10)+[]int{0, 1, -1, 517}[c.R.IntN(4)], 0)
		}
		a := make([]int64, n)
		var w []byte
		for i := range a {
			a[i] = int64(c.R.Uint64()) >> c.R.IntN(64)
			w = binary.BigEndian.AppendUint64(w, uint64(a[i]))
		}
		keep := append([]int64{}, a...)
		b := util.IntArrayToBytes(a)
		c.Check(bytes.Equal(b, w), "array", "IntArrayToBytes of %d values: %s", n, brief(b))
		for i := range a {
			c.Check(a[i] == keep[i], "input-modified", "IntArrayToBytes modified its input")
		}
		tail := make([]byte, c.R.IntN(8)) // an incomplete last value
		fill(c.R, tail)
		g, same := guarded(append(append([]byte{}, w...), tail...))
		back := util.BytesToIntArray(g)
		c.Check(same(), "input-modified", "BytesToIntArray modified its input")
		ok := len(back) == n
		for i := 0; ok && i < n; i++ {
			ok = back[i] == keep[i]
		}
		c.Check(ok, "array", "BytesToIntArray of %d values and %d stray bytes gives %d values %.10v, want %.10v", n, len(tail), len(back), back, keep)
		c.Eval(2)
		c.Distinct(vh.Hash("arr", w, tail))
		if c.I == 0 {
			c.Sample(map[string]any{"slice": keep, "bytes": brief(b)})
		}
	})
}
