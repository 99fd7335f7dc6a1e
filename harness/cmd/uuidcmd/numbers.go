package main

import (
	"encoding/binary"
	"math"
	"math/big"
	"sort"
	"sync"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/uuid"
	"verifharness/vh"
)

// base58Text writes v with big-number arithmetic.
func base58Text(v uint64) string {
	const digits = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	var b []byte
	n, m, k := new(big.Int).SetUint64(v), new(big.Int), big.NewInt(58)
	for n.Sign() > 0 {
		n.DivMod(n, k, m)
		b = append([]byte{digits[m.Int64()]}, b...)
	}
	return string(b)
}

// even reports the worst deviation of a bit's frequency from one half, in standard deviations.
func even(v []uint64, mask uint64) (worst float64, bit int) {
	for i := 0; i < 64; i++ {
		if mask>>i&1 == 0 {
			continue
		}
		n := 0
		for _, x := range v {
			n += int(x >> i & 1)
		}
		if d := math.Abs(float64(n)-float64(len(v))/2) / (math.Sqrt(float64(len(v))) / 2); d > worst {
			worst, bit = d, i
		}
	}
	return
}

// repeats counts equal neighbours of the sorted values.
func repeats(v []uint64) (n int) {
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	for i := 1; i < len(v); i++ {
		if v[i] == v[i-1] {
			n++
		}
	}
	return
}

func i03(r *vh.Run) {
	r.Rule("each values case takes a generated, a random and an edge UUID and compares every derived number with an independent computation, again after parsing its text, from several goroutines, and after changing each of its bytes; each spread case counts repeats and the frequency of every bit of the derived numbers of many UUIDs; counted by distinct UUIDs")
	r.Cases("values", r.N(1500, 30000), 4, func(c *vh.Case) {
		var x, e uuid.UUID
		for i := range x {
			x[i] = byte(c.R.Uint32())
		}
		switch c.R.IntN(5) {
		case 0:
			for i := range e {
				e[i] = 0xff
			}
		case 1:
			e[c.R.IntN(16)] = 1 << c.R.IntN(8)
		case 2:
			copy(e[c.R.IntN(8):8], x[:]) // leading zeros, so a shorter base 58 text
		case 3:
			copy(e[8:], x[8:]) // the 64-bit number is zero
		}
		for _, u := range []*uuid.UUID{uuid.NewUUID(), &x, &e} {
			before := *u
			want := int64(binary.BigEndian.Uint64(before[:8]))
			c.Check(u.Int64() == want, "int64", "Int64 of %x is %d, want %d", before[:], u.Int64(), want)
			t := string(u.Base58())
			c.Check(t == base58Text(uint64(want)), "base58", "Base58 of %x is %q, want %q", before[:], t, base58Text(uint64(want)))
			if want != 0 {
				v, ok := base58.DecodeForInt64([]byte(t))
				c.Check(ok && int64(v) == want, "base58-decode", "%q of %x decodes to %d,%v", t, before[:], v, ok)
			}
			n := u.Int32()
			p, err := uuid.Parse(u.String())
			if c.Check(err == nil && p != nil, "parse", "Parse(%q): %v", u.String(), err) {
				c.Check(p.Int32() == n && p.Int64() == want && string(p.Base58()) == t, "parsed", "%x has %d, its parsed text %d", before[:], n, p.Int32())
			}
			// users share UUIDs between goroutines
			var wg sync.WaitGroup
			got := make([]int32, 4)
			for g := range got {
				wg.Add(1)
				go func() {
					defer wg.Done()
					got[g] = u.Int32()
					if u.Int64() != want || string(u.Base58()) != t {
						got[g] = ^n
					}
				}()
			}
			wg.Wait()
			for _, m := range got {
				c.Check(m == n, "stable", "Int32 of %x is %d and %d", before[:], n, m)
			}
			for i := range before {
				same := 0
				for k := 0; k < 3 && same == k; k++ {
					y := before
					y[i] ^= 1 << ((c.I + 3*k) % 8)
					if y.Int32() == n {
						same++
					}
				}
				// one in 2^96 by chance
				c.Check(same < 3, "int32-ignores", "changing byte %d of %x in three ways leaves Int32 at %d", i, before[:], n)
			}
			c.Check(*u == before, "changed", "reading the numbers of %x changed it to %x", before[:], u[:])
			c.Distinct(binary.BigEndian.Uint64(before[:8]) ^ binary.BigEndian.Uint64(before[8:]))
			c.Eval(20)
			c.Observe("uuids_checked", 1)
		}
		if c.I < 3 {
			c.Sample(map[string]any{"uuid": x.String(), "int64": x.Int64(), "int32": x.Int32(), "base58": string(x.Base58())})
		}
	})
	if r.Race {
		return
	}
	r.SeqCases("spread", r.N(6, 60), 2, func(c *vh.Case) {
		const n = 200000
		sets := map[string][]uint64{"UUID.Int32": nil, "util.UUID32": nil, "UUID.Int64": nil, "util.UUID64": nil}
		for i := 0; i < n; i++ {
			u := uuid.NewUUID()
			sets["UUID.Int32"] = append(sets["UUID.Int32"], uint64(uint32(u.Int32())))
			sets["UUID.Int64"] = append(sets["UUID.Int64"], uint64(u.Int64()))
			sets["util.UUID32"] = append(sets["util.UUID32"], uint64(util.UUID32()))
			sets["util.UUID64"] = append(sets["util.UUID64"], uint64(util.UUID64()))
		}
		for _, name := range []string{"UUID.Int32", "util.UUID32", "UUID.Int64", "util.UUID64"} {
			v := sets[name]
			mask, limit := uint64(math.MaxUint32), 30 // 4.7 repeats are expected of 32 random bits, none of 60
			if name == "UUID.Int64" || name == "util.UUID64" {
				mask, limit = ^uint64(0xf000), 1 // without the version
			}
			w, bit := even(v, mask)
			c.Check(w < 7, "uneven", "bit %d of %s deviates from one half by %.1f standard deviations over %d", bit, name, w, n)
			d := repeats(v)
			c.Check(d <= limit, "repeats", "%d of %d values of %s repeat", d, n, name)
			c.Eval(n)
			c.Observe("numbers_counted", n)
			c.Distinct(v[0] ^ v[n-1])
		}
	})
}
