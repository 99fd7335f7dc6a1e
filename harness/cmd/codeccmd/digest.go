package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/hex"
	"strings"
	"sync"

	"github.com/donnie4w/gofer/util"
	"golang.org/x/crypto/blake2b"
	"verifharness/vh"
)

func refCRC8(b []byte) (v byte) {
	for _, x := range b {
		v ^= x
		for k := 0; k < 8; k++ {
			if v&0x80 != 0 {
				v = v<<1 ^ 0x07
			} else {
				v <<= 1
			}
		}
	}
	return
}

// refCRC is the reflected form with all-ones start and end.
func refCRC(b []byte, poly, mask uint64) uint64 {
	v := mask
	for _, x := range b {
		v ^= uint64(x)
		for k := 0; k < 8; k++ {
			if v&1 != 0 {
				v = v>>1 ^ poly
			} else {
				v >>= 1
			}
		}
	}
	return v ^ mask
}

func refFNV32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, x := range b {
		h = (h ^ uint32(x)) * 16777619
	}
	return h
}

func refFNV64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func digests(c *vh.Case, b []byte, full bool) {
	g, same := guarded(b)
	m := md5.Sum(b)
	s := sha1.Sum(b)
	bl := blake2b.Sum256(b)
	got := util.MD5(g)
	c.Check(bytes.Equal(got, m[:]), "md5", "MD5 of %s is %x, want %x", brief(b), got, m)
	got = util.SHA1(g)
	c.Check(bytes.Equal(got, s[:]), "sha1", "SHA1 of %s is %x, want %x", brief(b), got, s)
	got, err := util.Blake2b(g)
	c.Check(err == nil && bytes.Equal(got, bl[:]), "blake2b", "Blake2b of %s is %x, want %x", brief(b), got, bl)
	str := util.Md5Str(string(b))
	c.Check(str == strings.ToUpper(hex.EncodeToString(m[:])), "md5", "Md5Str of %s is %s, want %X", brief(b), str, m)
	str = util.Sha1Str(string(b))
	c.Check(str == strings.ToUpper(hex.EncodeToString(s[:])), "sha1", "Sha1Str of %s is %s, want %X", brief(b), str, s)
	if full {
		if v, w := util.CRC8(g), refCRC8(b); v != w {
			c.Violate("crc8", "CRC8 of %s is %x, want %x", brief(b), v, w)
		}
		if v, w := util.CRC32(g), uint32(refCRC(b, 0xEDB88320, 0xFFFFFFFF)); v != w {
			c.Violate("crc32", "CRC32 of %s is %x, want %x", brief(b), v, w)
		}
		if v, w := util.CRC64(g), refCRC(b, 0xC96C5795D7870F42, ^uint64(0)); v != w {
			c.Violate("crc64", "CRC64 of %s is %x, want %x", brief(b), v, w)
		}
		if v, w := util.FNVHash32(g), refFNV32(b); v != w {
			c.Violate("fnv", "FNVHash32 of %s is %x, want %x", brief(b), v, w)
		}
		if v, w := util.FNVHash64(g), refFNV64(b); v != w {
			c.Violate("fnv", "FNVHash64 of %s is %x, want %x", brief(b), v, w)
		}
	}
	h := util.Hash64(g)
	for k := 0; k < 3; k++ { // the same content elsewhere in memory, at another alignment
		a := make([]byte, len(b)+k+3, (len(b)+k+3)*(1+k*5))
		copy(a[k:], b)
		v := util.Hash64(a[k : k+len(b)])
		c.Check(v == h, "hash64", "Hash64 of %s is %x and %x", brief(b), h, v)
	}
	c.Check(same(), "input-modified", "a digest modified its input %s or the memory around it", brief(b))
	c.Eval(11)
}

func u05(r *vh.Run) {
	r.Rule("published vectors, every one-byte and many short inputs, and generated inputs of 0-200000 bytes around block sizes, compared with bit-level implementations of CRC and FNV and with the one-shot library digests; concurrent callers compare with results computed beforehand; counted by distinct inputs")
	r.SeqCases("vectors", 1, 1, func(c *vh.Case) {
		eq := func(what, got, want string) {
			c.Check(got == want, "vector", "%s is %s, published value %s", what, got, want)
			c.Eval(1)
			c.Distinct(vh.Hash("vec", what))
		}
		x := func(b []byte) string { return hex.EncodeToString(b) }
		eq("MD5()", x(util.MD5(nil)), "d41d8cd98f00b204e9800998ecf8427e")
		eq("MD5(abc)", x(util.MD5([]byte("abc"))), "900150983cd24fb0d6963f7d28e17f72")
		eq("Md5Str(message digest)", util.Md5Str("message digest"), "F96B697D7CB7938D525A2F31AAF161D0")
		eq("SHA1()", x(util.SHA1(nil)), "da39a3ee5e6b4b0d3255bfef95601890afd80709")
		eq("Sha1Str(abc)", util.Sha1Str("abc"), "A9993E364706816ABA3E25717850C26C9CD0D89D")
		b2, _ := util.Blake2b([]byte("abc"))
		eq("Blake2b(abc)", x(b2), "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319")
		b2, _ = util.Blake2b(nil)
		eq("Blake2b()", x(b2), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8")
		n := []byte("123456789")
		eq("CRC8(123456789)", x([]byte{util.CRC8(n)}), "f4")
		eq("CRC32(123456789)", x(util.Int32ToBytes(int32(util.CRC32(n)))), "cbf43926")
		eq("CRC64(123456789)", x(util.Int64ToBytes(int64(util.CRC64(n)))), "995dc9bbdf1939fa")
		eq("FNVHash32()", x(util.Int32ToBytes(int32(util.FNVHash32(nil)))), "811c9dc5")
		eq("FNVHash32(foobar)", x(util.Int32ToBytes(int32(util.FNVHash32([]byte("foobar"))))), "bf9cf968")
		eq("FNVHash64(foobar)", x(util.Int64ToBytes(int64(util.FNVHash64([]byte("foobar"))))), "85944171f73967e8")
		for i := 0; i < 256; i++ { // every entry of a table, from two states
			digests(c, []byte{byte(i)}, true)
			digests(c, []byte{0x5a, byte(i)}, true)
			c.Distinct(uint64(i))
		}
	})
	r.SeqCases("inputs", r.N(2500, 60000), 4, func(c *vh.Case) {
		n := size(c.R, c.I%40 == 0)
		b := data(c.R, n)
		digests(c, b, n < 70000)
		c.Observe("bytes_digested", n)
		c.Distinct(vh.Hash(b))
		if c.I == 0 {
			c.Sample(map[string]any{"input": brief(b), "md5": hex.EncodeToString(util.MD5(b))})
		}
	})
	r.SeqCases("large", r.N(4, 60), 4, func(c *vh.Case) {
		n := []int{1<<20 + 1, 1<<22 + 77, 5000000, 1<<23 + 3}[c.I%4] + c.R.IntN(1000)
		b := data(c.R, n)
		for i := n - 40; i < n; i++ { // the end matters
			b[i] = byte(c.R.Uint32())
		}
		digests(c, b, true)
		c.Observe("bytes_digested", n)
		c.Max("largest_input", n)
		c.Distinct(vh.Hash(b))
	})
	r.Cases("concurrent", r.N(200, 3000), 1, func(c *vh.Case) {
		shared := data(c.R, 1+c.R.IntN(3000))
		h := util.Hash64(shared)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			rr := vh.NewRand(c.R.Uint64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				type kept struct {
					b   []byte
					out [3][]byte
				}
				var held []kept
				for i := 0; i < 10; i++ {
					digests(c, shared, true)
					b := data(rr, rr.IntN(500))
					digests(c, b, true)
					bl, _ := util.Blake2b(b)
					held = append(held, kept{b, [3][]byte{util.MD5(b), util.SHA1(b), bl}})
					c.Check(util.Hash64(shared) == h, "hash64", "Hash64 of the same content differs between goroutines")
				}
				for _, k := range held { // results stay what they were
					m, s, bl := md5.Sum(k.b), sha1.Sum(k.b), blake2b.Sum256(k.b)
					c.Check(bytes.Equal(k.out[0], m[:]) && bytes.Equal(k.out[1], s[:]) && bytes.Equal(k.out[2], bl[:]), "result-changed", "a digest of %s changed after it was returned", brief(k.b))
				}
				c.Observe("concurrent_digests", 20)
			}()
		}
		wg.Wait()
		c.Distinct(vh.Hash("conc", c.I))
	})
}
