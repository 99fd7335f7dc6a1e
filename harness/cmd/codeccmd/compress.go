package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"errors"
	"io"
	"strings"
	"sync"

	"github.com/donnie4w/gofer/compress"
	"github.com/donnie4w/gofer/util"
	gsnappy "github.com/golang/snappy"
	kgzip "github.com/klauspost/compress/gzip"
	ksnappy "github.com/klauspost/compress/snappy"
	kzlib "github.com/klauspost/compress/zlib"
	"github.com/klauspost/compress/zstd"
	"verifharness/vh"
)

// codec is one compression function with its matching decompressor, reference decoders, and an encoder of its own kind
// that does not come from gofer.
type codec struct {
	name      string
	enc       func([]byte) ([]byte, error)
	dec       func([]byte) ([]byte, error)
	refs      []func([]byte) ([]byte, error) // the first one judges damaged data
	make      func([]byte) []byte
	minPrefix int               // shortest truncation that is an error (nothing at all is an empty zstd stream)
	noPartial bool              // an error comes without data
	safe      func([]byte) bool // false: do not feed (claims to need an enormous output)
}

func refZlib(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func refZlibK(b []byte) ([]byte, error) {
	r, err := kzlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func refGzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func refGzipK(b []byte) ([]byte, error) {
	r, err := kgzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

var errSnappy = errors.New("corrupt snappy data")

// refSnappy decodes the block format as its description states it.
func refSnappy(b []byte) ([]byte, error) {
	n, shift := uint64(0), 0
	for {
		if len(b) == 0 || shift > 35 {
			return nil, errSnappy
		}
		c := b[0]
		b = b[1:]
		n |= uint64(c&0x7f) << shift
		shift += 7
		if c < 0x80 {
			break
		}
	}
	if n > 1<<32-1 {
		return nil, errSnappy
	}
	out := make([]byte, 0, min(n, 1<<20))
	for len(b) > 0 {
		tag := b[0]
		b = b[1:]
		l, off := int(tag>>2), 0
		le := func(k int) (v int, ok bool) {
			if len(b) < k {
				return 0, false
			}
			for i := 0; i < k; i++ {
				v |= int(b[i]) << (8 * i)
			}
			b = b[k:]
			return v, true
		}
		ok := true
		switch tag & 3 {
		case 0:
			if l >= 60 {
				l, ok = le(l - 59)
			}
			l++
			if !ok || l > len(b) || len(out)+l > int(n) {
				return nil, errSnappy
			}
			out = append(out, b[:l]...)
			b = b[l:]
			continue
		case 1:
			var lo int
			lo, ok = le(1)
			off = int(tag>>5)<<8 | lo
			l = l&7 + 4
		case 2:
			off, ok = le(2)
			l++
		case 3:
			off, ok = le(4)
			l++
		}
		if !ok || off == 0 || off > len(out) || len(out)+l > int(n) {
			return nil, errSnappy
		}
		for i := 0; i < l; i++ {
			out = append(out, out[len(out)-off])
		}
	}
	if uint64(len(out)) != n {
		return nil, errSnappy
	}
	return out, nil
}

func snappySafe(b []byte) bool {
	n, err := gsnappy.DecodedLen(b)
	return err != nil || n < 64<<20
}

func refZstd(b []byte) ([]byte, error) {
	d, err := zstd.NewReader(bytes.NewReader(b), zstd.WithDecoderConcurrency(1))
	if err != nil {
		return nil, err
	}
	defer d.Close()
	return io.ReadAll(d)
}

func zstdSafe(b []byte) bool {
	for k := 0; k < 3 && len(b) > 0; k++ {
		var h zstd.Header
		if h.Decode(b) != nil {
			return true
		}
		if h.FrameContentSize > 64<<20 || h.WindowSize > 64<<20 {
			return false
		}
		if !h.Skippable || uint64(h.HeaderSize)+uint64(h.SkippableSize) > uint64(len(b)) {
			return true
		}
		b = b[h.HeaderSize+int(h.SkippableSize):]
	}
	return true
}

func makeZlib(b []byte) []byte {
	var o bytes.Buffer
	w, _ := zlib.NewWriterLevel(&o, 1+len(b)%9)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func makeGzip(b []byte) []byte {
	var o bytes.Buffer
	w, _ := gzip.NewWriterLevel(&o, 1+len(b)%9)
	w.Name, w.Comment, w.Extra = "n", "c", []byte{1, 2}
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func plainErr(f func([]byte) []byte) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) { return f(b), nil }
}

func bufOf(f func([]byte) (bytes.Buffer, error)) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) {
		o, err := f(b)
		return o.Bytes(), err
	}
}

func utilCodecs() []codec {
	return []codec{
		{noPartial: true, name: "util.Zlib", enc: util.Zlib, dec: util.UnZlib, refs: []func([]byte) ([]byte, error){refZlib, refZlibK}, make: makeZlib},
		{noPartial: true, name: "util.Gzip", enc: bufOf(util.Gzip), dec: bufOf(util.UnGzip), refs: []func([]byte) ([]byte, error){refGzip, refGzipK}, make: makeGzip},
		{noPartial: true, name: "util.SnappyEncode", enc: plainErr(util.SnappyEncode), dec: func(b []byte) ([]byte, error) {
			o := util.SnappyDecode(b)
			// this function has no error result: nothing at all stands for "damaged"
			if len(o) == 0 {
				_, err := refSnappy(b)
				if n, _ := gsnappy.DecodedLen(b); n > 0 {
					err = errSnappy
				}
				return nil, err
			}
			return o, nil
		}, refs: []func([]byte) ([]byte, error){refSnappy, func(b []byte) ([]byte, error) { return ksnappy.Decode(nil, b) }}, make: func(b []byte) []byte { return ksnappy.Encode(nil, b) }, safe: snappySafe},
	}
}

func compressCodecs() []codec {
	zl := func(level int) codec {
		return codec{name: "compress.ZlibLevel", enc: func(b []byte) ([]byte, error) { return compress.ZlibLevel(b, level) }, dec: compress.UnZlib,
			refs: []func([]byte) ([]byte, error){refZlib, refZlibK}, make: makeZlib}
	}
	zs := func(l zstd.EncoderLevel) codec {
		return codec{name: "compress.ZstdLevel", enc: func(b []byte) ([]byte, error) { return compress.ZstdLevel(b, l) }, dec: compress.UnZstd,
			refs: []func([]byte) ([]byte, error){refZstd}, make: makeZstd, minPrefix: 1, safe: zstdSafe}
	}
	cs := []codec{
		{name: "compress.Zlib", enc: compress.Zlib, dec: compress.UnZlib, refs: []func([]byte) ([]byte, error){refZlib, refZlibK}, make: makeZlib},
		{name: "compress.Gzip", enc: compress.Gzip, dec: compress.UnGzip, refs: []func([]byte) ([]byte, error){refGzip, refGzipK}, make: makeGzip},
		{name: "compress.Snappy", enc: plainErr(compress.Snappy), dec: compress.UnSnappy,
			refs: []func([]byte) ([]byte, error){refSnappy, func(b []byte) ([]byte, error) { return gsnappy.Decode(nil, b) }}, make: func(b []byte) []byte { return gsnappy.Encode(nil, b) }, safe: snappySafe},
		{name: "compress.Zstd", enc: compress.Zstd, dec: compress.UnZstd, refs: []func([]byte) ([]byte, error){refZstd}, make: makeZstd, minPrefix: 1, safe: zstdSafe},
	}
	for l := flate.HuffmanOnly; l <= flate.BestCompression; l++ {
		cs = append(cs, zl(l))
	}
	for l := zstd.SpeedFastest; l <= zstd.SpeedBestCompression; l++ {
		cs = append(cs, zs(l))
	}
	return cs
}

var zenc, _ = zstd.NewWriter(nil, zstd.WithEncoderConcurrency(4))

func makeZstd(b []byte) []byte { return zenc.EncodeAll(b, nil) }

func (k *codec) roundtrip(c *vh.Case, in []byte) []byte {
	g, same := guarded(in)
	out, err := k.enc(g)
	if !c.Check(err == nil, "encode-error", "%s of %s: %v", k.name, brief(in), err) {
		return nil
	}
	c.Check(same(), "input-modified", "%s modified its input or the memory around it (%s)", k.name, brief(in))
	g2, same2 := guarded(out)
	back, err := k.dec(g2)
	c.Check(err == nil && bytes.Equal(back, in), "roundtrip", "%s then decompress of %s: %s, %v", k.name, brief(in), brief(back), err)
	c.Check(same2(), "input-modified", "decompression for %s modified its input (%s)", k.name, brief(out))
	for i, ref := range k.refs {
		b, err := ref(out)
		c.Check(err == nil && bytes.Equal(b, in), "not-standard", "%s of %s is not what reference decoder %d reads: %s, %v", k.name, brief(in), i, brief(b), err)
	}
	ext := k.make(in)
	b, err := k.dec(ext)
	c.Check(err == nil && bytes.Equal(b, in), "foreign-stream", "decompressor of %s on a stream by another encoder (%s of %s): %s, %v", k.name, brief(ext), brief(in), brief(b), err)
	c.Eval(1)
	c.Observe("roundtrips", 1)
	return out
}

// damaged feeds altered data: whatever the reference rejects must be rejected, whatever is accepted must decode to what the
// reference decodes it to.
func (k *codec) damaged(c *vh.Case, b []byte, what string) {
	if k.safe != nil && !k.safe(b) {
		c.Observe("skipped_enormous_claims", 1)
		return
	}
	want, refErr := k.refs[0](b)
	var got []byte
	var err error
	g, same := guarded(b)
	if p := vh.Try(func() { got, err = k.dec(g) }); p != "" {
		c.Violate("panic", "decompressor of %s panics on %s (%s): %s", k.name, brief(b), what, p)
		return
	}
	c.Check(same(), "input-modified", "decompressor of %s modified damaged input (%s)", k.name, what)
	switch {
	case err == nil && refErr != nil:
		c.Violate("damage-undetected", "decompressor of %s accepts %s (%s) as %s; the reference reports %v", k.name, brief(b), what, brief(got), refErr)
	case err == nil && !bytes.Equal(got, want):
		c.Violate("wrong-data", "decompressor of %s turns %s (%s) into %s, the reference into %s", k.name, brief(b), what, brief(got), brief(want))
	case err != nil && len(got) != 0 && k.noPartial:
		c.Violate("partial-data", "decompressor of %s returns %s together with error %v (%s)", k.name, brief(got), err, what)
	}
	if refErr != nil {
		c.Observe("damaged_inputs_that_must_fail", 1)
	} else {
		c.Observe("altered_inputs_still_valid", 1)
	}
	c.Eval(1)
	c.Distinct(vh.Hash(k.name, b))
}

func (k *codec) damage(c *vh.Case, out []byte, n int) {
	for t := 0; t < n; t++ {
		d := append([]byte{}, out...)
		switch c.R.IntN(7) {
		case 0, 1: // truncate
			if len(d) == 0 {
				continue
			}
			cut := c.R.IntN(len(d))
			if c.R.IntN(2) == 0 {
				cut = max(0, len(d)-1-c.R.IntN(12))
			}
			if cut < k.minPrefix {
				continue
			}
			k.damaged(c, d[:cut:cut], "truncated")
		case 2:
			if len(d) > 0 {
				d[c.R.IntN(len(d))] ^= 1 << c.R.IntN(8)
				k.damaged(c, d, "bit flipped")
				// gzip and zstd streams carry a checksum of their content
				if strings.Contains(k.name, "Gzip") || strings.Contains(k.name, "Zstd") && zstdSafe(d) {
					if was, err := k.dec(out); err == nil {
						now, err := k.dec(d)
						c.Check(err != nil || bytes.Equal(was, now), "damage-undetected", "%s: a stream with a flipped bit decodes to other data, %s instead of %s", k.name, brief(now), brief(was))
						c.Observe("flipped_bits", 1)
					}
				}
			}
		case 3:
			for m := 1 + c.R.IntN(4); m > 0 && len(d) > 0; m-- {
				d[c.R.IntN(len(d))] = byte(c.R.Uint32())
			}
			k.damaged(c, d, "bytes replaced")
		case 4:
			if len(d) > 2 {
				i := c.R.IntN(len(d) - 1)
				j := i + 1 + c.R.IntN(min(len(d)-i-1, 20))
				k.damaged(c, append(d[:i:i], d[j:]...), "bytes removed")
			}
		case 5:
			i := c.R.IntN(len(d) + 1)
			ins := make([]byte, 1+c.R.IntN(12))
			fill(c.R, ins)
			k.damaged(c, append(append(append([]byte{}, d[:i]...), ins...), d[i:]...), "bytes inserted")
		case 6: // not a stream at all
			b := make([]byte, 1+c.R.IntN(60))
			fill(c.R, b)
			if c.R.IntN(2) == 0 {
				copy(b, out[:min(len(out), 1+c.R.IntN(8))])
			}
			k.damaged(c, b, "random")
		}
	}
}

func codecCases(r *vh.Run, cs func() []codec, n1, n2, n3, n4, n5, n6 int) {
	r.SeqCases("roundtrip", r.N(n1, n2), 4, func(c *vh.Case) {
		ks := cs()
		k := &ks[c.I%len(ks)]
		in := data(c.R, size(c.R, c.I%5 == 0))
		out := k.roundtrip(c, in)
		c.Distinct(vh.Hash(k.name, in))
		if c.I < 2 {
			c.Sample(map[string]any{"codec": k.name, "input_bytes": len(in), "compressed_bytes": len(out)})
		}
		k.damage(c, out, 6)
	})
	r.SeqCases("truncations", r.N(n3, n4), 4, func(c *vh.Case) {
		ks := cs()
		k := &ks[c.I%len(ks)]
		in := data(c.R, 1+c.R.IntN(400))
		out, err := k.enc(in)
		if err != nil {
			return
		}
		for cut := k.minPrefix; cut < len(out); cut++ {
			k.damaged(c, out[:cut:cut], "truncated")
		}
		ext := k.make(in)
		for cut := k.minPrefix; cut < len(ext); cut++ {
			k.damaged(c, ext[:cut:cut], "truncated foreign stream")
		}
		k.damage(c, out, 60)
	})
	if r.Variant != "race" {
		r.SeqCases("huge", 4, 1, func(c *vh.Case) {
			ks := cs()
			if c.I >= len(ks) {
				return
			}
			k := &ks[c.I]
			in := make([]byte, 70<<20+c.R.IntN(60<<20))
			p := 1 + c.R.IntN(1<<20)
			fill(c.R, in[:p])
			for n := p; n < len(in); n *= 2 {
				copy(in[n:], in[:n])
			}
			if c.R.IntN(2) == 0 {
				clear(in)
			}
			out, err := k.enc(in)
			if !c.Check(err == nil, "encode-error", "%s of %s: %v", k.name, brief(in), err) {
				return
			}
			back, err := k.dec(out)
			c.Check(err == nil && bytes.Equal(back, in), "roundtrip", "%s then decompress of %s: %s, %v", k.name, brief(in), brief(back), err)
			c.Eval(1)
			c.Observe("huge_roundtrips", 1)
			c.Distinct(vh.Hash(k.name, "huge", len(in), p))
		})
		r.SeqCases("large", len(cs())*r.N(1, 6), 1, func(c *vh.Case) {
			ks := cs()
			k := &ks[c.I%len(ks)]
			in := data(c.R, 4<<20+c.R.IntN(8<<20)+c.I%2*(16<<20))
			out, err := k.enc(in)
			if !c.Check(err == nil, "encode-error", "%s of %s: %v", k.name, brief(in), err) {
				return
			}
			back, err := k.dec(out)
			c.Check(err == nil && bytes.Equal(back, in), "roundtrip", "%s then decompress of %s: %s, %v", k.name, brief(in), brief(back), err)
			b, err := k.refs[0](out)
			c.Check(err == nil && bytes.Equal(b, in), "not-standard", "%s of %s is not what the reference decoder reads: %s, %v", k.name, brief(in), brief(b), err)
			ext := k.make(in)
			b, err = k.dec(ext)
			c.Check(err == nil && bytes.Equal(b, in), "foreign-stream", "decompressor of %s on a stream by another encoder (%s of %s): %s, %v", k.name, brief(ext), brief(in), brief(b), err)
			if k.noPartial && len(out) > 10 {
				k.damaged(c, out[:len(out)-1-c.R.IntN(9)], "large, truncated")
			}
			c.Eval(1)
			c.Observe("large_roundtrips", 1)
			c.Distinct(vh.Hash(k.name, "large", in))
		})
	}
	r.Cases("concurrent", r.N(n5, n6), 1, func(c *vh.Case) {
		ks := cs()
		var wg sync.WaitGroup
		type kept struct {
			k       *codec
			in, out []byte
		}
		for g := 0; g < 8; g++ {
			rr := vh.NewRand(c.R.Uint64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				var held []kept
				for i := 0; i < 6; i++ {
					k := &ks[rr.IntN(len(ks))]
					in := data(rr, rr.IntN(5000))
					out, err := k.enc(in)
					if err != nil {
						c.Violate("encode-error", "%s: %v", k.name, err)
						continue
					}
					held = append(held, kept{k, in, out})
				}
				for _, h := range held {
					b, err := h.k.dec(h.out)
					c.Check(err == nil && bytes.Equal(b, h.in), "concurrent-roundtrip", "%s of %s used concurrently: %s, %v", h.k.name, brief(h.in), brief(b), err)
				}
				c.Observe("concurrent_roundtrips", len(held))
			}()
		}
		wg.Wait()
		c.Eval(8)
		c.Distinct(vh.Hash("conc", c.I))
	})
}

func u01(r *vh.Run) {
	r.Rule("each case compresses a generated byte string (sizes around block and window limits, several textures), checks it against the matching decompressor, the standard library and klauspost's decoders, then feeds truncations and alterations judged by the reference decoder; counted by distinct (codec, data fed)")
	codecCases(r, utilCodecs, 3000, 60000, 120, 2500, 100, 1500)
	r.SeqCases("check", r.N(600, 8000), 4, func(c *vh.Case) {
		b := makeGzip(data(c.R, c.R.IntN(100)))
		if err := util.CheckGzipType(b); err != nil {
			c.Violate("check-gzip", "CheckGzipType of a gzip stream: %v", err)
		}
		switch c.R.IntN(3) {
		case 0:
			b[c.R.IntN(3)] ^= byte(1 + c.R.IntN(255))
		case 1:
			b = b[:c.R.IntN(10)]
		case 2:
			b = makeZlib(b)
		}
		_, want := gzip.NewReader(bytes.NewReader(b))
		if err := util.CheckGzipType(b); (err == nil) != (want == nil) {
			c.Violate("check-gzip", "CheckGzipType of %s: %v, the standard library says %v", brief(b), err, want)
		}
		c.Eval(1)
		c.Distinct(vh.Hash("check", b))
	})
}

func u02(r *vh.Run) {
	r.Rule("each case compresses a generated byte string with one of the codecs and levels, checks it against the matching and independent decoders, then feeds truncations and alterations judged by the reference decoder; counted by distinct (codec, data fed)")
	codecCases(r, compressCodecs, 1800, 40000, 160, 3000, 60, 1000)
	r.SeqCases("levels", 1, 1, func(c *vh.Case) {
		for l := -300; l <= 300; l++ {
			out, err := compress.ZlibLevel([]byte("some data"), l)
			if l >= -2 && l <= 9 {
				b, e := refZlib(out)
				c.Check(err == nil && e == nil && string(b) == "some data", "valid-level", "ZlibLevel at level %d: %v, %v", l, err, e)
			} else {
				c.Check(err != nil, "invalid-level", "ZlibLevel accepts level %d", l)
			}
			out, err = compress.ZstdLevel([]byte("some data"), zstd.EncoderLevel(l))
			if l >= 1 && l <= 4 {
				b, e := refZstd(out)
				c.Check(err == nil && e == nil && string(b) == "some data", "valid-level", "ZstdLevel at level %d: %v, %v", l, err, e)
			} else {
				c.Check(err != nil, "invalid-level", "ZstdLevel accepts level %d", l)
			}
			c.Eval(2)
			c.Distinct(vh.Hash("level", l))
		}
	})
}
