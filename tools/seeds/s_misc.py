SEEDS = []
def seed(**k): SEEDS.append(k)

# ---------------------------------------------------------------- util, compress, thrift, base58
seed(id="zstd-pooled-output", property="U02", pkg="compress",
 edits=[("compress/compress.go", """	// 使用 EncodeAll，预分配适当容量
	dst := make([]byte, 0, len(bs)) // 可进一步优化为 len(bs)*0.5 ~ 0.8
	return encoder.EncodeAll(bs, dst), nil
}
""", """	// 使用 EncodeAll，复用已分配的容量
	dst, _ := zstdBuf.Get().([]byte)
	_r = encoder.EncodeAll(bs, dst[:0])
	zstdBuf.Put(_r)
	return _r, nil
}

var zstdBuf sync.Pool
"""), ("compress/compress.go", """	"io"
""", """	"io"
	"sync"
""")],
 needs="a second Zstd call while the first call's output is still in use",
 breaks="the output of an earlier Zstd call is overwritten by a later one",
 demo='''
package compress_test

import (
	"bytes"
	"math/rand"
	"testing"

	"github.com/donnie4w/gofer/compress"
)

func TestDemo(t *testing.T) {
	var in, out [][]byte
	for i := 0; i < 50; i++ {
		b := make([]byte, 1000)
		rand.Read(b)
		o, err := compress.Zstd(b)
		if err != nil {
			t.Fatal(err)
		}
		in, out = append(in, b), append(out, o)
	}
	for i := range in {
		if b, err := compress.UnZstd(out[i]); err != nil || !bytes.Equal(b, in[i]) {
			t.Fatalf("%d: %v", i, err)
		}
	}
}
''')

seed(id="unzstd-memory-limit", property="U02", pkg="compress",
 edits=[("compress/compress.go", """zstd.NewReader(nil, zstd.WithDecoderConcurrency(0))""",
 """zstd.NewReader(nil, zstd.WithDecoderConcurrency(0), zstd.WithDecoderMaxMemory(4<<20))""")],
 needs="an input of more than 4 MB",
 breaks="UnZstd refuses valid streams of large inputs",
 demo='''
package compress_test

import (
	"testing"

	"github.com/donnie4w/gofer/compress"
)

func TestDemo(t *testing.T) {
	o, err := compress.Zstd(make([]byte, 6<<20))
	if err != nil {
		t.Fatal(err)
	}
	if b, err := compress.UnZstd(o); err != nil || len(b) != 6<<20 {
		t.Fatalf("%d %v", len(b), err)
	}
}
''')

seed(id="unzlib-tolerates-truncation", property="U02", pkg="compress",
 edits=[("compress/compress.go", """	if _, err := decompressedData.ReadFrom(r); err != nil {
""", """	if _, err := decompressedData.ReadFrom(r); err != nil && err != io.ErrUnexpectedEOF {
""")],
 needs="a truncated zlib stream",
 breaks="UnZlib returns part of the data without an error when the stream is cut off",
 demo='''
package compress_test

import (
	"testing"

	"github.com/donnie4w/gofer/compress"
)

func TestDemo(t *testing.T) {
	o, _ := compress.Zlib([]byte("some text, some text, some text"))
	for i := 0; i < len(o); i++ {
		if b, err := compress.UnZlib(o[:i]); err == nil {
			t.Fatalf("cut to %d of %d bytes: %q without error", i, len(o), b)
		}
	}
}
''')

seed(id="zliblevel-clamps", property="U02", pkg="compress",
 edits=[("compress/compress.go", """	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
""", """	if compressor, err = zlib.NewWriterLevel(&buf, min(level, zlib.BestCompression)); err == nil {
""")],
 needs="a level above the highest",
 breaks="an invalid compression level is accepted",
 demo='''
package compress_test

import (
	"testing"

	"github.com/donnie4w/gofer/compress"
)

func TestDemo(t *testing.T) {
	if _, err := compress.ZlibLevel([]byte("x"), 10); err == nil {
		t.Fatal("level 10 was accepted")
	}
}
''')

seed(id="gzip-writer-pool-order", property="U01", pkg="util", flags="-race",
 edits=[("util/compress.go", """	gw := gzip.NewWriter(&buf)
	defer gw.Close()
	_, err = gw.Write(bs)
	return
}
""", """	gw := gzPool.Get().(*gzip.Writer)
	gw.Reset(&buf)
	defer gw.Close()
	defer gzPool.Put(gw)
	_, err = gw.Write(bs)
	return
}

var gzPool = sync.Pool{New: func() any { return gzip.NewWriter(nil) }}
"""), ("util/compress.go", """	"io"
""", """	"io"
	"sync"
""")],
 needs="concurrent Gzip calls: the writer is back in the pool before it is closed",
 breaks="two goroutines use one gzip writer; outputs are damaged",
 demo='''
package util_test

import (
	"bytes"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := bytes.Repeat([]byte{byte(g), 7}, 3000)
			for i := 0; i < 300; i++ {
				z, err := util.Gzip(in)
				if err != nil {
					t.Error(err)
					return
				}
				b, err := util.UnGzip(z.Bytes())
				if err != nil || !bytes.Equal(b.Bytes(), in) {
					t.Errorf("round trip: %v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="snappy-shared-dst", property="U01", pkg="util",
 edits=[("util/compress.go", """	return snappy.Encode(nil, bs)
""", """	if n := snappy.MaxEncodedLen(len(bs)); n > 0 && n <= len(snappyDst) {
		snappyMu.Lock()
		defer snappyMu.Unlock()
		return snappy.Encode(snappyDst[:], bs)
	}
	return snappy.Encode(nil, bs)
"""), ("util/compress.go", """func SnappyEncode(bs []byte) (_r []byte) {
""", """// scratch memory for small inputs
var (
	snappyMu  sync.Mutex
	snappyDst [512]byte
)

// SnappyEncode returns the snappy form of bs
func SnappyEncode(bs []byte) (dst []byte) {
"""), ("util/compress.go", """	"io"
""", """	"io"
	"sync"
""")],
 needs="two small SnappyEncode results held at once",
 breaks="a later SnappyEncode overwrites the result of an earlier one",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	a := util.SnappyEncode([]byte("first"))
	b := util.SnappyEncode([]byte("again"))
	if string(util.SnappyDecode(a)) != "first" || string(util.SnappyDecode(b)) != "again" {
		t.Fatalf("%q %q", util.SnappyDecode(a), util.SnappyDecode(b))
	}
}
''')

seed(id="bytestoint32-exact-length", property="U03", pkg="util",
 edits=[("util/num.go", """	if len(bs) >= 4 {
		for i := 0; i < 4; i++ {
			_r = _r | int32(bs[i])<<(8*(3-i))
		}
	} else {
		bs4 := make([]byte, 4)
		for i, b := range bs {
			bs4[i+4-len(bs)] = b
		}
""", """	if len(bs) == 4 {
		for i := 0; i < 4; i++ {
			_r = _r | int32(bs[i])<<(8*(3-i))
		}
	} else {
		bs4 := make([]byte, 4)
		copy(bs4[max(0, 4-len(bs)):], bs[max(0, len(bs)-4):])
""")],
 needs="an input longer than four bytes",
 breaks="BytesToInt32 uses the last instead of the leading four bytes of longer input",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	if n := util.BytesToInt32([]byte{0, 0, 0, 9, 1}); n != 9 {
		t.Fatal(n)
	}
}
''')

seed(id="gob-pooled-buffer", property="U04", pkg="util",
 edits=[("util/gob.go", """	buf := new(bytes.Buffer)
	enc := gob.NewEncoder(buf)
	err = enc.Encode(e)
	by = buf.Bytes()
	return
}
""", """	buf := gobPool.Get().(*bytes.Buffer)
	defer gobPool.Put(buf)
	buf.Reset()
	enc := gob.NewEncoder(buf)
	err = enc.Encode(e)
	by = buf.Bytes()
	return
}

var gobPool = sync.Pool{New: func() any { return new(bytes.Buffer) }}
"""), ("util/gob.go", """	"encoding/json"
""", """	"encoding/json"
	"sync"

""")],
 needs="the result of one Encode used after another Encode",
 breaks="encoded bytes are overwritten by the next Encode",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	var all [][]byte
	for i := 0; i < 20; i++ {
		b, err := util.Encode([]int{i, i, i})
		if err != nil {
			t.Fatal(err)
		}
		all = append(all, b)
	}
	for i, b := range all {
		v, err := util.Decode[[]int](b)
		if err != nil || (*v)[0] != i {
			t.Fatal(i, v, err)
		}
	}
}
''')

seed(id="proto-merge", property="U04", pkg="util",
 edits=[("util/protobuf.go", """	return proto.Unmarshal(bs, m)
""", """	return proto.UnmarshalOptions{Merge: true}.Unmarshal(bs, m)
""")],
 needs="decoding into a message that already holds fields",
 breaks="fields of an earlier value remain after Unmarshal",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
	"google.golang.org/protobuf/types/known/durationpb"
)

func TestDemo(t *testing.T) {
	m := &durationpb.Duration{Seconds: 5, Nanos: 7}
	if err := util.Unmarshal(util.Marshal(&durationpb.Duration{Nanos: 1}), m); err != nil {
		t.Fatal(err)
	}
	if m.Seconds != 0 || m.Nanos != 1 {
		t.Fatal(m)
	}
}
''')

seed(id="proto-allow-partial", property="U04", pkg="util",
 edits=[("util/protobuf.go", """	return proto.Unmarshal(bs, m)
""", """	return proto.UnmarshalOptions{AllowPartial: true, DiscardUnknown: true}.Unmarshal(bs, m)
""")],
 needs="a message with a required field that is missing",
 breaks="a message without a required field decodes without an error",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestDemo(t *testing.T) {
	if err := util.Unmarshal(nil, &descriptorpb.UninterpretedOption_NamePart{}); err == nil {
		t.Fatal("a message without its required fields was accepted")
	}
}
''')

seed(id="sha1-shared-state", property="U05", pkg="util", flags="-race",
 edits=[("util/encode.go", """	m := sha1.New()
	m.Write(bs)
	return m.Sum(nil)
}
""", """	sha1Hash.Reset()
	sha1Hash.Write(bs)
	return sha1Hash.Sum(nil)
}

var sha1Hash = sha1.New()
""")],
 needs="concurrent SHA1 calls",
 breaks="concurrent digests mix their inputs",
 demo='''
package util_test

import (
	"bytes"
	"crypto/sha1"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := bytes.Repeat([]byte{byte(g)}, 5000)
			want := sha1.Sum(in)
			for i := 0; i < 500; i++ {
				if !bytes.Equal(util.SHA1(in), want[:]) {
					t.Error("wrong digest")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="blake2b-reads-twice", property="U05", pkg="util",
 edits=[("util/encode.go", """	hasher.Write(input)
	blake2b.Sum256(input)
	return hasher.Sum(nil), nil
""", """	for len(input) > blake2b.BlockSize {
		hasher.Write(input[:blake2b.BlockSize])
		input = input[blake2b.BlockSize:]
	}
	if len(input) < blake2b.BlockSize {
		hasher.Write(input)
	}
	return hasher.Sum(nil), nil
""")],
 needs="an input whose length is a multiple of the block size",
 breaks="the last block of such an input is left out of the digest",
 demo='''
package util_test

import (
	"bytes"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	a, _ := util.Blake2b(make([]byte, 128))
	b, _ := util.Blake2b(bytes.Repeat([]byte{1}, 128))
	if bytes.Equal(a, b) {
		t.Fatal("different inputs, one digest")
	}
}
''')

seed(id="base58-signed-encode", property="U06", pkg="base58",
 edits=[("base58/base58.go", """	for v > 0 {
		mod := v % 58
		v /= 58
		_r = append(_r, b58Alphabet[mod])
	}
""", """	for v, n := int64(v), uint64(0); v != 0; v = int64(n / 58) {
		n = uint64(v) &^ (1 << 63)
		_r = append(_r, b58Alphabet[n%58])
	}
""")],
 needs="a value of at least 2^63",
 breaks="the top bit of a value is lost in its encoding",
 demo='''
package base58_test

import (
	"testing"

	"github.com/donnie4w/gofer/base58"
)

func TestDemo(t *testing.T) {
	for _, v := range []uint64{1, 57, 58, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		if d, ok := base58.DecodeForInt64(base58.EncodeForInt64(v)); !ok || d != v {
			t.Fatal(v, d, ok)
		}
	}
}
''')

seed(id="base58-lookalikes", property="U06", pkg="base58",
 edits=[("base58/base58.go", """		if idx := bytes.IndexByte(b58Alphabet, b); idx >= 0 {
""", """		if idx := bytes.IndexByte(b58Alphabet, b); idx >= 0 || b == 'I' || b == 'l' {
			idx = max(idx, 0) // both read as the digit 1
""")],
 needs="a text with one of the characters that look like 1",
 breaks="characters outside the alphabet are decoded",
 demo='''
package base58_test

import (
	"testing"

	"github.com/donnie4w/gofer/base58"
)

func TestDemo(t *testing.T) {
	for b := 0; b < 256; b++ {
		in := false
		for _, c := range "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz" {
			in = in || int(c) == b
		}
		if _, ok := base58.DecodeForInt64([]byte{'2', byte(b)}); ok != in {
			t.Fatalf("%q: %v", byte(b), ok)
		}
	}
}
''')

seed(id="randuint-31bit", property="U07", pkg="util",
 edits=[("util/encode.go", """	return uint(mathrand.New(mathrand.NewSource(uuid.NewUUID().Int64())).Intn(int(i)))
""", """	return uint(mathrand.New(mathrand.NewSource(uuid.NewUUID().Int64())).Int31n(int32(i)))
""")],
 needs="a bound above 2^31",
 breaks="RandUint panics or never reaches most of the range for large bounds",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	big := false
	for i := 0; i < 100; i++ {
		big = big || util.RandUint(1<<40) > 1<<32
	}
	if !big {
		t.Fatal("no value above 2^32 in 100")
	}
}
''')

seed(id="isfileexist-not-dir", property="U07", pkg="util",
 edits=[("util/encode.go", """		_r = err == nil || os.IsExist(err)
""", """		_r = !os.IsNotExist(err)
""")],
 needs="a path below a regular file, or one that cannot be examined",
 breaks="paths whose examination fails for another reason count as existing",
 demo='''
package util_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, nil, 0666)
	if !util.IsFileExist(f) || util.IsFileExist(f+"/x") || util.IsFileExist(f+"y") {
		t.Fatal(util.IsFileExist(f), util.IsFileExist(f+"/x"), util.IsFileExist(f+"y"))
	}
}
''')

seed(id="recover-only-errors", property="U07", pkg="util",
 edits=[("util/encode.go", """		if err != nil {
			*err = fmt.Errorf("%v", e)
		}
""", """		if er, ok := e.(error); ok && err != nil {
			*err = fmt.Errorf("%w", er)
		}
""")],
 needs="a panic with a value that is not an error",
 breaks="a panic with a string is swallowed without an error",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func f() (err error) {
	defer util.Recover(&err)
	panic("text")
}

func TestDemo(t *testing.T) {
	if f() == nil {
		t.Fatal("the panic was swallowed")
	}
}
''')

seed(id="buffer-first-write-aliases", property="B01", pkg="buffer",
 edits=[("buffer/buffer.go", """	if b != nil {
		*b = append(*b, p...)
		return len(p), nil
	} else {
		return 0, fmt.Errorf("Write: buffer is nil")
""", """	if b != nil {
		if cap(*b) == 0 {
			*b = p[:len(p):len(p)] // nothing to keep, nothing to copy
		} else {
			*b = append(*b, p...)
		}
		return len(p), nil
	} else {
		return 0, fmt.Errorf("Write: buffer is nil")
""")],
 needs="the first write to an empty buffer, then a change of the written slice",
 breaks="the buffer shares memory with the slice that was written",
 demo='''
package buffer_test

import (
	"testing"

	"github.com/donnie4w/gofer/buffer"
)

func TestDemo(t *testing.T) {
	b := buffer.NewBuffer()
	p := []byte("abc")
	b.Write(p)
	p[0] = 'x'
	if b.String() != "abc" {
		t.Fatal(b.String())
	}
}
''')

seed(id="buffer-string-view", property="B01", pkg="buffer",
 edits=[("buffer/buffer.go", """		return string(b.Bytes())
""", """		return unsafe.String(unsafe.SliceData(*b), len(*b))
"""), ("buffer/buffer.go", """	"io"

""", """	"io"
	"unsafe"

""")],
 needs="a string taken from a buffer that is reset and written again",
 breaks="the string changes when the buffer is reused",
 demo='''
package buffer_test

import (
	"testing"

	"github.com/donnie4w/gofer/buffer"
)

func TestDemo(t *testing.T) {
	b := buffer.NewBufferWithCapacity(10)
	b.WriteString("abc")
	s := b.String()
	b.Reset()
	b.WriteString("xyz")
	if s != "abc" {
		t.Fatal(s)
	}
}
''')

# ---------------------------------------------------------------- uuid
seed(id="uuid-seq-load-store", property="I01", pkg="uuid", flags="-race",
 edits=[("uuid/uuid.go", """	seq := atomic.AddUint64(&b.seq, 1)
	if seq == math.MaxUint64 {
""", """	seq := atomic.LoadUint64(&b.seq) + 1
	atomic.StoreUint64(&b.seq, seq)
	if seq == math.MaxUint64 {
""")],
 needs="concurrent generation: two goroutines between the load and the store",
 breaks="goroutines draw the same sequence number and get equal UUIDs",
 demo='''
package uuid_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	all := make([][]uuid.UUID, 8)
	for g := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				all[g] = append(all[g], *uuid.NewUUID())
			}
		}()
	}
	wg.Wait()
	seen := map[uuid.UUID]bool{}
	for _, l := range all {
		for _, u := range l {
			if seen[u] {
				t.Fatal("twice: ", u.String())
			}
			seen[u] = true
		}
	}
}
''')

seed(id="uuid-seq-wraps", property="I01", pkg="uuid",
 edits=[("uuid/uuid.go", """	return int64(seq)
}
""", """	return int64(seq & (1<<19 - 1))
}
""")],
 needs="more than 524288 ids in one process",
 breaks="ids repeat after half a million",
 demo='''
package uuid_test

import (
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestDemo(t *testing.T) {
	seen := map[uuid.UUID]bool{}
	for i := 0; i < 700000; i++ {
		u := *uuid.NewUUID()
		if seen[u] {
			t.Fatal("twice: ", u.String())
		}
		seen[u] = true
	}
}
''')

seed(id="uuid-version-bits", property="I02", pkg="uuid",
 edits=[("uuid/uuid.go", """	return int(u[6] >> 4)
""", """	return int(u[6] >> 4 & 0x07)
""")],
 needs="a parsed UUID of version 8 or above",
 breaks="versions from 8 on are reported without their top bit",
 demo='''
package uuid_test

import (
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestDemo(t *testing.T) {
	u, err := uuid.Parse("01234567-89ab-8def-8123-456789abcdef")
	if err != nil || u.Version() != 8 {
		t.Fatal(u, err)
	}
}
''')

seed(id="uuid-parse-braces", property="I02", pkg="uuid",
 edits=[("uuid/uuid.go", """	if len(uuidStr) != 36 {
""", """	if uuidStr = strings.Trim(uuidStr, "{} "); len(uuidStr) != 36 {
""")],
 needs="a text with braces or blanks around the canonical form",
 breaks="text that is not canonical is accepted",
 demo='''
package uuid_test

import (
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestDemo(t *testing.T) {
	s := uuid.NewUUID().String()
	for _, x := range []string{"{" + s + "}", " " + s, s + " ", s + "}"} {
		if _, err := uuid.Parse(x); err == nil {
			t.Fatalf("%q was accepted", x)
		}
	}
}
''')

# ---------------------------------------------------------------- network, signals
seed(id="http-limited-body", property="N01", pkg="httpclient",
 edits=[("httpclient/post.go", """			if body, err = io.ReadAll(resp.Body); err == nil {
""", """			if body, err = io.ReadAll(io.LimitReader(resp.Body, 1<<20)); err == nil {
""")],
 needs="a response of more than 1 MB",
 breaks="large responses are cut off without an error",
 demo='''
package httpclient_test

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/donnie4w/gofer/httpclient"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write(make([]byte, 3<<20)) }))
	defer s.Close()
	if b, err := httpclient.Post(nil, s.URL); err != nil || len(b) != 3<<20 {
		t.Fatal(len(b), err)
	}
}
''')

seed(id="http-partial-body", property="N01", pkg="httpclient",
 edits=[("httpclient/post.go", """			var body []byte
			if body, err = io.ReadAll(resp.Body); err == nil {
				_r = body
			}
""", """			_r, err = io.ReadAll(resp.Body)
""")],
 needs="a response that is cut off",
 breaks="a truncated response hands part of the body to the caller",
 demo='''
package httpclient_test

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/donnie4w/gofer/httpclient"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "100")
		w.Write(make([]byte, 10))
	}))
	defer s.Close()
	if b, err := httpclient.Post(nil, s.URL); err == nil || len(b) > 0 {
		t.Fatal(len(b), err)
	}
}
''')

seed(id="http-shared-transport", property="N01", pkg="httpclient", flags="-race",
 edits=[("httpclient/post.go", """	transport := &http.Transport{DisableKeepAlives: true}
	if strings.HasPrefix(url, "https:") {
		transport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
	}
""", """	if strings.HasPrefix(url, "https:") {
		transport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
	}
"""), ("httpclient/post.go", """func Post(bs []byte, url string) (_r []byte, err error) {
	return Post2(bs, false, url)
""", """// one transport for all requests
var transport = &http.Transport{DisableKeepAlives: true}

func Post(bs []byte, url string) (_r []byte, err error) {
	return Post3(bs, false, url, nil, nil)
""")],
 needs="concurrent https requests",
 breaks="concurrent calls change the shared transport; the configuration is used while it is replaced",
 demo='''
package httpclient_test

import (
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/httpclient"
)

func TestDemo(t *testing.T) {
	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("ok")) }))
	defer s.Close()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				if b, err := httpclient.Post(nil, s.URL); err != nil || string(b) != "ok" {
					t.Error(string(b), err)
				}
			}
		}()
	}
	wg.Wait()
}
''')

WS = '''
package websocket_test

import (
	"bytes"
	"io"
	"net"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/donnie4w/gofer/websocket"
	wss "golang.org/x/net/websocket"
)

var (
	_ = bytes.Equal
	_ = io.Copy
	_ net.Conn
	_ sync.Mutex
	_ atomic.Int64
	_ time.Duration
)

func serve(t *testing.T, f func(*wss.Conn)) string {
	s := httptest.NewServer(wss.Handler(f))
	t.Cleanup(s.Close)
	return strings.Replace(s.URL, "http:", "ws:", 1)
}
'''

seed(id="ws-empty-message", property="N02", pkg="websocket",
 edits=[("websocket/wshandle.go", """		if byt != nil && wh.Cfg.OnMessage != nil {
""", """		if len(byt) > 0 && wh.Cfg.OnMessage != nil {
""")],
 needs="an empty message from the peer",
 breaks="empty messages are not delivered",
 demo=WS + '''
func TestDemo(t *testing.T) {
	u := serve(t, func(c *wss.Conn) {
		wss.Message.Send(c, []byte{})
		wss.Message.Send(c, []byte("x"))
		time.Sleep(time.Second)
	})
	var n atomic.Int64
	h, err := websocket.NewHandler(&websocket.Config{Url: u, Origin: "http://x", OnMessage: func(*websocket.Handler, []byte) { n.Add(1) }})
	if err != nil {
		t.Fatal(err)
	}
	defer h.Close()
	for i := 0; i < 50 && n.Load() < 2; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n.Load() != 2 {
		t.Fatal("delivered ", n.Load(), " of 2 messages")
	}
}
''')

seed(id="ws-payload-limit", property="N02", pkg="websocket",
 edits=[("websocket/wshandle.go", """	if err == nil && conn != nil {
""", """	if err == nil {
		conn.MaxPayloadBytes = 1 << 20
""")],
 needs="a message of more than 1 MB from the peer",
 breaks="large messages are not delivered and end the connection",
 demo=WS + '''
func TestDemo(t *testing.T) {
	u := serve(t, func(c *wss.Conn) {
		wss.Message.Send(c, make([]byte, 2<<20))
		time.Sleep(2 * time.Second)
	})
	n := make(chan int, 10)
	h, err := websocket.NewHandler(&websocket.Config{Url: u, Origin: "http://x", OnMessage: func(_ *websocket.Handler, b []byte) { n <- len(b) }})
	if err != nil {
		t.Fatal(err)
	}
	defer h.Close()
	select {
	case l := <-n:
		if l != 2<<20 {
			t.Fatal(l)
		}
	case <-time.After(1500 * time.Millisecond):
		t.Fatal("not delivered")
	}
}
''')

seed(id="ws-close-callback-missing", property="N03", pkg="websocket",
 edits=[("websocket/wshandle.go", """		err = wh.conn.Close()
	}
	return
}
""", """		if err = wh.conn.Close(); err == nil {
			wh.closed()
		}
	}
	return
}

func (wh *Handler) closed() {
	if wh.Cfg.OnClose != nil {
		wh.Cfg.OnClose(wh)
	}
}
"""), ("websocket/wshandle.go", """	wh.Close()
	if wh.Cfg.OnClose != nil {
		wh.Cfg.OnClose(wh)
	}
}
""", """	wh.Close()
}
""")],
 needs="the peer resets the connection, so that closing it reports an error",
 breaks="the close callback is missing when closing fails",
 demo=WS + '''
func TestDemo(t *testing.T) {
	u := serve(t, func(c *wss.Conn) { time.Sleep(2 * time.Second) })
	// a proxy that resets the client's connection
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s, err := net.Dial("tcp", strings.TrimPrefix(u, "ws://"))
			if err != nil {
				return
			}
			go io.Copy(s, c)
			go io.Copy(c, s)
			time.AfterFunc(300*time.Millisecond, func() {
				c.(*net.TCPConn).SetLinger(0)
				c.Close()
				s.Close()
			})
		}
	}()
	for i := 0; i < 10; i++ {
		var n atomic.Int64
		_, err := websocket.NewHandler(&websocket.Config{Url: "ws://" + l.Addr().String(), Origin: "http://x", OnClose: func(*websocket.Handler) { n.Add(1) }})
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 100 && n.Load() == 0; i++ {
			time.Sleep(20 * time.Millisecond)
		}
		if n.Load() != 1 {
			t.Fatal("close callback ran ", n.Load(), " times")
		}
	}
}
''')

seed(id="ws-open-after-reader", property="N03", pkg="websocket",
 edits=[("websocket/wshandle.go", """		if cfg.OnOpen != nil {
			cfg.OnOpen(wh)
		}
		go wh.read()
""", """		go wh.read()
		if cfg.OnOpen != nil {
			cfg.OnOpen(wh)
		}
""")],
 needs="a peer that sends at once, and an open callback that has not run yet when the message arrives",
 breaks="a message can reach the message callback before the open callback has run",
 demo=WS + '''
func TestDemo(t *testing.T) {
	u := serve(t, func(c *wss.Conn) {
		wss.Message.Send(c, []byte("hello"))
		time.Sleep(time.Second)
	})
	var opened, early, got atomic.Int64
	h, err := websocket.NewHandler(&websocket.Config{Url: u, Origin: "http://x",
		OnOpen: func(*websocket.Handler) { time.Sleep(100 * time.Millisecond); opened.Store(1) },
		OnMessage: func(*websocket.Handler, []byte) {
			if opened.Load() == 0 {
				early.Store(1)
			}
			got.Add(1)
		}})
	if err != nil {
		t.Fatal(err)
	}
	defer h.Close()
	for i := 0; i < 50 && got.Load() == 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if got.Load() != 1 || early.Load() != 0 {
		t.Fatal("messages ", got.Load(), " before open ", early.Load())
	}
}
''')

seed(id="ws-close-keeps-reader", property="N03", pkg="websocket",
 edits=[("websocket/wshandle.go", """	if wh.Cfg.OnError != nil {
		go wh.Cfg.OnError(wh, err)
	}
	wh.Close()
""", """	if wh.Cfg.OnError != nil && !errors.Is(err, net.ErrClosed) {
		go wh.Cfg.OnError(wh, err)
	}
	wh.Close()
""")],
 needs="the connection is closed locally while the reader waits",
 breaks="the error callback does not run after a local close",
 demo=WS + '''
func TestDemo(t *testing.T) {
	u := serve(t, func(c *wss.Conn) { time.Sleep(time.Second) })
	n := make(chan error, 10)
	h, err := websocket.NewHandler(&websocket.Config{Url: u, Origin: "http://x", OnError: func(_ *websocket.Handler, e error) { n <- e }})
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(50 * time.Millisecond)
	h.Close()
	select {
	case e := <-n:
		if e == nil {
			t.Fatal("nil error")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("no error callback")
	}
}
''')

seed(id="signal-late-notify", property="S01", pkg="gosignal",
 edits=[("gosignal/gosignal.go", """	signal.Notify(sigChan, sigs...)
	go func() {
		sig := <-sigChan
""", """	go func() {
		signal.Notify(sigChan, sigs...)
		sig := <-sigChan
""")],
 needs="a signal right after the registration returned",
 breaks="a signal that arrives right after registration takes its default action",
 demo='''
package gosignal_test

import (
	"os"
	"os/exec"
	"syscall"
	"testing"
	"time"

	"github.com/donnie4w/gofer/gosignal"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		got := make(chan os.Signal, 1)
		gosignal.ListenSignalEvent(func(s os.Signal) { got <- s }, syscall.SIGUSR1)
		syscall.Kill(os.Getpid(), syscall.SIGUSR1)
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			t.Fatal("no call")
		}
		return
	}
	for i := 0; i < 30; i++ {
		c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		if out, err := c.CombinedOutput(); err != nil {
			t.Fatalf("%d: %v %s", i, err, out)
		}
	}
}
''')

seed(id="signal-unregisters-all", property="S01", pkg="gosignal",
 edits=[("gosignal/gosignal.go", """		sig := <-sigChan
		signalfunc(sig)
""", """		for sig := range sigChan {
			signal.Reset(sigs...)
			signalfunc(sig)
			break
		}
""")],
 needs="two registrations for one signal, or a second delivery of a registered signal",
 breaks="the first delivery removes the other registrations of the signal too; the next one ends the process",
 demo='''
package gosignal_test

import (
	"os"
	"os/exec"
	"syscall"
	"testing"
	"time"

	"github.com/donnie4w/gofer/gosignal"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		got := make(chan os.Signal, 9)
		gosignal.ListenSignalEvent(func(s os.Signal) { got <- s }, syscall.SIGUSR1, syscall.SIGUSR2)
		gosignal.ListenSignalEvent(func(s os.Signal) { got <- s }, syscall.SIGUSR2)
		syscall.Kill(os.Getpid(), syscall.SIGUSR1)
		<-got
		syscall.Kill(os.Getpid(), syscall.SIGUSR2)
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			t.Fatal("no call")
		}
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
}
''')

seed(id="fast-header-cast", property="S02", pkg="fast",
 edits=[("fast/fast.go", """	return unsafe.Slice(unsafe.StringData(s), len(s))
""", """	return *(*[]byte)(unsafe.Pointer(&s))
""")],
 needs="use of the view's capacity",
 breaks="the view's capacity is whatever lies behind the string header; append and reslicing reach foreign memory",
 demo='''
package fast_test

import (
	"strings"
	"testing"

	"github.com/donnie4w/gofer/fast"
)

//go:noinline
func view(s string) []byte { return fast.StringToSlice(s) }

func TestDemo(t *testing.T) {
	for i := 1; i < 100; i++ {
		b := view(strings.Repeat("x", i))
		if len(b) != i || cap(b) != i {
			t.Fatalf("length %d capacity %d for %d bytes", len(b), cap(b), i)
		}
	}
}
''')

