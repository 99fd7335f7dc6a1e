package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	athrift "github.com/apache/thrift/lib/go/thrift"
	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/buffer"
	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/compress"
	"github.com/donnie4w/gofer/fastio"
	"github.com/donnie4w/gofer/hashmap"
	"github.com/donnie4w/gofer/httpclient"
	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/mmap"
	gthrift "github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/uuid"
	"github.com/donnie4w/gofer/websocket"
	klzstd "github.com/klauspost/compress/zstd"
	xws "golang.org/x/net/websocket"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"verifharness/vh"
)

// loan is memory the caller lends for one call: guard bytes, the slice, spare capacity, guard bytes.
type loan struct {
	what      string
	mem, snap []byte
	lo, hi    int
}

// kept is a result: the memory handed back and what it held at that moment.
type kept struct {
	what string
	mem  []byte
	want []byte
}

// holder plays one caller: it lends memory, takes it back after the call, and keeps results.
type holder struct {
	c     *vh.Case
	r     *rand.Rand
	loans []*loan
	keeps []*kept
	fresh int // keeps before this index were kept by earlier calls
	calls int
	lent  int
	bytes int
}

func fill(r *rand.Rand, b []byte) {
	for i := range b {
		b[i] = byte(r.Uint32() >> 9)
	}
}

// data makes n bytes that compress a little.
func data(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	if r.IntN(2) == 0 {
		fill(r, b)
		return b
	}
	v := byte(r.Uint32())
	for i := range b {
		if r.IntN(9) == 0 {
			v = byte(r.Uint32())
		}
		b[i] = v
	}
	return b
}

func size(r *rand.Rand) int {
	switch r.IntN(8) {
	case 0:
		return r.IntN(3)
	case 1:
		return 1<<r.IntN(13) + r.IntN(3) - 1
	case 2:
		return r.IntN(70000)
	}
	return r.IntN(600)
}

// lend copies b into memory of its own with guards and spare capacity.
func (h *holder) lend(what string, b []byte) []byte {
	lo := 1 + h.r.IntN(40)
	spare := h.r.IntN(3) * h.r.IntN(80)
	if h.r.IntN(4) == 0 {
		spare += 2*len(b) + 200 // room for a result
	}
	mem := make([]byte, lo+len(b)+spare+40)
	fill(h.r, mem[:lo])
	copy(mem[lo:], b)
	fill(h.r, mem[lo+len(b):])
	h.loans = append(h.loans, &loan{what, mem, append([]byte(nil), mem...), lo, lo + len(b)})
	h.lent++
	return mem[lo : lo+len(b) : lo+len(b)+spare]
}

// back ends the call: what was lent must be as it was, and is used for something else at once.
func (h *holder) back() {
	for _, l := range h.loans {
		if !bytes.Equal(l.mem, l.snap) {
			i := 0
			for l.mem[i] == l.snap[i] {
				i++
			}
			where := "the slice"
			if i < l.lo {
				where = "the memory before the slice"
			} else if i >= l.hi {
				where = "the spare capacity"
			}
			h.c.Violate("argument-modified", "%s: a call changed %s of its argument (%d bytes) at offset %d: %#x became %#x", l.what, where, l.hi-l.lo, i-l.lo, l.snap[i], l.mem[i])
		}
		fill(h.r, l.mem)
		h.bytes += len(l.mem)
	}
	h.loans = h.loans[:0]
	h.calls++
}

// keep holds a result of the current call.
func (h *holder) keep(what string, out []byte) {
	h.keeps = append(h.keeps, &kept{what, out, append([]byte(nil), out...)})
}

func (h *holder) verify(from int, after string) {
	for _, k := range h.keeps[from:] {
		if !bytes.Equal(k.mem, k.want) {
			i := 0
			for k.mem[i] == k.want[i] {
				i++
			}
			h.c.Violate("result-changed", "%s: %d bytes returned earlier changed at offset %d (%#x became %#x) %s", k.what, len(k.want), i, k.want[i], k.mem[i], after)
			k.want = append([]byte(nil), k.mem...)
		}
	}
}

// settle is called after each operation.
func (h *holder) settle() {
	h.verify(h.fresh, "when the caller reused its argument")
	// the caller writes over some of its results, spare capacity included
	for n := h.r.IntN(3); n > 0 && len(h.keeps) > 0; n-- {
		i := h.r.IntN(len(h.keeps))
		k := h.keeps[i]
		h.keeps[i] = h.keeps[len(h.keeps)-1]
		h.keeps = h.keeps[:len(h.keeps)-1]
		all := k.mem[:cap(k.mem)]
		for j := range all {
			all[j] ^= 0x5a
		}
	}
	h.verify(0, "after later calls, or when the caller wrote over another result")
	for len(h.keeps) > 60 {
		h.keeps = h.keeps[1:]
	}
	h.fresh = len(h.keeps)
}

func (h *holder) same(what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		h.c.Violate("wrong-result", "%s: got %d bytes that differ from the %d expected: %s instead of %s", what, len(got), len(want), brief(got), brief(want))
	}
}

func brief(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x...", b[:40])
	}
	return fmt.Sprintf("%x", b)
}

// oneShot is a pair of inverse functions.
type oneShot struct {
	name     string
	enc, dec func([]byte) ([]byte, error)
	most     int // longest input
}

func buf(f func([]byte) (bytes.Buffer, error)) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) {
		o, err := f(b)
		return o.Bytes(), err
	}
}

func plain(f func([]byte) []byte) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) { return f(b), nil }
}

// raws is a value whose decoded form could share memory with the encoding.
type raws struct {
	A []byte
	J json.RawMessage
	L [][]byte
}

func pack(enc func(raws) ([]byte, error)) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) {
		n := len(b) / 3
		return enc(raws{A: b[:n], J: json.RawMessage("null"), L: [][]byte{b[n : 2*n], b[2*n:]}})
	}
}

func unpack(r *raws) []byte {
	if len(r.L) != 2 {
		return nil
	}
	return append(append(append([]byte(nil), r.A...), r.L[0]...), r.L[1]...)
}

// bin is a thrift struct of one binary field.
type bin struct{ b []byte }

func (x *bin) Write(ctx context.Context, p athrift.TProtocol) (err error) {
	p.WriteStructBegin(ctx, "bin")
	p.WriteFieldBegin(ctx, "b", athrift.STRING, 1)
	if err = p.WriteBinary(ctx, x.b); err == nil {
		p.WriteFieldEnd(ctx)
		p.WriteFieldStop(ctx)
		err = p.WriteStructEnd(ctx)
	}
	return
}

func (x *bin) Read(ctx context.Context, p athrift.TProtocol) (err error) {
	if _, err = p.ReadStructBegin(ctx); err != nil {
		return
	}
	for {
		_, t, _, e := p.ReadFieldBegin(ctx)
		if e != nil || t == athrift.STOP {
			return e
		}
		if x.b, err = p.ReadBinary(ctx); err != nil {
			return
		}
	}
}

var rsaMu sync.Mutex // RSA is slow enough without competition

var zstdSlots = make(chan struct{}, 2)

// narrow lets two through at a time: each zstd call takes tens of megabytes.
func narrow(f func([]byte) ([]byte, error)) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) {
		zstdSlots <- struct{}{}
		defer func() { <-zstdSlots }()
		return f(b)
	}
}

func oneShots(r *rand.Rand) []oneShot {
	zl := r.IntN(11) - 1
	sl := klzstd.EncoderLevel(1 + r.IntN(2)) // the higher levels take very much memory
	if r.IntN(6) == 0 {
		sl = klzstd.EncoderLevel(3 + r.IntN(2))
	}
	key, iv := fmt.Sprint("k", r.Uint64()), fmt.Sprint(r.Uint64())
	aes := keystore.NewAes(iv, key)
	return []oneShot{
		{"util.Zlib", util.Zlib, util.UnZlib, 0},
		{"util.Gzip", buf(util.Gzip), buf(util.UnGzip), 0},
		{"util.Snappy", plain(util.SnappyEncode), plain(util.SnappyDecode), 0},
		{"compress.Zlib", compress.Zlib, compress.UnZlib, 0},
		{fmt.Sprint("compress.ZlibLevel ", zl), func(b []byte) ([]byte, error) { return compress.ZlibLevel(b, zl) }, compress.UnZlib, 0},
		{"compress.Gzip", compress.Gzip, compress.UnGzip, 0},
		{"compress.Snappy", plain(compress.Snappy), compress.UnSnappy, 0},
		{"compress.Zstd", narrow(compress.Zstd), narrow(compress.UnZstd), 0},
		{fmt.Sprint("compress.ZstdLevel ", sl), narrow(func(b []byte) ([]byte, error) { return compress.ZstdLevel(b, sl) }), narrow(compress.UnZstd), 0},
		{"keystore.Aes Cbc", aes.EncrypterCbc, aes.DecrypterCbc, 0},
		{"keystore.AesEncrypter", func(b []byte) ([]byte, error) { return keystore.AesEncrypter(b, key) }, func(b []byte) ([]byte, error) { return keystore.AesDecrypter(b, key) }, 0},
		{"util gob", pack(func(v raws) ([]byte, error) { return util.Encode(v) }), func(b []byte) ([]byte, error) {
			v, err := util.Decode[raws](b)
			if err != nil {
				return nil, err
			}
			return unpack(v), nil
		}, 0},
		{"util gob bytes", func(b []byte) ([]byte, error) { return util.Encode(b) }, func(b []byte) ([]byte, error) {
			v, err := util.Decode[[]byte](b)
			if err != nil {
				return nil, err
			}
			return *v, nil
		}, 0},
		{"util json", pack(func(v raws) ([]byte, error) { return util.JsonEncode(v), nil }), func(b []byte) ([]byte, error) {
			v, err := util.JsonDecode[raws](b)
			if err != nil {
				return nil, err
			}
			return unpack(&v), nil
		}, 0},
		{"util json raw", func(b []byte) ([]byte, error) { return util.JsonEncode(string(util.JsonEncode(b))), nil }, func(b []byte) ([]byte, error) {
			raw, err := util.JsonDecode[json.RawMessage](b)
			if err != nil {
				return nil, err
			}
			s, err := util.JsonDecode[string](raw)
			if err != nil {
				return nil, err
			}
			return util.JsonDecode[[]byte]([]byte(s))
		}, 3000},
		{"util protobuf", func(b []byte) ([]byte, error) { return util.Marshal(wrapperspb.Bytes(b)), nil }, func(b []byte) ([]byte, error) {
			var m wrapperspb.BytesValue
			err := util.Unmarshal(b, &m)
			return m.Value, err
		}, 0},
		{"util thrift", func(b []byte) ([]byte, error) {
			return util.TEncode(&keystore.UserBean{Name: string(b[:len(b)/2]), Pwd: string(b[len(b)/2:])}), nil
		}, func(b []byte) ([]byte, error) {
			u, err := util.TDecode(b, &keystore.UserBean{})
			return []byte(u.Name + u.Pwd), err
		}, 0},
		{"thrift", func(b []byte) ([]byte, error) { return gthrift.TEncode(&bin{b}), nil }, func(b []byte) ([]byte, error) {
			x, err := gthrift.TDecode(b, &bin{})
			return x.b, err
		}, 0},
	}
}

func (h *holder) inverse(o oneShot) {
	n := size(h.r)
	if o.most > 0 {
		n %= o.most
	}
	if strings.HasPrefix(o.name, "compress.Zstd") && n == 0 { // the empty input has no zstd frame
		n = 1
	}
	d := data(h.r, n)
	out, err := o.enc(h.lend(o.name, d))
	if err != nil {
		h.c.Violate("error", "%s of %d bytes: %v", o.name, n, err)
	}
	h.keep(o.name+" (encoded)", out)
	e := append([]byte(nil), out...)
	h.back()
	h.verify(h.fresh, "when the caller reused its argument")
	h.same(o.name+" (encoded, after the caller reused its argument)", out, e)
	if h.r.IntN(2) == 0 { // the same again, with the first result overwritten
		all := out[:cap(out)]
		for i := range all {
			all[i] ^= 0x33
		}
		h.keeps = h.keeps[:len(h.keeps)-1]
		again, err := o.enc(h.lend(o.name, d))
		if err != nil {
			h.c.Violate("error", "%s of %d bytes again: %v", o.name, n, err)
		}
		h.keep(o.name+" (encoded again)", again)
		h.back()
		b, err := o.dec(h.lend(o.name+" (decoding)", append([]byte(nil), again...)))
		if err != nil {
			h.c.Violate("error", "%s: decoding again: %v", o.name, err)
		}
		h.same(o.name+" round trip after the caller wrote over the first results", b, d)
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x33
		}
		h.back()
	}
	got, err := o.dec(h.lend(o.name+" (decoding)", e))
	if err != nil {
		h.c.Violate("error", "%s: decoding of %d bytes: %v", o.name, len(e), err)
	}
	h.keep(o.name+" (decoded)", got)
	h.back()
	h.same(o.name+" round trip", got, d)
}

// digests and conversions: compared with a second call on another copy.
var pures = []struct {
	name string
	f    func(b []byte) []byte
	most int
}{
	{"util.MD5", util.MD5, 0},
	{"util.SHA1", util.SHA1, 0},
	{"util.Blake2b", func(b []byte) []byte { o, _ := util.Blake2b(b); return o }, 0},
	{"checksums", func(b []byte) []byte {
		return []byte(fmt.Sprint(util.CRC8(b), util.CRC32(b), util.CRC64(b), util.Hash64(b), util.FNVHash32(b), util.FNVHash64(b), util.CheckGzipType(b) != nil))
	}, 0},
	{"util numbers", func(b []byte) []byte {
		return bytes.Join([][]byte{util.Int64ToBytes(util.BytesToInt64(b[:8])), util.Int32ToBytes(util.BytesToInt32(b[8:12])), util.Int16ToBytes(util.BytesToInt16(b[12:14]))}, nil)
	}, -1},
	{"util.Int64ToBytes", func(b []byte) []byte { return util.Int64ToBytes(util.BytesToInt64(b[:8])) }, -1},
	{"util.Int32ToBytes", func(b []byte) []byte { return util.Int32ToBytes(util.BytesToInt32(b[:4])) }, -1},
	{"util.Int16ToBytes", func(b []byte) []byte { return util.Int16ToBytes(util.BytesToInt16(b[:2])) }, -1},
	{"util.IntArrayToBytes", func(b []byte) []byte { return util.IntArrayToBytes(util.BytesToIntArray(b[:len(b)/8*8])) }, 0},
	{"base58", func(b []byte) []byte {
		e := base58.EncodeForInt64(uint64(util.BytesToInt64(b[:8])))
		v, ok := base58.DecodeForInt64(e)
		if !ok || v != uint64(util.BytesToInt64(b[:8])) {
			return []byte("base58 does not round trip")
		}
		return e
	}, -1},
	{"base58 decoding", func(b []byte) []byte {
		s := []byte("1Bq9zXk2")
		copy(s, b[:3])
		in := append([]byte(nil), s...)
		v, ok := base58.DecodeForInt64(s)
		if !bytes.Equal(in, s) {
			return []byte("base58 decoding changed its argument")
		}
		return []byte(fmt.Sprint(v, ok))
	}, -1},
	{"base58 decoding of the argument", func(b []byte) []byte {
		v, ok := base58.DecodeForInt64(b)
		return []byte(fmt.Sprint(v, ok))
	}, 30},
	{"uuid.Base58", func(b []byte) []byte {
		u, err := uuid.Parse(fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:16]))
		if err != nil {
			return []byte(err.Error())
		}
		return u.Base58()
	}, -1},
	{"buffer", func(b []byte) []byte {
		w := buffer.NewBufferByPool()
		w.Write(b)
		w.WriteString("x")
		w.WriteInt32(len(b))
		p := make([]byte, 0, w.Len()+9)
		p = p[:w.Len()]
		w.Read(p)
		w.Free()
		return p
	}, 0},
}

func (h *holder) pure() {
	p := pures[h.r.IntN(len(pures))]
	n := size(h.r)
	if p.most > 0 {
		n %= p.most
	} else if p.most < 0 {
		n = 16
	}
	d := data(h.r, n)
	if p.most < 0 && h.r.IntN(2) == 0 { // small numbers
		clear(d[:6+h.r.IntN(3)])
		clear(d[8:11])
	}
	a := p.f(h.lend(p.name, d))
	h.keep(p.name, a)
	first := append([]byte(nil), a...)
	h.back()
	h.verify(h.fresh, "when the caller reused its argument")
	if h.r.IntN(2) == 0 {
		h.keeps = h.keeps[:len(h.keeps)-1]
		a = a[:cap(a)]
		for i := range a {
			a[i] ^= 0x77
		}
	}
	b := p.f(h.lend(p.name, d))
	h.keep(p.name, b)
	h.back()
	h.same(p.name+" again", b, first)
}

// shared state of one case: one server of each kind.
type world struct {
	dir   string
	hold  chan struct{} // requests for /hold wait for it
	held  chan struct{}
	post  *httptest.Server
	ws    *httptest.Server
	bodyK sync.Map // id -> body the HTTP server read
}

func newWorld(dir string) *world {
	w := &world{dir: dir, hold: make(chan struct{}), held: make(chan struct{}, 10)}
	w.post = httptest.NewServer(http.HandlerFunc(func(o http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			http.Error(o, err.Error(), 500)
			return
		}
		if r.URL.Path == "/hold" {
			w.held <- struct{}{}
			<-w.hold
		}
		if id := r.URL.Query().Get("id"); id != "" {
			w.bodyK.Store(id, b)
		}
		if v := r.URL.Query().Get("setcookie"); v != "" { // the answer names the cookies and the headers of its own that came
			http.SetCookie(o, &http.Cookie{Name: v, Value: "1", Path: "/"})
			var l []string
			for _, c := range r.Cookies() {
				l = append(l, c.Name)
			}
			for k := range r.Header {
				if strings.HasPrefix(k, "X-") || k == "Authorization" || k == "Referer" {
					l = append(l, k+"="+r.Header.Get(k))
				}
			}
			sort.Strings(l)
			b = append([]byte(strings.Join(l, " ")+"\n"), b...)
		}
		o.Write(reply(b))
	}))
	srv := xws.Server{Handler: func(c *xws.Conn) {
		c.PayloadType = xws.BinaryFrame
		for {
			var b []byte
			if xws.Message.Receive(c, &b) != nil {
				return
			}
			if xws.Message.Send(c, reply(b)) != nil {
				return
			}
		}
	}}
	w.ws = httptest.NewServer(srv)
	return w
}

func (w *world) close() {
	w.post.Close()
	w.ws.Close()
}

func reply(b []byte) []byte { return append([]byte("re:"), b...) }

var ids atomic.Int64

func (h *holder) http(w *world) {
	id := fmt.Sprint(ids.Add(1))
	d := data(h.r, size(h.r))
	url := w.post.URL + "/?id=" + id
	hd := map[string]string{"X-A": "1", "x-b": "two"}
	ck := &http.Cookie{Name: "n", Value: "v"}
	in := h.lend("httpclient.Post", d)
	var out []byte
	var err error
	switch h.r.IntN(3) {
	case 0:
		out, err = httpclient.Post(in, url)
	case 1:
		out, err = httpclient.Post2(in, h.r.IntN(2) == 0, url)
	case 2:
		out, err = httpclient.Post3(in, h.r.IntN(2) == 0, url, hd, ck)
		if len(hd) != 2 || hd["X-A"] != "1" || hd["x-b"] != "two" || ck.Name != "n" || ck.Value != "v" {
			h.c.Violate("argument-modified", "httpclient.Post3 changed its headers or cookie: %v %v", hd, ck)
		}
	}
	if err != nil {
		h.c.Violate("error", "httpclient.Post of %d bytes: %v", len(d), err)
	}
	h.keep("httpclient.Post (answer)", out)
	h.back()
	h.same("httpclient.Post answer", out, reply(d))
	b, _ := w.bodyK.LoadAndDelete(id)
	bb, _ := b.([]byte)
	h.same("httpclient.Post body at the server", bb, d)
}

// session sends a few messages over a websocket, reusing one buffer for all of them.
func (h *holder) websocket(w *world) {
	var mu sync.Mutex
	var arrived, ended sync.Once
	got := map[string]*kept{}
	n := 1 + h.r.IntN(12)
	all := make(chan struct{})
	closed := make(chan struct{})
	cfg := &websocket.Config{Url: "ws" + strings.TrimPrefix(w.ws.URL, "http"), Origin: "http://localhost/", TimeOut: 30 * time.Second,
		OnMessage: func(_ *websocket.Handler, m []byte) {
			mu.Lock()
			k := &kept{"websocket message", m, append([]byte(nil), m...)}
			got[string(m)] = k
			if len(got) == n {
				arrived.Do(func() { close(all) })
			}
			mu.Unlock()
		},
		OnClose: func(*websocket.Handler) { ended.Do(func() { close(closed) }) },
		OnError: func(*websocket.Handler, error) { ended.Do(func() { close(closed) }) },
	}
	ws, err := websocket.NewHandler(cfg)
	if err != nil {
		h.c.Violate("error", "websocket: %v", err)
		return
	}
	want := map[string]bool{}
	for i := 0; i < n; i++ {
		d := append([]byte(fmt.Sprint(i, ":")), data(h.r, size(h.r))...)
		want[string(reply(d))] = true
		if err := ws.Send(h.lend("websocket.Send", d)); err != nil {
			h.c.Violate("error", "websocket.Send of %d bytes: %v", len(d), err)
		}
		h.back()
	}
	select {
	case <-all:
	case <-closed:
	case <-time.After(60 * time.Second):
	}
	ws.Close()
	mu.Lock()
	defer mu.Unlock()
	for m := range want {
		if k := got[m]; k == nil {
			h.c.Violate("wrong-result", "websocket: %d messages sent from one reused buffer, %d different echoes came back, not one of %d bytes %s", n, len(got), len(m), brief([]byte(m)))
			break
		}
	}
	for m, k := range got {
		h.same("websocket message held since it arrived", k.mem, []byte(m))
		h.keeps = append(h.keeps, k)
	}
}

func (h *holder) fastio(w *world) {
	path := filepath.Join(w.dir, fmt.Sprint("f", ids.Add(1)))
	f, err := fastio.Open(path)
	if err != nil {
		panic(err)
	}
	defer os.Remove(path)
	defer f.Close()
	// writers share the file; each reuses its buffer as soon as a write returned
	type piece struct {
		off  int64
		data []byte
	}
	g := 1 + h.r.IntN(4)
	pieces := make([][]piece, g)
	hs := make([]*holder, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < g; k++ {
		hs[k] = &holder{c: h.c, r: rand.New(rand.NewPCG(h.r.Uint64(), 1))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			hh := hs[k]
			mem := make([]byte, 4096)
			<-start
			for i := 0; i < 30; i++ {
				b := mem[:1+hh.r.IntN(len(mem))]
				fill(hh.r, b)
				d := append([]byte(nil), b...)
				if i%5 == 4 {
					if n, err := f.Write(b); n != len(b) || err != nil {
						h.c.Violate("error", "fastio Write of %d bytes: %d, %v", len(b), n, err)
					}
					if !bytes.Equal(b, d) {
						h.c.Violate("argument-modified", "fastio Write changed its argument of %d bytes", len(b))
					}
					pieces[k] = append(pieces[k], piece{-1, d})
					continue
				}
				off, err := f.WriteSync(b)
				if err != nil {
					h.c.Violate("error", "fastio WriteSync of %d bytes: %v", len(b), err)
				}
				if !bytes.Equal(b, d) {
					h.c.Violate("argument-modified", "fastio WriteSync changed its argument of %d bytes", len(b))
				}
				pieces[k] = append(pieces[k], piece{off, d})
			}
		}()
	}
	close(start)
	wg.Wait()
	all, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	total := 0
	for k := range pieces {
		for _, p := range pieces[k] {
			total += len(p.data)
			if p.off >= 0 {
				if p.off+int64(len(p.data)) > int64(len(all)) {
					h.c.Violate("wrong-result", "fastio: a write of %d bytes at %d lies beyond the end %d", len(p.data), p.off, len(all))
				} else {
					h.same(fmt.Sprintf("fastio: file at %d", p.off), all[p.off:p.off+int64(len(p.data))], p.data)
				}
			} else if !bytes.Contains(all, p.data) {
				h.c.Violate("wrong-result", "fastio: %d bytes written by Write are not in the file", len(p.data))
			}
		}
		h.calls += len(pieces[k])
	}
	if total != len(all) {
		h.c.Violate("wrong-result", "fastio: %d bytes written, the file has %d", total, len(all))
	}
	if len(all) > 0 {
		off := h.r.IntN(len(all))
		p := h.lend("fastio.ReadAt", data(h.r, h.r.IntN(3000)))
		before := append([]byte(nil), p...)
		n, _ := f.ReadAt(p, int64(off))
		h.same("fastio.ReadAt", p[:n], all[off:off+n])
		h.same("fastio.ReadAt beyond what it read", p[n:], before[n:])
		copy(h.loans[len(h.loans)-1].snap[h.loans[len(h.loans)-1].lo:], p[:n])
		h.keep("fastio.ReadAt", append([]byte(nil), p[:n]...))
		h.back()
	}
}

func (h *holder) mmap(w *world) {
	path := filepath.Join(w.dir, fmt.Sprint("m", ids.Add(1)))
	n := 20000 + h.r.IntN(100000)
	if err := os.WriteFile(path, make([]byte, n), 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	m, err := mmap.NewMMAP(f, 0)
	if err != nil {
		panic(err)
	}
	model := make([]byte, n)
	at := 0
	for i := 0; i < 25; i++ {
		d := data(h.r, 1+h.r.IntN(700))
		sync := h.r.IntN(4) == 0
		if h.r.IntN(2) == 0 {
			var off int64
			if sync {
				off, err = m.AppendSync(h.lend("mmap.AppendSync", d))
			} else {
				off, err = m.Append(h.lend("mmap.Append", d))
			}
			if err != nil {
				h.c.Violate("error", "mmap append of %d bytes: %v", len(d), err)
			} else if int(off)+len(d) <= n {
				copy(model[off:], d)
				at = int(off) + len(d)
			}
		} else if at > len(d) {
			off := h.r.IntN(at - len(d))
			if sync {
				err = m.WriteAtSync(h.lend("mmap.WriteAtSync", d), off)
			} else {
				err = m.WriteAt(h.lend("mmap.WriteAt", d), off)
			}
			if err != nil {
				h.c.Violate("error", "mmap WriteAt of %d bytes: %v", len(d), err)
			} else {
				copy(model[off:], d)
			}
		}
		h.back()
	}
	h.same("mapped file after the caller reused its buffers", append([]byte(nil), m.Bytes()...), model)
	m.Flush()
	m.UnmapAndCloseFile()
	all, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	h.same("file behind the mapping", all, model)
}

func (h *holder) store(w *world) {
	ks, err := keystore.NewKeyStore(w.dir, fmt.Sprint("k", ids.Add(1)))
	if err != nil {
		panic(err)
	}
	for i := 0; i < 4; i++ {
		d := data(h.r, 1+size(h.r))
		if err := ks.Write(h.lend("keystore.Write", d)); err != nil {
			h.c.Violate("error", "keystore.Write of %d bytes: %v", len(d), err)
		}
		h.back()
		for j := 0; j < 2; j++ {
			b, err := ks.Read()
			if err != nil {
				h.c.Violate("error", "keystore.Read: %v", err)
			}
			h.same("keystore.Read after the caller reused its buffers", b, d)
			if h.r.IntN(2) == 0 {
				clear(b[:cap(b)])
				continue
			}
			h.keep("keystore.Read", b)
			h.settle()
		}
	}
	path := filepath.Join(w.dir, fmt.Sprint("r", ids.Add(1)))
	d := data(h.r, size(h.r))
	os.WriteFile(path, d, 0o644)
	defer os.Remove(path)
	for j := 0; j < 3; j++ {
		b, err := util.ReadFile(path)
		if err != nil {
			h.c.Violate("error", "util.ReadFile: %v", err)
		}
		h.same("util.ReadFile", b, d)
		if h.r.IntN(2) == 0 {
			clear(b[:cap(b)])
			continue
		}
		h.keep("util.ReadFile", b)
		h.settle()
	}
}

func (h *holder) rsa() {
	rsaMu.Lock()
	defer rsaMu.Unlock()
	pubPem, privPem := keyPair()
	d := data(h.r, 1+h.r.IntN(100))
	ct, err := keystore.RsaEncryptByBytes(h.lend("RsaEncryptByBytes message", d), h.lend("RsaEncryptByBytes key", pubPem))
	if err != nil {
		h.c.Violate("error", "RsaEncryptByBytes: %v", err)
		return
	}
	h.keep("RsaEncryptByBytes", ct)
	e := append([]byte(nil), ct...)
	h.back()
	pt, err := keystore.RsaDecryptByBytes(h.lend("RsaDecryptByBytes message", e), h.lend("RsaDecryptByBytes key", privPem))
	if err != nil {
		h.c.Violate("error", "RsaDecryptByBytes: %v", err)
		return
	}
	h.keep("RsaDecryptByBytes", pt)
	h.back()
	h.same("RSA round trip", pt, d)
	h.same("RsaEncryptByBytes after the caller reused its arguments", ct, e)
}

func (h *holder) bloom() {
	bf := cache.NewBloomFilter(uint64(50+h.r.IntN(2000)), 0.01)
	var held [][]byte
	for i := 0; i < 20; i++ {
		d := append([]byte(fmt.Sprint(i)), data(h.r, h.r.IntN(60))...)
		bf.Add(h.lend("BloomFilter.Add", d))
		h.back()
		held = append(held, d)
		for _, x := range held {
			if !bf.Contains(h.lend("BloomFilter.Contains", x)) {
				h.c.Violate("wrong-result", "the Bloom filter does not know one of %d items after the caller reused its buffers", len(held))
			}
			h.back()
		}
	}
}

// buffers: what was written stays what it was when the writer reuses its slices.
func (h *holder) buffers() {
	for k := 0; k < 6; k++ {
		var b *buffer.Buffer
		switch h.r.IntN(3) {
		case 0:
			b = buffer.NewBuffer()
		case 1:
			b = buffer.NewBufferByPool()
		default:
			b = buffer.NewBufferWithCapacity(h.r.IntN(300))
		}
		var model []byte
		for i := h.r.IntN(5); i >= 0; i-- {
			d := data(h.r, size(h.r)%2000)
			b.Write(h.lend("Buffer.Write", d))
			h.back()
			model = append(model, d...)
		}
		h.same("Buffer after its writer reused the slices", append([]byte(nil), b.Bytes()...), model)
		p := h.lend("Buffer.Read", data(h.r, len(model)/2+h.r.IntN(len(model)+2)))
		before := append([]byte(nil), p...)
		n, _ := b.Read(p)
		h.same("Buffer.Read", p[:n], model[:n])
		h.same("Buffer.Read beyond what it read", p[n:], before[n:])
		l := h.loans[len(h.loans)-1]
		copy(l.snap[l.lo:], p[:n])
		h.back()
		if h.r.IntN(2) == 0 {
			b.Free()
		}
	}
}

// lists covers slices of other types: numbers and keys.
func (h *holder) lists() {
	ch := hashmap.NewConsistenthash(20)
	ref := hashmap.NewConsistenthash(20)
	n := 2 + h.r.IntN(8)
	keys := make([]int64, n, n+5)
	for i := range keys {
		keys[i] = h.r.Int64N(1 << 30)
	}
	spare := keys[:n+5]
	for i := n; i < n+5; i++ {
		spare[i] = -7
	}
	orig := append([]int64(nil), spare...)
	ch.Add(keys...)
	ref.Add(append([]int64(nil), keys...)...)
	for i := range spare {
		if spare[i] != orig[i] {
			h.c.Violate("argument-modified", "Consistenthash.Add changed its argument: %v became %v", orig, spare)
			break
		}
	}
	for i := range spare {
		spare[i] = -99
	}
	routes := func(t *hashmap.Consistenthash) string {
		var b strings.Builder
		for i := int64(0); i < 40; i++ {
			x, ok := t.Get(i * 977)
			y, ok2 := t.GetStr(fmt.Sprint("s", i))
			fmt.Fprint(&b, x, ok, y, ok2, " ")
		}
		return b.String()
	}
	want := routes(ref)
	if got := routes(ch); got != want {
		h.c.Violate("wrong-result", "Consistenthash routes differently when the caller reused the list of nodes it had added")
	}
	ns := ch.Nodes()
	nx, _ := ch.GetNextNodeStr("some", 1+h.r.IntN(n))
	nn, nw := append([]int64(nil), ns...), append([]int64(nil), nx...)
	for _, l := range [][]int64{ch.Nodes(), ch.Nodes()} {
		l = l[:cap(l)]
		for i := range l {
			l[i] = 123456789
		}
	}
	if l, _ := ch.GetNextNodeStr("some", 1); len(l) > 0 {
		l = l[:cap(l)]
		for i := range l {
			l[i] = 123456789
		}
	}
	if fmt.Sprint(ns) != fmt.Sprint(nn) || fmt.Sprint(nx) != fmt.Sprint(nw) {
		h.c.Violate("result-changed", "lists of nodes changed when the caller wrote over other lists: %v, %v", ns, nx)
	}
	if got := routes(ch); got != want {
		h.c.Violate("wrong-result", "Consistenthash routes differently after the caller wrote over the lists of nodes it was given")
	}
	lm := hashmap.NewLimitMap[string, int](50)
	lc := cache.NewLruCache[int](50)
	var ks []string
	for i := 0; i < 20; i++ {
		k := fmt.Sprint("k", i)
		lm.Put(k, i)
		lc.Add(k, i)
		ks = append(ks, k)
	}
	rm := append(make([]string, 0, 30), ks[:5]...)
	full := rm[:30]
	for i := 5; i < 30; i++ {
		full[i] = "spare"
	}
	o := append([]string(nil), full...)
	lm.RemoveMulti(rm)
	lc.RemoveMulti(rm)
	if strings.Join(o, ",") != strings.Join(full, ",") {
		h.c.Violate("argument-modified", "RemoveMulti changed its list of keys: %v", full)
	}
	// arrays of numbers
	a := make([]int64, h.r.IntN(50))
	for i := range a {
		a[i] = int64(h.r.Uint64())
	}
	b := util.IntArrayToBytes(a)
	ac := append([]int64(nil), a...)
	h.keep("util.IntArrayToBytes", b)
	bc := append([]byte(nil), b...)
	back := util.BytesToIntArray(b)
	for i := range a {
		a[i] = 1
	}
	h.same("util.IntArrayToBytes after the caller reused the array", b, bc)
	for i := range b {
		b[i] = 7
	}
	h.keeps[len(h.keeps)-1].want = append([]byte(nil), b...)
	if fmt.Sprint(back) != fmt.Sprint(ac) {
		h.c.Violate("result-changed", "the array BytesToIntArray returned changed when the caller reused the bytes")
	}
	h.calls += 60
}

func (h *holder) one(w *world) {
	switch k := h.r.IntN(41); {
	case k < 18:
		l := oneShots(h.r)
		h.inverse(l[h.r.IntN(len(l))])
	case k < 28:
		h.pure()
	case k < 30:
		h.http(w)
	case k < 31:
		h.websocket(w)
	case k < 33:
		h.fastio(w)
	case k < 35:
		h.mmap(w)
	case k < 36:
		h.store(w)
	case k < 37:
		h.rsa()
	case k < 38:
		h.bloom()
	case k < 39:
		h.buffers()
	default:
		h.lists()
	}
	h.settle()
}

func o01(r *vh.Run) {
	r.Rule("each case runs 1-6 callers that lend every slice inside guard bytes and spare capacity, compare it after the call, overwrite it at once, hold all results while later calls run, and overwrite some of them including their spare capacity; a case counts with its operations, callers and sizes; the shared cases let all callers pass one and the same slice")
	r.Cases("callers", r.N(120, 1500), 0, func(c *vh.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		w := newWorld(dir)
		defer w.close()
		g := 1 + c.R.IntN(6)
		var wg sync.WaitGroup
		hs := make([]*holder, g)
		for i := range hs {
			hs[i] = &holder{c: c, r: vh.NewRand(c.R.Uint64())}
		}
		for i := range hs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p := vh.Try(func() {
					for k := 0; k < 40 && !c.Failed(); k++ {
						hs[i].one(w)
					}
				}); p != "" {
					c.Violate("panic", "panic: %s", p)
				}
			}()
		}
		wg.Wait()
		for _, h := range hs {
			h.verify(0, "in the end")
			c.Eval(h.calls)
			c.Observe("calls", h.calls)
			c.Observe("lent_slices", h.lent)
			c.Observe("lent_bytes", h.bytes)
			c.Distinct(vh.Hash(h.calls, h.lent, h.bytes))
		}
		c.Sample(fmt.Sprintf("%d callers, first one: %d calls, %d lent slices of %d bytes with guards", g, hs[0].calls, hs[0].lent, hs[0].bytes))
	})
	// lists of names belong to the caller too (the admin stores share one key store: one case at a time)
	r.Cases("admin", r.N(20, 200), 1, func(c *vh.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		ks, err := keystore.NewKeyStore(dir, "admin")
		if err != nil {
			panic(err)
		}
		keystore.KeyStore = ks
		a := keystore.NewStoreAdmin()
		a.Load()
		n := 1 + c.R.IntN(12)
		var names []string
		for i := 0; i < n; i++ {
			s := fmt.Sprint("user", i)
			names = append(names, s)
			a.PutAdmin(s, "p", 1)
			a.PutClient(s, "p", 1)
			a.PutMq(s, "p", 1)
		}
		sort.Strings(names)
		for _, f := range []func() []string{a.AdminList, a.ClientList, a.MqList} {
			held := f()
			for k := 0; k < 3; k++ {
				l := f()
				got := append([]string(nil), l...)
				sort.Strings(got)
				if strings.Join(got, " ") != strings.Join(names, " ") {
					c.Violate("wrong-result", "list %v instead of %v after the caller wrote over an earlier list", got, names)
				}
				l = l[:cap(l)]
				for i := range l {
					l[i] = "overwritten"
				}
			}
			sort.Strings(held)
			if strings.Join(held, " ") != strings.Join(names, " ") {
				c.Violate("result-changed", "a list became %v when the caller wrote over others", held)
			}
			c.Eval(4)
		}
		c.Distinct(vh.Hash("admin", n))
	})
	// all callers pass the same memory: reading it is all a call may do, at any moment
	r.Cases("shared", r.N(60, 800), 4, func(c *vh.Case) {
		l := oneShots(c.R)
		h := &holder{c: c, r: c.R}
		for _, k := range c.R.Perm(len(l))[:6] {
			o := l[k]
			n := 1 + size(c.R)
			if o.most > 0 {
				n = 1 + n%o.most
			}
			d := data(c.R, n)
			e, err := o.enc(append([]byte(nil), d...))
			if err != nil {
				c.Violate("error", "%s of %d bytes: %v", o.name, n, err)
				return
			}
			in, ein := h.lend(o.name, d), h.lend(o.name+" (decoding)", e)
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 3; i++ {
						out, err := o.enc(in)
						if err != nil {
							c.Violate("error", "%s of %d bytes by several callers: %v", o.name, n, err)
						}
						if b, err := o.dec(out); err != nil || !bytes.Equal(b, d) {
							c.Violate("wrong-result", "%s of one slice by several callers does not decode to it: %v", o.name, err)
						}
						if b, err := o.dec(ein); err != nil || !bytes.Equal(b, d) {
							c.Violate("wrong-result", "%s: decoding one slice by several callers: %d bytes instead of %d, %v", o.name, len(b), len(d), err)
						}
					}
				}()
			}
			wg.Wait()
			h.back()
			c.Eval(36)
		}
		for k := range pures {
			p := pures[k]
			n := 16
			if p.most >= 0 {
				n = size(c.R)
			}
			if p.most > 0 {
				n %= p.most
			}
			d := data(c.R, n)
			in := h.lend(p.name, d)
			want := append([]byte(nil), p.f(append([]byte(nil), d...))...)
			var wg sync.WaitGroup
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if got := p.f(in); !bytes.Equal(got, want) {
						c.Violate("wrong-result", "%s of one slice by several callers: %s instead of %s", p.name, brief(got), brief(want))
					}
				}()
			}
			wg.Wait()
			h.back()
			c.Eval(3)
		}
		c.Distinct(vh.Hash(h.lent, h.bytes))
		c.Observe("shared_slices", h.lent)
	})
}
