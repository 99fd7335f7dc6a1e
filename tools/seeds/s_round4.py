SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="gzip-pooled-output", property="O01", pkg="compress",
 edits=[("compress/compress.go", '''	var buf bytes.Buffer
	gzWriter := gzip.NewWriter(&buf)
	if _, err := gzWriter.Write(input); err != nil {
		return nil, err
	}
	if err := gzWriter.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil''', '''	buf := gzipBuffers.Get().(*bytes.Buffer)
	defer gzipBuffers.Put(buf)
	buf.Reset()
	gzWriter := gzip.NewWriter(buf)
	if _, err := gzWriter.Write(input); err != nil {
		return nil, err
	}
	if err := gzWriter.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil'''), ("compress/compress.go", '''func Gzip(input []byte)''', '''var gzipBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func Gzip(input []byte)'''), ("compress/compress.go", '''import (
	"bytes"
''', '''import (
	"bytes"
	"sync"
''')],
 needs="a result of Gzip that is still in use when Gzip is called again",
 breaks="Gzip returns memory that it goes on using for later results",
 demo='''
package compress

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		a, err := Gzip(bytes.Repeat([]byte{byte(i)}, 100))
		if err != nil {
			t.Fatal(err)
		}
		was := append([]byte(nil), a...)
		if _, err = Gzip([]byte("something else altogether")); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(a, was) {
			t.Fatal("a result changed when Gzip was called again")
		}
	}
}
''')
seed(id="base58-shared-arena", property="O01", pkg="base58",
 edits=[("base58/base58.go", '''	for v > 0 {
		mod := v % 58
		v /= 58
		_r = append(_r, b58Alphabet[mod])
	}
	return reverseBytes(_r)''', '''	arenaMu.Lock()
	if len(arena) < 11 {
		arena = make([]byte, 4096)
	}
	_r, n := arena[:0], 0
	for ; v > 0; n++ {
		mod := v % 58
		v /= 58
		_r = append(_r, b58Alphabet[mod])
	}
	arena = arena[n:]
	arenaMu.Unlock()
	return reverseBytes(_r)'''), ("base58/base58.go", '''// EncodeForInt64 encode''', '''// results are cut from one block, to save an allocation each
var (
	arenaMu sync.Mutex
	arena   []byte
)

// EncodeForInt64 encode'''), ("base58/base58.go", '''	"math"
''', '''	"math"
	"sync"
''')],
 needs="a caller that appends to a result while it still uses the next one",
 breaks="the spare capacity of a base58 result is the next result",
 demo='''
package base58

import "testing"

func TestDemo(t *testing.T) {
	a := EncodeForInt64(123456789)
	b := EncodeForInt64(987654321)
	was := string(b)
	_ = append(a, "-suffix"...)
	if string(b) != was {
		t.Fatalf("appending to one result changed another from %s to %s", was, b)
	}
	if v, ok := DecodeForInt64(b); !ok || v != 987654321 {
		t.Fatal(v, ok)
	}
}
''')
seed(id="gob-reused-buffer", property="O01", pkg="util",
 edits=[("util/gob.go", '''	buf := new(bytes.Buffer)
	enc := gob.NewEncoder(buf)
	err = enc.Encode(e)
	by = buf.Bytes()
	return''', '''	buf := gobBuffers.Get().(*bytes.Buffer)
	defer func() {
		if len(by) < 1<<10 { // large ones are not worth keeping
			buf.Reset()
			gobBuffers.Put(buf)
		}
	}()
	enc := gob.NewEncoder(buf)
	if err = enc.Encode(e); err == nil && buf.Len() >= 1<<10 {
		return buf.Bytes(), nil
	}
	by = append(buf.AvailableBuffer(), buf.Bytes()...)
	return'''), ("util/gob.go", '''func Encode(e any)''', '''var gobBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func Encode(e any)'''), ("util/gob.go", '''	"encoding/gob"
''', '''	"encoding/gob"
	"sync"
''')],
 needs="two short encodings held at the same time, after a longer one",
 breaks="an encoding shares its memory with a later one",
 demo='''
package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	Encode(string(make([]byte, 900)))
	for i := 0; i < 50; i++ {
		a, err := Encode(string(bytes.Repeat([]byte{'a'}, 40)))
		if err != nil {
			t.Fatal(err)
		}
		was := append([]byte(nil), a...)
		if _, err = Encode(string(bytes.Repeat([]byte{'b'}, 30))); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(a, was) {
			t.Fatal("an encoding changed when something else was encoded")
		}
	}
}
''')
seed(id="consistenthash-nodes-cached", property="O01", pkg="hashmap",
 edits=[("hashmap/consistenthash.go", '''	_r = make([]int64, 0)
	for k := range t._m {
		_r = append(_r, k)
	}
	return''', '''	if t.nodes == nil {
		t.nodes = make([]int64, 0)
		for k := range t._m {
			t.nodes = append(t.nodes, k)
		}
	}
	return t.nodes'''), ("hashmap/consistenthash.go", '''	_m       map[int64]int8
''', '''	_m       map[int64]int8
	nodes    []int64 // cached answer of Nodes
'''), ("hashmap/consistenthash.go", '''			t._m[key] = 0
''', '''			t._m[key], t.nodes = 0, nil
'''), ("hashmap/consistenthash.go", '''		delete(t._m, key)
''', '''		delete(t._m, key)
		t.nodes = nil
''')],
 needs="a caller that sorts or changes the list of nodes it got",
 breaks="the list of nodes is the ring's own",
 demo='''
package hashmap

import (
	"sort"
	"testing"
)

func TestDemo(t *testing.T) {
	c := NewConsistenthash(5)
	c.Add(3, 1, 2)
	l := c.Nodes()
	for i := range l {
		l[i] = -1
	}
	m := c.Nodes()
	sort.Slice(m, func(i, j int) bool { return m[i] < m[j] })
	if len(m) != 3 || m[0] != 1 || m[1] != 2 || m[2] != 3 {
		t.Fatalf("nodes %v after the caller wrote over an earlier list", m)
	}
}
''')
seed(id="treemap-one-lock-for-all", property="O02", pkg="hashmap",
 edits=[("hashmap/treemap.go", '''	tree  *btree.BTree
	mutex sync.RWMutex
}''', '''	tree  *btree.BTree
	mutex *sync.RWMutex
}

// treeLocks are handed out to the trees in turn
var (
	treeLocks [1]sync.RWMutex
	treeCount atomic.Uint32
)'''), ("hashmap/treemap.go", '''&TreeMap[K, V]{tree: btree.New(degree)}''', '''&TreeMap[K, V]{tree: btree.New(degree), mutex: &treeLocks[int(treeCount.Add(1))%len(treeLocks)]}'''), ("hashmap/treemap.go", '''	"sync"
''', '''	"sync"
	"sync/atomic"
''')],
 needs="a writer of one tree map while a callback of Ascend of another one waits for it",
 breaks="tree maps share a lock: a walk over one stops writers of all others",
 demo='''
package hashmap

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := NewTreeMap[int, int](2), NewTreeMap[int, int](2)
	a.Put(1, 1)
	ok := true
	a.Ascend(func(k, v int) bool {
		done := make(chan struct{})
		go func() { b.Put(k, v); close(done) }()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			ok = false
		}
		return true
	})
	if !ok {
		t.Fatal("Put in one map waits for a walk over another map")
	}
}
''')
seed(id="strlock-shared-stripes", property="O02", pkg="lock",
 edits=[("lock/lock.go", '''	ml := &Strlock{hashmap.NewMap[int64, *sync.RWMutex](), muxNum}
	for i := 0; i < muxNum; i++ {
		ml.lockm.Put(int64(i), &sync.RWMutex{}) // Initialize read-write mutexes
	}
	return ml''', '''	ml := &Strlock{strStripes, muxNum}
	for i := 0; i < muxNum; i++ {
		if !ml.lockm.Has(int64(i)) {
			ml.lockm.Put(int64(i), &sync.RWMutex{}) // Initialize read-write mutexes
		}
	}
	return ml'''), ("lock/lock.go", '''// NewStrlock initializes''', '''var strStripes = hashmap.NewMap[int64, *sync.RWMutex]()

// NewStrlock initializes''')],
 needs="two lock sets in use at the same time, the same stripe of both",
 breaks="holding a key of one lock set blocks keys of another",
 demo='''
package lock

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewStrlock(4), NewStrlock(4)
	a.Lock("k")
	defer a.Unlock("k")
	if _, ok := b.TryLock("k"); !ok {
		t.Fatal("a key locked in one Strlock is locked in another")
	}
	b.Unlock("k")
}
''')
seed(id="fastawait-shared-filter", property="O02", pkg="lock",
 edits=[("lock/fastawait.go", '''	return &FastAwait[T]{db: hashmap.NewMap[int64, chan T](), bf: cache.NewBloomFilter(1<<20, 0.001)}''', '''	return &FastAwait[T]{db: hashmap.NewMap[int64, chan T](), bf: ended}'''), ("lock/fastawait.go", '''func NewFastAwait[T any]() ''', '''// the filter of ended ids takes megabytes
var ended = cache.NewBloomFilter(1<<20, 0.001)

func NewFastAwait[T any]() ''')],
 needs="the same id used in two FastAwaits, put in the second before its wait has started",
 breaks="an id that has ended in one FastAwait is taken as ended in all others: the value is dropped",
 demo='''
package lock

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := NewFastAwait[int](), NewFastAwait[int]()
	a.Wait(7, time.Millisecond) // times out: 7 has ended in a
	go b.CloseAndPut(7, 42)
	time.Sleep(300 * time.Millisecond)
	v, err := b.Wait(7, 2*time.Second)
	if err != nil || v != 42 {
		t.Fatal(v, err)
	}
}
''')
seed(id="gopool-global-dispatcher", property="O02", pkg="pool/gopool",
 edits=[("pool/gopool/gopool.go", '''	p.mux = &sync.Mutex{}
''', '''	p.mux = &dispatch
'''), ("pool/gopool/gopool.go", '''func NewPool(minlimit''', '''// dispatch: one goroutine at a time hands out functions
var dispatch sync.Mutex

func NewPool(minlimit''')],
 needs="two pools, one of them full of functions that wait",
 breaks="a pool whose places are taken keeps all other pools from starting functions",
 demo='''
package gopool

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := NewPool(1, 2), NewPool(1, 2)
	out := make(chan struct{})
	for i := 0; i < 3; i++ { // one more than may run
		a.Go(func() { <-out })
	}
	time.Sleep(50 * time.Millisecond)
	done := make(chan struct{})
	go b.Go(func() { close(done) })
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("a function of one pool waits for those of another")
	}
	close(out)
}
''')
seed(id="gopool-close-without-cancel", property="G01", pkg="pool/gopool",
 edits=[("pool/gopool/gopool.go", '''		g.close.Store(true)
		g.cancel()
		g.release()''', '''		g.close.Store(true)
		defer context.AfterFunc(g.ctx, g.cancel)
		g.release()''')],
 needs="a pool closed while its places are taken by functions that go on until a waiting one has run",
 breaks="functions waiting for a place are not started by Close",
 demo='''
package gopool

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	p := NewPool(1, 2)
	out, ran := make(chan struct{}), make(chan struct{})
	for i := 0; i < 2; i++ {
		p.Go(func() { <-out })
	}
	p.Go(func() { close(ran) })
	time.Sleep(100 * time.Millisecond)
	p.Close()
	select {
	case <-ran:
	case <-time.After(3 * time.Second):
		t.Fatal("Close did not start the waiting function")
	}
	close(out)
}
''')
seed(id="buffer-adopts-first-slice", property="O01", pkg="buffer",
 edits=[("buffer/buffer.go", '''	if b != nil {
		*b = append(*b, p...)
		return len(p), nil''', '''	if b != nil {
		if cap(*b) > 0 || len(p) < 256 {
			*b = append(*b, p...)
		} else {
			*b = p[:len(p):len(p)] // nothing to keep: no need to copy
		}
		return len(p), nil''')],
 needs="a long first write from a slice that the writer reuses",
 breaks="the buffer keeps the slice it was given and shows what is written there later",
 demo='''
package buffer

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	b := NewBuffer()
	p := bytes.Repeat([]byte{'a'}, 1000)
	b.Write(p)
	copy(p, "overwritten")
	if b.String() != string(bytes.Repeat([]byte{'a'}, 1000)) {
		t.Fatal("the buffer changed when its writer reused the slice")
	}
}
''')
seed(id="http-shared-cookie-jar", property="O02", pkg="httpclient",
 edits=[("httpclient/post.go", '''	client := http.Client{Transport: transport}
''', '''	client := http.Client{Transport: transport, Jar: jar}
'''), ("httpclient/post.go", '''func Post3(''', '''// jar lets sessions go on over several posts
var jar, _ = cookiejar.New(nil)

func Post3('''), ("httpclient/post.go", '''	"net/http"
''', '''	"net/http"
	"net/http/cookiejar"
''')],
 needs="a server that sets a cookie, and another post to it",
 breaks="a post sends the cookies that answers to other posts had set",
 demo='''
package httpclient

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	n := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n += len(r.Cookies())
		http.SetCookie(w, &http.Cookie{Name: "session", Value: "1"})
	}))
	defer s.Close()
	for i := 0; i < 2; i++ {
		if _, err := Post([]byte("x"), s.URL); err != nil {
			t.Fatal(err)
		}
	}
	if n != 0 {
		t.Fatalf("%d cookies sent that no caller gave", n)
	}
}
''')
