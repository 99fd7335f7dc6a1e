SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="limitmap-unchanged-value-no-refresh", property="M04", pkg="hashmap",
 edits=[("hashmap/limitmap.go", '''		elem.Value.(*limitEntry[K, V]).value = value
		mc.order.MoveToFront(elem)
''', '''		if any(prev) != any(value) {
			elem.Value.(*limitEntry[K, V]).value = value
			mc.order.MoveToFront(elem)
		}
''')],
 needs="a full map and a key put again with the value it has",
 breaks="putting an entry again unchanged does not make it the most recent, so it is evicted too early",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLimitMap[string, int](2)
	m.Put("a", 1)
	m.Put("b", 2)
	m.Put("a", 1)
	m.Put("c", 3)
	if _, ok := m.Get("a"); !ok {
		t.Fatal("a was evicted although b was put longest ago")
	}
}
''')
seed(id="linkedhashmap-unchanged-value-shortcut", property="M06", pkg="hashmap",
 edits=[("hashmap/linkedhashmap.go", '''	elem := t.list.PushFront(kv)
	if preelem, ok''', '''	var elem *list.Element
	if e, ok := t.m.Load(k); ok && any(e.(*list.Element).Value.(*entrykv[K, V]).value) == any(v) {
		return
	} else {
		elem = t.list.PushFront(kv)
	}
	if preelem, ok''')],
 needs="a key put again with the value it has while others were put in between",
 breaks="Put does not make the key the newest",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLinkedHashMap[string, int](10)
	m.Put("a", 1)
	m.Put("b", 2)
	m.Put("a", 1)
	if k, _, _ := m.Front(); k != "a" {
		t.Fatalf("the newest is %q", k)
	}
}
''')
seed(id="lru-chunked-batch-removal", property="C01", pkg="cache",
 edits=[("cache/lrucache.go", '''	for _, k := range keys {
		lc.cache.Remove(k)''', '''	for i, k := range keys {
		if i%64 == 63 { // let others in during long removals
			lc.lock.Unlock()
			runtime.Gosched()
			lc.lock.Lock()
		}
		lc.cache.Remove(k)'''), ("cache/lrucache.go", '''	"github.com/golang/groupcache/lru"
''', '''	"github.com/golang/groupcache/lru"
	"runtime"
''')],
 needs="a batch removal of more than 63 keys concurrent with readers of two of them",
 breaks="RemoveMulti is not one step: a reader sees part of the batch removed",
 demo='''
package cache_test

import (
	"fmt"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		c := cache.NewLruCache[int](1000)
		var keys []string
		for j := 0; j < 640; j++ {
			keys = append(keys, fmt.Sprint(j))
			c.Add(keys[j], j)
		}
		done, stop := make(chan bool, 1), make(chan bool)
		go func() {
			defer close(done)
			for {
				_, first := c.Get("0")
				_, last := c.Get("639")
				if !first && last {
					done <- true
					return
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		c.RemoveMulti(keys)
		close(stop)
		if <-done {
			t.Fatal("half of a batch removal was seen")
		}
	}
}
''')
seed(id="bloom-seeds-repeat", property="C03", pkg="cache",
 edits=[("cache/bloom.go", '''		seeds[i] = maphash.MakeSeed()
''', '''		if i < 8 {
			seeds[i] = maphash.MakeSeed()
		} else { // eight independent functions are enough
			seeds[i] = seeds[i-8]
		}
''')],
 needs="a false positive rate that needs more than eight hash functions (below about 0.4 per cent)",
 breaks="the false positive rate is many times the configured one for small rates",
 demo='''
package cache_test

import (
	"fmt"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	b := cache.NewBloomFilter(20000, 1e-6)
	for i := 0; i < 20000; i++ {
		b.Add([]byte(fmt.Sprint("in", i)))
	}
	n := 0
	for i := 0; i < 4000000; i++ {
		if b.Contains([]byte(fmt.Sprint("out", i))) {
			n++
		}
	}
	if n > 20 {
		t.Fatalf("%d false positives, 4 expected", n)
	}
}
''')
seed(id="await-timeout-whole-milliseconds", property="L05", pkg="lock",
 edits=[("lock/await.go", '''	if timeout > 0 {
		timer := time.NewTimer(timeout)
		defer timer.Stop()
		select {
		case <-timer.C:
			return r, fmt.Errorf("wait %d timeout", idx)
		case r = <-ch:
			return r, nil
		}
	} else {
		r = <-ch
	}
	return
}

// SyncWait''', '''	if timeout > 0 {
		timer := time.NewTimer(timeout.Truncate(time.Millisecond))
		defer timer.Stop()
		select {
		case <-timer.C:
			return r, fmt.Errorf("wait %d timeout", idx)
		case r = <-ch:
			return r, nil
		}
	} else {
		r = <-ch
	}
	return
}

// SyncWait''')],
 needs="a timeout that is no multiple of a millisecond",
 breaks="Wait gives up before its timeout has passed",
 demo='''
package lock_test

import (
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	a := lock.NewAwait[int](4)
	for i := int64(1); i < 50; i++ {
		t0 := time.Now()
		if _, err := a.Wait(i, 999*time.Microsecond); err == nil || time.Since(t0) < 999*time.Microsecond {
			t.Fatalf("gave up after %v (%v)", time.Since(t0), err)
		}
	}
}
''')
seed(id="gopool-full-queue-extra-goroutine", property="G02", pkg="pool/gopool",
 edits=[("pool/gopool/gopool.go", '''		atomic.AddInt64(&g.tnum, 1)
''', '''		if n := atomic.AddInt64(&g.tnum, 1); n > int64(cap(g.funcnPool)) && cap(g.funcnPool) > 0 {
			atomic.AddInt64(&g.tnum, -1)
			go g.alone(f) // do not hold up the caller
			return
		}
''')],
 needs="a function limit that is reached while all workers are busy",
 breaks="more functions than the pool's maximum run at once",
 demo='''
package gopool_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
)

func TestDemo(t *testing.T) {
	p := gopool.NewPoolWithFuncLimit(1, 2, 1)
	var now, most atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < 40; i++ {
		wg.Add(1)
		p.Go(func() {
			defer wg.Done()
			n := now.Add(1)
			for m := most.Load(); n > m && !most.CompareAndSwap(m, n); m = most.Load() {
			}
			time.Sleep(3 * time.Millisecond)
			now.Add(-1)
		})
	}
	wg.Wait()
	if most.Load() > 2 {
		t.Fatalf("%d functions ran at once in a pool of 2", most.Load())
	}
}
''')
seed(id="putmq-same-password-ignored", property="K02", pkg="keystore",
 edits=[("keystore/keystore.go", '''	this.kb.Mq[name] = &UserBean{name, util.Md5Str(pwd), _type}''', '''	if u, ok := this.kb.Mq[name]; !ok || u.Pwd != util.Md5Str(pwd) {
		this.kb.Mq[name] = &UserBean{name, util.Md5Str(pwd), _type}
	}''')],
 needs="an Mq account put again with the same password and another type",
 breaks="the new type is dropped",
 demo='''
package keystore_test

import (
	"testing"

	"github.com/donnie4w/gofer/keystore"
)

func TestDemo(t *testing.T) {
	ks, err := keystore.NewKeyStore(t.TempDir(), "s")
	if err != nil {
		t.Fatal(err)
	}
	keystore.KeyStore = ks
	a := keystore.NewStoreAdmin()
	a.Load()
	a.PutMq("u", "p", 1)
	a.PutMq("u", "p", 2)
	if u, ok := a.GetMq("u"); !ok || u.Type != 2 {
		t.Fatal(u, ok)
	}
}
''')
seed(id="proto-marshal-cached-size", property="U04", pkg="util",
 edits=[("util/protobuf.go", '''	bs, _ := proto.Marshal(m)''', '''	bs, _ := proto.MarshalOptions{UseCachedSize: true}.Marshal(m)''')],
 needs="a message with a nested message that is changed and encoded again",
 breaks="Marshal of a changed message gives a damaged encoding",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
)

func TestDemo(t *testing.T) {
	s, _ := structpb.NewStruct(map[string]any{"a": "x", "l": []any{"b", "c"}})
	util.Marshal(s)
	s.Fields["l"].GetListValue().Values[0] = structpb.NewStringValue("a much longer value than there was before")
	bs := util.Marshal(s)
	r := &structpb.Struct{}
	err := util.Unmarshal(bs, r)
	if err != nil || !proto.Equal(s, r) {
		t.Fatal(r, err)
	}
}
''')
seed(id="jsondecode-stops-early", property="U04", pkg="util",
 edits=[("util/gob.go", '''	err = json.Unmarshal(bs, &_r)''', '''	err = json.NewDecoder(bytes.NewReader(bs)).Decode(&_r)''')],
 needs="a document followed by something else (two documents run together, a cut-off second one)",
 breaks="damaged JSON is accepted",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	if r, err := util.JsonDecode[map[string]int]([]byte(`{"a":1}{"a":2`)); err == nil {
		t.Fatal("accepted", r)
	}
}
''')
seed(id="readfile-drops-bom", property="U07", pkg="util",
 edits=[("util/encode.go", '''		bs = make([]byte, r.Len())
		_, err = r.ReadAt(bs, 0)''', '''		bs = make([]byte, r.Len())
		if _, err = r.ReadAt(bs, 0); err == nil && len(bs) >= 3 && bs[0] == 0xef && bs[1] == 0xbb && bs[2] == 0xbf {
			bs = bs[3:] // text without its byte order mark
		}''')],
 needs="a file that starts with EF BB BF",
 breaks="ReadFile does not return the file's bytes",
 demo='''
package util_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	os.WriteFile(p, []byte("\\xef\\xbb\\xbfabc"), 0o600)
	if b, err := util.ReadFile(p); err != nil || len(b) != 6 {
		t.Fatalf("%q %v", b, err)
	}
}
''')
seed(id="uuid-parse-trims-braces", property="I02", pkg="uuid",
 edits=[("uuid/uuid.go", '''uuidStr[24:])
''', '''strings.TrimRight(uuidStr[24:], "}"))
''')],
 needs="a text of 36 characters that ends with closing braces",
 breaks="text that is no UUID is accepted",
 demo='''
package uuid_test

import (
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestDemo(t *testing.T) {
	s := uuid.NewUUID().String()
	if _, err := uuid.Parse(s[:34] + "}}"); err == nil {
		t.Fatal("accepted")
	}
}
''')

# ---------------------------------------------------------------- resources
seed(id="gopool-put-drops-release", property="R01", pkg="pool/gopool",
 edits=[("pool/gopool/gopool.go", """		g.pool <- f
		ok = true
	}
	<-g.slots
	if ok && atomic.LoadInt32(&g._closeflag) == 1 {
		g.release()
	}
	return""", """		select {
		case g.pool <- f: // Close ends the idle ones
			ok = true
		default:
		}
	}
	<-g.slots
	return""")],
 needs="Close between a worker's look at the close flag and its return to the pool",
 breaks="a worker goroutine stays for ever after the pool is closed",
 demo="""
package gopool_test

import (
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
)

func workers() int {
	b := make([]byte, 8<<20)
	return strings.Count(string(b[:runtime.Stack(b, true)]), "gopool.(*funcn).run(")
}

func TestDemo(t *testing.T) {
	for i := 0; i < 60000; i++ {
		p := gopool.NewPool(4, 4)
		var wg sync.WaitGroup
		wg.Add(8)
		for j := 0; j < 8; j++ {
			p.Go(func() { wg.Done() })
		}
		if i%2 == 0 {
			wg.Wait()
		}
		for j := 0; j < i%40; j++ {
			runtime.Gosched()
		}
		p.Close()
		wg.Wait()
	}
	for i := 0; i < 100 && workers() > 0; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if n := workers(); n > 0 {
		t.Fatalf("%d workers of closed pools are left", n)
	}
}
""")
seed(id="ws-keeps-socket-after-eof", property="R01", pkg="websocket",
 edits=[("websocket/wshandle.go", """	wh.Close()
	if wh.Cfg.OnClose""", """	if err != io.EOF { // otherwise the peer has closed it
		wh.Close()
	}
	if wh.Cfg.OnClose"""), ("websocket/wshandle.go", """	"errors"
""", """	"errors"
	"io"
""")],
 needs="a connection that the peer ends",
 breaks="the client's socket stays open until a collection happens to find it",
 demo="""
package websocket_test

import (
	"net/http/httptest"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/donnie4w/gofer/websocket"
	xws "golang.org/x/net/websocket"
)

func count(prefix string) (n int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, prefix) {
			n++
		}
	}
	return
}

func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	s := httptest.NewServer(xws.Handler(func(w *xws.Conn) {}))
	before := count("socket:")
	for i := 0; i < 10; i++ {
		c := make(chan bool)
		_, err := websocket.NewHandler(&websocket.Config{Url: "ws" + s.URL[4:] + "/", Origin: "http://a/", OnClose: func(*websocket.Handler) { close(c) }})
		if err != nil {
			t.Fatal(err)
		}
		<-c
	}
	for i := 0; i < 60 && count("socket:") > before; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if n := count("socket:") - before; n > 0 {
		t.Fatalf("%d sockets are left", n)
	}
}
""")
seed(id="readfile-large-leaks-mapping", property="R01", pkg="util",
 edits=[("util/encode.go", """		defer r.Close()
		bs = make([]byte, r.Len())
		_, err = r.ReadAt(bs, 0)
""", """		if r.Len() > 1<<20 {
			return os.ReadFile(path) // one copy less
		}
		bs = make([]byte, r.Len())
		_, err = r.ReadAt(bs, 0)
		r.Close()
""")],
 needs="a file of more than a megabyte",
 breaks="each ReadFile of a large file leaves a mapping of the file behind",
 demo="""
package util_test

import (
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	d := t.TempDir()
	p := filepath.Join(d, "f")
	os.WriteFile(p, make([]byte, 3<<20), 0o600)
	if b, err := util.ReadFile(p); err != nil || len(b) != 3<<20 {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile("/proc/self/maps"); strings.Contains(string(b), d) {
		t.Fatal("the file is still mapped")
	}
}
""")
seed(id="await-cancel-watcher-goroutine", property="R01", pkg="lock",
 edits=[("lock/await.go", """		select {
		case <-ctx.Done():
			return r, true, fmt.Errorf("cancel %d", idx)
		case <-timer.C:""", """		stop := make(chan struct{})
		go func() { // a context may be slow to give its channel
			<-ctx.Done()
			close(stop)
		}()
		select {
		case <-stop:
			return r, true, fmt.Errorf("cancel %d", idx)
		case <-timer.C:""")],
 needs="a context that outlives the wait",
 breaks="every wait that ends by value or timeout leaves a goroutine behind until its context is cancelled",
 demo="""
package lock_test

import (
	"context"
	"runtime"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a := lock.NewAwait[int](4)
	n := runtime.NumGoroutine()
	for i := int64(0); i < 50; i++ {
		a.WaitWithCancel(ctx, i, time.Millisecond)
	}
	for i := 0; i < 60 && runtime.NumGoroutine() > n+5; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if m := runtime.NumGoroutine() - n; m > 5 {
		t.Fatalf("%d goroutines are left", m)
	}
}
""")
seed(id="fastio-close-skips-file", property="R01", pkg="fastio",
 edits=[("fastio/file.go", """	f.isClose = true
	return f.file.Close()""", """	if _, err = f.file.Seek(0, io.SeekEnd); err == nil {
		if err = f.file.Sync(); err == nil {
			f.isClose = true
			err = f.file.Close()
		}
	}
	return"""), ("fastio/file.go", """	"os"
""", """	"io"
	"os"
""")],
 needs="a file that cannot be synced (a terminal, /dev/full and other devices)",
 breaks="Close fails and leaves the descriptor open",
 demo="""
package fastio_test

import (
	"os"
	"strings"
	"testing"

	"github.com/donnie4w/gofer/fastio"
)

func count(prefix string) (n int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, prefix) {
			n++
		}
	}
	return
}

func TestDemo(t *testing.T) {
	f, err := fastio.Open("/dev/full")
	if err != nil {
		t.Skip(err)
	}
	f.Write([]byte("x"))
	f.Close()
	if n := count("/dev/full"); n > 0 {
		t.Fatalf("%d descriptors are left", n)
	}
}
""")
seed(id="consistenthash-del-keeps-points", property="R02", pkg="hashmap",
 edits=[("hashmap/consistenthash.go", """		t.keys = t.keys[:0]
		t.m.Range(func(k uint64, v int64) bool {
			if v == key {
				t.m.Del(k)
			} else {
				t.keys = append(t.keys, k)
			}
			return true
		})
		sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
""", """		// the order of the others does not change
		keys := t.keys[:0]
		for _, k := range t.keys {
			if v, _ := t.m.Get(k); v != key {
				keys = append(keys, k)
			}
		}
		t.keys = keys
""")],
 needs="a long-lived ring through which many different nodes come and go",
 breaks="the points of removed nodes are kept for ever",
 demo="""
package hashmap_test

import (
	"runtime"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func TestDemo(t *testing.T) {
	c := hashmap.NewConsistenthash(100)
	h := heap()
	for i := int64(1); i < 2000; i++ {
		c.Add(i)
		c.Del(i)
	}
	if g := heap() - h; g > 4<<20 {
		t.Fatalf("an empty ring holds %d bytes", g)
	}
	runtime.KeepAlive(c)
}
""")
seed(id="numlock-mutex-per-key", property="R02", pkg="lock",
 edits=[("lock/lock.go", """// Lock acquires the lock associated with the given key.
func (nl *Numlock) Lock(key int64) *sync.Mutex {
	l, _ := nl.lockm.Get(int64(uint64(key) % uint64(nl.muxNum)))
	l.Lock()""", """func (nl *Numlock) get(key int64) *sync.Mutex {
	if key >= 0 && key < int64(nl.muxNum) {
		l, _ := nl.lockm.Get(key)
		return l
	}
	l, _ := nl.more.LoadOrStore(key, &sync.Mutex{}) // no false sharing
	return l.(*sync.Mutex)
}

// Lock acquires the lock associated with the given key.
func (nl *Numlock) Lock(key int64) *sync.Mutex {
	l := nl.get(key)
	l.Lock()"""), ("lock/lock.go", """	l, _ := nl.lockm.Get(int64(uint64(key) % uint64(nl.muxNum)))
	if l.TryLock() {""", """	l := nl.get(key)
	if l.TryLock() {"""), ("lock/lock.go", """	l, _ := nl.lockm.Get(int64(uint64(key) % uint64(nl.muxNum)))
	l.Unlock()""", """	l := nl.get(key)
	l.Unlock()"""), ("lock/lock.go", """	muxNum int                              // Number of mutexes
""", """	muxNum int                              // Number of mutexes
	more   sync.Map
"""), ("lock/lock.go", """	ml := &Numlock{hashmap.NewMap[int64, *sync.Mutex](), muxNum}""", """	ml := &Numlock{lockm: hashmap.NewMap[int64, *sync.Mutex](), muxNum: muxNum}""")],
 needs="many different keys over the life of the lock",
 breaks="a mutex is kept for every key ever locked",
 demo="""
package lock_test

import (
	"runtime"
	"testing"

	"github.com/donnie4w/gofer/lock"
)

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func TestDemo(t *testing.T) {
	l := lock.NewNumLock(16)
	h := heap()
	for i := int64(0); i < 200000; i++ {
		l.Lock(i)
		l.Unlock(i)
	}
	if g := heap() - h; g > 2<<20 {
		t.Fatalf("16 released locks hold %d bytes", g)
	}
	runtime.KeepAlive(l)
}
""")
seed(id="fastawait-cancel-keeps-entry", property="R02", pkg="lock",
 edits=[("lock/fastawait.go", """func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeout time.Duration) (r T, cancel bool, err error) {
	defer recoverpanic(&err)
	ch := make(chan T, 1)
	fa.db.Put(syncId, ch)
	defer fa.del(syncId)
""", """func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeout time.Duration) (r T, cancel bool, err error) {
	defer recoverpanic(&err)
	ch := make(chan T, 1)
	fa.db.Put(syncId, ch)
	defer func() { // who puts or closes removes the entry
		fa.bf.Add(util.Int64ToBytes(syncId))
	}()
""")],
 needs="waits that time out or are cancelled and are never answered",
 breaks="the entry and channel of every such wait are kept for ever",
 demo="""
package lock_test

import (
	"context"
	"runtime"
	"testing"

	"github.com/donnie4w/gofer/lock"
)

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func TestDemo(t *testing.T) {
	l := lock.NewFastAwait2[int](1000)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	h := heap()
	for i := int64(0); i < 50000; i++ {
		l.WaitWithCancel(ctx, i, 1<<40)
	}
	if g := heap() - h; g > 2<<20 {
		t.Fatalf("no wait is pending and %d bytes are held", g)
	}
	runtime.KeepAlive(l)
}
""")

seed(id="strtotime-other-layouts", property="U08", pkg="util",
 edits=[("util/encode.go", """	t, err = time.ParseInLocation("2006-01-02 15:04:05", s, l)
""", """	for _, layout := range []string{time.DateTime, time.DateTime + " -0700", "2006-01-02T15:04:05"} {
		if t, err = time.ParseInLocation(layout, strings.TrimSpace(s), l); err == nil {
			break
		}
	}
""")],
 needs="a text with a zone, a T or space around it",
 breaks="texts of other forms are accepted",
 demo="""
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{"2024-01-02 03:04:05 +0000", "2024-01-02T03:04:05", "2024-01-02 03:04:05\\n"} {
		if r, err := util.StrToTimeFormat(s); err == nil {
			t.Errorf("%q is accepted as %v", s, r)
		}
	}
}
""")
seed(id="matchstring-racy-cache", property="U08", pkg="util",
 edits=[("util/encode.go", """	b, err := regexp.MatchString(pattern, s)
	if err != nil {
		b = false
	}
	return b
}
""", """	if pattern != lastPattern || lastRegexp == nil {
		re, err := regexp.Compile(pattern)
		if err != nil {
			return false
		}
		lastPattern, lastRegexp = pattern, re
	}
	return lastRegexp.MatchString(s)
}

var (
	lastPattern string
	lastRegexp  *regexp.Regexp
)
""")],
 needs="concurrent calls with different patterns",
 breaks="a call is answered for the pattern of another call",
 demo="""
package util_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for _, p := range []string{"a", "b", "c", "d"} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				if !util.MatchString(p, p) {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatalf("%d wrong answers", bad)
	}
}
""")
