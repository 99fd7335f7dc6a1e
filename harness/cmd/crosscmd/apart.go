package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/buffer"
	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/fastio"
	"github.com/donnie4w/gofer/hashmap"
	"github.com/donnie4w/gofer/httpclient"
	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/lock"
	"github.com/donnie4w/gofer/mmap"
	pbuffer "github.com/donnie4w/gofer/pool/buffer"
	"github.com/donnie4w/gofer/pool/gopool"
	"github.com/donnie4w/gofer/websocket"

	"verifharness/vh"
)

// journal is what an object did: one line per operation.
type journal struct {
	lines []string
	sum   uint64
}

func (j *journal) log(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	fmt.Fprint(h, j.sum, s)
	j.sum = h.Sum64()
	if len(s) > 200 {
		s = s[:200]
	}
	j.lines = append(j.lines, s)
}

// life is the whole use of one object: what it logs depends only on r.
type life struct {
	name string
	f    func(r *rand.Rand, e *env, j *journal)
}

// env is what lives need besides the library.
type env struct {
	dir  string
	w    *world
	slow func(*rand.Rand) // between operations
}

func key(r *rand.Rand) int64 { return r.Int64N(20) - 4 }

const soon = 90 * time.Second // a wait that is answered

var lives = []life{
	{"Map", func(r *rand.Rand, e *env, j *journal) {
		m := hashmap.NewMap[int64, string]()
		for i := 0; i < 150; i++ {
			e.slow(r)
			k := key(r)
			switch r.IntN(5) {
			case 0, 1:
				p, ok := m.Put(k, fmt.Sprint(i))
				j.log("put %d %s %v", k, p, ok)
			case 2:
				v, ok := m.Get(k)
				j.log("get %d %s %v %v", k, v, ok, m.Has(k))
			case 3:
				j.log("del %d %v", k, m.Del(k))
			case 4:
				var l []string
				m.Range(func(k int64, v string) bool { l = append(l, fmt.Sprint(k, "=", v)); return true })
				sort.Strings(l)
				j.log("range %v", l)
			}
		}
	}},
	{"MapL", func(r *rand.Rand, e *env, j *journal) {
		m := hashmap.NewMapL[string, int]()
		for i := 0; i < 150; i++ {
			e.slow(r)
			k := fmt.Sprint(key(r))
			switch r.IntN(5) {
			case 0, 1:
				p, ok := m.Put(k, i)
				j.log("put %s %d %v len %d", k, p, ok, m.Len())
			case 2:
				v, ok := m.Get(k)
				j.log("get %s %d %v %v", k, v, ok, m.Has(k))
			case 3:
				j.log("del %s %v len %d", k, m.Del(k), m.Len())
			case 4:
				var l []string
				m.Range(func(k string, v int) bool { l = append(l, fmt.Sprint(k, "=", v)); return true })
				sort.Strings(l)
				j.log("range %v", l)
			}
		}
	}},
	{"TreeMap", func(r *rand.Rand, e *env, j *journal) {
		m := hashmap.NewTreeMap[int64, int](2 + r.IntN(6))
		for i := 0; i < 150; i++ {
			e.slow(r)
			k := key(r)
			switch r.IntN(6) {
			case 0, 1, 2:
				p, ok := m.Put(k, i)
				j.log("put %d %d %v", k, p, ok)
			case 3:
				v, ok := m.Get(k)
				j.log("get %d %d %v", k, v, ok)
			case 4:
				m.Del(k)
			case 5:
				var l []string
				m.Ascend(func(k int64, v int) bool { l = append(l, fmt.Sprint(k, "=", v)); return true })
				m.Descend(func(k int64, v int) bool { l = append(l, fmt.Sprint(k)); return len(l) < 30 })
				j.log("walk %v", l)
			}
		}
	}},
	{"LimitMap", func(r *rand.Rand, e *env, j *journal) {
		m := hashmap.NewLimitMap[int64, int](1 + r.IntN(10))
		for i := 0; i < 150; i++ {
			e.slow(r)
			k := key(r)
			switch r.IntN(6) {
			case 0, 1, 2:
				p, ok := m.Put(k, i)
				j.log("put %d %d %v", k, p, ok)
			case 3:
				v, ok := m.Get(k)
				j.log("get %d %d %v", k, v, ok)
			case 4:
				m.Del(k)
				m.RemoveMulti([]int64{k + 1, k + 3})
			}
			j.log("len %d", m.Len())
		}
	}},
	{"LimitHashMap", func(r *rand.Rand, e *env, j *journal) {
		m := hashmap.NewLimitHashMapWithSegment[string, int](4000, 1+r.IntN(8)) // no eviction: which key goes is not specified
		if r.IntN(2) == 0 {                                                     // except with one segment
			m = hashmap.NewLimitHashMapWithSegment[string, int](1+r.IntN(12), 1)
		}
		for i := 0; i < 150; i++ {
			e.slow(r)
			k := fmt.Sprint("k", key(r))
			switch r.IntN(8) {
			case 0, 1, 2, 3:
				p, ok := m.Put(k, i)
				j.log("put %s %d %v", k, p, ok)
			case 4:
				v, ok := m.Get(k)
				j.log("get %s %d %v %v", k, v, ok, m.Contains(k))
			case 5:
				m.Del(k)
			case 6:
				if r.IntN(10) == 0 {
					m.Clear()
				}
			}
			j.log("len %d", m.Len())
		}
	}},
	{"LinkedHashMap", func(r *rand.Rand, e *env, j *journal) {
		m := hashmap.NewLinkedHashMap[int64, int](int64(1 + r.IntN(10)))
		for i := 0; i < 150; i++ {
			e.slow(r)
			k := key(r)
			switch r.IntN(9) {
			case 0, 1, 2:
				m.Put(k, i)
			case 3:
				v, ok := m.LoadOrStore(k, i)
				j.log("loadorstore %d %d %v", k, v, ok)
			case 4:
				v, ok := m.Get(k)
				j.log("get %d %d %v", k, v, ok)
			case 5:
				m.Delete(k)
			case 6:
				m.MoveToFront(k)
			case 7:
				it := m.Iterator(r.IntN(2) == 0)
				var l []string
				for k, v, ok := it.Next(); ok; k, v, ok = it.Next() {
					l = append(l, fmt.Sprint(k, "=", v))
				}
				j.log("walk %v", l)
			case 8:
				if r.IntN(10) == 0 {
					m.Clear()
				}
			}
			a, b, ok := m.Front()
			x, y, _ := m.Back()
			j.log("len %d ends %d %d %d %d %v", m.Len(), a, b, x, y, ok)
		}
	}},
	{"Consistenthash", func(r *rand.Rand, e *env, j *journal) {
		m := hashmap.NewConsistenthash(1 + r.IntN(40))
		for i := 0; i < 60; i++ {
			e.slow(r)
			switch k := key(r); r.IntN(5) {
			case 0, 1:
				m.Add(k)
			case 2:
				m.Del(k)
			default:
				v, ok := m.Get(int64(r.Uint64()))
				l, ok2 := m.GetNextNodeStr(fmt.Sprint(k), 1+r.IntN(3))
				s, ok3 := m.GetStr(fmt.Sprint(k))
				n := m.Nodes()
				sort.Slice(n, func(i, j int) bool { return n[i] < n[j] })
				j.log("get %d %v %v %v %d %v nodes %v", v, ok, l, ok2, s, ok3, n)
			}
		}
	}},
	{"LruCache", func(r *rand.Rand, e *env, j *journal) {
		m := cache.NewLruCache[int](1 + r.IntN(10))
		for i := 0; i < 150; i++ {
			e.slow(r)
			k := key(r)
			switch r.IntN(6) {
			case 0, 1, 2:
				m.Add(fmt.Sprint(k), i)
			case 3, 4:
				v, ok := m.Get(fmt.Sprint(k))
				j.log("get %d %d %v", k, v, ok)
			case 5:
				m.Remove(fmt.Sprint(k))
				m.RemoveMulti([]string{fmt.Sprint(k + 1)})
			}
		}
	}},
	{"BloomFilter", func(r *rand.Rand, e *env, j *journal) {
		b := cache.NewBloomFilter(uint64(100+r.IntN(5000)), 1e-9)
		for i := 0; i < 60; i++ {
			e.slow(r)
			before := b.Contains([]byte(fmt.Sprint("item", i)))
			b.Add([]byte(fmt.Sprint("item", i)))
			ok := !before
			for k := 0; k <= i; k++ {
				ok = ok && b.Contains([]byte(fmt.Sprint("item", k)))
			}
			j.log("has all %d items %v, one that was never added %v", i+1, ok, b.Contains([]byte(fmt.Sprint("other", r.Uint64()))))
		}
	}},
	{"Numlock", func(r *rand.Rand, e *env, j *journal) {
		l := lock.NewNumLock(8)
		held := map[int64]bool{}
		for i := 0; i < 100; i++ {
			e.slow(r)
			k := r.Int64N(8)
			if held[k] {
				if r.IntN(2) == 0 {
					l.Unlock(k)
					held[k] = false
				} else {
					_, ok := l.TryLock(k)
					j.log("held %d: trylock %v", k, ok)
				}
			} else if r.IntN(2) == 0 {
				l.Lock(k)
				held[k] = true
			} else {
				_, ok := l.TryLock(k)
				j.log("free %d: trylock %v", k, ok)
				held[k] = ok
			}
		}
	}},
	{"Strlock", func(r *rand.Rand, e *env, j *journal) {
		l := lock.NewStrlock(1 + r.IntN(3))
		for i := 0; i < 60; i++ {
			e.slow(r)
			k := fmt.Sprint(r.IntN(5))
			switch r.IntN(3) {
			case 0:
				l.Lock(k)
				_, a := l.TryLock(k)
				_, b := l.TryRLock(k)
				j.log("write locked: %v %v", a, b)
				l.Unlock(k)
			case 1:
				l.RLock(k)
				_, a := l.TryLock(k)
				_, b := l.TryRLock(k)
				j.log("read locked: %v %v", a, b)
				if b {
					l.RUnlock(k)
				}
				l.RUnlock(k)
			case 2:
				_, a := l.TryLock(k)
				j.log("free: %v", a)
				if a {
					l.Unlock(k)
				}
			}
		}
	}},
	{"LimitLock", func(r *rand.Rand, e *env, j *journal) {
		n := 1 + r.IntN(4)
		l := lock.NewLimitLock(n, soon)
		full := lock.NewLimitLock(1, 5*time.Millisecond)
		for full.Lock() != nil { // a slow machine may let the time pass
		}
		in := 0
		for i := 0; i < 40; i++ {
			e.slow(r)
			if in < n && r.IntN(2) == 0 {
				err := l.Lock()
				in++
				j.log("lock with %d of %d in: %v", in, n, err)
			} else if in == n && r.IntN(4) == 0 {
				j.log("lock when full: %v", full.Lock() != nil)
			} else if in > 0 {
				l.Unlock()
				in--
			}
			j.log("in %d, count %d %d", in, l.Cc(), l.LockCount())
		}
	}},
	{"Await", func(r *rand.Rand, e *env, j *journal) {
		a := lock.NewAwait[int](1 + r.IntN(8))
		for i := 0; i < 30; i++ {
			e.slow(r)
			id := r.Int64N(6)
			switch r.IntN(4) {
			case 0:
				_, err := a.Wait(id, time.Millisecond)
				j.log("unanswered wait fails %v, registered %v", err != nil, a.Has(id))
			case 1:
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				_, c, _ := a.WaitWithCancel(ctx, id, soon)
				j.log("cancelled wait %v, registered %v", c, a.Has(id))
			default:
				go func() {
					for !a.Has(id) {
						time.Sleep(20 * time.Microsecond)
					}
					a.CloseAndPut(id, i)
				}()
				v, err := a.Wait(id, soon)
				j.log("wait %d: %d %v, registered %v", id, v, err, a.Has(id))
			}
		}
	}},
	{"FastAwait", func(r *rand.Rand, e *env, j *journal) {
		a := lock.NewFastAwait2[int](1000)
		if r.IntN(2) == 0 {
			a = lock.NewFastAwait[int]()
		}
		for i := 0; i < 20; i++ {
			e.slow(r)
			id := int64(i + 1)
			if r.IntN(3) == 0 {
				_, err := a.Wait(id, time.Millisecond)
				j.log("unanswered wait fails %v", err != nil)
				continue
			}
			done := make(chan error, 1)
			go func() { done <- a.CloseAndPut(id, i) }()
			if i%8 == 7 { // the value is there before anybody waits for it
				time.Sleep(2 * time.Millisecond)
			}
			v, err := a.Wait(id, 25*time.Second)
			j.log("wait %d: %d %v", id, v, err)
			<-done
		}
	}},
	{"GoPool", func(r *rand.Rand, e *env, j *journal) {
		lim := 1 + r.IntN(4)
		g := gopool.NewPool(int64(r.IntN(lim)+1), int64(lim))
		var n, now, most atomic.Int64
		var wg sync.WaitGroup
		k := 1 + r.IntN(60)
		for i := 0; i < k; i++ {
			e.slow(r)
			wg.Add(1)
			g.Go(func() {
				defer wg.Done()
				x := now.Add(1)
				for m := most.Load(); x > m && !most.CompareAndSwap(m, x); m = most.Load() {
				}
				n.Add(1)
				now.Add(-1)
			})
		}
		wg.Wait()
		for t0 := time.Now(); g.NumUnExecu() != 0 && time.Since(t0) < 10*time.Second; { // counted down after the function
			time.Sleep(20 * time.Microsecond)
		}
		j.log("%d of %d functions ran, more than %d at once: %v, left %d", n.Load(), k, lim, most.Load() > int64(lim), g.NumUnExecu())
		g.Close()
	}},
	{"BufferPool", func(r *rand.Rand, e *env, j *journal) {
		p := pbuffer.NewBufferPool(1 + r.IntN(10))
		for i := 0; i < 60; i++ {
			e.slow(r)
			b := p.Get(r.IntN(5000))
			l := b.Len()
			d := data(r, r.IntN(300))
			b.Write(d)
			j.log("fresh %d holds %v put %v", l, bytes.Equal(b.Bytes(), d), p.Put(b))
		}
	}},
	{"Pool", func(r *rand.Rand, e *env, j *journal) {
		type thing struct{ owner, n int }
		var made atomic.Int64
		me := int(r.Uint32())
		if r.IntN(2) == 0 { // neither function: objects of this pool, as they were put, or fresh ones
			p := pbuffer.NewPool[thing](nil, nil)
			for i := 0; i < 60; i++ {
				e.slow(r)
				t := p.Get()
				j.log("mine or fresh %v", t.owner == me || *t == thing{})
				*t = thing{me, 1 + i}
				j.log("put %v", p.Put(&t))
			}
			return
		}
		p := pbuffer.NewPool(func() *thing { made.Add(1); return &thing{owner: me} }, func(t *thing) { t.n = 0 })
		for i := 0; i < 60; i++ {
			e.slow(r)
			t := p.Get()
			j.log("mine %v clean %v", t.owner == me, t.n == 0)
			t.n = 1 + i
			j.log("put %v", p.Put(&t))
		}
		j.log("made some %v", made.Load() > 0)
	}},
	{"Buffer", func(r *rand.Rand, e *env, j *journal) {
		for k := 0; k < 12; k++ {
			b := buffer.NewBufferByPool()
			if r.IntN(3) == 0 {
				b = buffer.NewBufferWithCapacity(r.IntN(100))
			}
			var model []byte
			for i := 0; i < 12; i++ {
				e.slow(r)
				d := data(r, r.IntN(100))
				b.Write(d)
				model = append(model, d...)
			}
			p := make([]byte, len(model)+3)
			n, _ := b.Read(p)
			j.log("len %v content %v", n == len(model), bytes.Equal(p[:n], model))
			b.Free()
		}
	}},
	{"fastio", func(r *rand.Rand, e *env, j *journal) {
		path := filepath.Join(e.dir, fmt.Sprint("f", ids.Add(1)))
		f, err := fastio.Open(path)
		if err != nil {
			panic(err)
		}
		defer os.Remove(path)
		for i := 0; i < 40; i++ {
			e.slow(r)
			d := data(r, 1+r.IntN(900))
			if r.IntN(2) == 0 {
				n, err := f.Write(d)
				j.log("write %d %v", n, err)
			} else {
				off, err := f.WriteSync(d)
				j.log("writesync at %d %v", off, err)
			}
		}
		err = f.Close()
		b, _ := os.ReadFile(path)
		j.log("closed %v, file %d bytes %x", err, len(b), vh.Hash(b))
	}},
	{"mmap", func(r *rand.Rand, e *env, j *journal) {
		path := filepath.Join(e.dir, fmt.Sprint("m", ids.Add(1)))
		os.WriteFile(path, make([]byte, 30000), 0o644)
		defer os.Remove(path)
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		m, err := mmap.NewMMAP(f, 0)
		if err != nil {
			panic(err)
		}
		for i := 0; i < 40; i++ {
			e.slow(r)
			d := data(r, 1+r.IntN(900))
			switch r.IntN(9) {
			case 0:
				n, err := m.AppendSync(d)
				j.log("appendsync %d %v", n, err != nil)
			case 1:
				j.log("writeat %v", m.WriteAtSync(d, r.IntN(31000)) != nil)
			case 2, 3:
				j.log("writeat %v", m.WriteAt(d, r.IntN(31000)) != nil)
			default:
				n, err := m.Append(d)
				j.log("append %d %v", n, err != nil)
			}
		}
		j.log("size %d", m.FileSize())
		err = m.UnmapAndCloseFile()
		b, _ := os.ReadFile(path)
		j.log("closed %v, file %d bytes %x", err, len(b), vh.Hash(b))
	}},
	{"KeyStore", func(r *rand.Rand, e *env, j *journal) {
		n := ids.Add(1)
		name := []string{fmt.Sprint("k", n), fmt.Sprint("k", n, ".tmp"), fmt.Sprint("k", n, ".1.tmp"), fmt.Sprint("store-", n)}[n%4] // all in one directory
		k, err := keystore.NewKeyStore(e.dir, name)
		if err != nil {
			panic(err)
		}
		for i := 0; i < 12; i++ {
			e.slow(r)
			d := data(r, 1+r.IntN(3000))
			err := k.Write(d)
			b, err2 := k.Read()
			j.log("write %v read %v same %v", err, err2, bytes.Equal(b, d))
			if r.IntN(4) == 0 {
				if k, err = keystore.LoadKeyStore(e.dir, name); err != nil {
					panic(err)
				}
				b, err2 = k.Read()
				j.log("reopened: read %v same %v", err2, bytes.Equal(b, d))
			}
		}
	}},
	{"Aes", func(r *rand.Rand, e *env, j *journal) {
		parts := []string{"", "1", "11", "12", "112", "2"} // in common with others, and so are their concatenations
		a := keystore.NewAes(parts[r.IntN(len(parts))], parts[r.IntN(len(parts))])
		for i := 0; i < 40; i++ {
			e.slow(r)
			d := data(r, r.IntN(300))
			x, err := a.EncrypterCbc(d)
			y, err2 := a.DecrypterCbc(x)
			j.log("%x %v %v %v", vh.Hash(x), err, err2, bytes.Equal(y, d))
		}
	}},
	{"http", func(r *rand.Rand, e *env, j *journal) {
		for i := 0; i < 5; i++ {
			e.slow(r)
			d := data(r, r.IntN(3000))
			mine := fmt.Sprint("c", ids.Add(1))
			url := e.w.post.URL + "/?setcookie=" + mine
			var b []byte
			var err error
			switch r.IntN(3) {
			case 0:
				b, err = httpclient.Post(d, url)
			case 1:
				b, err = httpclient.Post2(d, r.IntN(2) == 0, url)
			case 2:
				b, err = httpclient.Post3(d, r.IntN(2) == 0, url, map[string]string{fmt.Sprint("X-", r.IntN(4)): "1"}, &http.Cookie{Name: fmt.Sprint("a", r.IntN(4)), Value: "1"})
			}
			saw, _, _ := strings.Cut(string(b), "\n")
			j.log("server saw %s, answer %x %v", saw, vh.Hash(b), err)
		}
	}},
	{"websocket", func(r *rand.Rand, e *env, j *journal) {
		n := 1 + r.IntN(12)
		var opened, closed atomic.Int64
		in := make(chan []byte, n+10)
		end := make(chan struct{})
		var once sync.Once
		ws, err := websocket.NewHandler(&websocket.Config{Url: "ws" + strings.TrimPrefix(e.w.ws.URL, "http"), Origin: "http://localhost/", TimeOut: soon,
			OnOpen:    func(*websocket.Handler) { opened.Add(1) },
			OnMessage: func(_ *websocket.Handler, m []byte) { in <- m },
			OnClose:   func(*websocket.Handler) { closed.Add(1); once.Do(func() { close(end) }) },
		})
		if err != nil {
			j.log("connect %v", err)
			return
		}
		for i := 0; i < n; i++ {
			e.slow(r)
			d := data(r, r.IntN(2000))
			err := ws.Send(d)
			select {
			case m := <-in:
				j.log("send %v echo %v", err, bytes.Equal(m, reply(d)))
			case <-time.After(soon):
				j.log("send %v no echo", err)
			}
		}
		ws.Close() // the reader may close the connection first; then Close says so
		select {
		case <-end:
		case <-time.After(soon):
		}
		time.Sleep(time.Millisecond)
		j.log("opened %d closed %d further messages %d", opened.Load(), closed.Load(), len(in))
	}},
}

// hold is a state in which an object makes somebody wait; end releases it.
type hold struct {
	name string
	f    func(e *env) (end func())
}

// inside runs f on another goroutine and returns once it is inside its callback.
func inside(f func(in func())) (end func()) {
	at, out, done := make(chan struct{}), make(chan struct{}), make(chan struct{})
	var once sync.Once
	go func() {
		defer close(done)
		f(func() {
			once.Do(func() { close(at) })
			<-out
		})
	}()
	<-at
	return func() { close(out); <-done }
}

var holds = []hold{
	{"a held Numlock", func(e *env) func() {
		l := lock.NewNumLock(3)
		for k := int64(0); k < 3; k++ {
			l.Lock(k)
		}
		return func() {
			for k := int64(0); k < 3; k++ {
				l.Unlock(k)
			}
		}
	}},
	{"a held Strlock", func(e *env) func() {
		l := lock.NewStrlock(1)
		l.Lock("a")
		return func() { l.Unlock("a") }
	}},
	{"a read-held Strlock", func(e *env) func() {
		l := lock.NewStrlock(1)
		l.RLock("a")
		done := make(chan struct{})
		go func() { l.Lock("a"); l.Unlock("a"); close(done) }()
		return func() { l.RUnlock("a"); <-done }
	}},
	{"a full LimitLock", func(e *env) func() {
		l := lock.NewLimitLock(1, soon)
		l.Lock()
		done := make(chan struct{})
		go func() {
			if l.Lock() == nil {
				l.Unlock()
			}
			close(done)
		}()
		return func() { l.Unlock(); <-done }
	}},
	{"a blocked Await", func(e *env) func() {
		a := lock.NewAwait[int](4)
		var wg sync.WaitGroup
		for id := int64(0); id < 6; id++ { // the ids the lives use
			wg.Add(1)
			go func() { defer wg.Done(); a.Wait(id, soon) }()
			for !a.Has(id) {
				time.Sleep(20 * time.Microsecond)
			}
		}
		return func() {
			for id := int64(0); id < 6; id++ {
				a.CloseAndPut(id, 1)
			}
			wg.Wait()
		}
	}},
	{"a blocked FastAwait", func(e *env) func() {
		a := lock.NewFastAwait2[int](1000)
		var wg sync.WaitGroup
		for id := int64(1); id < 4; id++ {
			wg.Add(1)
			go func() { defer wg.Done(); a.Wait(id, soon) }()
		}
		return func() {
			for id := int64(1); id < 4; id++ {
				a.CloseAndPut(id, 1)
			}
			wg.Wait()
		}
	}},
	{"a closing FastAwait nobody waits for", func(e *env) func() {
		a := lock.NewFastAwait2[int](1000)
		done := make(chan struct{})
		go func() { a.CloseAndPut(1, 1); close(done) }()
		return func() { <-done }
	}},
	{"a Range callback of Map", func(e *env) func() {
		m := hashmap.NewMap[int64, int]()
		m.Put(1, 1)
		return inside(func(in func()) { m.Range(func(int64, int) bool { in(); return true }) })
	}},
	{"a Range callback of MapL", func(e *env) func() {
		m := hashmap.NewMapL[int64, int]()
		m.Put(1, 1)
		return inside(func(in func()) { m.Range(func(int64, int) bool { in(); return true }) })
	}},
	{"an Ascend callback of TreeMap with a writer waiting", func(e *env) func() {
		m := hashmap.NewTreeMap[int64, int](2)
		m.Put(1, 1)
		end := inside(func(in func()) { m.Ascend(func(int64, int) bool { in(); return true }) })
		done := make(chan struct{})
		go func() { m.Put(2, 2); close(done) }()
		return func() { end(); <-done }
	}},
	{"a full GoPool with callers waiting", func(e *env) func() {
		g := gopool.NewPoolWithFuncLimit(1, 2, 2)
		out := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go g.Go(func() { <-out; wg.Done() })
		}
		time.Sleep(time.Millisecond)
		return func() { close(out); wg.Wait(); g.Close() }
	}},
	{"a constructor of a Pool", func(e *env) func() {
		var in func()
		p := pbuffer.NewPool(func() *int { in(); return new(int) }, nil)
		return inside(func(i func()) { in = i; p.Get() })
	}},
	{"a reset of a Pool", func(e *env) func() {
		var in func()
		p := pbuffer.NewPool(nil, func(*int) { in() })
		return inside(func(i func()) { in = i; p.Get() })
	}},
	{"an HTTP server that does not answer", func(e *env) func() {
		done := make(chan struct{})
		go func() { httpclient.Post([]byte("x"), e.w.post.URL+"/hold"); close(done) }()
		<-e.w.held
		return func() { close(e.w.hold); <-done }
	}},
	{"a websocket callback", func(e *env) func() {
		out := make(chan struct{})
		in := make(chan struct{}, 10)
		ws, err := websocket.NewHandler(&websocket.Config{Url: "ws" + strings.TrimPrefix(e.w.ws.URL, "http"), Origin: "http://localhost/",
			OnMessage: func(*websocket.Handler, []byte) { in <- struct{}{}; <-out }})
		if err != nil {
			panic(err)
		}
		ws.Send([]byte("x"))
		<-in
		return func() { close(out); ws.Close() }
	}},
	{"an OnOpen callback of a websocket", func(e *env) func() {
		var ws *websocket.Handler
		end := inside(func(in func()) {
			ws, _ = websocket.NewHandler(&websocket.Config{Url: "ws" + strings.TrimPrefix(e.w.ws.URL, "http"), Origin: "http://localhost/",
				OnOpen: func(*websocket.Handler) { in() }})
		})
		return func() {
			end()
			if ws != nil {
				ws.Close()
			}
		}
	}},
	{"a websocket handshake that is not answered", func(e *env) func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		got := make(chan net.Conn, 1)
		go func() { c, _ := l.Accept(); got <- c }()
		done := make(chan struct{})
		go func() {
			websocket.NewHandler(&websocket.Config{Url: "ws://" + l.Addr().String() + "/", Origin: "http://localhost/", TimeOut: soon})
			close(done)
		}()
		c := <-got
		return func() {
			if c != nil {
				c.Close()
			}
			<-done
			l.Close()
		}
	}},
	{"a websocket whose peer takes nothing", func(e *env) func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		got := make(chan net.Conn, 1)
		go func() {
			c, err := l.Accept()
			if err == nil && !upgrade(c) {
				c.Close()
			}
			got <- c
		}()
		ws, err := websocket.NewHandler(&websocket.Config{Url: "ws://" + l.Addr().String() + "/", Origin: "http://localhost/", TimeOut: soon})
		c := <-got
		if err != nil {
			panic(err)
		}
		done := make(chan struct{})
		go func() { ws.Send(make([]byte, 16<<20)); close(done) }()
		return func() { c.Close(); <-done; ws.Close(); l.Close() }
	}},
}

func alone(l life, seed uint64, e *env) (j *journal, p string) {
	j = &journal{}
	p = vh.Try(func() { l.f(vh.NewRand(seed), e, j) })
	return
}

// childAlone runs the life in a process of its own.
func childAlone(l life, seed uint64, dir0 string) (*journal, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp(dir0, "alone")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "-helper", "life", l.name, fmt.Sprint(seed), dir)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, eb.String())
	}
	var o struct {
		Lines []string
		Sum   uint64
	}
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return &journal{o.Lines, o.Sum}, nil
}

func lifeHelper(a []string) {
	seed, err := strconv.ParseUint(a[1], 10, 64)
	if err != nil {
		panic(err)
	}
	for _, l := range lives {
		if l.name == a[0] {
			w := newWorld(a[2])
			j, p := alone(l, seed, &env{a[2], w, func(*rand.Rand) {}})
			if p != "" {
				fmt.Fprintln(os.Stderr, p)
				os.Exit(1)
			}
			b, _ := json.Marshal(map[string]any{"Lines": j.lines, "Sum": j.sum})
			os.Stdout.Write(b)
			return
		}
	}
	os.Exit(2)
}

// judge compares what an object did with what it does alone.
func judge(c *vh.Case, l life, want, got *journal, p, company string) {
	c.Eval(len(got.lines))
	c.Observe("operations", len(got.lines))
	if p != "" {
		c.Violate("panic", "%s, %s: panic: %s", l.name, company, p)
		return
	}
	if want.sum != got.sum {
		i := 0
		for i < len(want.lines) && i < len(got.lines) && want.lines[i] == got.lines[i] {
			i++
		}
		a, b := "nothing", "nothing"
		if i < len(want.lines) {
			a = want.lines[i]
		}
		if i < len(got.lines) {
			b = got.lines[i]
		}
		c.Violate("influenced", "%s: operation %d gave %q alone and %q %s", l.name, i, a, b, company)
	}
}

func pick(r *rand.Rand, n int) (ls []life) {
	if r.IntN(3) == 0 { // several of one kind
		l := lives[r.IntN(len(lives))]
		for i := 0; i < n; i++ {
			ls = append(ls, l)
		}
		return
	}
	for i := 0; i < n; i++ {
		ls = append(ls, lives[r.IntN(len(lives))])
	}
	return
}

func o02(r *vh.Run) {
	r.Rule("each case uses 2-10 objects of the same or of different kinds, once each alone (in the plain build: in a process of its own) and once all at the same time, or once beside an object that makes somebody wait (held lock, blocked wait, callback, function, write, request), and compares every result; a case counts with the kinds, the results and the company")
	quiet := func(*rand.Rand) {}
	r.Cases("company", r.N(150, 2500), 4, func(c *vh.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		w := newWorld(dir)
		defer w.close()
		ls := pick(c.R, 2+c.R.IntN(9))
		seeds := make([]uint64, len(ls))
		want := make([]*journal, len(ls))
		for i, l := range ls {
			seeds[i] = c.R.Uint64()
			if !r.Race && !r.Perturb {
				var err error
				if want[i], err = childAlone(l, seeds[i], dir); err != nil {
					c.Violate("panic", "%s alone in a process: %v", l.name, err)
					return
				}
				c.Observe("processes", 1)
				continue
			}
			var p string
			if want[i], p = alone(l, seeds[i], &env{dir, w, quiet}); p != "" {
				c.Violate("panic", "%s alone: panic: %s", l.name, p)
				return
			}
		}
		spin := c.R.IntN(3)
		busy := &env{dir, w, func(*rand.Rand) {
			if spin > 0 {
				vh.Yield()
			}
		}}
		var wg sync.WaitGroup
		start := make(chan struct{})
		got, ps := make([]*journal, len(ls)), make([]string, len(ls))
		for i := range ls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[i], ps[i] = alone(ls[i], seeds[i], busy)
			}()
		}
		close(start)
		wg.Wait()
		var names []string
		for _, l := range ls {
			names = append(names, l.name)
		}
		for i := range ls {
			judge(c, ls[i], want[i], got[i], ps[i], "while "+strings.Join(names, ", ")+" were in use")
			c.Distinct(vh.Hash(ls[i].name, want[i].sum, strings.Join(names, ",")))
		}
		c.Sample(fmt.Sprintf("%s together; first one: %d operations, the last %q", strings.Join(names, ", "), len(want[0].lines), want[0].lines[len(want[0].lines)-1]))
	})
	// every kind of hold, beside every kind of object
	r.Cases("holds", len(holds)*r.N(3, 30), 4, func(c *vh.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		w := newWorld(dir)
		defer w.close()
		e := &env{dir, w, quiet}
		h := holds[c.I%len(holds)]
		var want []*journal
		var seeds []uint64
		for _, l := range lives {
			s := c.R.Uint64()
			j, p := alone(l, s, e)
			if p != "" {
				c.Violate("panic", "%s alone: panic: %s", l.name, p)
				return
			}
			want, seeds = append(want, j), append(seeds, s)
		}
		end := h.f(e)
		var wg sync.WaitGroup
		for i, l := range lives {
			wg.Add(1)
			done := make(chan struct{})
			var j *journal
			var p string
			go func() { j, p = alone(l, seeds[i], e); close(done) }()
			go func() {
				defer wg.Done()
				select {
				case <-done:
				case <-time.After(30 * time.Second):
					// only what the hold itself delays is wrong: does it go on when the hold ends?
					c.Violate("blocked", "%s is not done after 30 s beside %s", l.name, h.name)
					return
				}
				judge(c, l, want[i], j, p, "beside "+h.name)
				c.Distinct(vh.Hash(h.name, l.name, j.sum))
			}()
		}
		// the lives must be over before the hold ends
		wg.Wait()
		end()
		c.Observe("holds", 1)
	})
}
