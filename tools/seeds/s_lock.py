SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="lru-removemulti-unlocked", property="C01", pkg="cache",
 edits=[("cache/lrucache.go", """	lc.lock.Lock()
	defer lc.lock.Unlock()

	for _, k := range keys {
		lc.cache.Remove(k)
	}
""", """	if len(keys) == 0 {
		return
	}
	for _, k := range keys {
		lc.cache.Remove(k)
	}
""")],
 needs="RemoveMulti running at the same time as another operation",
 breaks="the cache's map and recency list are changed without the lock",
 flags="-race",
 demo='''
package cache_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	c := cache.NewLruCache[int](20)
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				k := fmt.Sprint(i % 30)
				if g == 0 {
					c.Add(k, i)
				} else {
					c.RemoveMulti([]string{k})
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="lru-update-evicts", property="C01", pkg="cache",
 edits=[("cache/lrucache.go", """	lc.lock.Lock()
	defer lc.lock.Unlock()
	lc.cache.Add(key, value)
""", """	lc.lock.Lock()
	defer lc.lock.Unlock()
	for full := lc.cache.MaxEntries > 0 && lc.cache.Len() >= lc.cache.MaxEntries; full; full = false {
		lc.cache.RemoveOldest()
	}
	lc.cache.Add(lru.Key(key), value)
""")],
 needs="re-adding a key that is present while the cache is full",
 breaks="updating an existing key of a full cache evicts another entry",
 demo='''
package cache_test

import (
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	c := cache.NewLruCache[int](3)
	for i := 0; i < 3; i++ {
		c.Add(i, i)
	}
	c.Add(2, 5)
	for i := 0; i < 3; i++ {
		if _, ok := c.Get(i); !ok {
			t.Fatalf("key %d lost although only three keys were ever added", i)
		}
	}
}
''')

seed(id="bloom-rotation-order", property="C02", pkg="cache",
 edits=[("cache/bloom.go", """		index, rmIndex, prevIndex = 1, 2, 0
""", """		index, rmIndex, prevIndex = 1, 0, 2
""")],
 needs="enough additions to reach the second generation",
 breaks="the filter drops the generation it just filled instead of the oldest",
 demo='''
package cache_test

import (
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	f := cache.NewBloomFilter(100, 0.001)
	for i := 0; i < 1000; i++ {
		f.Add([]byte(strconv.Itoa(i)))
		for j := max(0, i-90); j <= i; j++ {
			if !f.Contains([]byte(strconv.Itoa(j))) {
				t.Fatalf("item %d forgotten after %d further items", j, i-j)
			}
		}
	}
}
''')

seed(id="bloom-one-seed", property="C03", pkg="cache",
 edits=[("cache/bloom.go", """	for i := range seeds {
		seeds[i] = maphash.MakeSeed()
	}
""", """	seed := maphash.MakeSeed()
	for i := range seeds {
		seeds[i] = seed
	}
""")],
 needs="a filter filled to its expected size, queried with many absent items",
 breaks="all hash functions are the same one, so the false-positive rate is far above the configured one",
 demo='''
package cache_test

import (
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	f := cache.NewBloomFilter(2000, 0.001)
	for i := 0; i < 2000; i++ {
		f.Add([]byte("in" + strconv.Itoa(i)))
	}
	n := 0
	for i := 0; i < 20000; i++ {
		if f.Contains([]byte("out" + strconv.Itoa(i))) {
			n++
		}
	}
	if n > 200 {
		t.Fatalf("%d false positives in 20000 at a rate of 0.001", n)
	}
}
''')

seed(id="bloom-word-rounding", property="C03", pkg="cache",
 edits=[("cache/bloom.go", """func (bf *BloomFilter) Add(item []byte) {
	defer recoverPanic(nil)
	bf.mux.Lock()
	defer bf.mux.Unlock()
	bf.numCount.Add(1)
	for i := 0; i < bf.hashCount; i++ {
		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
		bf.setBit(index)
""", """func (bf *BloomFilter) Add(item []byte) {
	defer recoverPanic(nil)
	bf.mux.Lock()
	defer bf.mux.Unlock()
	bf.numCount.Add(1)
	for i := 0; i < bf.hashCount; i++ {
		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64) &^ 1
		bf.setBit(index)
		bf.setBit(index + 1)
""")],
 needs="a filter filled to its expected size, queried with many absent items",
 breaks="every item sets twice the bits it needs, which multiplies the false-positive rate",
 demo='''
package cache_test

import (
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	f := cache.NewBloomFilter(5000, 0.001)
	for i := 0; i < 5000; i++ {
		f.Add([]byte("in" + strconv.Itoa(i)))
	}
	n := 0
	for i := 0; i < 50000; i++ {
		if f.Contains([]byte("out" + strconv.Itoa(i))) {
			n++
		}
	}
	if n > 400 {
		t.Fatalf("%d false positives in 50000 at a rate of 0.001", n)
	}
}
''')

seed(id="numlock-trylock-truncation", property="L01", pkg="lock",
 edits=[("lock/lock.go", """func (nl *Numlock) TryLock(key int64) (*sync.Mutex, bool) {
	l, _ := nl.lockm.Get(int64(uint64(key) % uint64(nl.muxNum)))
""", """func (nl *Numlock) TryLock(key int64) (*sync.Mutex, bool) {
	l, _ := nl.lockm.Get(int64(uint32(key) % uint32(nl.muxNum)))
""")],
 needs="a key beyond 32 bits, or a negative one, with a lock count that is no power of two",
 breaks="TryLock guards such a key with a different mutex than Lock",
 demo='''
package lock_test

import (
	"testing"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	l := lock.NewNumLock(7)
	for _, k := range []int64{5, -1, 1 << 33, 1<<62 + 3} {
		l.Lock(k)
		if _, ok := l.TryLock(k); ok {
			t.Fatalf("key %d was locked twice", k)
		}
		l.Unlock(k)
	}
}
''')

seed(id="strlock-trylock-shared", property="L02", pkg="lock",
 edits=[("lock/lock.go", """func (sl *Strlock) TryRLock(key string) (*sync.RWMutex, bool) {
	u := util.Hash64([]byte(key)) // Calculate hash of key
	l, _ := sl.lockm.Get(int64(u % uint64(sl.muxNum)))
	if l.TryRLock() {
		return l, true
""", """func (sl *Strlock) TryRLock(key string) (*sync.RWMutex, bool) {
	u := util.Hash64([]byte(key)) // Calculate hash of key
	l, _ := sl.lockm.Get(int64(u % uint64(sl.muxNum)))
	if l.TryLock() {
		l.Unlock()
		l.RLock()
		return l, true
""")],
 needs="a second reader trying while a first one holds the key, or a writer arriving between the two steps",
 breaks="TryRLock fails while another reader holds the key and can block behind a writer",
 demo='''
package lock_test

import (
	"testing"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	l := lock.NewStrlock(4)
	l.RLock("k")
	if _, ok := l.TryRLock("k"); !ok {
		t.Fatal("a second reader was refused")
	}
	l.RUnlock("k")
	l.RUnlock("k")
}
''')

seed(id="strlock-long-key-prefix", property="L02", pkg="lock",
 edits=[("lock/lock.go", """func (sl *Strlock) RLock(key string) *sync.RWMutex {
	u := util.Hash64([]byte(key)) // Calculate hash of key
""", """func (sl *Strlock) RLock(key string) *sync.RWMutex {
	u := util.Hash64([]byte(key[:min(len(key), 64)])) // a prefix is enough to spread keys
""")],
 needs="a key longer than 64 bytes",
 breaks="RLock of a long key takes a different lock than Lock of the same key",
 demo='''
package lock_test

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	l := lock.NewStrlock(64)
	for i := 0; i < 8; i++ {
		k := strings.Repeat("k", 70) + fmt.Sprint(i)
		l.Lock(k)
		got := make(chan struct{})
		go func() {
			l.RLock(k)
			close(got)
		}()
		select {
		case <-got:
			t.Fatal("a reader entered while a writer held the key")
		case <-time.After(50 * time.Millisecond):
		}
		l.Unlock(k)
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			t.Fatal("the reader never got the lock")
		}
		l.RUnlock(k)
	}
}
''')

seed(id="limitlock-count-before", property="L03", pkg="lock",
 edits=[("lock/lock.go", """	select {
	case <-time.After(ll.timeout): // Wait until timeout
		err = errors.New("timeout")
	case ll.ch <- 1: // Acquire lock
		atomic.AddInt64(&ll.count, 1) // Increment lock count
	}
""", """	atomic.AddInt64(&ll.count, 1) // Increment lock count
	select {
	case <-time.After(ll.timeout): // Wait until timeout
		err = errors.New("timeout")
	case ll.ch <- 1: // Acquire lock
	}
""")],
 needs="a Lock that times out",
 breaks="timed-out attempts stay in the counters for ever",
 demo='''
package lock_test

import (
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	l := lock.NewLimitLock(1, 20*time.Millisecond)
	if err := l.Lock(); err != nil {
		t.Fatal(err)
	}
	if err := l.Lock(); err == nil {
		t.Fatal("two holders")
	}
	if l.Cc() != 1 || l.LockCount() != 1 {
		t.Fatalf("Cc %d, LockCount %d with one holder", l.Cc(), l.LockCount())
	}
}
''')

seed(id="limitlock-unlock-order", property="L03", pkg="lock",
 edits=[("lock/lock.go", """	select {
	case <-time.After(ll.timeout): // Wait until timeout
		err = errors.New("timeout")
	case ll.ch <- 1: // Acquire lock
		atomic.AddInt64(&ll.count, 1) // Increment lock count
	}
""", """	select {
	case ll.ch <- 1: // Acquire lock
		atomic.AddInt64(&ll.count, 1) // Increment lock count
		return
	default:
	}
	time.Sleep(ll.timeout) // Wait until timeout
	select {
	case ll.ch <- 1:
		atomic.AddInt64(&ll.count, 1)
	default:
		err = errors.New("timeout")
	}
""")],
 needs="a slot freed during a wait and taken by someone else before the waiter's timeout ends",
 breaks="a waiter looks for a free slot only at the start and the end of its timeout, so a freed slot does not let it in",
 demo='''
package lock_test

import (
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	l := lock.NewLimitLock(1, 3*time.Second)
	l.Lock()
	start := time.Now()
	go func() {
		time.Sleep(30 * time.Millisecond)
		l.Unlock()
	}()
	if err := l.Lock(); err != nil {
		t.Fatal(err)
	}
	if d := time.Since(start); d > 2*time.Second {
		t.Fatalf("the freed slot let the waiter in only after %v", d)
	}
}
''')

seed(id="await-get-unlocked", property="L04", pkg="lock",
 edits=[("lock/await.go", """	at.mux.Lock(idx)
	defer at.mux.Unlock(idx)
	var ok bool
	if ch, ok = at.m.Get(idx); !ok {
		ch = make(chan T, 1) // Create new channel if not found
		at.m.Put(idx, ch)
	}
	return
""", """	var ok bool
	if ch, ok = at.m.Get(idx); !ok {
		ch = make(chan T, 1) // Create new channel if not found
		at.mux.Lock(idx)
		at.m.Put(idx, ch)
		at.mux.Unlock(idx)
	}
	return
""")],
 needs="two Get calls for a new id at the same moment, for example a caller preparing the channel while another waits",
 breaks="two channels are made for one id, and the value goes to only one of them",
 demo='''
package lock_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	a := lock.NewAwait[int](8)
	for i := int64(0); i < 60000; i++ {
		var chs [4]chan int
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range chs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				chs[g] = a.Get(i)
			}()
		}
		close(start)
		wg.Wait()
		for _, c := range chs {
			if c != chs[0] {
				t.Fatalf("id %d has two channels", i)
			}
		}
		a.Close(i)
	}
}
''')

seed(id="fastawait-unbuffered", property="L06", pkg="lock",
 edits=[("lock/fastawait.go", """func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeout time.Duration) (r T, cancel bool, err error) {
	defer recoverpanic(&err)
	ch := make(chan T, 1)
""", """func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeout time.Duration) (r T, cancel bool, err error) {
	defer recoverpanic(&err)
	ch := make(chan T)
""")],
 needs="a put arriving between a cancellation without timeout and the waiter's clean-up",
 breaks="the put blocks for ever on a channel nobody reads",
 demo='''
package lock_test

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fa := lock.NewFastAwait2[int](1 << 20)
		var all sync.WaitGroup
		for g := 0; g < 8; g++ {
			all.Add(1)
			go func() {
				defer all.Done()
				for i := 0; i < 20000; i++ {
					id := int64(g*1000000 + i)
					ctx, cancel := context.WithCancel(context.Background())
					var wg sync.WaitGroup
					ready := make(chan struct{})
					wg.Add(2)
					go func() {
						defer wg.Done()
						close(ready)
						fa.WaitWithCancel(ctx, id, 0)
					}()
					<-ready
					time.Sleep(time.Microsecond)
					go func() {
						defer wg.Done()
						fa.CloseAndPut(id, 1)
					}()
					cancel()
					wg.Wait()
				}
			}()
		}
		all.Wait()
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		t.Fatal("a put racing with a cancellation blocks for ever")
	}
}
''')

seed(id="fastawait-timeout-stays-registered", property="L06", pkg="lock",
 edits=[("lock/fastawait.go", """func (fa *FastAwait[T]) del(syncId int64) {
	fa.bf.Add(util.Int64ToBytes(syncId))
	fa.db.Del(syncId)
}
""", """func (fa *FastAwait[T]) del(syncId int64) {
	if fa.db.Del(syncId) {
		return
	}
	fa.bf.Add(util.Int64ToBytes(syncId))
}
""")],
 needs="a put or close for an id whose wait timed out",
 breaks="ids of timed-out waits are not remembered, so a late put polls for three seconds instead of returning promptly",
 demo='''
package lock_test

import (
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestDemo(t *testing.T) {
	fa := lock.NewFastAwait[int]()
	fa.Wait(7, 10*time.Millisecond)
	start := time.Now()
	fa.CloseAndPut(7, 1)
	if d := time.Since(start); d > time.Second {
		t.Fatalf("a put for a wait that had timed out took %v", d)
	}
}
''')

seed(id="gopool-count-after-queue", property="G01", pkg="pool/gopool",
 edits=[("pool/gopool/gopool.go", """		atomic.AddInt64(&g.tnum, 1)
		if g.mux.TryLock() {
			go g.funcn()
		}
		g.funcnPool <- f
""", """		defer atomic.AddInt64(&g.tnum, 1)
		if g.mux.TryLock() {
			go g.funcn()
		}
		g.funcnPool <- f
""")],
 needs="the dispatcher finding the queue empty and stopping before the function is counted",
 breaks="the function stays queued until a later call to Go",
 demo='''
package gopool_test

import (
	"testing"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		p := gopool.NewPool(1, 2)
		done := make(chan struct{})
		p.Go(func() { close(done) })
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatalf("round %d: the only function was not executed", i)
		}
	}
}
''')

seed(id="gopool-zero-minlimit", property="G01", pkg="pool/gopool",
 edits=[("pool/gopool/gopool.go", """	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
""", """	if f.id <= max(g.minlimit, 1) && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
""")],
 needs="a lower limit of zero and an upper limit of one, and a second function",
 breaks="the first worker waits for ever on an idle queue without room, holding the only slot",
 demo='''
package gopool_test

import (
	"testing"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
)

func TestDemo(t *testing.T) {
	p := gopool.NewPool(0, 1)
	for i := 0; i < 3; i++ {
		done := make(chan struct{})
		p.Go(func() { close(done) })
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatalf("function %d was not executed", i)
		}
		time.Sleep(20 * time.Millisecond)
	}
}
''')

seed(id="pool-put-keeps-pointer", property="G03", pkg="pool/buffer",
 edits=[("pool/buffer/pool.go", """	if *t != nil {
		p.pool.Put(*t)
		*t = nil
		return true
	}
	return false
""", """	o := *t
	if o != nil {
		p.pool.Put(o)
		o = nil
		return true
	}
	return false
""")],
 needs="putting back twice through the same pointer, or using it after the first put",
 breaks="the pointer is not cleared, so one object can be handed to two holders",
 demo='''
package buffer_test

import (
	"testing"

	"github.com/donnie4w/gofer/pool/buffer"
)

func TestDemo(t *testing.T) {
	p := buffer.NewPool(func() *[]int { return new([]int) }, func(*[]int) {})
	x := p.Get()
	p.Put(&x)
	if x != nil || p.Put(&x) {
		t.Fatal("the pointer still refers to the object that was put back")
	}
}
''')

seed(id="pool-reset-on-put", property="G03", pkg="pool/buffer",
 edits=[("pool/buffer/pool.go", """	if a := p.pool.Get(); a != nil {
		_r = a.(*T)
	}
	if p.reset != nil && _r != nil {
		p.reset(_r)
	}
	return
""", """	if a := p.pool.Get(); a != nil {
		_r = a.(*T)
	}
	return
"""), ("pool/buffer/pool.go", """	if *t != nil {
		p.pool.Put(*t)
		*t = nil
		return true
""", """	if *t != nil {
		p.pool.Put(*t)
		if p.reset != nil {
			p.reset(*t)
		}
		*t = nil
		return true
""")],
 needs="another goroutine taking the object between its return and its reset",
 breaks="an object is reset after it was put back, while the next holder already writes to it",
 flags="-race",
 demo='''
package buffer_test

import (
	"runtime"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/pool/buffer"
)

type obj struct{ data []int }

func TestDemo(t *testing.T) {
	p := buffer.NewPool(func() *obj { return new(obj) }, func(o *obj) { runtime.Gosched(); o.data = o.data[:0] })
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				o := p.Get()
				if len(o.data) != 0 {
					t.Error("object arrives with content")
					return
				}
				o.data = append(o.data, g, i)
				if len(o.data) != 2 || o.data[0] != g {
					t.Error("content altered while held")
					return
				}
				p.Put(&o)
			}
		}()
	}
	wg.Wait()
}
''')
SEEDS = [s for s in SEEDS if s]
