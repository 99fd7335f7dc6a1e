SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="mapl-put-load-store", property="M02", pkg="hashmap",
 edits=[("hashmap/map.go", """	if v, ok := t.m.Swap(key, value); !ok {
		atomic.AddInt64(&t.len, 1)
""", """	v, ok := t.m.Load(key)
	t.m.Store(key, value)
	if !ok {
		atomic.AddInt64(&t.len, 1)
""")],
 needs="two goroutines putting the same absent key between each other's lookup and store",
 breaks="MapL.Put counts an insertion twice, so the length drifts from the number of entries",
 demo='''
package hashmap_test

import (
	"runtime"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 60000; round++ {
		m := hashmap.NewMapL[int, int]()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 4; k++ {
					m.Put(k, g)
				}
			}()
		}
		runtime.Gosched()
		close(start)
		wg.Wait()
		n := int64(0)
		m.Range(func(int, int) bool { n++; return true })
		if m.Len() != n {
			t.Fatalf("round %d: Len %d, entries %d", round, m.Len(), n)
		}
	}
}
''')

seed(id="map-del-load-delete", property="M01", pkg="hashmap",
 edits=[("hashmap/map.go", """func (t *Map[K, V]) Del(key K) (ok bool) {
	_, ok = t.m.LoadAndDelete(key)
	return
""", """func (t *Map[K, V]) Del(key K) (ok bool) {
	if _, ok = t.m.Load(key); ok {
		t.m.Delete(key)
	}
	return
""")],
 needs="two goroutines deleting the same present key at the same moment",
 breaks="Map.Del reports true to more than one caller for one entry",
 demo='''
package hashmap_test

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 3000; round++ {
		m := hashmap.NewMap[int, int]()
		const keys = 64
		for k := 0; k < keys; k++ {
			m.Put(k, k)
		}
		var wg sync.WaitGroup
		var n atomic.Int64
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < keys; k++ {
					if m.Del(k) {
						n.Add(1)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if n.Load() != keys {
			t.Fatalf("round %d: %d successful deletions of %d entries", round, n.Load(), keys)
		}
	}
}
''')

seed(id="treemap-get-fastpath", property="M03", pkg="hashmap",
 edits=[("hashmap/treemap.go", """	m.mutex.RLock()
	defer m.mutex.RUnlock()
	item := m.tree.Get(treeItem[K, V]{Key: key})
	if item != nil {
""", """	var item btree.Item
	if m.tree.Len() > 0 { // nothing to lock for in an empty map
		m.mutex.RLock()
		defer m.mutex.RUnlock()
		item = m.tree.Get(treeItem[K, V]{Key: key})
	}
	if item != nil {
""")],
 needs="a Get racing with a Put that updates the tree's length, or between the two halves of a replacement",
 breaks="TreeMap.Get reads the tree without its lock",
 flags="-race",
 demo='''
package hashmap_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewTreeMap[int, int](2)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				k := (i*7 + g) % 100
				switch g {
				case 0:
					m.Put(k, i)
				case 1:
					m.Del(k)
				default:
					m.Get(k)
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="treemap-ascend-snapshot", property="M03", pkg="hashmap",
 edits=[("hashmap/treemap.go", """	m.mutex.RLock()
	defer m.mutex.RUnlock()
	m.tree.Descend(func(item btree.Item) bool {
		i := item.(treeItem[K, V])
		return iter(i.Key, i.Value)
	})
""", """	m.mutex.RLock()
	max := m.tree.Max()
	m.mutex.RUnlock()
	for max != nil {
		i := max.(treeItem[K, V])
		if !iter(i.Key, i.Value) {
			return
		}
		m.mutex.RLock()
		max = nil
		m.tree.DescendLessOrEqual(i, func(item btree.Item) bool {
			if item.Less(i) {
				max = item
				return false
			}
			return true
		})
		m.mutex.RUnlock()
	}
""")],
 needs="entries moved between keys while a Descend is under way",
 breaks="Descend releases the lock between entries and visits a set that existed at no instant",
 demo='''
package hashmap_test

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

// One writer keeps the entries in step: it first raises key 1, then key 0, so at
// every instant the value of key 1 is that of key 0 or one more.
func TestDemo(t *testing.T) {
	m := hashmap.NewTreeMap[int, int](2)
	m.Put(0, 0)
	for k := 10; k < 40; k++ {
		m.Put(k, -1)
	}
	m.Put(100, 0)
	var stop atomic.Bool
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 1; !stop.Load(); i++ {
			m.Put(100, i)
			m.Put(0, i)
		}
	}()
	defer wg.Wait()
	defer stop.Store(true)
	for n := 0; n < 20000; n++ {
		a, b := -5, -5
		m.Descend(func(k, v int) bool {
			if k == 100 {
				b = v
			}
			if k == 0 {
				a = v
			}
			return true
		})
		if b != a && b != a+1 {
			t.Fatalf("one Descend saw key 100 at %d and key 0 at %d", b, a)
		}
	}
}
''')

seed(id="limitmap-get-touch", property="M04", pkg="hashmap",
 edits=[("hashmap/limitmap.go", """	mc.lock.RLock()
	defer mc.lock.RUnlock()
	if elem, found := mc.cache[any(key)]; found {
		return elem""", """	mc.lock.Lock()
	defer mc.lock.Unlock()
	if elem, found := mc.cache[any(key)]; found {
		mc.order.MoveToFront(elem)
		return elem""")],
 needs="a read of the oldest entry of a full map before the next insertion",
 breaks="Get refreshes the entry, so an insertion evicts a key that was put later",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLimitMap[string, int](3)
	m.Put("a", 1)
	m.Put("b", 2)
	m.Put("c", 3)
	m.Get("a")
	m.Put("d", 4)
	if _, ok := m.Get("a"); ok {
		t.Fatal("a, the least recently put key, survived")
	}
	if _, ok := m.Get("b"); !ok {
		t.Fatal("b was evicted although a was put earlier")
	}
}
''')

seed(id="limitmap-removemulti-order", property="M04", pkg="hashmap",
 edits=[("hashmap/limitmap.go", """	for _, key := range keys {
		if elem, exists := mc.cache[any(key)]; exists {
			mc.order.Remove(elem)
			delete(mc.cache, any(key))
		}
	}
""", """	for _, key := range keys {
		if _, exists := mc.cache[any(key)]; exists {
			delete(mc.cache, any(key))
		}
	}
""")],
 needs="RemoveMulti of old keys followed by enough insertions for an eviction",
 breaks="stale recency entries make an eviction remove nothing or a re-added key, so the map exceeds its capacity",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLimitMap[int, int](3)
	for i := 0; i < 3; i++ {
		m.Put(i, i)
	}
	m.RemoveMulti([]int{0, 1})
	for i := 10; i < 20; i++ {
		m.Put(i, i)
		if m.Len() > 3 {
			t.Fatalf("%d entries in a map of capacity 3", m.Len())
		}
	}
}
''')

seed(id="limithashmap-int32-hash", property="M05", pkg="hashmap",
 edits=[("hashmap/limithashmap.go", """			return uint64(any(key).(int32))
""", """			return uint64(uint16(any(key).(int32)))
""")],
 needs="two int32 keys that agree in their low 16 bits",
 breaks="keys 1 and 65537 share one entry",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLimitHashMap[int32, string](1 << 12)
	keys := []int32{0, 1, -1, 1 << 8, 1 << 16, 1<<16 + 1, 1 << 24, 1<<31 - 1, -1 << 31}
	for i, k := range keys {
		m.Put(k, string(rune('a'+i)))
	}
	for i, k := range keys {
		if v, ok := m.Get(k); !ok || v != string(rune('a'+i)) {
			t.Fatalf("key %d: %q %v", k, v, ok)
		}
	}
}
''')

seed(id="limithashmap-len-stale", property="M05", pkg="hashmap",
 edits=[("hashmap/limithashmap.go", """	if segment.order.Len() >= c.capacity {
		oldest := segment.order.Back()
		if oldest != nil {
			segment.order.Remove(oldest)
			delete(segment.cache""", """	if segment.order.Len() >= c.capacity {
		oldest := segment.order.Front()
		if oldest != nil {
			segment.order.Remove(oldest)
			delete(segment.cache""")],
 needs="an insertion into a full segment holding more than one entry",
 breaks="the youngest instead of the oldest entry is evicted",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLimitHashMapWithSegment[int, int](3, 1)
	for i := 0; i < 4; i++ {
		m.Put(i, i)
	}
	if m.Contains(0) || !m.Contains(2) {
		t.Fatal("the entry inserted earliest was not the one evicted")
	}
}
''')

seed(id="linkedhashmap-delete-unlocked-load", property="M07", pkg="hashmap",
 edits=[("hashmap/linkedhashmap.go", """	t.mu.Lock()
	defer t.mu.Unlock()
	if elem, ok := t.m.Load(k); ok {
		t.list.Remove(elem.(*list.Element))
		t.m.Delete(k)
		t.count--
	}
""", """	if elem, ok := t.m.Load(k); ok {
		t.mu.Lock()
		defer t.mu.Unlock()
		t.list.Remove(elem.(*list.Element))
		t.m.Delete(k)
		t.count--
	}
""")],
 needs="two goroutines deleting the same key, or a delete crossing a Put of its key",
 breaks="the count is decremented twice for one entry, or an entry stays in the list without an index",
 demo='''
package hashmap_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 3000; round++ {
		m := hashmap.NewLinkedHashMap[int, int](1000)
		const keys = 64
		for k := 0; k < keys; k++ {
			m.Put(k, k)
		}
		m.Put(keys, 0)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < keys; k++ {
					m.Delete(k)
				}
			}()
		}
		close(start)
		wg.Wait()
		if m.Len() != 1 {
			t.Fatalf("round %d: Len is %d with one entry left", round, m.Len())
		}
	}
}
''')

seed(id="linkedhashmap-iterator-unlocked", property="M07", pkg="hashmap",
 edits=[("hashmap/linkedhashmap.go", """	it.mapRef.mu.Lock()
	defer it.mapRef.mu.Unlock()

	if it.current != nil {""", """	if it.current != nil {""")],
 needs="iteration while another goroutine changes the map",
 breaks="the iterator walks the list without the map's lock",
 flags="-race",
 demo='''
package hashmap_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLinkedHashMap[int, int](50)
	for k := 0; k < 50; k++ {
		m.Put(k, k)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 5000; i++ {
			m.Put(i%80, i)
		}
	}()
	for i := 0; i < 200; i++ {
		for it, n := m.Iterator(i%2 == 0), 0; n < 100; n++ {
			if _, _, ok := it.Next(); !ok {
				break
			}
		}
	}
	wg.Wait()
}
''')

seed(id="linkedhashmap-movetofront-tail", property="M06", pkg="hashmap",
 edits=[("hashmap/linkedhashmap.go", """	if elem, ok := t.m.Load(k); ok {
		t.list.MoveToFront(elem.(*list.Element))
	}
""", """	if elem, ok := t.m.Load(k); ok {
		if e := elem.(*list.Element); e.Prev() != nil {
			t.list.MoveBefore(e, e.Prev())
		}
	}
""")],
 needs="moving an entry that is at least third from the front",
 breaks="MoveToFront advances an entry by one place instead of making it the newest",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLinkedHashMap[int, int](3)
	m.Put(1, 1)
	m.Put(2, 2)
	m.Put(3, 3)
	m.MoveToFront(1)
	if k, _, _ := m.Front(); k != 1 {
		t.Fatalf("newest is %d after moving 1 to the front", k)
	}
}
''')

seed(id="consistenthash-del-unsorted", property="M08", pkg="hashmap",
 edits=[("hashmap/consistenthash.go", """			return true
		})
		sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
		delete(t._m, key)
""", """			return true
		})
		if len(t.keys) < 2 {
			sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
		}
		delete(t._m, key)
""")],
 needs="deleting a node from a ring that keeps at least two points",
 breaks="lookups search an unsorted ring after a deletion",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	a, b := hashmap.NewConsistenthash(20), hashmap.NewConsistenthash(20)
	a.Add(1, 2, 3, 4, 5)
	a.Del(3)
	b.Add(1, 2, 4, 5)
	for v := int64(0); v < 2000; v++ {
		x, _ := a.Get(v)
		y, _ := b.Get(v)
		if x != y {
			t.Fatalf("key %d is on node %d or %d depending on the history of the same membership", v, x, y)
		}
	}
}
''')

seed(id="consistenthash-getstr-bound", property="M08", pkg="hashmap",
 edits=[("hashmap/consistenthash.go", """func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
	t.mux.RLock()
	defer t.mux.RUnlock()
	if len(t.keys) == 0 {
		return
	}
	keyu64 := hash([]byte(value))
	idx := sort.Search(len(t.keys), func(i int) bool { return t.keys[i] >= keyu64 })
	if idx >= len(t.keys) {
		idx = 0
	}
""", """func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
	t.mux.RLock()
	defer t.mux.RUnlock()
	if len(t.keys) == 0 {
		return
	}
	keyu64 := hash([]byte(value))
	idx := sort.Search(len(t.keys), func(i int) bool { return t.keys[i] >= keyu64 })
	if idx >= len(t.keys) {
		idx = len(t.keys) / 2
	}
""")],
 needs="a key whose hash lies beyond the last point of the ring",
 breaks="keys past the last point go to the middle of the ring, so adding an unrelated node moves them between other nodes and next nodes repeat the key's own",
 demo='''
package hashmap_test

import (
	"fmt"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	for r := 1; r < 6; r++ {
		for n := int64(2); n < 12; n++ {
			a, b := hashmap.NewConsistenthash(r), hashmap.NewConsistenthash(r)
			for i := int64(1); i <= n; i++ {
				a.Add(i)
				b.Add(i)
			}
			b.Add(1000)
			for k := 0; k < 500; k++ {
				s := fmt.Sprint("key-", k)
				x, _ := a.GetStr(s)
				y, _ := b.GetStr(s)
				if x != y && y != 1000 {
					t.Fatalf("adding node 1000 moved %q from %d to %d", s, x, y)
				}
			}
		}
	}
}
''')

seed(id="consistenthash-nodes-unlocked", property="M09", pkg="hashmap",
 edits=[("hashmap/consistenthash.go", """	t.mux.Lock()
	defer t.mux.Unlock()
	_r = make([]int64, 0)
	for k := range t._m {""", """	_r = make([]int64, 0, len(t._m))
	for k := range t._m {""")],
 needs="listing the nodes while the membership changes",
 breaks="Nodes reads the membership without the lock",
 flags="-race",
 demo='''
package hashmap_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	c := hashmap.NewConsistenthash(3)
	c.Add(1)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			c.Add(2, 3)
			c.Del(2)
			c.Del(3)
		}
	}()
	for i := 0; i < 2000; i++ {
		c.Nodes()
	}
	wg.Wait()
}
''')

seed(id="consistenthash-add-two-steps", property="M09", pkg="hashmap",
 edits=[("hashmap/consistenthash.go", """				t.m.Put(h, key)
			}
		}
	}
	sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
}
""", """				t.m.Put(h, key)
			}
		}
	}
	t.mux.Unlock()
	t.sort()
	t.mux.Lock()
}

func (t *Consistenthash) sort() {
	t.mux.Lock()
	defer t.mux.Unlock()
	keys := t.keys
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
}
""")],
 needs="a lookup between the insertion of a node's points and the sort of the ring",
 breaks="lookups during Add see an unsorted ring and return a node the key is on in neither membership",
 demo='''
package hashmap_test

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	before, after := hashmap.NewConsistenthash(50), hashmap.NewConsistenthash(50)
	before.Add(1, 2, 3, 4)
	after.Add(1, 2, 3, 4, 5)
	c := hashmap.NewConsistenthash(50)
	c.Add(1, 2, 3, 4)
	var stop atomic.Bool
	var bad atomic.Int64
	bad.Store(-1)
	var wg sync.WaitGroup
	for g := 0; g < 7; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := int64(0); !stop.Load(); v = (v + 1) % 1000 {
				n, _ := c.Get(v)
				x, _ := before.Get(v)
				y, _ := after.Get(v)
				if n != x && n != y {
					bad.Store(v)
				}
			}
		}()
	}
	for i := 0; i < 20000 && bad.Load() < 0; i++ {
		c.Add(5)
		c.Del(5)
	}
	stop.Store(true)
	wg.Wait()
	if bad.Load() >= 0 {
		t.Fatalf("key %d was routed to a node it is on neither with nor without node 5", bad.Load())
	}
}
''')
