package main

import (
	"fmt"

	"github.com/donnie4w/gofer/hashmap"

	"verifharness/vh"
)

// bounded is what a large bounded map is asked for. A nil field is an operation the map doesn't have.
type bounded struct {
	put     func(k, v int) (prev int, had, told bool)
	get     func(k int) (int, bool)
	del     func(k int)
	touch   func(k int)
	length  func() int
	newest  func() (int, bool)
	oldest  func() (int, bool)
	forward func(limit int) []pair // newest first
	moves   bool                   // a put of a present key makes it the newest
}

// chain is the reference: entries linked from oldest (next of 0) to newest (prev of 0); keys start at 1.
type chain struct {
	next, prev, val []int
	in              []bool
	n               int
}

func newChain(space int) *chain {
	return &chain{next: make([]int, space+1), prev: make([]int, space+1), val: make([]int, space+1), in: make([]bool, space+1)}
}

func (h *chain) drop(k int) {
	if h.in[k] {
		h.next[h.prev[k]], h.prev[h.next[k]] = h.next[k], h.prev[k]
		h.in[k] = false
		h.n--
	}
}

func (h *chain) push(k, v int) {
	l := h.prev[0]
	h.next[l], h.prev[k], h.next[k], h.prev[0] = k, l, 0, k
	h.val[k], h.in[k] = v, true
	h.n++
}

// large runs maps with many thousands of entries in lock-step with the chain.
func large(r *vh.Run, mk func(capacity int) bounded) {
	sizes := []int{1000, 1024, 4097, 10000, 16385, 40000, 65537, 100000, 132000}
	r.Cases("large-capacity", r.N(len(sizes), 60), 1, func(c *vh.Case) {
		capacity := sizes[c.I%len(sizes)]
		if c.I >= len(sizes) {
			capacity = 500 + c.R.IntN(300000)
		}
		space := capacity + capacity/4 + 10
		m, ref := mk(capacity), newChain(space+capacity)
		evict := 0
		look := func(k int) {
			v, ok := m.get(k)
			c.Check(ok == ref.in[k] && (!ok || v == ref.val[k]), "content", "capacity %d, %d entries: Get(%d) = %d,%v want %d,%v", capacity, ref.n, k, v, ok, ref.val[k], ref.in[k])
		}
		put := func(k, v int) {
			p, had, told := m.put(k, v)
			if told {
				want := 0
				if ref.in[k] {
					want = ref.val[k]
				}
				c.Check(had == ref.in[k] && p == want, "put-prev", "capacity %d, %d entries: Put(%d) = %d,%v want %d,%v", capacity, ref.n, k, p, had, want, ref.in[k])
			}
			if ref.in[k] {
				ref.val[k] = v
				if m.moves {
					ref.drop(k)
					ref.push(k, v)
				}
				return
			}
			if ref.n == capacity {
				o := ref.next[0]
				ref.drop(o)
				evict++
				defer func() { // it is gone, the next oldest is not
					look(o)
					look(ref.next[0])
				}()
			}
			ref.push(k, v)
		}
		all := func(what string) {
			for k := 1; k <= space && !c.Failed(); k++ {
				look(k)
			}
			c.Check(m.length() == ref.n && ref.n <= capacity, "len", "capacity %d %s: Len %d want %d", capacity, what, m.length(), ref.n)
			if m.forward == nil || c.Failed() {
				return
			}
			k := 0
			for i, p := range m.forward(ref.n + 5) {
				k = ref.prev[k]
				c.Check(k != 0 && p.K == k && p.V == ref.val[k], "iteration", "capacity %d %s: entry %d from the newest is %d=%d, want %d=%d", capacity, what, i, p.K, p.V, k, ref.val[k])
			}
			c.Check(ref.prev[k] == 0, "iteration", "capacity %d %s: the walk left entries out", capacity, what)
		}
		for k := 1; k <= capacity; k++ { // exactly full
			put(k, k)
		}
		all("filled")
		for i := 0; i < capacity/2 && !c.Failed(); i++ {
			k := 1 + c.R.IntN(space)
			switch x := c.R.IntN(12); {
			case x < 6:
				put(k, -i)
			case x < 8:
				look(k)
			case x < 9:
				m.del(k)
				ref.drop(k)
			case x < 10:
				k = []int{ref.next[0], ref.prev[0], ref.next[ref.next[0]], ref.prev[ref.prev[0]]}[c.R.IntN(4)]
				if k > 0 { // one at or next to an end
					put(k, i)
				}
			default:
				if m.touch != nil {
					m.touch(k)
					if ref.in[k] {
						v := ref.val[k]
						ref.drop(k)
						ref.push(k, v)
					}
				}
			}
			if ref.n > 0 && m.oldest != nil {
				o, ok := m.oldest()
				w, ok2 := m.newest()
				c.Check(ok && ok2 && o == ref.next[0] && w == ref.prev[0], "ends", "capacity %d, %d entries: oldest %d (%v) newest %d (%v) want %d, %d", capacity, ref.n, o, ok, w, ok2, ref.next[0], ref.prev[0])
			}
			c.Check(m.length() == ref.n, "len", "capacity %d: Len %d want %d", capacity, m.length(), ref.n)
		}
		all("mixed")
		for k := space + 1; k <= space+capacity && !c.Failed(); k++ { // all are evicted, one after the other
			put(k, k)
		}
		all("overfilled")
		c.Eval(1)
		c.Observe("large_evictions", evict)
		c.Max("largest_capacity", capacity)
		c.Distinct(vh.Hash(c.Name(), capacity, evict))
		if c.I < 2 {
			c.Sample(fmt.Sprintf("capacity %d: %d evictions, %d entries at the end", capacity, evict, ref.n))
		}
	})
}

func largeLimit(r *vh.Run) {
	large(r, func(n int) bounded {
		m := hashmap.NewLimitMap[int, int](n)
		return bounded{
			put:    func(k, v int) (int, bool, bool) { p, b := m.Put(k, v); return p, b, true },
			get:    m.Get,
			del:    m.Del,
			length: m.Len,
			moves:  true,
		}
	})
}

func largeLHM(r *vh.Run) {
	large(r, func(n int) bounded {
		m := hashmap.NewLimitHashMapWithSegment[int, int](n, 1)
		return bounded{
			put:    func(k, v int) (int, bool, bool) { p, b := m.Put(k, v); return p, b, true },
			get:    m.Get,
			del:    m.Del,
			length: m.Len,
		}
	})
}

func largeLinked(r *vh.Run) {
	large(r, func(n int) bounded {
		m := hashmap.NewLinkedHashMap[int, int](int64(n))
		return bounded{
			put:     func(k, v int) (int, bool, bool) { m.Put(k, v); return 0, false, false },
			get:     m.Get,
			del:     m.Delete,
			touch:   m.MoveToFront,
			length:  func() int { return int(m.Len()) },
			newest:  func() (int, bool) { k, _, b := m.Front(); return k, b },
			oldest:  func() (int, bool) { k, _, b := m.Back(); return k, b },
			forward: func(limit int) []pair { return drain(m.Iterator(true), limit) },
			moves:   true,
		}
	})
}
