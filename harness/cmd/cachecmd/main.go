// cachecmd monitors the cache package.
package main

import (
	"bytes"
	"container/list"
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"strings"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/donnie4w/gofer/cache"
	"verifharness/vh"
)

func main() {
	vh.Main(map[string]func(*vh.Run){"C01": c01, "C02": c02, "C03": c03})
}

type pair struct{ K, V int }
type lruIn struct {
	Op   string
	Keys string // space separated for del
	Key  int
	Val  int
}
type lruOut struct {
	V  int
	Ok bool
}

func enc(ps []pair) string {
	var b strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&b, "%d=%d ", p.K, p.V)
	}
	return b.String()
}

func dec(s string) (ps []pair) {
	for _, f := range strings.Fields(s) {
		var p pair
		fmt.Sscanf(f, "%d=%d", &p.K, &p.V)
		ps = append(ps, p)
	}
	return
}

// lru is the reference: newest first.
type lru struct {
	ps    []pair
	limit int
	evict int
}

func (l *lru) at(k int) int { return slices.IndexFunc(l.ps, func(p pair) bool { return p.K == k }) }
func (l *lru) add(k, v int) {
	l.del(k)
	l.ps = append([]pair{{k, v}}, l.ps...)
	if len(l.ps) > l.limit {
		l.ps = l.ps[:l.limit]
		l.evict++
	}
}
func (l *lru) get(k int) (int, bool) {
	a := l.at(k)
	if a < 0 {
		return 0, false
	}
	p := l.ps[a]
	l.ps = append([]pair{p}, slices.Delete(l.ps, a, a+1)...)
	return p.V, true
}
func (l *lru) del(k int) {
	if a := l.at(k); a >= 0 {
		l.ps = slices.Delete(l.ps, a, a+1)
	}
}

func model(limit int) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return "" },
		Step: func(st, in, out any) (bool, any) {
			l := &lru{ps: dec(st.(string)), limit: limit}
			i, o := in.(lruIn), out.(lruOut)
			ok := true
			switch i.Op {
			case "add":
				l.add(i.Key, i.Val)
			case "get":
				v, b := l.get(i.Key)
				ok = o == lruOut{v, b}
			case "del":
				for _, f := range strings.Fields(i.Keys) {
					var k int
					fmt.Sscan(f, &k)
					l.del(k)
				}
			}
			return ok, enc(l.ps)
		},
	}
}

func sk(k int) string { return fmt.Sprintf("k%d", k) }

func c01(r *vh.Run) {
	r.Rule("concurrent cases: recorded Add/Get/Remove/RemoveMulti histories on an LruCache of limit 1-3 over 5 keys checked against an atomic LRU; sequential cases: random sequences in lock-step with the reference LRU for limits 1-100; non-trivial when operations overlapped, respectively when evictions happened")
	r.Cases("hist", r.N(8000, 150000), 4, func(c *vh.Case) {
		limit := 1 + c.R.IntN(3)
		m := cache.NewLruCache[int](limit)
		clients, per := 2+c.R.IntN(4), 3+c.R.IntN(5)
		rec := vh.NewRec(clients)
		seeds := make([]uint64, clients)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(clients, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				in := lruIn{Key: rr.IntN(5)}
				switch x := rr.IntN(10); {
				case x < 4:
					in.Op, in.Val = "add", 1+g*1000+i
					rec.Do(g, in, func() any { m.Add(sk(in.Key), in.Val); return lruOut{} })
				case x < 8:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.Get(sk(in.Key)); return lruOut{v, b} })
				case x < 9:
					in.Op, in.Keys = "del", fmt.Sprint(in.Key)
					rec.Do(g, in, func() any { m.Remove(sk(in.Key)); return lruOut{} })
				default:
					a, b := rr.IntN(5), rr.IntN(5)
					in.Op, in.Keys = "del", fmt.Sprint(a, " ", b)
					rec.Do(g, in, func() any { m.RemoveMulti([]string{sk(a), sk(b)}); return lruOut{} })
				}
			}
		})
		ops := rec.Ops()
		c.Linear(model(limit), ops, "lru-not-linearizable")
		if c.I < 2 {
			c.Sample(fmt.Sprintf("limit %d\n", limit) + vh.Describe(ops))
		}
	})
	r.SeqCases("seq", r.N(4000, 80000), 0, func(c *vh.Case) {
		limit := []int{1, 2, 3, 5, 8, 30, 100}[c.R.IntN(7)]
		space := 1 + limit + c.R.IntN(limit+3)
		m := cache.NewLruCache[any](limit)
		l := &lru{limit: limit}
		// keys of several types; RemoveMulti takes strings
		mk := func(k int) any {
			if k%5 == 4 {
				return k
			}
			return sk(k)
		}
		hits := 0
		few := c.R.IntN(3) == 0 // values that repeat
		for i := 0; i < 60+4*limit && !c.Failed(); i++ {
			k := c.R.IntN(space)
			switch x := c.R.IntN(20); {
			case x < 9:
				nv := i + 1
				if few {
					nv = c.R.IntN(2)
				}
				m.Add(mk(k), nv)
				l.add(k, nv)
			case x < 16:
				v, b := m.Get(mk(k))
				w, ok := l.get(k)
				if ok {
					hits++
					c.Check(b && v == w, "get", "limit %d step %d: Get(%v) = %v,%v want %d,true", limit, i, mk(k), v, b, w)
				} else {
					c.Check(!b && v == nil, "get", "limit %d step %d: Get(%v) = %v,%v want absent", limit, i, mk(k), v, b)
				}
			case x < 18:
				m.Remove(mk(k))
				l.del(k)
			case x < 19:
				var ks []string
				for j := c.R.IntN([]int{4, 4, 20, 3*limit + 1}[c.R.IntN(4)]); j > 0; j-- {
					q := c.R.IntN(space)
					if c.R.IntN(4) == 0 { // named more than once
						q = c.R.IntN(min(space, 2))
					}
					ks = append(ks, sk(q))
					if q%5 != 4 {
						l.del(q)
					}
				}
				m.RemoveMulti(ks)
			default:
				m.Add(nil, 5) // a nil key is no entry
			}
		}
		// read out everything, least recent first, so that the reads keep the order
		for q := 0; q < space; q++ {
			if l.at(q) < 0 {
				v, b := m.Get(mk(q))
				c.Check(!b, "content", "limit %d: key %d present (%v), reference newest first %s", limit, q, v, enc(l.ps))
			}
		}
		n := 0
		for j := len(l.ps) - 1; j >= 0; j-- {
			v, b := m.Get(mk(l.ps[j].K))
			c.Check(b && v == l.ps[j].V, "content", "limit %d: key %d = %v,%v want %d", limit, l.ps[j].K, v, b, l.ps[j].V)
			n++
		}
		// the order is now unchanged: evict one by one with fresh keys
		for j := len(l.ps) - 1; j >= 0 && !c.Failed(); j-- {
			if len(l.ps) < limit {
				break
			}
			m.Add(fmt.Sprintf("fresh%d", j), j)
			_, b := m.Get(mk(l.ps[j].K))
			c.Check(!b, "eviction-order", "limit %d: least recently used key %d survived", limit, l.ps[j].K)
			if j > 0 && j == len(l.ps)-1 {
				break // the probe of an absent key does not disturb, probing present ones would
			}
		}
		c.Eval(1)
		c.Observe("evictions", l.evict)
		c.Observe("hits", hits)
		if l.evict > 0 {
			c.Distinct(vh.Hash(c.Name(), limit, space, l.evict, hits))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"limit": limit, "key_space": space, "evictions": l.evict, "hits": hits, "final_newest_first": enc(l.ps)})
		}
	})
	r.Cases("large-limit", r.N(8, 60), 1, func(c *vh.Case) { // thousands of entries, in lock-step with a container/list
		limit := []int{1000, 1025, 4097, 10000, 16385, 40000, 65537, 132000}[c.I%8] + c.I/8*c.R.IntN(999)
		space := limit + limit/4 + 10
		m := cache.NewLruCache[int](limit)
		order, at := list.New(), map[int]*list.Element{} // newest in front
		evict := 0
		add := func(k, v int) {
			m.Add(sk(k), v)
			if e := at[k]; e != nil {
				e.Value = [2]int{k, v}
				order.MoveToFront(e)
				return
			}
			at[k] = order.PushFront([2]int{k, v})
			if order.Len() > limit {
				e := order.Back()
				o := e.Value.([2]int)[0]
				delete(at, o)
				order.Remove(e)
				evict++
				if v, ok := m.Get(sk(o)); ok {
					c.Violate("content", "limit %d: the least recently used k%d=%d survived a new key", limit, o, v)
				}
			}
		}
		get := func(k int) {
			v, ok := m.Get(sk(k))
			e := at[k]
			if ok != (e != nil) || ok && v != e.Value.([2]int)[1] {
				c.Violate("content", "limit %d, %d entries: Get(k%d) = %d,%v, present in the reference: %v", limit, order.Len(), k, v, ok, e != nil)
			}
			if e != nil {
				order.MoveToFront(e)
			}
		}
		for k := 0; k < limit; k++ {
			add(k, k)
		}
		for k := 0; k < space && !c.Failed(); k++ { // exactly full, and nothing else
			get(k)
		}
		for i := 0; i < limit && !c.Failed(); i++ {
			k := c.R.IntN(space)
			switch x := c.R.IntN(12); {
			case x < 6:
				add(k, -i)
			case x < 9:
				get(k)
			case x < 11 && order.Len() > 1: // one at or next to an end
				e := []*list.Element{order.Front(), order.Back(), order.Front().Next(), order.Back().Prev()}[c.R.IntN(4)]
				if k = e.Value.([2]int)[0]; c.R.IntN(2) == 0 {
					add(k, -i)
				} else {
					get(k)
				}
			default:
				m.Remove(sk(k))
				if e := at[k]; e != nil {
					order.Remove(e)
					delete(at, k)
				}
			}
		}
		for k := 0; k < space && !c.Failed(); k++ {
			get(k)
		}
		for k := 0; k < limit-1 && !c.Failed(); k++ { // evictions in a row
			add(space+k, k)
		}
		for k := 0; k < space+limit && !c.Failed(); k++ {
			get(k)
		}
		c.Eval(1)
		c.Observe("evictions", evict)
		c.Max("largest_limit", limit)
		c.Distinct(vh.Hash(c.Name(), limit, evict))
	})
	r.Cases("batch", r.N(300, 6000), 4, func(c *vh.Case) {
		n := 2 + c.R.IntN(400)
		m := cache.NewLruCache[int](n)
		c.Batch(n, func(k int) { m.Add(sk(k), k) }, func(k int) bool { _, b := m.Get(sk(k)); return b }, func(ks []int) {
			names := make([]string, len(ks))
			for i, k := range ks {
				names[i] = sk(k)
			}
			m.RemoveMulti(names)
		})
	})
	r.SeqCases("mixed-keys", r.N(300, 6000), 4, func(c *vh.Case) {
		limit := []int{len(vh.MixedKeys()), 1 << 40}[c.I%2]
		m := cache.NewLruCache[any](limit)
		c.Lockstep("LruCache[any]", vh.GMap{
			Put: func(k, v any) (any, bool) { m.Add(k, v); return nil, false },
			Get: func(k any) (any, bool) { return m.Get(k) },
			Del: func(k any) { m.Remove(k) }}, vh.MixedKeys(), vh.OddValue, 300)
		ms := cache.NewLruCache[[]int](limit)
		c.Lockstep("LruCache[[]int]", vh.GMap{
			Put: func(k, v any) (any, bool) { ms.Add(k, v.([]int)); return nil, false },
			Get: func(k any) (any, bool) {
				v, ok := ms.Get(k)
				if !ok {
					return nil, false
				}
				return v, ok
			},
			Del: func(k any) { ms.Remove(k) }}, vh.MixedKeys(), func(n int) any {
			if n%5 == 0 {
				return []int(nil)
			}
			return make([]int, n%4)
		}, 300)
		// RemoveMulti takes names: only string keys are named
		m.RemoveMulti([]string{"1", "true", "", "false", "0"})
		for _, k := range vh.MixedKeys() {
			if s, ok := k.(string); ok && (s == "1" || s == "true" || s == "") {
				_, b := m.Get(k)
				c.Check(!b, "remove-multi", "key %q present after RemoveMulti", s)
			}
		}
	})
	r.Case("nil-values", 0, func(c *vh.Case) {
		c.Eval(1)
		m := cache.NewLruCache[error](2)
		m.Add("a", nil)
		v, b := m.Get("a")
		c.Check(v == nil && b, "nil-value", "Get of stored nil = %v,%v", v, b)
	})
}

func item(i uint64, n int) []byte {
	b := make([]byte, 8, 8+n)
	binary.LittleEndian.PutUint64(b, i*0x9E3779B97F4A7C15+0x1234567)
	for len(b) < 8+n {
		b = append(b, byte(i))
	}
	return b
}

func c02(r *vh.Run) {
	r.Rule("sequential cases: a stream of distinct items through one filter over at least two full rotations, every item probed throughout its window of expected-items further additions; concurrent cases: 2-5 adders and 2 readers, each added item probed by adder and readers as long as at most the expected number of additions can have happened since its Add was called; configurations with 1-2000 expected items and rates 0.00001-0.99; non-trivial when items were probed after a rotation")
	rates := []float64{0.99, 0.9, 0.5, 0.2, 0.05, 0.01, 0.001, 0.00001}
	r.SeqCases("seq", r.N(600, 8000), 0, func(c *vh.Case) {
		e := uint64([]int{1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 500, 2000}[c.I%13])
		p := rates[c.R.IntN(len(rates))]
		bf := cache.NewBloomFilter(e, p)
		total := 7*e + 10
		probes := 0
		extra := c.R.IntN(40)
		dup := c.R.IntN(3) == 0
		fixed := append([]byte{}, item(1<<40, 3)...)
		lastFixed := uint64(math.MaxUint64)
		for i := uint64(0); i < total && !c.Failed(); i++ {
			if dup && i%3 == 0 {
				bf.Add(fixed)
				lastFixed = i
			} else {
				bf.Add(item(i, extra))
			}
			// window: items added in the last e additions before this one, and this one
			lo := uint64(0)
			if i > e {
				lo = i - e
			}
			stepw := (i-lo)/40 + 1
			for j := lo; j <= i; j += stepw {
				if dup && j%3 == 0 {
					continue
				}
				probes++
				if !bf.Contains(item(j, extra)) {
					c.Violate("false-negative", "expected items %d rate %v: item %d not contained after %d further additions (%d in total)", e, p, j, i-j, i+1)
					break
				}
			}
			for _, j := range []uint64{lo, lo + 1} {
				if j <= i && !(dup && j%3 == 0) && !bf.Contains(item(j, extra)) {
					c.Violate("false-negative", "expected items %d rate %v: item %d not contained after %d further additions (%d in total)", e, p, j, i-j, i+1)
				}
			}
			if lastFixed != math.MaxUint64 && i-lastFixed <= e && !bf.Contains(fixed) {
				c.Violate("false-negative", "expected items %d rate %v: repeatedly added item not contained %d additions after its last", e, p, i-lastFixed)
			}
		}
		c.Eval(1)
		c.Observe("window_probes", probes)
		c.Distinct(vh.Hash(c.Name(), e, p, dup, extra))
		if c.I < 2 {
			c.Sample(map[string]any{"expected_items": e, "rate": p, "additions": total, "probes": probes, "item_bytes": 8 + extra})
		}
	})
	// large filters, probed where their segments change
	r.Cases("large", r.N(12, 200), 1, func(c *vh.Case) {
		e := uint64([]int{10000, 16385, 20000, 32768, 65536, 70001, 131073, 1 << 20}[c.I%8]) + uint64(c.R.IntN(3))*uint64(c.I/8)
		p := []float64{0.01, 0.001, 0.0001}[c.R.IntN(3)]
		total := 4*e + 10
		if e > 1<<17 {
			total, p = 2*e+10, 0.01
		}
		bf := cache.NewBloomFilter(e, p)
		probes := 0
		b := make([]byte, 8)
		it := func(i uint64) []byte { binary.BigEndian.PutUint64(b, i); return b }
		for i := uint64(0); i < total && !c.Failed(); i++ {
			bf.Add(it(i))
			lo := uint64(0)
			if i > e {
				lo = i - e
			}
			probe := func(j uint64) {
				probes++
				if !bf.Contains(it(j)) {
					c.Violate("false-negative", "expected items %d rate %v: item %d not contained after %d further additions (%d in total)", e, p, j, i-j, i+1)
				}
			}
			probe(lo)
			if i%97 == 0 {
				probe(lo + (i-lo)/2)
				probe(lo + c.R.Uint64N(i-lo+1))
			}
		}
		c.Eval(1)
		c.Observe("window_probes", probes)
		c.Max("largest_expected_items", int(e))
		c.Distinct(vh.Hash(c.Name(), e, p))
	})
	r.Cases("conc", r.N(600, 8000), 2, func(c *vh.Case) {
		e := uint64([]int{16, 20, 32, 64, 100, 300}[c.R.IntN(6)])
		p := rates[2+c.R.IntN(len(rates)-2)]
		adders := 2 + c.R.IntN(4)
		bf := cache.NewBloomFilter(e, p)
		var started, finished atomic.Uint64
		type ent struct{ id, fin uint64 }
		ring := make([]atomic.Pointer[ent], 16)
		var stop atomic.Bool
		var left atomic.Int32
		left.Store(int32(adders))
		var checked, expired atomic.Int64
		probe := func(x *ent) {
			ok := bf.Contains(item(x.id, 0))
			s := started.Load()
			if s-x.fin-1 > e {
				expired.Add(1)
				return
			}
			checked.Add(1)
			if !ok {
				c.Violate("false-negative", "expected items %d rate %v, %d adders: item not contained although at most %d additions happened since its Add was called", e, p, adders, s-x.fin-1)
			}
		}
		per := int(7*e)/adders + 5
		c.Par(adders+2, func(g int) {
			if g >= adders {
				for i := 0; !stop.Load(); i++ {
					if x := ring[i%len(ring)].Load(); x != nil {
						probe(x)
					}
				}
				return
			}
			defer func() {
				if left.Add(-1) == 0 {
					stop.Store(true)
				}
			}()
			for i := 0; i < per; i++ {
				x := &ent{id: uint64(g)<<32 + uint64(i), fin: finished.Load()}
				started.Add(1)
				bf.Add(item(x.id, 0))
				finished.Add(1)
				ring[(i*adders+g)%len(ring)].Store(x)
				probe(x)
				if i%4 == 0 {
					for j := range ring {
						if y := ring[j].Load(); y != nil {
							probe(y)
						}
					}
				}
			}
		})
		c.Eval(1)
		c.Observe("concurrent_probes_in_window", int(checked.Load()))
		c.Observe("concurrent_probes_out_of_window", int(expired.Load()))
		c.Distinct(vh.Hash(c.Name(), e, p, adders, checked.Load()))
		if c.I < 2 {
			c.Sample(map[string]any{"expected_items": e, "rate": p, "adders": adders, "additions": adders * per, "probes_in_window": checked.Load()})
		}
	})
	r.Case("items", 0, func(c *vh.Case) {
		c.Eval(1)
		bf := cache.NewBloomFilter(100, 0.001)
		for _, it := range [][]byte{nil, {}, {0}, make([]byte, 10000), []byte("x")} {
			bf.Add(it)
			keep := append([]byte{}, it...)
			c.Check(bf.Contains(keep), "false-negative", "item of %d bytes not contained", len(it))
			for i := range it {
				it[i] = 0xff // the filter must not depend on the caller's slice afterwards
			}
			c.Check(bf.Contains(keep), "false-negative", "item of %d bytes not contained after its slice changed", len(it))
		}
	})
}

func c03(r *vh.Run) {
	r.Rule("each case fills several new filters of one configuration (50-50000 expected items, rates 0.4-0.000001) with 1/3 to 10 times the expected items and counts how many of many distinct absent items are reported present; non-trivial: at least 10 false positives would be expected at the configured rate, or the rate is below what the probes could meet by chance")
	type cfg struct {
		e uint64
		p float64
	}
	var cs []cfg
	for _, e := range []uint64{50, 200, 1000, 10000, 50000} {
		for _, p := range []float64{0.4, 0.2, 0.1, 0.05, 0.01, 0.001, 0.0001, 0.000001} {
			cs = append(cs, cfg{e, p})
		}
	}
	r.SeqCases("rate", len(cs)*r.N(4, 24), 0, func(c *vh.Case) {
		x := cs[c.I%len(cs)]
		// filled to a third, two thirds, all; then to several times its expected items, when two segments answer
		frac := []uint64{3, 17, 1, 8, 2, 5, 11, 30}[(c.I/len(cs))%8]
		worn := 1.0
		if frac > 3 {
			worn = 2
		}
		probes := int(min(40/x.p, 400000)) + 2000
		if x.p < 1e-5 {
			probes = 4000000
		}
		filters := 1
		if x.e < 5000 {
			filters = 12
		}
		fp, n := 0, 0
		base := c.R.Uint64() >> 8
		// what tells items apart may stand behind much that they share
		shared := bytes.Repeat([]byte("shared "), []int{0, 0, 3, 20, 300}[c.R.IntN(5)])
		if probes > 1000000 {
			shared = nil
		}
		item := func(i uint64, n int) []byte { return append(shared[:len(shared):len(shared)], item(i, n)...) }
		for f := 0; f < filters; f++ {
			bf := cache.NewBloomFilter(x.e, x.p)
			for i := 0; i < 50; i++ {
				if bf.Contains(item(base+uint64(1<<30+i), 5)) {
					c.Violate("empty-filter", "empty filter (%d, %v) reports an item present", x.e, x.p)
					break
				}
			}
			for i := uint64(0); i < x.e*frac/3; i++ {
				bf.Add(item(base+i, 5))
			}
			for i := 0; i < probes/filters+1; i++ {
				n++
				if bf.Contains(item(base+uint64(1<<31+i), 5)) {
					fp++
				}
			}
		}
		exp := x.p * float64(n) * worn
		limit := 2.5*exp + 6*math.Sqrt(2.5*exp) + 6
		c.Check(float64(fp) <= limit, "false-positive-rate", "%d expected items, rate %v, filled to %d/3: %d of %d absent items reported present, limit %.0f", x.e, x.p, frac, fp, n, limit)
		c.Eval(1)
		c.Observe("absent_items_probed", n)
		c.Observe("false_positives", fp)
		if exp >= 10 || exp < 1 {
			c.Distinct(vh.Hash(x.e, x.p, frac, base))
		}
		if c.I%11 == 0 {
			c.Sample(map[string]any{"expected_items": x.e, "rate": x.p, "filled_thirds": frac, "probes": n, "false_positives": fp})
		}
	})
}
