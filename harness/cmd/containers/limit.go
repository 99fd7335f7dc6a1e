package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/donnie4w/gofer/hashmap"
	"verifharness/vh"
)

// lstate is an ordered list of key=value, newest first, as a comparable string.
type limIn struct {
	Op   string
	Keys []int
	Key  int
	Val  int
}

type limOut struct {
	V  int
	Ok bool
	N  int
}

func parse(s string) (ps []pair) {
	for _, f := range strings.Fields(s) {
		var p pair
		fmt.Sscanf(f, "%d=%d", &p.K, &p.V)
		ps = append(ps, p)
	}
	return
}

func find(ps []pair, k int) int { return slices.IndexFunc(ps, func(p pair) bool { return p.K == k }) }

// limitModel: capacity-bounded map evicting the oldest of its order; moveOnUpdate tells LRU-by-put from FIFO.
func limitModel(capacity int, moveOnUpdate, moveOnGet bool) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return "" },
		Step: func(st, in, out any) (bool, any) {
			ps := parse(st.(string))
			i, o := in.(limIn), out.(limOut)
			at := find(ps, i.Key)
			cur := pair{}
			if at >= 0 {
				cur = ps[at]
			}
			switch i.Op {
			case "put", "add":
				if at >= 0 {
					if moveOnUpdate {
						ps = append([]pair{{i.Key, i.Val}}, slices.Delete(ps, at, at+1)...)
					} else {
						ps[at].V = i.Val
					}
				} else {
					if len(ps) >= capacity {
						ps = ps[:capacity-1]
					}
					ps = append([]pair{{i.Key, i.Val}}, ps...)
				}
				if i.Op == "add" {
					return true, list(ps)
				}
				return o.V == cur.V && o.Ok == (at >= 0), list(ps)
			case "get":
				ok := o.V == cur.V && o.Ok == (at >= 0)
				if at >= 0 && moveOnGet {
					ps = append([]pair{cur}, slices.Delete(ps, at, at+1)...)
				}
				return ok, list(ps)
			case "contains":
				return o.Ok == (at >= 0), st
			case "len":
				return o.N == len(ps), st
			case "clear":
				return true, ""
			case "del":
				for _, k := range append([]int{i.Key}, i.Keys...) {
					if a := find(ps, k); a >= 0 {
						ps = slices.Delete(ps, a, a+1)
					}
				}
				return true, list(ps)
			}
			return false, st
		},
	}
}

func m04(r *vh.Run) {
	r.Rule("concurrent cases: one recorded history of Put/Get/Del/RemoveMulti/Len on a LimitMap of capacity 1-3 over 5 keys, checked against an atomic least-recently-put map; sequential cases: random sequences in lock-step with the reference for capacities 1-200; non-trivial when operations overlapped, respectively when at least one eviction happened")
	exoticLimit(r, r.N(300, 6000))
	largeLimit(r)
	r.Cases("hist", r.N(4000, 80000), 4, func(c *vh.Case) {
		capacity := 1 + c.R.IntN(3)
		m := hashmap.NewLimitMap[int, int](capacity)
		clients, per := 2+c.R.IntN(4), 3+c.R.IntN(5)
		rec := vh.NewRec(clients)
		seeds := make([]uint64, clients)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(clients, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				in := limIn{Key: rr.IntN(5)}
				switch x := rr.IntN(12); {
				case x < 6:
					in.Op, in.Val = "put", 1+g*1000+i
					if c.I%8 == 0 {
						in.Val = 7
					}
					rec.Do(g, in, func() any { v, b := m.Put(in.Key, in.Val); return limOut{V: v, Ok: b} })
				case x < 9:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.Get(in.Key); return limOut{V: v, Ok: b} })
				case x < 10:
					in.Op = "len"
					rec.Do(g, in, func() any { return limOut{N: m.Len()} })
				case x < 11:
					in.Op = "del"
					rec.Do(g, in, func() any { m.Del(in.Key); return limOut{} })
				default:
					in.Op, in.Keys = "del", []int{rr.IntN(5), rr.IntN(5)}
					rec.Do(g, in, func() any { m.RemoveMulti([]int{in.Key, in.Keys[0], in.Keys[1]}); return limOut{} })
				}
			}
		})
		ops := rec.Ops()
		c.Linear(limitModel(capacity, true, false), ops, "limitmap-not-linearizable")
		if c.I < 2 {
			c.Sample(fmt.Sprintf("capacity %d\n", capacity) + vh.Describe(ops))
		}
	})
	r.SeqCases("seq", r.N(3000, 60000), 4, func(c *vh.Case) {
		capacity := []int{1, 2, 3, 4, 7, 16, 200}[c.R.IntN(7)]
		space := 1 + capacity + c.R.IntN(capacity+3)
		m := hashmap.NewLimitMap[string, int](capacity)
		kk := func(k int) string { return fmt.Sprintf("k%d", k) }
		var ref []pair
		evict := 0
		few := c.R.IntN(3) == 0 // values that repeat
		for i := 0; i < 60+4*capacity && !c.Failed(); i++ {
			k := c.R.IntN(space)
			at := find(ref, k)
			var cur pair
			if at >= 0 {
				cur = ref[at]
			}
			switch x := c.R.IntN(20); {
			case x < 12:
				nv := i + 1
				if few {
					nv = c.R.IntN(2)
				}
				v, b := m.Put(kk(k), nv)
				c.Check(v == cur.V && b == (at >= 0), "put-prev", "cap %d step %d Put(%d) = %d,%v want %d,%v", capacity, i, k, v, b, cur.V, at >= 0)
				if at >= 0 {
					ref = slices.Delete(ref, at, at+1)
				} else if len(ref) >= capacity {
					ref = ref[:capacity-1]
					evict++
				}
				ref = append([]pair{{k, nv}}, ref...)
			case x < 16:
				v, b := m.Get(kk(k))
				c.Check(v == cur.V && b == (at >= 0), "get", "cap %d step %d Get(%d) = %d,%v want %d,%v", capacity, i, k, v, b, cur.V, at >= 0)
			case x < 18:
				m.Del(kk(k))
				if at >= 0 {
					ref = slices.Delete(ref, at, at+1)
				}
			case x < 19:
				var ks []string
				for j := c.R.IntN([]int{4, 4, 20, 3 * capacity}[c.R.IntN(4)]); j >= 0; j-- {
					q := c.R.IntN(space)
					if c.R.IntN(4) == 0 { // named more than once
						q = c.R.IntN(min(space, 2))
					}
					ks = append(ks, kk(q))
					if a := find(ref, q); a >= 0 {
						ref = slices.Delete(ref, a, a+1)
					}
				}
				m.RemoveMulti(ks)
			default:
				m.RemoveMulti(nil)
			}
			c.Check(m.Len() == len(ref) && m.Len() <= capacity, "len", "cap %d step %d Len=%d want %d", capacity, i, m.Len(), len(ref))
			if i%5 == 0 || capacity < 8 {
				for k := 0; k < space; k++ {
					v, b := m.Get(kk(k))
					a := find(ref, k)
					if b != (a >= 0) || b && v != ref[a].V {
						c.Violate("content", "cap %d step %d: key %d present=%v value=%d, reference (newest first) %s", capacity, i, k, b, v, list(ref))
						break
					}
				}
			}
		}
		c.Eval(1)
		c.Observe("evictions_compared", evict)
		if evict > 0 {
			c.Distinct(vh.Hash(c.Name(), capacity, space, evict))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"capacity": capacity, "key_space": space, "evictions": evict, "final_newest_first": list(ref)})
		}
	})
	r.Cases("batch", r.N(300, 6000), 4, func(c *vh.Case) {
		n := 2 + c.R.IntN(400)
		m := hashmap.NewLimitMap[int, int](n)
		c.Batch(n, func(k int) { m.Put(k, k) }, func(k int) bool { _, b := m.Get(k); return b }, m.RemoveMulti)
	})
}

func m05(r *vh.Run) {
	r.Rule("sequential cases: random Put/Get/Contains/Del/Clear/Len on all 14 key types, capacities 1-300 and 1-64 segments, with the full key set re-read after each insertion (single segment: exact first-in-first-out reference); concurrent cases: recorded histories on one segment checked against an atomic FIFO-bounded map, eviction-free histories on many segments checked per key, and stress with capacity monitors; non-trivial when evictions happened or operations overlapped")
	exoticLHM(r, r.N(300, 6000))
	largeLHM(r)
	lhSeq(r, "int", func(i int) int { return i*64 - 5 })
	lhSeq(r, "int64", func(i int) int64 { return int64(i)<<32 - 7 })
	lhSeq(r, "int8", func(i int) int8 { return int8(i) })
	lhSeq(r, "int16", func(i int) int16 { return int16(i*257 - 3) })
	lhSeq(r, "int32", func(i int) int32 { return int32(i*65537 - 9) })
	lhSeq(r, "uint", func(i int) uint { return uint(i) * 0x9E3779B97F4A7C15 })
	lhSeq(r, "uint64", func(i int) uint64 { return math.MaxUint64 - uint64(i)<<32 })
	lhSeq(r, "uint8", func(i int) uint8 { return uint8(i) })
	lhSeq(r, "uint16", func(i int) uint16 { return uint16(i * 255) })
	lhSeq(r, "uint32", func(i int) uint32 { return uint32(i) << 16 })
	lhSeq(r, "float64", func(i int) float64 { return float64(i-2) / 4 })
	lhSeq(r, "float32", func(i int) float32 { return float32(i)*0.37 + 0.5 })
	lhSeq(r, "uintptr", func(i int) uintptr { return uintptr(i) * 4096 })
	lhSeq(r, "string", func(i int) string { return strings.Repeat("x", i%4) + fmt.Sprint(i/2) + strings.Repeat("y", i%2) })
	r.Case("colliding", 0, func(c *vh.Case) {
		h := func(s string) uint64 { f := fnv.New64a(); f.Write([]byte(s)); return f.Sum64() }
		groups := [][]string{}
		if a, b := "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"; h(a) == h(b) {
			groups = append(groups, []string{a, b})
			c.Observe("fnv64a_full_collision_groups", 1)
		}
		// strings that agree in the low or the high half of the usual hashes
		lo, hi := map[uint32]string{}, map[uint32]string{}
		for i := 0; i < 400000; i++ {
			s := fmt.Sprintf("%x", i*7)
			v := h(s)
			if p, ok := lo[uint32(v)]; ok && len(groups) < 40 {
				groups = append(groups, []string{p, s})
			}
			if p, ok := hi[uint32(v>>32)]; ok && len(groups) < 80 {
				groups = append(groups, []string{p, s})
			}
			lo[uint32(v)], hi[uint32(v>>32)] = s, s
		}
		for _, seg := range []int{1, 2, 64} {
			for _, g := range groups {
				m := hashmap.NewLimitHashMapWithSegment[string, int](64*8, seg)
				pv, pb := m.Put(g[0], 1)
				c.Check(pv == 0 && !pb, "collision", "first Put returned %d,%v", pv, pb)
				c.Check(!m.Contains(g[1]), "collision", "Contains(%q) true though only %q was stored", g[1], g[0])
				v, b := m.Get(g[1])
				c.Check(!b && v == 0, "collision", "Get(%q)=%d though only %q was stored", g[1], v, g[0])
				m.Del(g[1])
				c.Check(m.Contains(g[0]), "collision", "Del(%q) removed %q", g[1], g[0])
				pv, pb = m.Put(g[1], 2)
				c.Check(pv == 0 && !pb, "collision", "Put(%q) reports previous value %d, which belongs to %q", g[1], pv, g[0])
				v, b = m.Get(g[0])
				c.Check(v == 1 && b, "collision", "Get(%q)=%d,%v after Put(%q)", g[0], v, b, g[1])
				v, b = m.Get(g[1])
				c.Check(v == 2 && b && m.Len() == 2, "collision", "Get(%q)=%d,%v Len %d", g[1], v, b, m.Len())
				m.Del(g[0])
				v, b = m.Get(g[1])
				c.Check(v == 2 && b && m.Len() == 1, "collision", "after Del(%q): Get(%q)=%d,%v Len %d", g[0], g[1], v, b, m.Len())
				c.Eval(1)
				c.Distinct(vh.Hash(g[0], g[1], seg))
			}
		}
		c.Observe("collision_groups", len(groups))
	})
	r.Case("nil-values", 0, func(c *vh.Case) {
		c.Eval(1)
		m := hashmap.NewLimitHashMapWithSegment[string, any](4, 1)
		for i := 0; i < 2; i++ {
			v, b := m.Put("a", nil)
			c.Check(v == nil && b == (i == 1), "nil-value", "Put %d of nil = %v,%v", i, v, b)
			v, b = m.Get("a")
			c.Check(v == nil && b && m.Contains("a"), "nil-value", "Get of stored nil = %v,%v", v, b)
		}
		v, b := m.Put("a", 5)
		c.Check(v == nil && b, "nil-value", "Put over nil = %v,%v", v, b)
		v, b = m.Put("a", nil)
		c.Check(v == 5 && b, "nil-value", "Put nil over 5 = %v,%v", v, b)
		e := hashmap.NewLimitHashMap[int, error](100)
		e.Put(1, nil)
		_, b = e.Put(1, nil)
		c.Check(b, "nil-value", "Put over nil error reports no previous value")
	})
	// concurrent, one segment: exact
	r.Cases("hist1", r.N(3000, 60000), 4, func(c *vh.Case) {
		capacity := 1 + c.R.IntN(3)
		m := hashmap.NewLimitHashMapWithSegment[int, int](capacity, 1)
		clients, per := 2+c.R.IntN(4), 3+c.R.IntN(5)
		rec := vh.NewRec(clients)
		seeds := make([]uint64, clients)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(clients, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				in := limIn{Key: rr.IntN(5)}
				switch x := rr.IntN(14); {
				case x < 6:
					in.Op, in.Val = "put", 1+g*1000+i
					rec.Do(g, in, func() any { v, b := m.Put(in.Key, in.Val); return limOut{V: v, Ok: b} })
				case x < 9:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.Get(in.Key); return limOut{V: v, Ok: b} })
				case x < 10:
					in.Op = "len"
					rec.Do(g, in, func() any { return limOut{N: m.Len()} })
				case x < 11:
					in.Op = "contains"
					rec.Do(g, in, func() any { return limOut{Ok: m.Contains(in.Key)} })
				case x < 13:
					in.Op = "del"
					rec.Do(g, in, func() any { m.Del(in.Key); return limOut{} })
				default:
					in.Op = "clear"
					rec.Do(g, in, func() any { m.Clear(); return limOut{} })
				}
			}
		})
		ops := rec.Ops()
		c.Linear(limitModel(capacity, false, false), ops, "limithashmap-not-linearizable")
		if c.I < 1 {
			c.Sample(fmt.Sprintf("one segment, capacity %d\n", capacity) + vh.Describe(ops))
		}
	})
	// concurrent, many segments, no eviction possible: per key register
	r.Cases("histN", r.N(1500, 30000), 4, func(c *vh.Case) {
		seg := 1 + c.R.IntN(64)
		m := hashmap.NewLimitHashMapWithSegment[string, int](seg*8, seg)
		clients, per := 2+c.R.IntN(4), 3+c.R.IntN(6)
		keys := []string{"a", "b", "8yn0iYCYKHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}
		rec := vh.NewRec(clients)
		seeds := make([]uint64, clients)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(clients, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				in := kvIn{Key: rr.IntN(len(keys))}
				k := keys[in.Key]
				switch x := rr.IntN(9); {
				case x < 4:
					in.Op, in.Val = "put", 1+g*1000+i
					rec.Do(g, in, func() any { v, b := m.Put(k, in.Val); return kvOut{v, b} })
				case x < 6:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.Get(k); return kvOut{v, b} })
				case x < 7:
					in.Op = "has"
					rec.Do(g, in, func() any { return kvOut{0, m.Contains(k)} })
				default:
					in.Op = "delv"
					rec.Do(g, in, func() any { m.Del(k); return kvOut{} })
				}
			}
		})
		c.Linear(registers, rec.Ops(), "limithashmap-key-not-linearizable")
	})
	// stress with evictions over segments: capacity, foreign values, quiescent agreement
	r.Cases("stress", r.N(200, 3000), 2, func(c *vh.Case) {
		capacity, seg := 1+c.R.IntN(60), 1+c.R.IntN(64)
		m := hashmap.NewLimitHashMapWithSegment[uint32, int](capacity, seg)
		space := 2 * (capacity + 4)
		var maxLen atomic.Int64
		seeds := make([]uint64, 6)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(6, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < 400; i++ {
				k := rr.IntN(space)
				switch x := rr.IntN(12); {
				case x < 6:
					v, b := m.Put(uint32(k), (g*1000+i)*1000+k)
					if b && v%1000 != k {
						c.Violate("foreign-value", "Put(%d) returned previous %d", k, v)
					}
				case x < 9:
					if v, b := m.Get(uint32(k)); b && v%1000 != k {
						c.Violate("foreign-value", "Get(%d) = %d", k, v)
					}
				case x < 10:
					m.Del(uint32(k))
				case x == 10:
					m.Contains(uint32(k))
				default:
					// segments are counted one after the other; entries only ever replace each other within one
					n := int64(m.Len())
					if n > int64(capacity) {
						c.Violate("over-capacity", "Len=%d above capacity %d (%d segments)", n, capacity, seg)
					}
					for o := maxLen.Load(); n > o && !maxLen.CompareAndSwap(o, n); o = maxLen.Load() {
					}
				}
			}
		})
		n := 0
		for k := 0; k < space; k++ {
			v, b := m.Get(uint32(k))
			if b {
				n++
			}
			c.Check(b == m.Contains(uint32(k)) && (!b || v%1000 == k), "quiescent", "key %d: Get %d,%v Contains %v", k, v, b, m.Contains(uint32(k)))
		}
		c.Check(n == m.Len() && n <= capacity, "quiescent-len", "%d keys present, Len %d, capacity %d", n, m.Len(), capacity)
		c.Eval(1)
		c.Observe("stress_operations", 2400)
		c.Max("stress_largest_len", int(maxLen.Load()))
		c.Distinct(vh.Hash(c.Name(), n, maxLen.Load()))
		m.Clear()
		c.Check(m.Len() == 0, "clear", "Len=%d after Clear", m.Len())
	})
}

func lhSeq[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string](r *vh.Run, name string, mk func(int) K) {
	r.SeqCases("seq-"+name, r.N(120, 2500), 4, func(c *vh.Case) {
		capacity := []int{1, 2, 3, 5, 10, 63, 64, 65, 100}[c.R.IntN(9)]
		seg := []int{1, 1, 1, 2, 3, 7, 64}[c.R.IntN(7)]
		var m *hashmap.LimitHashMap[K, int]
		if c.R.IntN(5) == 0 {
			seg = 0
			m = hashmap.NewLimitHashMap[K, int](capacity)
		} else {
			m = hashmap.NewLimitHashMapWithSegment[K, int](capacity, seg)
		}
		// distinct keys only
		var keys []K
		seen := map[K]bool{}
		hostile := c.R.IntN(2) == 0 // keys that differ in few bits instead of the given sequence
		var last K
		for i := 0; len(keys) < min(2*capacity+6, 120) && i < 1000; i++ {
			k := mk(i)
			if hostile {
				k = bitKey(c, last, i)
				last = k
			}
			if k == k && !seen[k] {
				seen[k] = true
				keys = append(keys, k)
			}
		}
		if hostile {
			c.Observe("cases_with_keys_differing_in_few_bits", 1)
		}
		ref := map[int]int{} // index -> value
		var order []int      // insertion order, oldest first
		evict := 0
		drop := func(k int) {
			if a := slices.Index(order, k); a >= 0 {
				order = slices.Delete(order, a, a+1)
			}
			delete(ref, k)
		}
		for i := 0; i < 80+3*capacity && !c.Failed(); i++ {
			k := c.R.IntN(len(keys))
			old, had := ref[k]
			key := spell(c, keys[k])
			switch x := c.R.IntN(24); {
			case x < 14:
				v, b := m.Put(key, i+1)
				c.Check(v == old && b == had, "put-prev", "%s cap %d seg %d step %d: Put(%v) = %d,%v want %d,%v", name, capacity, seg, i, key, v, b, old, had)
				if !had {
					order = append(order, k)
				}
				ref[k] = i + 1
				var gone []int
				for _, q := range order {
					if !m.Contains(keys[q]) {
						gone = append(gone, q)
					}
				}
				switch {
				case slices.Contains(gone, k):
					c.Violate("put-lost", "%s cap %d seg %d step %d: key %v missing right after its Put", name, capacity, seg, i, keys[k])
				case had && len(gone) > 0:
					c.Violate("update-evicts", "%s cap %d seg %d step %d: updating %v removed %d entries", name, capacity, seg, i, keys[k], len(gone))
				case len(gone) > 1:
					c.Violate("evicts-many", "%s cap %d seg %d step %d: inserting %v removed %d entries", name, capacity, seg, i, keys[k], len(gone))
				case seg == 1 && len(order) > capacity && (len(gone) != 1 || gone[0] != order[0]):
					c.Violate("not-fifo", "%s cap %d one segment step %d: inserting %v removed %v, the earliest inserted is index %d", name, capacity, i, keys[k], gone, order[0])
				case seg == 1 && len(order) <= capacity && len(gone) > 0:
					c.Violate("evicts-early", "%s cap %d one segment step %d: eviction at %d entries", name, capacity, i, len(order)-1)
				}
				for _, q := range gone {
					drop(q)
					evict++
				}
			case x < 19:
				v, b := m.Get(key)
				c.Check(v == old && b == had && m.Contains(key) == had, "get", "%s cap %d seg %d step %d: Get(%v) = %d,%v want %d,%v", name, capacity, seg, i, key, v, b, old, had)
			case x < 23:
				m.Del(key)
				drop(k)
			default:
				if c.R.IntN(6) == 0 {
					m.Clear()
					ref, order = map[int]int{}, nil
				}
			}
			c.Check(m.Len() == len(ref) && len(ref) <= capacity, "len", "%s cap %d seg %d step %d: Len=%d, keys present %d", name, capacity, seg, i, m.Len(), len(ref))
			if i%7 == 0 {
				for q := range keys {
					v, b := m.Get(keys[q])
					w, ok := ref[q]
					c.Check(v == w && b == ok, "content", "%s cap %d seg %d step %d: key %v = %d,%v want %d,%v", name, capacity, seg, i, keys[q], v, b, w, ok)
				}
			}
		}
		c.Eval(1)
		c.Observe("evictions_"+name, evict)
		if evict > 0 {
			c.Distinct(vh.Hash(c.Name(), capacity, seg, evict))
		}
		if c.I < 1 && name == "string" {
			sort.Ints(order)
			c.Sample(map[string]any{"key_type": name, "capacity": capacity, "segments": seg, "evictions": evict, "keys_left": len(order)})
		}
	})
}

// spell gives an equal key made in another way: a string in other memory, a zero of the other sign.
func spell[K comparable](c *vh.Case, k K) K {
	if c.R.IntN(2) == 0 {
		return k
	}
	switch p := any(&k).(type) {
	case *string:
		*p = strings.Clone(*p)
	case *float64:
		if *p == 0 {
			*p = math.Copysign(0, -1)
			c.Observe("negative_zero_keys", 1)
		}
	case *float32:
		if *p == 0 {
			*p = float32(math.Copysign(0, -1))
			c.Observe("negative_zero_keys", 1)
		}
	}
	return k
}

// bitKey returns a key that differs from the previous one in a single bit, an extreme value or a random one.
func bitKey[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string](c *vh.Case, last K, i int) (k K) {
	if s, ok := any(last).(string); ok {
		b := []byte(s)
		switch c.R.IntN(6) {
		case 0:
			b = []byte(strings.Repeat(string(rune('a'+c.R.IntN(3))), c.R.IntN(80)))
		case 1:
			b = append(b, " \x00\xffaA"[c.R.IntN(5)])
		case 2:
			b = append([]byte{" \x00\xffaA"[c.R.IntN(5)]}, b...)
		default:
			if len(b) > 0 {
				b[c.R.IntN(len(b))] ^= 1 << c.R.IntN(8)
			} else {
				b = []byte{byte(i)}
			}
		}
		return any(string(b)).(K)
	}
	raw := toBits(last)
	switch c.R.IntN(8) {
	case 0:
		raw = []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 31, 1<<31 - 1, 1 << 15, 1<<15 - 1, 1 << 7, 1<<7 - 1}[c.R.IntN(11)]
	case 1:
		raw = c.R.Uint64()
	case 2:
		raw++
	default:
		raw ^= 1 << c.R.IntN(64)
	}
	k = fromBits[K](raw)
	if k == *new(K) {
		k = *new(K) // no negative zero: it equals zero
	}
	return
}

func toBits(k any) uint64 {
	switch v := k.(type) {
	case float64:
		return math.Float64bits(v)
	case float32:
		return uint64(math.Float32bits(v)) | uint64(math.Float32bits(v))<<32
	}
	if v := reflect.ValueOf(k); v.CanInt() {
		return uint64(v.Int())
	} else {
		return v.Uint()
	}
}

func fromBits[K any](raw uint64) (k K) {
	switch p := any(&k).(type) {
	case *float64:
		*p = math.Float64frombits(raw)
	case *float32:
		*p = math.Float32frombits(uint32(raw ^ raw>>32))
	default:
		if v := reflect.ValueOf(&k).Elem(); v.CanInt() {
			v.SetInt(int64(raw) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
		} else {
			v.SetUint(raw << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
		}
	}
	return
}
