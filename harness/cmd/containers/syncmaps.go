package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/donnie4w/gofer/hashmap"
	"verifharness/vh"
)

type kvIn struct {
	Op  string
	Key int
	Val int
}

type kvOut struct {
	V  int
	Ok bool
}

// registers is the per-key atomic register model: state 0 is absent, values are >= 1 and unique.
var registers = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(kvIn).Key
			m[k] = append(m[k], o)
		}
		var ks []int
		for k := range m {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		var r [][]porcupine.Operation
		for _, k := range ks {
			r = append(r, m[k])
		}
		return r
	},
	Init: func() any { return 0 },
	Step: func(st, in, out any) (bool, any) {
		s, i, o := st.(int), in.(kvIn), out.(kvOut)
		switch i.Op {
		case "put":
			return o == kvOut{s, s != 0}, i.Val
		case "putv": // a put that does not report the previous value
			return true, i.Val
		case "get":
			return o == kvOut{s, s != 0}, s
		case "has":
			return o.Ok == (s != 0), s
		case "del":
			return o.Ok == (s != 0), 0
		case "delv":
			return true, 0
		case "los": // load or store
			if s != 0 {
				return o == kvOut{s, true}, s
			}
			return o == kvOut{i.Val, false}, i.Val
		}
		return false, s
	},
}

type kv struct {
	put func(k, v int) (int, bool)
	get func(k int) (int, bool)
	has func(k int) bool
	del func(k int) bool
}

type key struct {
	a string
	b int
}

// maps under test: both maps with several key and value types, seen as int->int.
func syncMaps() map[string]func() kv {
	sk := func(k int) string { return fmt.Sprintf("key-%d", k) }
	return map[string]func() kv{
		"Map[int,int]": func() kv {
			m := hashmap.NewMap[int, int]()
			return kv{m.Put, m.Get, m.Has, m.Del}
		},
		"MapL[int,int]": func() kv {
			m := hashmap.NewMapL[int, int]()
			return kv{m.Put, m.Get, m.Has, m.Del}
		},
		"Map[string,*int]": func() kv {
			m := hashmap.NewMap[string, *int]()
			u := func(p *int, b bool) (int, bool) {
				if p == nil {
					return 0, b
				}
				return *p, b
			}
			return kv{func(k, v int) (int, bool) { return u(m.Put(sk(k), &v)) }, func(k int) (int, bool) { return u(m.Get(sk(k))) },
				func(k int) bool { return m.Has(sk(k)) }, func(k int) bool { return m.Del(sk(k)) }}
		},
		"MapL[struct,[]byte]": func() kv {
			m := hashmap.NewMapL[key, []byte]()
			enc := func(v int) []byte { return []byte(fmt.Sprint(v)) }
			u := func(p []byte, b bool) (n int, _ bool) {
				fmt.Sscan(string(p), &n)
				return n, b
			}
			kk := func(k int) key { return key{sk(k), k} }
			return kv{func(k, v int) (int, bool) { return u(m.Put(kk(k), enc(v))) }, func(k int) (int, bool) { return u(m.Get(kk(k))) },
				func(k int) bool { return m.Has(kk(k)) }, func(k int) bool { return m.Del(kk(k)) }}
		},
		"MapL[any,any]": func() kv {
			m := hashmap.NewMapL[any, any]()
			// keys of different types; one value in three is stored as a nil interface after its number was noted
			kk := func(k int) any {
				switch k % 3 {
				case 0:
					return k
				case 1:
					return int64(k)
				}
				return sk(k)
			}
			u := func(p any, b bool) (int, bool) {
				if p == nil {
					return 0, b
				}
				return p.(int), b
			}
			return kv{func(k, v int) (int, bool) { return u(m.Put(kk(k), v)) }, func(k int) (int, bool) { return u(m.Get(kk(k))) },
				func(k int) bool { return m.Has(kk(k)) }, func(k int) bool { return m.Del(kk(k)) }}
		},
	}
}

func sortedKeys[V any](m map[string]V) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func m01(r *vh.Run) {
	r.Rule("each case is one recorded concurrent history of Put/Get/Has/Del with globally unique values on a fresh Map or MapL (5 key/value type combinations), 2-6 clients on 1-4 keys; non-trivial when at least two operations overlapped in time; fingerprint is the order and content of all call and return events")
	exoticMaps(r, r.N(300, 6000))
	vh.SetPerturb(1)
	maps := syncMaps()
	names := sortedKeys(maps)
	r.Cases("hist", r.N(24000, 400000), 4, func(c *vh.Case) {
		name := names[c.I%len(names)]
		m := maps[name]()
		clients, keys, per := 2+c.R.IntN(5), 1+c.R.IntN(4), 4+c.R.IntN(9)
		rec := vh.NewRec(clients)
		seeds := make([]uint64, clients)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(clients, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				in := kvIn{Key: rr.IntN(keys)}
				switch x := rr.IntN(10); {
				case x < 4:
					in.Op, in.Val = "put", 1+g*1000+i
					rec.Do(g, in, func() any { v, b := m.put(in.Key, in.Val); return kvOut{v, b} })
				case x < 6:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.get(in.Key); return kvOut{v, b} })
				case x < 7:
					in.Op = "has"
					rec.Do(g, in, func() any { return kvOut{0, m.has(in.Key)} })
				default:
					in.Op = "del"
					rec.Do(g, in, func() any { return kvOut{0, m.del(in.Key)} })
				}
			}
		})
		ops := rec.Ops()
		c.Linear(registers, ops, "map-not-linearizable "+name)
		if c.I < 2 {
			c.Sample(name + "\n" + vh.Describe(ops))
		}
	})
	// zero and nil values are values: presence must not depend on them
	r.Case("nil-values", 0, func(c *vh.Case) {
		c.Eval(1)
		type nilMap struct {
			name string
			put  func() (bool, bool) // returned nil prev, present
			get  func() (bool, bool)
			has  func() bool
			del  func() bool
		}
		ma, mb := hashmap.NewMap[string, any](), hashmap.NewMapL[string, any]()
		me, mf := hashmap.NewMap[string, error](), hashmap.NewMapL[string, *int]()
		for _, m := range []nilMap{
			{"Map any", func() (bool, bool) { v, b := ma.Put("k", nil); return v == nil, b }, func() (bool, bool) { v, b := ma.Get("k"); return v == nil, b }, func() bool { return ma.Has("k") }, func() bool { return ma.Del("k") }},
			{"MapL any", func() (bool, bool) { v, b := mb.Put("k", nil); return v == nil, b }, func() (bool, bool) { v, b := mb.Get("k"); return v == nil, b }, func() bool { return mb.Has("k") }, func() bool { return mb.Del("k") }},
			{"Map error", func() (bool, bool) { v, b := me.Put("k", nil); return v == nil, b }, func() (bool, bool) { v, b := me.Get("k"); return v == nil, b }, func() bool { return me.Has("k") }, func() bool { return me.Del("k") }},
			{"MapL ptr", func() (bool, bool) { v, b := mf.Put("k", nil); return v == nil, b }, func() (bool, bool) { v, b := mf.Get("k"); return v == nil, b }, func() bool { return mf.Has("k") }, func() bool { return mf.Del("k") }},
		} {
			for round := 0; round < 2; round++ {
				n, b := m.put()
				c.Check(n && !b, "nil-value", "%s: first Put of nil: previous present=%v", m.name, b)
				n, b = m.get()
				c.Check(n && b, "nil-value", "%s: Get of stored nil: present=%v", m.name, b)
				n, b = m.put()
				c.Check(n && b, "nil-value", "%s: Put over stored nil reports no previous value", m.name)
				c.Check(m.has(), "nil-value", "%s: Has false for stored nil", m.name)
				c.Check(m.del(), "nil-value", "%s: Del of stored nil reports nothing removed", m.name)
				c.Check(!m.del() && !m.has(), "nil-value", "%s: still present after Del", m.name)
			}
		}
	})
}

func m02(r *vh.Run) {
	r.Rule("each case is one concurrent run of Put/Del (racing on few keys) with online Len/Range observers on a fresh MapL, then quiescence; non-trivial when both insertions and deletions changed the count; fingerprint is the seed-derived workload plus the observed counts")
	exoticMapL(r, r.N(300, 6000))
	r.Cases("len", r.N(10000, 150000), 4, func(c *vh.Case) {
		m := hashmap.NewMapL[int, int]()
		clients, keys, per := 2+c.R.IntN(5), 1+c.R.IntN(6), 10+c.R.IntN(60)
		seeds := make([]uint64, clients+1)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		var insStart, insDone, delStart, delDone atomic.Int64 // insertions and deletions that certainly / possibly happened
		var stop atomic.Bool
		var lens atomic.Int64
		lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
		var running atomic.Int32
		running.Store(int32(clients))
		lensSeen := map[int64]bool{}
		c.Par(clients+1, func(g int) {
			rr := vh.NewRand(seeds[g])
			if g == clients { // observer
				for !stop.Load() {
					// every insertion counted in Len has started; every deletion not counted has not yet finished before
					d0, i0 := delDone.Load(), insDone.Load()
					n := m.Len()
					i1, d1 := insStart.Load(), delStart.Load()
					lens.Add(1)
					lensSeen[n] = true
					if n > i1-d0 || n < i0-d1 || n > int64(keys)+int64(clients) || n < -int64(clients) {
						c.Violate("len-out-of-bounds", "Len=%d while at most %d insertions had started with %d deletions complete, and %d insertions complete with %d deletions started", n, i1, d0, i0, d1)
						return
					}
					lo, hi = min(lo, n), max(hi, n)
					if rr.IntN(8) == 0 {
						seen := map[int]bool{}
						m.Range(func(k, v int) bool {
							if seen[k] {
								c.Violate("range-duplicate", "Range visited key %d twice", k)
							}
							if v%1000 != k {
								c.Violate("range-foreign-value", "Range gave key %d value %d", k, v)
							}
							seen[k] = true
							return true
						})
					}
				}
				return
			}
			defer func() {
				if running.Add(-1) == 0 {
					stop.Store(true)
				}
			}()
			for i := 0; i < per; i++ {
				k := rr.IntN(keys)
				switch x := rr.IntN(10); {
				case x < 5:
					insStart.Add(1)
					if _, b := m.Put(k, (g*1000+i)*1000+k); b {
						insStart.Add(-1)
					} else {
						insDone.Add(1)
					}
				case x < 9:
					delStart.Add(1)
					if m.Del(k) {
						delDone.Add(1)
					} else {
						delStart.Add(-1)
					}
				default:
					if v, ok := m.Get(k); ok && v%1000 != k {
						c.Violate("foreign-value", "Get(%d) gave %d", k, v)
					}
				}
			}
		})
		want := 0
		for k := 0; k < keys; k++ {
			if m.Has(k) {
				want++
			}
		}
		n := 0
		seen := map[int]bool{}
		m.Range(func(k, v int) bool {
			n++
			c.Check(!seen[k], "range-duplicate", "Range visited key %d twice at quiescence", k)
			seen[k] = true
			g, ok := m.Get(k)
			c.Check(ok && g == v, "range-stale", "Range gave %d=%d, Get gives %d,%v", k, v, g, ok)
			return true
		})
		c.Check(m.Len() == int64(want) && n == want, "len-drift", "at quiescence Len=%d, Range visits %d, present keys %d", m.Len(), n, want)
		c.Check(insDone.Load()-delDone.Load() == int64(want), "conservation", "insertions %d - deletions %d != entries %d", insDone.Load(), delDone.Load(), want)
		// stop after j
		for j := 1; j <= want; j++ {
			cnt := 0
			m.Range(func(k, v int) bool { cnt++; return cnt < j })
			c.Check(cnt == j, "range-stop", "Range made %d calls after false at call %d", cnt, j)
		}
		// drain
		for k := 0; k < keys; k++ {
			m.Del(k)
		}
		c.Check(m.Len() == 0, "len-drift", "Len=%d after deleting every key", m.Len())
		c.Eval(1)
		c.Observe("insertions", int(insDone.Load()))
		c.Observe("deletions", int(delDone.Load()))
		c.Observe("online_len_observations", int(lens.Load()))
		c.Max("largest_distinct_len_values_in_one_run", len(lensSeen))
		if insDone.Load() > 0 && delDone.Load() > 0 {
			c.Distinct(vh.Hash(seeds[0], clients, keys, per, insDone.Load(), delDone.Load()))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"clients": clients, "keys": keys, "ops_per_client": per, "insertions": insDone.Load(), "deletions": delDone.Load(), "min_len_seen": lo, "max_len_seen": hi, "final": want})
		}
	})
	r.Cases("walk", r.N(400, 8000), 4, func(c *vh.Case) {
		ml, m := hashmap.NewMapL[int, int](), hashmap.NewMap[int, int]()
		put, del, walk, what := m.Put, m.Del, m.Range, "Map"
		if c.R.IntN(2) == 0 {
			put, del, walk, what = ml.Put, ml.Del, ml.Range, "MapL"
		}
		stay, churn := 1+c.R.IntN(400), 1+c.R.IntN(300)
		// keys that stay: their values rise; keys that come and go
		started, done := make([]atomic.Int64, stay), make([]atomic.Int64, stay)
		key := func(i int) int { return i*7919 - 1000 }
		for _, i := range vh.NewRand(c.R.Uint64()).Perm(stay) {
			put(key(i), 0)
		}
		seeds := []uint64{c.R.Uint64(), c.R.Uint64(), c.R.Uint64(), c.R.Uint64()}
		pre := c.R.IntN(2) == 0
		if pre {
			for i := 0; i < churn; i++ {
				put(key(stay+i), -1)
			}
		}
		var left atomic.Int32
		left.Store(2)
		var walks atomic.Int64
		c.Par(4, func(g int) {
			rr := vh.NewRand(seeds[g])
			if g < 2 {
				defer left.Add(-1)
				for w := 0; w < 5 && !c.Failed(); w++ {
					lo := make([]int64, stay)
					for i := range lo {
						lo[i] = done[i].Load()
					}
					seen := map[int]bool{}
					n := 0
					walk(func(k, v int) bool {
						c.Check(!seen[k], "range-duplicate", "Range of a %s visited key %d twice", what, k)
						seen[k] = true
						i := (k + 1000) / 7919
						if i < 0 || i >= stay+churn || key(i) != k {
							c.Violate("range-foreign", "Range of a %s gave key %d, never put", what, k)
						} else if i < stay {
							n++
							if hi := started[i].Load(); int64(v) < lo[i] || int64(v) > hi {
								c.Violate("range-stale", "Range of a %s gave %d for a key that had at least %d when the walk began and at most %d", what, v, lo[i], hi)
							}
						} else if v != -1 {
							c.Violate("range-foreign", "Range of a %s gave %d for a key that is only put with -1", what, v)
						}
						if rr.IntN(60) == 0 {
							vh.Yield()
						}
						return true
					})
					if n != stay {
						c.Violate("range-missed", "Range of a %s visited %d of the %d keys that stayed in it all the time (others came and went)", what, n, stay)
					}
					walks.Add(1)
				}
				return
			}
			for left.Load() > 0 && !c.Failed() {
				if g == 2 {
					i := rr.IntN(stay)
					v := started[i].Add(1)
					put(key(i), int(v))
					done[i].Store(v)
				} else {
					for i := 0; i < churn; i++ {
						put(key(stay+i), -1)
					}
					for i := 0; i < churn; i++ {
						del(key(stay + i))
					}
				}
			}
		})
		c.Eval(int(walks.Load()))
		c.Observe("walks_during_changes", int(walks.Load()))
		c.Distinct(vh.Hash(c.Name(), what, stay, churn, pre))
	})
	// Range over nil interface values and an untouched map
	r.Case("range-nil", 0, func(c *vh.Case) {
		c.Eval(1)
		a, b := hashmap.NewMapL[int, any](), hashmap.NewMap[int, any]()
		n := 0
		a.Range(func(int, any) bool { n++; return true })
		c.Check(n == 0 && a.Len() == 0, "empty", "empty map: Range visits %d, Len %d", n, a.Len())
		for i := 0; i < 5; i++ {
			a.Put(i, nil)
			a.Put(i, nil)
			b.Put(i, nil)
		}
		c.Check(a.Len() == 5, "nil-value-len", "Len=%d after storing nil under 5 keys twice", a.Len())
		for _, f := range []func(func(int, any) bool){a.Range, b.Range} {
			n, s := 0, 0
			f(func(k int, v any) bool {
				n++
				s += k
				c.Check(v == nil, "nil-value", "Range gives %v for nil", v)
				return true
			})
			c.Check(n == 5 && s == 10, "nil-value-range", "Range visits %d of 5 nil entries", n)
			n = 0
			f(func(k int, v any) bool { n++; return n < 3 })
			c.Check(n == 3, "range-stop", "Range over nil values made %d calls, stop asked at 3", n)
		}
		for i := 0; i < 5; i++ {
			c.Check(a.Del(i), "nil-value", "Del of nil value false")
		}
		c.Check(a.Len() == 0, "nil-value-len", "Len=%d after deleting all", a.Len())
	})
	// the nil interface is a key like any other
	r.Case("nil-key", 0, func(c *vh.Case) {
		c.Eval(1)
		a, b := hashmap.NewMapL[any, int](), hashmap.NewMap[error, any]()
		e := errors.New("key")
		for i := 0; i < 2; i++ {
			p, ok := a.Put(nil, 7)
			c.Check(ok == (i == 1) && (!ok || p == 7), "nil-key", "Put %d under the nil key replaced %d,%v", i, p, ok)
			b.Put(nil, nil)
		}
		a.Put("x", 8)
		b.Put(e, 9)
		v, ok := a.Get(nil)
		c.Check(ok && v == 7 && a.Has(nil) && a.Len() == 2, "nil-key", "the nil key has %d,%v, Len %d", v, ok, a.Len())
		got := map[any]int{}
		if p := vh.Try(func() { a.Range(func(k any, v int) bool { got[k] += v; return true }) }); c.Check(p == "", "nil-key-range", "MapL.Range over a nil key: %s", p) {
			c.Check(len(got) == 2 && got[nil] == 7 && got["x"] == 8, "nil-key-range", "MapL.Range gives %v", got)
		}
		errs := map[error]any{}
		if p := vh.Try(func() { b.Range(func(k error, v any) bool { errs[k] = v; return true }) }); c.Check(p == "", "nil-key-range", "Map.Range over a nil key: %s", p) {
			z, ok := errs[nil]
			c.Check(len(errs) == 2 && z == nil && ok && errs[e] == 9, "nil-key-range", "Map.Range gives %v", errs)
		}
		c.Check(a.Del(nil) && !a.Del(nil) && b.Del(nil) && !b.Has(nil) && a.Len() == 1, "nil-key", "deleting the nil key")
	})
}
