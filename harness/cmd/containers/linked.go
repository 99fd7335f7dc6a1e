package main

import (
	"fmt"
	"slices"
	"sync"

	"github.com/donnie4w/gofer/hashmap"
	"verifharness/vh"
)

type iterator[K, V any] interface{ Next() (K, V, bool) }

func drain(it iterator[int, int], limit int) (ps []pair) {
	for len(ps) <= limit {
		k, v, ok := it.Next()
		if !ok {
			return
		}
		ps = append(ps, pair{k, v})
	}
	return
}

func m06(r *vh.Run) {
	r.Rule("each case is one random operation sequence (Put, LoadOrStore, Get, Delete, MoveToFront, Clear, Front, Back, Len, iterators both ways) on a LinkedHashMap of limit 1-50, compared after every step with a reference list; non-trivial when at least one eviction and one reordering happened")
	exoticLinked(r, r.N(300, 6000))
	largeLinked(r)
	r.SeqCases("seq", r.N(20000, 400000), 0, func(c *vh.Case) {
		limit := []int{1, 2, 3, 4, 5, 8, 20, 50}[c.R.IntN(8)]
		space := limit + 1 + c.R.IntN(limit+2)
		m := hashmap.NewLinkedHashMap[int, int](int64(limit))
		var ref []pair // newest first
		evict, moves, loaded := 0, 0, 0
		few := c.R.IntN(3) == 0 // values that repeat
		insert := func(k, v int) {
			if len(ref) >= limit {
				ref = ref[:limit-1]
				evict++
			}
			ref = append([]pair{{k, v}}, ref...)
		}
		for i := 0; i < 50+2*limit && !c.Failed(); i++ {
			k := c.R.IntN(space)
			at := find(ref, k)
			var cur pair
			if at >= 0 {
				cur = ref[at]
			}
			step := fmt.Sprintf("limit %d step %d", limit, i)
			nv := i + 1
			if few {
				nv = c.R.IntN(2)
			}
			switch x := c.R.IntN(30); {
			case x < 11:
				m.Put(k, nv)
				if at >= 0 {
					ref = slices.Delete(ref, at, at+1)
					moves++
				}
				insert(k, nv)
			case x < 16:
				v, l := m.LoadOrStore(k, nv)
				if at >= 0 {
					loaded++
					c.Check(l && v == cur.V, "loadorstore", "%s: LoadOrStore(%d,%d) on present value %d = %d,%v", step, k, nv, cur.V, v, l)
					ref = append([]pair{cur}, slices.Delete(ref, at, at+1)...)
				} else {
					c.Check(!l && v == nv, "loadorstore", "%s: LoadOrStore(%d,%d) of an absent key = %d,%v", step, k, nv, v, l)
					insert(k, nv)
				}
			case x < 20:
				m.Delete(k)
				if at >= 0 {
					ref = slices.Delete(ref, at, at+1)
				}
			case x < 24:
				m.MoveToFront(k)
				if at > 0 {
					moves++
					ref = append([]pair{cur}, slices.Delete(ref, at, at+1)...)
				}
			case x == 24 && c.R.IntN(4) == 0:
				m.Clear()
				ref = nil
			default:
				v, ok := m.Get(k)
				c.Check(ok == (at >= 0) && v == cur.V, "get", "%s: Get(%d) = %d,%v want %d,%v", step, k, v, ok, cur.V, at >= 0)
			}
			c.Check(m.Len() == int64(len(ref)), "len", "%s: Len=%d want %d", step, m.Len(), len(ref))
			fw, bw := drain(m.Iterator(true), limit+space), drain(m.Iterator(false), limit+space)
			c.Check(slices.Equal(fw, ref), "iteration", "%s: from newest %v want %v", step, fw, ref)
			rev := slices.Clone(ref)
			slices.Reverse(rev)
			c.Check(slices.Equal(bw, rev), "iteration", "%s: from oldest %v want %v", step, bw, rev)
			fk, fv, fok := m.Front()
			bk, bv, bok := m.Back()
			if len(ref) == 0 {
				c.Check(!fok && !bok, "ends", "%s: Front %v Back %v on an empty map", step, fok, bok)
			} else {
				c.Check(fok && bok && pair{fk, fv} == ref[0] && pair{bk, bv} == ref[len(ref)-1], "ends", "%s: Front %d=%d,%v Back %d=%d,%v want %v..%v", step, fk, fv, fok, bk, bv, bok, ref[0], ref[len(ref)-1])
			}
			for q := 0; q < space; q++ {
				v, ok := m.Get(q)
				a := find(ref, q)
				c.Check(ok == (a >= 0) && (a < 0 || v == ref[a].V), "content", "%s: Get(%d) = %d,%v, reference %v", step, q, v, ok, ref)
			}
		}
		c.Eval(1)
		c.Observe("evictions", evict)
		c.Observe("reorderings", moves)
		c.Observe("loadorstore_hits", loaded)
		if evict > 0 && moves > 0 {
			c.Distinct(vh.Hash(c.Name(), limit, space, evict, moves, list(ref)))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"limit": limit, "key_space": space, "evictions": evict, "reorderings": moves, "final_newest_first": list(ref)})
		}
	})
	r.Case("types", 0, func(c *vh.Case) {
		c.Eval(1)
		m := hashmap.NewLinkedHashMap[string, any](3)
		m.Put("a", nil)
		v, ok := m.Get("a")
		c.Check(v == nil && ok, "nil-value", "Get of nil = %v,%v", v, ok)
		v, ok = m.LoadOrStore("a", 5)
		c.Check(v == nil && ok, "nil-value", "LoadOrStore over nil = %v,%v", v, ok)
		v, ok = m.LoadOrStore("b", 6)
		c.Check(v == 6 && !ok, "loadorstore", "LoadOrStore of absent = %v,%v", v, ok)
		m.Delete("zz")
		m.MoveToFront("zz")
		c.Check(m.Len() == 2, "len", "Len=%d want 2", m.Len())
		it := m.Iterator(true)
		for i := 0; i < 5; i++ {
			k, _, ok := it.Next()
			c.Check(ok == (i < 2) && (ok || k == ""), "iteration-end", "Next %d = %q,%v", i, k, ok)
		}
	})
}

func m07(r *vh.Run) {
	r.Rule("history cases: recorded Put/LoadOrStore/Get/Delete/MoveToFront/Clear on a LinkedHashMap large enough never to evict, checked per key as an atomic register; stress cases: small limit with evictions and concurrent iterators, with foreign/stale value monitors and a structural agreement check at quiescence; non-trivial when operations overlapped")
	r.Cases("hist", r.N(16000, 300000), 4, func(c *vh.Case) {
		clients, keys, per := 2+c.R.IntN(5), 1+c.R.IntN(4), 4+c.R.IntN(8)
		m := hashmap.NewLinkedHashMap[int, int](int64(keys + 1))
		rec := vh.NewRec(clients)
		seeds := make([]uint64, clients)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		clears := c.R.IntN(2) == 0
		c.Par(clients, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				in := kvIn{Key: rr.IntN(keys)}
				switch x := rr.IntN(24); {
				case x < 7:
					in.Op, in.Val = "putv", 1+g*1000+i
					rec.Do(g, in, func() any { m.Put(in.Key, in.Val); return kvOut{} })
				case x < 10:
					in.Op, in.Val = "los", 1+g*1000+i
					rec.Do(g, in, func() any { v, b := m.LoadOrStore(in.Key, in.Val); return kvOut{v, b} })
				case x < 18:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.Get(in.Key); return kvOut{v, b} })
				case x < 21:
					in.Op = "delv"
					rec.Do(g, in, func() any { m.Delete(in.Key); return kvOut{} })
				case x < 23:
					m.MoveToFront(in.Key)
				default:
					if clears && rr.IntN(3) == 0 {
						// a Clear deletes every key
						clearAll(rec, g, keys, m)
					}
				}
			}
		})
		ops := rec.Ops()
		c.Linear(registers, ops, "linkedhashmap-not-linearizable")
		quiesce(c, m, keys, keys+1)
		if c.I < 2 {
			c.Sample(vh.Describe(ops))
		}
	})
	r.Cases("stress", r.N(1200, 20000), 2, func(c *vh.Case) {
		limit := 1 + c.R.IntN(6)
		keys := limit + 1 + c.R.IntN(4)
		m := hashmap.NewLinkedHashMap[int, int](int64(limit))
		clients := 4
		seeds := make([]uint64, clients+1)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		rec := vh.NewRec(clients + 1)
		c.Par(clients+1, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < 100; i++ {
				in := kvIn{Key: rr.IntN(keys)}
				if g == clients { // iterator
					it := m.Iterator(rr.IntN(2) == 0)
					for n := 0; n < 4*clients*100; n++ {
						k, v, ok := it.Next()
						if !ok {
							break
						}
						if v%100 != k {
							c.Violate("foreign-value", "iterator gave %d=%d", k, v)
						}
					}
					m.Len()
					if k, v, ok := m.Front(); ok && v%100 != k {
						c.Violate("foreign-value", "Front gave %d=%d", k, v)
					}
					if k, v, ok := m.Back(); ok && v%100 != k {
						c.Violate("foreign-value", "Back gave %d=%d", k, v)
					}
					if n := m.Len(); n > int64(limit) || n < 0 {
						c.Violate("over-limit", "Len=%d with limit %d", n, limit)
					}
					continue
				}
				switch x := rr.IntN(24); {
				case x < 9:
					in.Op, in.Val = "putv", (1+g*1000+i)*100+in.Key
					rec.Do(g, in, func() any { m.Put(in.Key, in.Val); return kvOut{} })
				case x < 17:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.Get(in.Key); return kvOut{v, b} })
				case x < 20:
					in.Op = "delv"
					rec.Do(g, in, func() any { m.Delete(in.Key); return kvOut{} })
				case x < 23:
					m.MoveToFront(in.Key)
				default:
					if rr.IntN(5) == 0 {
						m.Clear()
					}
				}
			}
		})
		// every value read was put under that key and was not superseded by a finished later Put or Delete
		type w struct {
			call, ret int64
			val       int
		}
		ws := map[int][]w{}
		ops := rec.Ops()
		for _, o := range ops {
			if in := o.Input.(kvIn); in.Op != "get" {
				ws[in.Key] = append(ws[in.Key], w{o.Call, o.Return, in.Val})
			}
		}
		reads := 0
		for _, o := range ops {
			in := o.Input.(kvIn)
			out := o.Output.(kvOut)
			if in.Op != "get" || !out.Ok {
				continue
			}
			reads++
			var src *w
			for i := range ws[in.Key] {
				if x := &ws[in.Key][i]; x.val == out.V && x.val != 0 {
					src = x
				}
			}
			if src == nil || src.call > o.Return {
				c.Violate("phantom-value", "Get(%d) = %d, which no Put started before stored", in.Key, out.V)
				continue
			}
			for _, x := range ws[in.Key] {
				if src.ret < x.call && x.ret < o.Call {
					c.Violate("stale-value", "Get(%d) [%d,%d] = %d put in [%d,%d], superseded by %d in [%d,%d]", in.Key, o.Call, o.Return, out.V, src.call, src.ret, x.val, x.call, x.ret)
					break
				}
			}
		}
		quiesce(c, m, keys, limit)
		c.Eval(1)
		fp, ov := vh.Shape(ops)
		c.Observe("stress_operations", len(ops))
		c.Observe("stress_reads_checked", reads)
		c.Observe("stress_overlapping_pairs", ov)
		c.Distinct(fp)
	})
}

func clearAll(rec *vh.Rec, g, keys int, m *hashmap.LinkedHashMap[int, int]) {
	// one call recorded as a deletion of each key over the same interval
	var once sync.Once
	var f func(k int)
	f = func(k int) {
		if k == keys {
			once.Do(m.Clear)
			return
		}
		rec.Do(g, kvIn{Op: "delv", Key: k}, func() any { f(k + 1); return kvOut{} })
	}
	f(0)
}

// quiesce checks that with nothing in flight all views of the map agree.
func quiesce(c *vh.Case, m *hashmap.LinkedHashMap[int, int], keys, limit int) {
	fw, bw := drain(m.Iterator(true), 10*(limit+keys)), drain(m.Iterator(false), 10*(limit+keys))
	slices.Reverse(bw)
	c.Check(slices.Equal(fw, bw), "quiescent-iteration", "iterators disagree: %v vs reversed %v", fw, bw)
	c.Check(int64(len(fw)) == m.Len() && len(fw) <= limit, "quiescent-len", "Len=%d, %d entries iterated, limit %d", m.Len(), len(fw), limit)
	n := 0
	for k := 0; k < keys; k++ {
		v, ok := m.Get(k)
		a := find(fw, k)
		if ok {
			n++
		}
		c.Check(ok == (a >= 0) && (!ok || fw[a].V == v), "quiescent-content", "Get(%d)=%d,%v, iterated %v", k, v, ok, fw)
	}
	c.Check(n == len(fw), "quiescent-content", "%d keys found by Get, %d iterated", n, len(fw))
	fk, fv, fok := m.Front()
	c.Check(fok == (len(fw) > 0) && (!fok || pair{fk, fv} == fw[0]), "quiescent-front", "Front %d=%d,%v, iterated %v", fk, fv, fok, fw)
}
