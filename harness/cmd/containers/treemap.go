package main

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/donnie4w/gofer/hashmap"
	"verifharness/vh"
)

const treeKeys = 5

type treeIn struct {
	Op   string
	Key  int
	Val  int
	Stop int
}
type pair struct{ K, V int }
type treeOut struct {
	V    int
	Ok   bool
	List string
}

func list(ps []pair) string {
	var b strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&b, "%d=%d ", p.K, p.V)
	}
	return b.String()
}

// treeModel is the sequential ordered map over keys 0..treeKeys-1 (0 absent).
var treeModel = porcupine.Model{
	Init: func() any { return [treeKeys]int{} },
	Step: func(st, in, out any) (bool, any) {
		s, i, o := st.([treeKeys]int), in.(treeIn), out.(treeOut)
		old := s[max(i.Key, 0)]
		switch i.Op {
		case "put":
			s[i.Key] = i.Val
			return o.V == old && o.Ok == (old != 0), s
		case "get":
			return o.V == old && o.Ok == (old != 0), s
		case "del":
			s[i.Key] = 0
			return true, s
		default:
			var ps []pair
			for k, v := range s {
				if v != 0 {
					ps = append(ps, pair{k, v})
				}
			}
			if i.Op == "desc" {
				slices.Reverse(ps)
			}
			if i.Stop > 0 && len(ps) > i.Stop {
				ps = ps[:i.Stop]
			}
			return list(ps) == o.List, s
		}
	},
}

func m03(r *vh.Run) {
	r.Rule("concurrent cases: one recorded history of Put/Get/Del/Ascend/Descend (full or stopped) over 5 keys checked as one atomic ordered map; sequential cases: one random operation sequence run in lock-step with a sorted reference on int, string, float64 and int8 keys for degrees 2-64; non-trivial when operations overlapped, respectively when the map held at least 3 keys and a traversal was compared")
	exoticTree(r, r.N(200, 4000))
	r.Cases("hist", r.N(4000, 80000), 4, func(c *vh.Case) {
		deg := 2 + c.R.IntN(3)
		m := hashmap.NewTreeMap[int, int](deg)
		clients, per := 2+c.R.IntN(4), 3+c.R.IntN(6)
		rec := vh.NewRec(clients)
		seeds := make([]uint64, clients)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(clients, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				in := treeIn{Key: rr.IntN(treeKeys)}
				switch x := rr.IntN(12); {
				case x < 5:
					in.Op, in.Val = "put", 1+g*1000+i
					rec.Do(g, in, func() any { v, b := m.Put(in.Key, in.Val); return treeOut{V: v, Ok: b} })
				case x < 7:
					in.Op = "get"
					rec.Do(g, in, func() any { v, b := m.Get(in.Key); return treeOut{V: v, Ok: b} })
				case x < 9:
					in.Op = "del"
					rec.Do(g, in, func() any { m.Del(in.Key); return treeOut{} })
				default:
					in.Op = "asc"
					f := m.Ascend
					if x == 11 {
						in.Op, f = "desc", m.Descend
					}
					if rr.IntN(3) == 0 {
						in.Stop = 1 + rr.IntN(3)
					}
					rec.Do(g, in, func() any {
						var ps []pair
						f(func(k, v int) bool {
							ps = append(ps, pair{k, v})
							return in.Stop == 0 || len(ps) < in.Stop
						})
						return treeOut{List: list(ps)}
					})
				}
			}
		})
		ops := rec.Ops()
		c.Linear(treeModel, ops, "treemap-not-linearizable")
		if c.I < 2 {
			c.Sample(vh.Describe(ops))
		}
	})
	r.SeqCases("seq", r.N(600, 12000), 4, func(c *vh.Case) {
		switch c.I % 4 {
		case 0:
			treeSeq(c, func(i int) int { return i*7919 - 300000 })
		case 1:
			treeSeq(c, func(i int) string { return strings.Repeat("k", i%3) + fmt.Sprint(i) })
		case 2:
			treeSeq(c, func(i int) float64 { return float64(i)*1.5 - 1e3*float64(i%2) })
		case 3:
			treeSeq(c, func(i int) int8 { return int8(i) })
		}
	})
	r.Cases("big", r.N(60, 1500), 2, treeBig)
	r.Case("edges", 0, func(c *vh.Case) {
		c.Eval(1)
		m := hashmap.NewTreeMap[uint64, any](2)
		m.Ascend(func(uint64, any) bool { c.Violate("empty", "callback on an empty map"); return true })
		m.Descend(func(uint64, any) bool { c.Violate("empty", "callback on an empty map"); return true })
		m.Del(3)
		for _, k := range []uint64{math.MaxUint64, 0, 1 << 63, 1} {
			v, b := m.Put(k, nil)
			c.Check(v == nil && !b, "put-prev", "first Put(%d,nil) = %v,%v", k, v, b)
			v, b = m.Put(k, nil)
			c.Check(v == nil && b, "put-prev", "second Put(%d,nil) = %v,%v", k, v, b)
			v, b = m.Get(k)
			c.Check(v == nil && b, "get", "Get of nil value = %v,%v", v, b)
		}
		var ks []uint64
		m.Ascend(func(k uint64, _ any) bool { ks = append(ks, k); return true })
		c.Check(slices.Equal(ks, []uint64{0, 1, 1 << 63, math.MaxUint64}), "order", "unsigned keys ascend as %v", ks)
	})
}

// treeBig walks a large map while one writer stamps some of its keys, one after the other and always in the same
// order, and lets one entry wander: every instant has falling stamps along that order, which differ by one at most,
// and the wanderer in at least one place.
func treeBig(c *vh.Case) {
	n := []int{60, 300, 1100, 2500, 9000, 30000}[c.R.IntN(6)] + c.R.IntN(50)
	m := hashmap.NewTreeMap[int, int]([]int{2, 3, 8, 32, 64}[c.R.IntN(5)])
	for _, k := range vh.NewRand(c.R.Uint64()).Perm(n) {
		m.Put(4*k, -1)
	}
	toks := make([]int, 2+c.R.IntN(12))
	for i := range toks {
		toks[i] = 4 * (i * (n - 1) / (len(toks) - 1))
		m.Put(toks[i], 1)
	}
	up := c.R.IntN(2) == 0 // the order of the stamps
	at := 1
	m.Put(at, -2)
	seeds := []uint64{c.R.Uint64(), c.R.Uint64(), c.R.Uint64()}
	isTok := map[int]bool{}
	for _, k := range toks {
		isTok[k] = true
	}
	var left atomic.Int32
	left.Store(2)
	var walks, rounds atomic.Int64
	c.Par(3, func(g int) {
		rr := vh.NewRand(seeds[g])
		if g == 2 {
			v := 1
			for left.Load() > 0 && !c.Failed() {
				v++
				for i := range toks {
					if !up {
						i = len(toks) - 1 - i
					}
					m.Put(toks[i], v)
					if rr.IntN(3) == 0 {
						to := 4*rr.IntN(n) + 1
						if to != at {
							m.Put(to, -2)
							m.Del(at)
							at = to
						}
					}
				}
				rounds.Add(1)
			}
			return
		}
		defer left.Add(-1)
		for i := 0; i < 6 && !c.Failed(); i++ {
			desc := rr.IntN(2) == 0
			f := m.Ascend
			if desc {
				f = m.Descend
			}
			last, first, prev, cnt, wand, stamps := 0, 0, 0, 0, 0, 0
			f(func(k, v int) bool {
				if cnt++; cnt > 1 && (k > last) == desc || cnt > 1 && k == last {
					c.Violate("order", "walk of a map of %d (descending %v) gave %d after %d", n, desc, k, last)
				}
				last = k
				if v == -2 {
					wand++
				}
				if isTok[k] {
					if stamps++; stamps == 1 {
						first = v
					} else if up != desc && v > prev || up == desc && v < prev || v-first > 1 || first-v > 1 {
						c.Violate("not-one-instant", "walk of a map of %d keys (descending %v) while stamps are written in one order (ascending %v): first stamp %d, then %d followed by %d at key %d: no instant has these", n, desc, up, first, prev, v, k)
					}
					prev = v
				}
				return true
			})
			if cnt-wand != n || stamps != len(toks) || wand < 1 || wand > 2 {
				c.Violate("not-one-instant", "walk of a map of %d keys (descending %v) gave %d of them, %d of %d stamped keys and the wandering entry %d times", n, desc, cnt-wand, stamps, len(toks), wand)
			}
			walks.Add(1)
		}
	})
	c.Eval(int(walks.Load()))
	c.Observe("walks_of_large_maps", int(walks.Load()))
	c.Observe("stamp_rounds_meanwhile", int(rounds.Load()))
	c.Max("largest_map", n)
	c.Distinct(vh.Hash(c.Name(), n, len(toks), up))
}

func treeSeq[K cmp.Ordered](c *vh.Case, mk func(int) K) {
	deg := []int{2, 3, 4, 8, 32, 64}[c.R.IntN(6)]
	m := hashmap.NewTreeMap[K, int](deg)
	ref := map[K]int{}
	space := []int{4, 30, 300, 3000}[c.R.IntN(4)]
	n := space * 3
	fp := vh.Hash(c.Name(), deg, space)
	travs, maxN := 0, 0
	sorted := func() []K {
		ks := make([]K, 0, len(ref))
		for k := range ref {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return ks
	}
	bias := 3 + c.R.IntN(5)
	for i := 0; i < n && !c.Failed(); i++ {
		k := mk(c.R.IntN(space))
		if i == n/2 {
			bias = 9 - bias
		}
		switch x := c.R.IntN(12); {
		case x < bias:
			pv, pb := m.Put(k, i+1)
			ov, ob := ref[k]
			c.Check(pv == ov && pb == ob, "put-prev", "Put(%v) = %v,%v want %v,%v (degree %d)", k, pv, pb, ov, ob, deg)
			ref[k] = i + 1
		case x < 10:
			m.Del(k)
			delete(ref, k)
		default:
			v, b := m.Get(k)
			ov, ob := ref[k]
			c.Check(v == ov && b == ob, "get", "Get(%v) = %v,%v want %v,%v (degree %d)", k, v, b, ov, ob, deg)
		}
		maxN = max(maxN, len(ref))
		if space <= 30 || i%(space/6) == 0 || i == n-1 {
			ks := sorted()
			stop := 0
			if c.R.IntN(2) == 0 {
				stop = 1 + c.R.IntN(len(ks)+2)
			}
			for dir, f := range []func(func(K, int) bool){m.Ascend, m.Descend} {
				want := slices.Clone(ks)
				if dir == 1 {
					slices.Reverse(want)
				}
				if stop > 0 && stop < len(want) {
					want = want[:stop]
				}
				var got []K
				f(func(k K, v int) bool {
					got = append(got, k)
					if ref[k] != v {
						c.Violate("traversal-value", "traversal gave %v=%d, want %d", k, v, ref[k])
					}
					return stop == 0 || len(got) < stop
				})
				c.Check(slices.Equal(got, want), "traversal", "direction %d stop %d: got %d keys, want %d (degree %d, %d keys): %.300v want %.300v", dir, stop, len(got), len(want), deg, len(ks), got, want)
				travs++
			}
		}
	}
	c.Eval(1)
	c.Observe("sequential_operations", n)
	c.Observe("traversals_compared", travs)
	c.Max("largest_map", maxN)
	if maxN >= 3 && travs > 0 {
		c.Distinct(fp)
	}
	if c.I < 2 {
		c.Sample(map[string]any{"degree": deg, "key_space": space, "operations": n, "traversals": travs, "largest": maxN, "key_example": fmt.Sprintf("%T(%v)", mk(1), mk(1))})
	}
}
