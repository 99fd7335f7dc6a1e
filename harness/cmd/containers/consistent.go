package main

import (
	"fmt"
	"slices"
	"sync/atomic"

	"github.com/donnie4w/gofer/hashmap"
	"verifharness/vh"
)

func ring(reps int, nodes []int64) *hashmap.Consistenthash {
	h := hashmap.NewConsistenthash(reps)
	h.Add(nodes...)
	return h
}

func m08(r *vh.Run) {
	r.Rule("each case grows and shrinks one ring by a random membership history over random 64-bit (also negative, zero and adjacent) nodes and after each change compares the routing of 200 string and integer keys with the routing before it, with fresh rings of the same members built in other orders, and the next-nodes list with the owners found by removing members one by one; non-trivial when at least two different members owned keys")
	r.Cases("ring", r.N(1500, 30000), 0, func(c *vh.Case) {
		reps := []int{1, 1, 2, 3, 10, 50, 160}[c.R.IntN(7)]
		h := hashmap.NewConsistenthash(reps)
		members := map[int64]bool{}
		const nk = 100
		var skeys [nk]string
		var ikeys [nk]int64
		for i := range skeys {
			skeys[i] = fmt.Sprintf("%x-%d", c.R.Uint64(), i)
			ikeys[i] = int64(c.R.Uint64()) >> c.R.IntN(60)
		}
		skeys[0] = ""
		ikeys[0] = 0
		base := int64(c.R.Uint64())
		pick := func() int64 {
			switch c.R.IntN(5) {
			case 0:
				return int64(c.R.IntN(20)) - 5
			case 1:
				return base + int64(c.R.IntN(10))
			case 2:
				return int64(c.R.IntN(8)) << 32
			}
			return int64(c.R.Uint64())
		}
		list := func() (ns []int64) {
			for n := range members {
				ns = append(ns, n)
			}
			slices.Sort(ns)
			return
		}
		route := func(h *hashmap.Consistenthash) (o [2 * nk]int64, ok bool) {
			ok = true
			for i := range skeys {
				n, b := h.GetStr(skeys[i])
				o[i] = n
				ok = ok && b
				n, b = h.Get(ikeys[i])
				o[nk+i] = n
				ok = ok && b
			}
			return
		}
		checkEmpty := func(h *hashmap.Consistenthash, what string) {
			if p := vh.Try(func() {
				n, ok := h.Get(7)
				n2, ok2 := h.GetStr("x")
				ns, ok3 := h.GetNextNodeStr("x", 3)
				c.Check(!ok && !ok2 && !ok3 && n == 0 && n2 == 0 && len(ns) == 0, "empty-ring", "%s: lookups gave %d,%v %d,%v %v,%v", what, n, ok, n2, ok2, ns, ok3)
				c.Check(len(h.Nodes()) == 0, "empty-ring", "%s: Nodes %v", what, h.Nodes())
			}); p != "" {
				c.Violate("empty-ring", "%s: lookup panics: %s", what, p)
			}
		}
		checkEmpty(h, "new ring")
		var prev [2 * nk]int64
		prevN := 0
		moved, owners := 0, 0
		for step := 0; step < 14 && !c.Failed(); step++ {
			var added, removed []int64
			grow := c.R.IntN(10) < 6
			if step == 13 { // end by removing everything
				for _, n := range list() {
					h.Del(n)
					delete(members, n)
				}
				checkEmpty(h, "ring with every node deleted")
				h.Add(base)
				n, ok := h.Get(1)
				c.Check(ok && n == base, "refill", "after refilling with %d: Get = %d,%v", base, n, ok)
				h.Del(base)
				break
			}
			if grow {
				for j := 0; j <= c.R.IntN(3); j++ {
					n := pick()
					if !members[n] {
						added = append(added, n)
					}
					members[n] = true
					if c.R.IntN(2) == 0 {
						h.Add(n)
					} else {
						h.Add(n, n)
					}
				}
			} else if ns := list(); len(ns) > 0 {
				n := ns[c.R.IntN(len(ns))]
				removed = append(removed, n)
				delete(members, n)
				h.Del(n)
				if x := pick(); !members[x] {
					h.Del(x)
				}
			}
			got := h.Nodes()
			slices.Sort(got)
			c.Check(slices.Equal(got, list()), "nodes", "Nodes()=%v, members %v", got, list())
			if len(members) == 0 {
				checkEmpty(h, "emptied ring")
				prevN = 0
				continue
			}
			cur, ok := route(h)
			c.Check(ok, "lookup-fails", "a lookup failed with %d members", len(members))
			distinct := map[int64]bool{}
			for i, n := range cur {
				distinct[n] = true
				if !members[n] {
					c.Violate("non-member", "key %d routed to %d, not a member", i, n)
					break
				}
				if prevN > 0 && n != prev[i] {
					moved++
					if len(added) > 0 && !slices.Contains(added, n) {
						c.Violate("disruption", "adding %v moved a key from %d to old member %d", added, prev[i], n)
						break
					}
					if len(added) == 0 && !slices.Contains(removed, prev[i]) {
						c.Violate("disruption", "removing %v moved a key of %d to %d", removed, prev[i], n)
						break
					}
				}
			}
			owners = max(owners, len(distinct))
			// same members, other orders and histories
			ns := list()
			c.R.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
			h2 := hashmap.NewConsistenthash(reps)
			for _, n := range ns {
				h2.Add(n)
				if c.R.IntN(3) == 0 {
					x := pick()
					if !members[x] {
						h2.Add(x)
						h2.Del(x)
					}
				}
			}
			o2, _ := route(h2)
			c.Check(o2 == cur, "order-dependent", "%d members, %d replicas: routing depends on the order of additions", len(ns), reps)
			// ring order of the next nodes: owners after removing the previous ones
			for q := 0; q < 4; q++ {
				key := skeys[c.R.IntN(nk)]
				stepN := []int{1, 2, 3, len(ns) - 1, len(ns), len(ns) + 3, 0}[c.R.IntN(7)]
				next, ok := h.GetNextNodeStr(key, stepN)
				want := []int64{}
				h3 := ring(reps, ns)
				for len(want) < min(stepN, len(ns)-1) {
					o, _ := h3.GetStr(key)
					h3.Del(o)
					o2, b := h3.GetStr(key)
					if !b {
						break
					}
					want = append(want, o2)
				}
				c.Check(ok && slices.Equal(next, want), "next-nodes", "GetNextNodeStr(%q,%d) with %d members, %d replicas = %v,%v want %v", key, stepN, len(ns), reps, next, ok, want)
				c.Observe("next_node_lists_compared", 1)
			}
			prev, prevN = cur, len(ns)
			c.Observe("membership_changes", len(added)+len(removed))
		}
		c.Eval(1)
		c.Observe("keys_moved", moved)
		if owners >= 2 {
			c.Distinct(vh.Hash(c.Name(), reps, moved))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"replicas": reps, "largest_owner_count": owners, "keys_moved_in_total": moved})
		}
	})
	r.Cases("big-ring", r.N(24, 240), 0, func(c *vh.Case) {
		// many members or many points; every member in turn follows
		reps := []int{1, 3, 20, 100, 400}[c.I%5]
		n := 30 + c.R.IntN(min(400, 24000/reps))
		if reps == 1 && c.I%2 == 0 {
			n = 3000 + c.R.IntN(7000)
		}
		var ns []int64
		seen := map[int64]bool{}
		for len(ns) < n {
			x := int64(c.R.Uint64()) >> c.R.IntN(50)
			if !seen[x] {
				seen[x] = true
				ns = append(ns, x)
			}
		}
		h := ring(reps, ns)
		key := fmt.Sprint("key", c.R.Uint64())
		step := []int{n - 1, n, n + 50, n / 2, 200}[c.R.IntN(5)]
		next, ok := h.GetNextNodeStr(key, step)
		c.Check(ok && len(next) == min(step, n-1), "next-nodes", "GetNextNodeStr with step %d, %d members, %d replicas: %d nodes, %v", step, n, reps, len(next), ok)
		owner, ok := h.GetStr(key)
		dup := map[int64]bool{owner: true}
		for i, x := range next {
			if !seen[x] || dup[x] {
				c.Violate("next-nodes", "the next nodes of %d members, %d replicas: the one at %d is a repetition, the owner or no member", n, reps, i)
				return
			}
			dup[x] = true
		}
		got := h.Nodes()
		slices.Sort(got)
		slices.Sort(ns)
		c.Check(ok && slices.Equal(got, ns), "nodes", "Nodes() of a ring of %d members lists %d", n, len(got))
		// the owner, then the next nodes, leave
		for i := 0; i < min(len(next), 40); i++ {
			h.Del(owner)
			o, ok := h.GetStr(key)
			if !ok || o != next[i] {
				c.Violate("next-nodes", "%d members, %d replicas: after %d owners had left the key is at %d,%v, next nodes say %d", n, reps, i+1, o, ok, next[i])
				return
			}
			owner = o
		}
		c.Eval(1)
		c.Max("members", n)
		c.Max("points", n*reps)
		c.Observe("long_next_node_lists", 1)
		c.Distinct(vh.Hash(c.Name(), n, reps, step))
	})
}

func m09(r *vh.Run) {
	r.Rule("each case runs lookups (Get, GetStr, GetNextNodeStr, Nodes) in 4 goroutines while one or two others add and remove nodes around a fixed core; every returned node is checked against its logged membership intervals, and routing against a fresh ring whenever membership did not change during the call; non-trivial when lookups overlapped membership changes")
	r.Cases("churn", r.N(400, 8000), 2, func(c *vh.Case) {
		reps := 1 + c.R.IntN(20)
		core := 1 + c.R.IntN(3)
		h := hashmap.NewConsistenthash(reps)
		for i := 0; i < core; i++ {
			h.Add(int64(i))
		}
		// node i>=core: state counts begin/end of Add and Del, so a reader can tell that it was never a member during its call
		const vol = 4
		type st struct{ addStart, delEnd atomic.Int64 }
		var state [vol]st
		var version atomic.Int64 // even: no change in flight
		var stop atomic.Bool
		var lookups, overlapped, stable atomic.Int64
		seeds := make([]uint64, 6)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		// rings for every subset of volatile nodes
		rings := make([]*hashmap.Consistenthash, 1<<vol)
		for s := range rings {
			rings[s] = hashmap.NewConsistenthash(reps)
			for i := 0; i < core; i++ {
				rings[s].Add(int64(i))
			}
			for v := 0; v < vol; v++ {
				if s>>v&1 == 1 {
					rings[s].Add(int64(core + v))
				}
			}
		}
		var subset atomic.Int64
		var hist [81]atomic.Int64 // membership after that many changes
		var done atomic.Int32
		c.Par(6, func(g int) {
			rr := vh.NewRand(seeds[g])
			if g == 0 { // one writer keeps the log exact
				defer stop.Store(true)
				for i := 0; i < 80; i++ {
					v := rr.IntN(vol)
					s := subset.Load()
					hist[i+1].Store(s ^ 1<<v)
					version.Add(1)
					if s>>v&1 == 0 {
						state[v].addStart.Add(1)
						h.Add(int64(core + v))
						subset.Store(s | 1<<v)
					} else {
						h.Del(int64(core + v))
						state[v].delEnd.Add(1)
						subset.Store(s &^ (1 << v))
					}
					version.Add(1)
					for w := done.Load(); rr.IntN(3) > 0 && done.Load() == w && !stop.Load(); {
						vh.Yield()
					}
				}
				return
			}
			for !stop.Load() {
				var adds, dels [vol]int64
				for v := range state {
					dels[v] = state[v].delEnd.Load()
				}
				v0 := version.Load()
				num := int64(rr.IntN(1000))
				key := fmt.Sprint(num)
				var got []int64
				kind := rr.IntN(4)
				ok := true
				switch kind {
				case 0:
					n, b := h.GetStr(key)
					got, ok = []int64{n}, b
				case 1:
					n, b := h.Get(num)
					got, ok = []int64{n}, b
				case 2:
					got, ok = h.GetNextNodeStr(key, 3)
				default:
					got = h.Nodes()
				}
				v1 := version.Load()
				for v := range state {
					adds[v] = state[v].addStart.Load()
				}
				lookups.Add(1)
				done.Add(1)
				if !ok {
					c.Violate("lookup-fails", "lookup failed although %d nodes are always members", core)
				}
				for _, n := range got {
					if n < 0 || n >= int64(core+vol) {
						c.Violate("non-member", "lookup returned %d, never a member", n)
					} else if n >= int64(core) {
						// adds started by the end == dels ended before the start: not a member at any instant of the call
						if v := n - int64(core); adds[v] == dels[v] {
							c.Violate("non-member", "lookup returned %d, which was no member during the call", n)
						}
					}
				}
				// memberships in force at some instant of the call: after v0/2 changes up to after (v1+1)/2
				from, to := v0/2, (v1+1)/2
				if from == to {
					stable.Add(1)
				} else {
					overlapped.Add(1)
				}
				agree := false
				var want []int64
				for i := to; i >= from && !agree; i-- {
					ref := rings[hist[i].Load()]
					switch kind {
					case 0:
						n, _ := ref.GetStr(key)
						want = []int64{n}
					case 1:
						n, _ := ref.Get(num)
						want = []int64{n}
					case 2:
						want, _ = ref.GetNextNodeStr(key, 3)
					default:
						want = ref.Nodes()
						slices.Sort(want)
						slices.Sort(got)
					}
					agree = slices.Equal(got, want)
				}
				if !agree && from == to {
					c.Violate("stable-lookup", "with members fixed during the call, lookup kind %d of %q/%d gave %v want %v", kind, key, num, got, want)
				} else if !agree {
					c.Violate("torn-lookup", "lookup kind %d of %q/%d gave %v, which no membership during the call gives (after %d to %d changes; the first gives %v)", kind, key, num, got, from, to, want)
				}
			}
		})
		c.Eval(1)
		c.Observe("lookups", int(lookups.Load()))
		c.Observe("lookups_overlapping_a_change", int(overlapped.Load()))
		c.Observe("lookups_with_stable_membership", int(stable.Load()))
		if overlapped.Load() > 0 {
			c.Distinct(vh.Hash(c.Name(), lookups.Load(), overlapped.Load()))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"replicas": reps, "core": core, "lookups": lookups.Load(), "overlapping": overlapped.Load(), "stable": stable.Load()})
		}
	})
	// several writers, disjoint nodes: no loss of members
	r.Cases("writers", r.N(150, 2000), 2, func(c *vh.Case) {
		h := hashmap.NewConsistenthash(1 + c.R.IntN(5))
		c.Par(4, func(g int) {
			for i := 0; i < 20; i++ {
				h.Add(int64(g*100 + i))
				if _, ok := h.Get(int64(i)); !ok {
					c.Violate("lookup-fails", "lookup failed although this goroutine's node is a member")
				}
				if i%3 == 0 {
					h.Del(int64(g*100 + i))
				}
				if i == 0 {
					h.Add(int64(g*100 + 50))
				}
			}
		})
		want := map[int64]bool{}
		for g := 0; g < 4; g++ {
			want[int64(g*100+50)] = true
			for i := 0; i < 20; i++ {
				if i%3 != 0 {
					want[int64(g*100+i)] = true
				}
			}
		}
		got := h.Nodes()
		c.Check(len(got) == len(want), "members", "%d members, want %d", len(got), len(want))
		var ns []int64
		for n := range want {
			ns = append(ns, n)
		}
		for _, n := range got {
			c.Check(want[n], "members", "unexpected member %d", n)
		}
		c.Eval(1)
		c.Observe("concurrent_writer_runs", 1)
		owners := map[int64]bool{}
		for i := 0; i < 300; i++ {
			n, ok := h.GetStr(fmt.Sprint(i))
			owners[n] = true
			c.Check(ok && want[n], "non-member", "key routed to %d,%v", n, ok)
		}
	})
}
