package vh

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
)

// Par runs f(0..n-1) on n goroutines released together and waits for all. A panic in one is a violation.
func (c *Case) Par(n int, f func(g int)) {
	var wg sync.WaitGroup
	var ready atomic.Int32
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					c.Violate("panic", "panic: %v\n%s", e, debug.Stack())
				}
			}()
			ready.Add(1)
			for int(ready.Load()) < n {
				runtime.Gosched()
			}
			f(g)
		}()
	}
	wg.Wait()
}

// Rec records a concurrent history at the client boundary.
type Rec struct {
	t0  time.Time
	ops [][]porcupine.Operation
}

func NewRec(clients int) *Rec {
	return &Rec{t0: time.Now(), ops: make([][]porcupine.Operation, clients)}
}

// Do records the call in by client and its result; f runs the operation.
func (r *Rec) Do(client int, in any, f func() any) {
	c := int64(time.Since(r.t0))
	out := f()
	r.ops[client] = append(r.ops[client], porcupine.Operation{ClientId: client, Input: in, Call: c, Output: out, Return: int64(time.Since(r.t0))})
}

func (r *Rec) Ops() []porcupine.Operation {
	var all []porcupine.Operation
	for _, o := range r.ops {
		all = append(all, o...)
	}
	return all
}

// Shape fingerprints a history by the order of its call and return events and their contents; it also
// counts the pairs of operations that overlapped in time.
func Shape(ops []porcupine.Operation) (fp uint64, overlaps int) {
	type ev struct {
		t   int64
		op  int
		ret bool
	}
	evs := make([]ev, 0, 2*len(ops))
	for i, o := range ops {
		evs = append(evs, ev{o.Call, i, false}, ev{o.Return, i, true})
	}
	sort.SliceStable(evs, func(i, j int) bool {
		if evs[i].t != evs[j].t {
			return evs[i].t < evs[j].t
		}
		return !evs[i].ret && evs[j].ret
	})
	var b strings.Builder
	open := 0
	for _, e := range evs {
		o := ops[e.op]
		if e.ret {
			open--
			fmt.Fprintf(&b, "r%d:%v;", o.ClientId, o.Output)
		} else {
			overlaps += open
			open++
			fmt.Fprintf(&b, "c%d:%v;", o.ClientId, o.Input)
		}
	}
	return Hash(b.String()), overlaps
}

// Linear checks a history against a sequential model.
func (c *Case) Linear(m porcupine.Model, ops []porcupine.Operation, sig string) bool {
	fp, ov := Shape(ops)
	c.Eval(1)
	c.Observe("histories", 1)
	c.Observe("operations", len(ops))
	c.Observe("overlapping_operation_pairs", ov)
	if ov > 0 {
		c.Distinct(fp)
	}
	switch porcupine.CheckOperationsTimeout(m, ops, 20*time.Second) {
	case porcupine.Illegal:
		c.Violate(sig, "history is not linearizable:\n%s", Describe(ops))
		return false
	case porcupine.Unknown:
		c.Observe("checker_timeouts", 1)
	}
	return true
}

// Describe writes a history out in order of the calls.
func Describe(ops []porcupine.Operation) string {
	s := append([]porcupine.Operation(nil), ops...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Call < s[j].Call })
	var b strings.Builder
	for i, o := range s {
		if i == 120 {
			b.WriteString("...\n")
			break
		}
		fmt.Fprintf(&b, "client %d [%d,%d] %+v -> %+v\n", o.ClientId, o.Call, o.Return, o.Input, o.Output)
	}
	return b.String()
}

// Batch checks that removing many keys in one call is one step: after seeing one of them gone, no observer may
// find another one still there.
func (c *Case) Batch(n int, put func(int), has func(int) bool, removeAll func([]int)) {
	seed := c.R.Uint64()
	torn := 0
	for round := 0; round < 4 && !c.Failed(); round++ {
		keys := c.R.Perm(n)
		for k := 0; k < n; k++ {
			put(k)
		}
		var seen atomic.Int64
		var done atomic.Bool
		c.Par(3, func(g int) {
			if g == 0 {
				for k := int(seed>>8) % 40; k > 0; k-- {
					runtime.Gosched()
				}
				removeAll(keys)
				done.Store(true)
				return
			}
			rr := NewRand(seed + uint64(round*3+g))
			for gone := 0; gone < 3; {
				i, j := rr.IntN(n), rr.IntN(n)
				if i == j {
					continue
				}
				if g == 1 && i > j { // later in the list may still be there when earlier ones are gone
					i, j = j, i
				}
				over := done.Load()
				if has(keys[i]) {
					seen.Add(1)
					if over {
						c.Violate("torn-batch", "%d keys removed by one call: key %d (at %d in the list) is still there after it returned", n, keys[i], i)
						return
					}
					continue
				}
				gone++
				if has(keys[j]) {
					c.Violate("torn-batch", "%d keys removed by one call: key %d (at %d in the list) was gone while key %d (at %d) was still there afterwards", n, keys[i], i, keys[j], j)
					return
				}
			}
		})
		if seen.Load() > 0 {
			torn++
		}
	}
	c.Eval(1)
	c.Observe("batch_removals_observed", torn)
	c.Distinct(Hash(c.Name(), n, torn))
}
