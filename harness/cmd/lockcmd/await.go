package main

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/lock"
	"verifharness/vh"
)

// waiter is the part Await and FastAwait have in common.
type waiter interface {
	Wait(id int64, timeout time.Duration) (int, error)
	WaitWithCancel(ctx context.Context, id int64, timeout time.Duration) (int, bool, error)
	CloseAndPut(id int64, v int) error
	Close(id int64) error
}

const forever = 20 * time.Minute

// waitOnce waits for id by one of the waiting calls, without a timeout that could expire.
func waitOnce(w waiter, rr *rand.Rand, id int64) (v int, cancel bool, err error, kind string) {
	to := []time.Duration{0, forever, -1}[rr.IntN(3)]
	switch rr.IntN(3) {
	case 0:
		if a, ok := w.(*lock.Await[int]); ok {
			var wg *sync.WaitGroup
			if rr.IntN(2) == 0 {
				wg = &sync.WaitGroup{}
				wg.Add(1)
			}
			v, err = a.SyncWait(wg, id, to)
			if wg != nil {
				wg.Wait() // released exactly once: a second Done would have panicked into err
			}
			return v, false, err, "SyncWait"
		}
		fallthrough
	case 1:
		v, err = w.Wait(id, to)
		return v, false, err, "Wait"
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	v, cancel, err = w.WaitWithCancel(ctx, id, to)
	return v, cancel, err, "WaitWithCancel"
}

func ids(c *vh.Case, n int) []int64 {
	base := int64(c.R.Uint64())
	pool := []int64{0, -1, math.MinInt64, math.MaxInt64, 1 << 40}
	out := make([]int64, n)
	seen := map[int64]bool{}
	for i := range out {
		out[i] = base + int64(i)
		if c.R.IntN(6) == 0 {
			out[i] = pool[c.R.IntN(len(pool))]
		}
		for seen[out[i]] {
			out[i] = int64(c.R.Uint64())
		}
		seen[out[i]] = true
	}
	return out
}

var nextID atomic.Int64

// deliver runs one waiter and one putter (or closer) per id, in random start orders.
func deliver(c *vh.Case, w waiter, what string, shared bool) {
	n := 2 + c.R.IntN(20)
	id := ids(c, n)
	if shared { // ids are used once
		for i := range id {
			id[i] = nextID.Add(1) * 0x1E3779B97F4A7C15
		}
	}
	seeds := make([]uint64, 2*n)
	for i := range seeds {
		seeds[i] = c.R.Uint64()
	}
	closes := make([]bool, n)
	for i := range closes {
		closes[i] = c.R.IntN(5) == 0
	}
	var waiting [64]atomic.Bool
	var late, early atomic.Int64
	kinds := make([]string, n)
	c.Par(2*n, func(g int) {
		rr := vh.NewRand(seeds[g])
		i := g / 2
		spin(rr.IntN(30))
		if g%2 == 0 {
			waiting[i].Store(true)
			v, cancel, err, kind := waitOnce(w, rr, id[i])
			kinds[i] = kind
			want := i*1000 + 7
			if closes[i] {
				want = 0
			}
			if v != want || err != nil || cancel {
				c.Violate("delivery", "%s.%s(%d) = %d,cancel=%v,%v want %d (close=%v)", what, kind, id[i], v, cancel, err, want, closes[i])
			}
			return
		}
		if waiting[i].Load() {
			late.Add(1)
		} else {
			early.Add(1)
		}
		var err error
		if closes[i] {
			err = w.Close(id[i])
		} else {
			err = w.CloseAndPut(id[i], i*1000+7)
		}
		if err != nil {
			c.Violate("put-error", "%s: put/close for %d returned %v", what, id[i], err)
		}
	})
	if a, ok := w.(*lock.Await[int]); ok {
		for _, x := range id {
			c.Check(!a.Has(x), "left-behind", "id %d still registered after its wait", x)
		}
	}
	c.Eval(1)
	c.Observe("deliveries", n)
	c.Observe("puts_started_before_the_wait", int(early.Load()))
	c.Observe("puts_started_after_the_wait", int(late.Load()))
	c.Distinct(vh.Hash(c.Name(), n, early.Load()))
	if c.I < 2 {
		c.Sample(map[string]any{"api": what, "ids": fmt.Sprint(id), "waits": kinds, "puts_first": early.Load(), "waits_first": late.Load()})
	}
}

func l04(r *vh.Run) {
	r.Rule("each case runs one waiter and one putter or closer for each of 2-21 distinct 64-bit ids on one Await with 1-16 stripes, all at once and in random start order, with values unique per id; non-trivial always; fingerprint is the case and the number of puts that started before their wait")
	r.Cases("deliver", r.N(1500, 25000), 4, func(c *vh.Case) {
		deliver(c, lock.NewAwait[int](1+c.R.IntN(16)), "Await", false)
	})
	// several users of one id: Get hands all of them the same channel, and the value arrives once
	r.Cases("shared-id", r.N(1500, 20000), 4, func(c *vh.Case) {
		a := lock.NewAwait[int](1 + c.R.IntN(16))
		id := ids(c, 1)[0]
		k := 2 + c.R.IntN(5)
		waiters := 0
		if c.R.IntN(2) == 0 {
			waiters = 1 + c.R.IntN(3)
		}
		chs := make([]chan int, k)
		var received, zero atomic.Int64
		var left atomic.Int64
		left.Store(int64(k + waiters))
		var got, put atomic.Int64
		c.Par(k+waiters+1, func(g int) {
			switch {
			case g < k: // channel users
				chs[g] = a.Get(id)
				got.Add(1)
				if v := <-chs[g]; v == 77 {
					received.Add(1)
				} else if v == 0 {
					zero.Add(1)
				} else {
					c.Violate("delivery", "a user of id %d received %d", id, v)
				}
				left.Add(-1)
			case g < k+waiters:
				v, err := a.Wait(id, 0)
				if v == 77 {
					received.Add(1)
				} else if v == 0 {
					zero.Add(1)
				} else {
					c.Violate("delivery", "a waiter of id %d received %d", id, v)
				}
				if err != nil {
					c.Violate("delivery", "a waiter of id %d got the error %v", id, err)
				}
				left.Add(-1)
			default:
				if waiters == 0 { // nothing unregisters the id before the put
					for got.Load() < int64(k) {
						vh.Yield()
					}
				}
				if err := a.CloseAndPut(id, 77); err != nil {
					c.Violate("put-error", "put for %d returned %v", id, err)
				}
				put.Add(1)
				for left.Load() > 0 { // users that came after the put
					if a.Has(id) {
						if err := a.Close(id); err != nil {
							c.Violate("put-error", "close of %d returned %v", id, err)
						}
					}
					vh.Yield()
				}
			}
		})
		c.Check(received.Load() == 1, "delivery", "%d channel users and %d waiters of id %d: the value arrived %d times", k, waiters, id, received.Load())
		if waiters == 0 {
			for _, ch := range chs {
				c.Check(ch == chs[0], "two-channels", "concurrent Get calls for one id returned different channels")
			}
		}
		c.Eval(1)
		c.Observe("users_of_a_shared_id", k+waiters)
		c.Distinct(vh.Hash(c.Name(), k, waiters))
	})
	typed(r, func(c *vh.Case, k int) { typedAll(c, newAwaits{}, k) })
	// a channel user may come late to its channel: put and close do not wait for it
	r.Cases("held-channel", r.N(300, 4000), 4, func(c *vh.Case) {
		a := lock.NewAwait[int](1 + c.R.IntN(3))
		n := 1 + c.R.IntN(8)
		id := ids(c, n)
		chs := make([]chan int, n)
		for i := range id {
			chs[i] = a.Get(id[i])
			c.Check(a.Has(id[i]) && a.Get(id[i]) == chs[i], "two-channels", "id %d: Has %v after Get, or a second Get gives another channel", id[i], a.Has(id[i]))
		}
		for i := range id {
			var err error
			if i%3 == 2 {
				err = a.Close(id[i])
			} else {
				err = a.CloseAndPut(id[i], i+1)
			}
			c.Check(err == nil, "put-error", "put or close for %d: %v", id[i], err)
			c.Check(!a.Has(id[i]), "left-behind", "id %d still registered after its put", id[i])
		}
		for i, ch := range chs {
			if v, ok := <-ch; i%3 == 2 {
				c.Check(!ok && v == 0, "delivery", "closed id %d gave %d,%v", id[i], v, ok)
			} else {
				c.Check(ok && v == i+1, "delivery", "id %d gave %d,%v want %d", id[i], v, ok, i+1)
				v, ok = <-ch
				c.Check(!ok && v == 0, "delivery", "id %d gave its channel's users a second value %d,%v", id[i], v, ok)
			}
		}
		c.Eval(1)
		c.Observe("puts_for_users_that_read_later", n)
		c.Distinct(vh.Hash(c.Name(), n))
	})
	r.Cases("other-ids", r.N(6, 60), 6, func(c *vh.Case) { otherIds(c, lock.NewAwait[int](1), "Await") })
	r.Cases("ahead", r.N(24, 240), 24, func(c *vh.Case) { ahead(c, lock.NewAwait[int](1+c.R.IntN(8)), "Await", 500*time.Millisecond) })
}

// otherIds delivers while puts and closes for ids nobody waits for are under way.
func otherIds(c *vh.Case, w waiter, what string) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i%2 == 0 {
				w.Close(int64(1000 + i))
			} else {
				w.CloseAndPut(int64(1000+i), 1)
			}
		}()
	}
	best := time.Hour
	for i := int64(0); i < 6 && best > 400*time.Millisecond; i++ {
		done := make(chan struct{})
		t0 := time.Now()
		go func() {
			v, err := w.Wait(i, forever)
			c.Check(v == 7 && err == nil, "delivery", "%s: wait for id %d while idle puts are under way = %d,%v", what, i, v, err)
			close(done)
		}()
		time.Sleep(5 * time.Millisecond)
		err := w.CloseAndPut(i, 7)
		c.Check(err == nil, "put-error", "%s: put for %d: %v", what, i, err)
		<-done
		best = min(best, time.Since(t0))
	}
	c.Check(best < 400*time.Millisecond, "other-ids", "%s: while puts for ids nobody waits for are under way each of 6 deliveries took at least %v", what, best)
	wg.Wait()
	c.Eval(1)
	c.Observe("deliveries_beside_idle_puts", 1)
	c.Distinct(vh.Hash(c.Name(), what))
}

// gwaiter is waiter for any type of value.
type gwaiter[T any] interface {
	Wait(id int64, timeout time.Duration) (T, error)
	WaitWithCancel(ctx context.Context, id int64, timeout time.Duration) (T, bool, error)
	CloseAndPut(id int64, v T) error
	Close(id int64) error
}

type big struct {
	a int64
	s string
	p *int
	f any
}

type makers interface {
	anys() gwaiter[any]
	errs() gwaiter[error]
	slices() gwaiter[[]byte]
	funcs() gwaiter[func() int]
	bigs() gwaiter[big]
	empties() gwaiter[struct{}]
	chans() gwaiter[chan int]
	strs() gwaiter[string]
}
type newAwaits struct{}

func (newAwaits) anys() gwaiter[any]         { return lock.NewAwait[any](2) }
func (newAwaits) errs() gwaiter[error]       { return lock.NewAwait[error](2) }
func (newAwaits) slices() gwaiter[[]byte]    { return lock.NewAwait[[]byte](2) }
func (newAwaits) funcs() gwaiter[func() int] { return lock.NewAwait[func() int](2) }
func (newAwaits) bigs() gwaiter[big]         { return lock.NewAwait[big](2) }
func (newAwaits) empties() gwaiter[struct{}] { return lock.NewAwait[struct{}](2) }
func (newAwaits) chans() gwaiter[chan int]   { return lock.NewAwait[chan int](2) }
func (newAwaits) strs() gwaiter[string]      { return lock.NewAwait[string](2) }

type newFasts struct{}

func (newFasts) anys() gwaiter[any]         { return lock.NewFastAwait2[any](500) }
func (newFasts) errs() gwaiter[error]       { return lock.NewFastAwait2[error](500) }
func (newFasts) slices() gwaiter[[]byte]    { return lock.NewFastAwait2[[]byte](500) }
func (newFasts) funcs() gwaiter[func() int] { return lock.NewFastAwait2[func() int](500) }
func (newFasts) bigs() gwaiter[big]         { return lock.NewFastAwait2[big](500) }
func (newFasts) empties() gwaiter[struct{}] { return lock.NewFastAwait2[struct{}](500) }
func (newFasts) chans() gwaiter[chan int]   { return lock.NewFastAwait2[chan int](500) }
func (newFasts) strs() gwaiter[string]      { return lock.NewFastAwait2[string](500) }

// typedOne puts v (or closes) for one waiter; show tells values apart.
func typedOne[T any](c *vh.Case, w gwaiter[T], v T, closeIt bool, show func(T) string) {
	var zero, got T
	var err, perr error
	var cancel bool
	id := int64(c.R.Uint64())
	kind, order := c.R.IntN(2), c.R.IntN(3)
	c.Par(2, func(g int) {
		if g == 0 {
			spin(order * 5)
			if kind == 0 {
				got, err = w.Wait(id, forever)
			} else {
				got, cancel, err = w.WaitWithCancel(context.Background(), id, 0)
			}
			return
		}
		spin(5)
		if closeIt {
			perr = w.Close(id)
		} else {
			perr = w.CloseAndPut(id, v)
		}
	})
	if closeIt {
		v = zero
	}
	c.Check(err == nil && perr == nil && !cancel && show(got) == show(v), "delivery", "%T: value %s (close %v) arrived as %s, cancel %v, wait error %v, put error %v", w, show(v), closeIt, show(got), cancel, err, perr)
	c.Observe("values_of_unusual_types", 1)
}

func typedAll(c *vh.Case, m makers, k int) {
	x := 5
	str := func(v any) string { return fmt.Sprintf("%T %v", v, v) }
	closeIt := k%11 == 10
	switch k % 8 {
	case 0:
		for i := 0; i < 9; i++ {
			typedOne(c, m.anys(), vh.OddValue(i), closeIt, vh.UnOdd)
		}
	case 1:
		for _, e := range []error{nil, fmt.Errorf("e"), context.Canceled, (*odd)(nil)} {
			typedOne(c, m.errs(), e, closeIt, func(e error) string { return fmt.Sprintf("%T %v", e, e == nil) })
		}
	case 2:
		for _, b := range [][]byte{nil, {}, {0}, make([]byte, 100000)} {
			typedOne(c, m.slices(), b, closeIt, func(b []byte) string { return fmt.Sprintf("%v %d", b == nil, len(b)) })
		}
	case 3:
		for _, f := range []func() int{nil, func() int { return 8 }} {
			typedOne(c, m.funcs(), f, closeIt, func(f func() int) string {
				if f == nil {
					return "nil"
				}
				return fmt.Sprint(f())
			})
		}
	case 4:
		for _, b := range []big{{}, {7, "x", &x, nil}, {f: []int{1}}} {
			typedOne(c, m.bigs(), b, closeIt, func(b big) string { return str(b) })
		}
	case 5:
		typedOne(c, m.empties(), struct{}{}, closeIt, func(struct{}) string { return "" })
	case 6:
		for _, ch := range []chan int{nil, make(chan int), make(chan int, 1)} {
			typedOne(c, m.chans(), ch, closeIt, func(c chan int) string { return str(c) })
		}
	case 7:
		for _, s := range []string{"", "\x00", "value"} {
			typedOne(c, m.strs(), s, closeIt, func(s string) string { return s })
		}
	}
	c.Eval(1)
	c.Distinct(vh.Hash("typed", k%8, closeIt))
}

type odd struct{}

func (*odd) Error() string { return "odd" }

func typed(r *vh.Run, f func(c *vh.Case, k int)) {
	r.Cases("types", r.N(176, 1760), 8, func(c *vh.Case) { f(c, c.I) })
}

// ctxOf is a context of the caller's own making.
type ctxOf struct {
	context.Context
	done chan struct{}
}

func (x ctxOf) Done() <-chan struct{} { return x.done }
func (x ctxOf) Err() error {
	select {
	case <-x.done:
		return fmt.Errorf("ended by its owner")
	default:
		return nil
	}
}

type ctxKey struct{}

// cancellable makes contexts of all kinds; end ends one.
func cancellable(c *vh.Case) (ctx context.Context, end func(), kind string) {
	switch kind = []string{"cancel", "cause", "deadline", "own", "child", "value", "timeout-far", "child-of-own"}[c.R.IntN(8)]; kind {
	case "cause":
		x, f := context.WithCancelCause(context.Background())
		return x, func() { f(fmt.Errorf("cause")) }, kind
	case "deadline":
		x, f := context.WithDeadline(context.Background(), time.Now().Add(time.Duration(c.R.IntN(3))*time.Millisecond))
		return x, f, kind
	case "own", "child-of-own":
		x := ctxOf{context.Background(), make(chan struct{})}
		var once sync.Once
		over := func() { once.Do(func() { close(x.done) }) }
		if kind == "own" {
			return x, over, kind
		}
		y, f := context.WithTimeout(x, time.Hour)
		return y, func() { over(); f() }, kind
	case "child":
		x, f := context.WithCancel(context.Background())
		y, g := context.WithCancel(x)
		return y, func() { f(); g() }, kind
	case "value":
		x, f := context.WithCancel(context.Background())
		return context.WithValue(x, ctxKey{}, 1), f, kind
	case "timeout-far":
		x, f := context.WithTimeout(context.Background(), time.Hour)
		return x, f, kind
	}
	x, f := context.WithCancel(context.Background())
	return x, f, kind
}

func l05(r *vh.Run) {
	r.Rule("generated lifecycles of ids on an Await: expiring waits (1 ns - 20 ms), cancelled waits with and without timeout and with contexts done beforehand, puts racing with expiry and cancellation, and chains of waits on one id where the next wait starts as soon as the previous value was put or the previous wait returned; non-trivial always; fingerprint is the case plus its observed outcome")
	r.Cases("expire", r.N(300, 4000), 32, func(c *vh.Case) {
		a := lock.NewAwait[int](1 + c.R.IntN(4))
		id := ids(c, 2)
		to := time.Duration(1 + c.R.IntN(20_000_000))
		if c.I%3 == 0 {
			to = time.Duration(1 + c.R.IntN(1_500_000))
		}
		kind := c.R.IntN(3)
		t0 := time.Now()
		var v int
		var err error
		var cancel bool
		switch kind {
		case 0:
			v, err = a.Wait(id[0], to)
		case 1:
			v, err = a.SyncWait(nil, id[0], to)
		case 2:
			v, cancel, err = a.WaitWithCancel(context.Background(), id[0], to)
		}
		d := time.Since(t0)
		c.Check(err != nil && v == 0 && !cancel, "no-timeout", "wait kind %d with nothing put returned %d,%v,%v", kind, v, cancel, err)
		c.Check(d >= to, "early-timeout", "wait kind %d returned after %v, timeout %v", kind, d, to)
		c.Check(!a.Has(id[0]), "left-behind", "id still registered after its wait expired")
		// the id can be used again
		fresh(c, a, id[0], 41)
		c.Eval(1)
		c.Observe("expired_waits", 1)
		c.Distinct(vh.Hash(c.Name(), kind, to))
		if c.I < 2 {
			c.Sample(map[string]any{"kind": kind, "timeout": to.String(), "returned_after": d.String(), "error": err.Error()})
		}
	})
	r.Cases("cancel", r.N(400, 6000), 16, func(c *vh.Case) { cancelCase(c, lock.NewAwait[int](1+c.R.IntN(4)), "Await") })
	r.Cases("race", r.N(600, 8000), 48, func(c *vh.Case) {
		// a put that races with expiry or cancellation: either outcome, but a consistent one, and nothing is left
		a := lock.NewAwait[int](1 + c.R.IntN(4))
		id := ids(c, 1)[0]
		outcome := racePut(c, a, id)
		c.Check(!a.Has(id), "left-behind", "id still registered after wait and put returned")
		fresh(c, a, id, 77)
		c.Eval(1)
		c.Observe("raced_"+outcome, 1)
		c.Distinct(vh.Hash(c.Name(), outcome))
	})
	r.Cases("reuse", r.N(400, 6000), 4, func(c *vh.Case) {
		a := lock.NewAwait[int](1 + c.R.IntN(4))
		id := ids(c, 1)[0]
		var wg sync.WaitGroup
		rounds := 20
		for i := 1; i <= rounds; i++ {
			wg.Add(1)
			seed := c.R.Uint64()
			how := c.R.IntN(3)
			started := make(chan struct{})
			done := make(chan struct{})
			go func() {
				defer wg.Done()
				defer close(done)
				close(started)
				v, cancel, err, kind := waitOnce(a, vh.NewRand(seed), id)
				if v != i || err != nil || cancel {
					c.Violate("reuse", "wait %d (%s) on a reused id got %d,%v,%v", i, kind, v, cancel, err)
				}
			}()
			<-started
			spin(c.R.IntN(4))
			if how == 0 {
				for !a.Has(id) {
					vh.Yield()
				}
			}
			if err := a.CloseAndPut(id, i); err != nil {
				c.Violate("put-error", "put %d on a reused id: %v", i, err)
			}
			if how == 1 {
				<-done
				c.Check(!a.Has(id), "left-behind", "id still registered after its wait returned")
			}
			// otherwise the next wait starts while this one is just ending
		}
		wg.Wait()
		c.Check(!a.Has(id), "left-behind", "id still registered at the end")
		c.Eval(1)
		c.Observe("reuses", rounds)
		c.Distinct(vh.Hash(c.Name(), id))
	})
	r.Cases("race-reuse", r.N(400, 4000), 64, func(c *vh.Case) {
		// the next wait on the id starts once the put for the earlier one is through, which may just be expiring
		a := lock.NewAwait[int](1 + c.R.IntN(4))
		id := ids(c, 1)[0]
		handed := 0
		for i := 1; i <= 12; i++ {
			to := time.Duration(100+c.R.IntN(600)) * time.Microsecond
			cancelIt := c.R.IntN(3) == 0
			before := time.Duration(c.R.IntN(60)-5) * time.Microsecond
			done := make(chan struct{})
			var end atomic.Int64
			var v int
			var err error
			go func() {
				defer close(done)
				if cancelIt {
					ctx, stop := context.WithTimeout(context.Background(), to)
					defer stop()
					end.Store(time.Now().Add(to).UnixNano())
					v, _, err = a.WaitWithCancel(ctx, id, 0)
				} else {
					end.Store(time.Now().Add(to).UnixNano())
					v, err = a.Wait(id, to)
				}
			}()
			for end.Load() == 0 || !a.Has(id) && time.Now().UnixNano() < end.Load() {
				vh.Yield()
			}
			for time.Now().UnixNano() < end.Load()-int64(before) {
				runtime.Gosched()
			}
			if !a.Has(id) { // over
				<-done
				continue
			}
			if e := a.CloseAndPut(id, -i); e != nil {
				c.Violate("put-error", "put while the wait is expiring: %v", e)
			}
			handed++
			fresh(c, a, id, i)
			<-done
			c.Check(err == nil && v == -i || err != nil && v == 0, "inconsistent-outcome", "expiring wait got %d,%v, put was %d", v, err, -i)
			c.Check(!a.Has(id), "left-behind", "id still registered after all its waits returned")
			if err != nil {
				c.Observe("put_but_expired", 1)
			}
		}
		c.Eval(1)
		c.Observe("puts_into_expiring_waits", handed)
		c.Distinct(vh.Hash(c.Name(), handed))
	})
	r.Cases("late", r.N(20, 100), 64, func(c *vh.Case) {
		// puts and closes for ids nobody waits for end by themselves and leave nothing
		a := lock.NewAwait[int](3)
		id := ids(c, 1)[0]
		if c.I%2 == 0 {
			a.Wait(id, time.Millisecond)
		}
		if c.I%3 == 0 {
			a.Close(id)
		} else {
			a.CloseAndPut(id, 5)
		}
		c.Check(!a.Has(id), "left-behind", "id registered by a late put")
		v, err := a.Wait(id, 5*time.Millisecond)
		c.Check(v == 0 && err != nil, "stale-value", "a wait received %d,%v from a put that had ended before", v, err)
		c.Eval(1)
		c.Observe("late_puts", 1)
	})
}

// fresh checks that a new wait on id gets its own value.
func fresh(c *vh.Case, w waiter, id int64, v int) {
	done := make(chan error, 1)
	seed := c.R.Uint64()
	go func() {
		g, cancel, err, kind := waitOnce(w, vh.NewRand(seed), id)
		if g != v || err != nil || cancel {
			done <- fmt.Errorf("%s on the id got %d,%v,%v want %d", kind, g, cancel, err, v)
			return
		}
		done <- nil
	}()
	if a, ok := w.(*lock.Await[int]); ok {
		for i := 0; i < 1000 && !a.Has(id); i++ {
			vh.Yield()
		}
	}
	err := w.CloseAndPut(id, v)
	c.Check(err == nil, "reuse", "put for the new wait failed: %v", err)
	if err := <-done; err != nil {
		c.Violate("reuse", "new wait after an ended one: %v", err)
	}
}

func cancelCase(c *vh.Case, w waiter, what string) {
	id := ids(c, 1)[0]
	ctx, stop, ck := cancellable(c)
	defer stop()
	to := []time.Duration{0, forever, -5}[c.R.IntN(3)]
	before := c.R.IntN(3) == 0
	if before {
		stop()
	}
	done := make(chan string, 1)
	go func() {
		v, cancel, err := w.WaitWithCancel(ctx, id, to)
		if v != 0 || !cancel || err == nil {
			done <- fmt.Sprintf("cancelled %s.WaitWithCancel (timeout %v, context kind %s) returned %d,%v,%v", what, to, ck, v, cancel, err)
			return
		}
		done <- ""
	}()
	spin(c.R.IntN(20))
	stop()
	select {
	case s := <-done:
		c.Check(s == "", "cancel-result", "%s", s)
	case <-time.After(25 * time.Second):
		c.Violate("cancel-ignored", "%s.WaitWithCancel with timeout %v has not returned although its context (kind %s) is done", what, to, ck)
		return
	}
	if a, ok := w.(*lock.Await[int]); ok {
		c.Check(!a.Has(id), "left-behind", "id still registered after cancellation")
		fresh(c, w, id, 9)
	}
	c.Eval(1)
	c.Observe("cancelled_waits", 1)
	c.Distinct(vh.Hash(c.Name(), to, before, ck))
	if c.I < 2 {
		c.Sample(map[string]any{"api": what, "timeout": to.String(), "context": ck, "cancelled_before_wait": before})
	}
}

// racePut races a put or close with the expiry or cancellation of the wait for id.
// ahead: puts and closes that start well before the wait, while neighbouring ids come and go.
func ahead(c *vh.Case, w waiter, what string, limit time.Duration) {
	const n = 12
	base := int64(c.R.Uint64() >> 1)
	var seeds [n]uint64
	var delay [n]time.Duration
	var closes [n]bool
	for i := range seeds {
		seeds[i] = c.R.Uint64()
		closes[i] = c.R.IntN(4) == 0
		if i%3 == 1 { // the ids around it are over soon
			delay[i] = time.Duration(c.R.Int64N(int64(limit)))
		}
	}
	var started [n]atomic.Int64
	c.Par(2*n, func(g int) {
		i := g / 2
		id := base + int64(i)
		if g%2 == 0 {
			started[i].Store(time.Now().UnixNano())
			var err error
			if closes[i] {
				err = w.Close(id)
			} else {
				err = w.CloseAndPut(id, i+100)
			}
			if err != nil {
				c.Violate("put-error", "%s: put/close for %d returned %v", what, id, err)
			}
			return
		}
		for delay[i] > 0 && started[i].Load() == 0 {
			vh.Yield()
		}
		time.Sleep(delay[i])
		before := time.Duration(time.Now().UnixNano() - started[i].Load())
		var v int
		var err error
		if seeds[i]%2 == 0 {
			v, err = w.Wait(id, 20*time.Second)
		} else {
			v, _, err = w.WaitWithCancel(context.Background(), id, 20*time.Second)
		}
		want := i + 100
		if closes[i] {
			want = 0
		}
		if v != want || err != nil {
			if delay[i] > 0 && before > limit+limit/5 { // the machine did not let it start in time
				c.Observe("waits_too_late", 1)
				return
			}
			c.Violate("delivery", "%s: wait for %d, %v after its put or close had started (close=%v), got %d,%v want %d", what, id, before.Round(time.Millisecond), closes[i], v, err, want)
		}
		if delay[i] > 0 {
			c.Observe("waits_after_the_put", 1)
		}
	})
	c.Eval(1)
	c.Distinct(vh.Hash(c.Name(), fmt.Sprint(delay)))
}

func racePut(c *vh.Case, w waiter, id int64) string {
	to := time.Duration(50+c.R.IntN(2000)) * time.Microsecond
	cancelIt := c.R.IntN(2) == 0
	closeIt := c.R.IntN(4) == 0
	delay := time.Duration(c.R.IntN(2200)) * time.Microsecond
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	var v int
	var cancel bool
	var werr, perr error
	c.Par(3, func(g int) {
		switch g {
		case 0:
			if cancelIt {
				v, cancel, werr = w.WaitWithCancel(ctx, id, 0)
			} else {
				v, werr = w.Wait(id, to)
			}
		case 1:
			if cancelIt {
				time.Sleep(to)
				stop()
			}
		case 2:
			time.Sleep(delay)
			if closeIt {
				perr = w.Close(id)
			} else {
				perr = w.CloseAndPut(id, 1234)
			}
		}
	})
	switch {
	case werr == nil && !cancel && closeIt && v == 0 && perr == nil:
		return "closed"
	case werr == nil && !cancel && !closeIt && v == 1234 && perr == nil:
		return "delivered"
	case werr != nil && v == 0 && cancel == cancelIt:
		if cancel {
			return "cancelled"
		}
		return "expired"
	}
	c.Violate("inconsistent-outcome", "wait returned %d,%v,%v while the put (close=%v) returned %v", v, cancel, werr, closeIt, perr)
	return "bad"
}

func l06(r *vh.Run) {
	r.Rule("FastAwait: deliveries and closes for 2-21 distinct ids in random start orders with unique values, expiring and cancelled waits, puts racing with expiry or cancellation, and late puts and closes for ended ids; non-trivial always; fingerprint is the case plus its observed outcome")
	mk := func(c *vh.Case) *lock.FastAwait[int] {
		if c.R.IntN(2) == 0 {
			return lock.NewFastAwait2[int](100000)
		}
		return lock.NewFastAwait2[int](5000)
	}
	r.Cases("deliver", r.N(1000, 15000), 24, func(c *vh.Case) { deliver(c, mk(c), "FastAwait", false) })
	shared := lock.NewFastAwait[int]()
	r.Cases("deliver-shared", r.N(300, 3000), 24, func(c *vh.Case) { deliver(c, shared, "FastAwait", true) })
	r.Cases("cancel", r.N(400, 6000), 16, func(c *vh.Case) { cancelCase(c, mk(c), "FastAwait") })
	r.Cases("expire", r.N(300, 4000), 32, func(c *vh.Case) {
		f := mk(c)
		id := ids(c, 1)[0]
		to := time.Duration(1 + c.R.IntN(20_000_000))
		if c.I%3 == 0 {
			to = time.Duration(1 + c.R.IntN(1_500_000))
		}
		kind := c.R.IntN(2)
		t0 := time.Now()
		var v int
		var err error
		var cancel bool
		if kind == 0 {
			v, err = f.Wait(id, to)
		} else {
			v, cancel, err = f.WaitWithCancel(context.Background(), id, to)
		}
		d := time.Since(t0)
		c.Check(err != nil && v == 0 && !cancel, "no-timeout", "wait kind %d with nothing put returned %d,%v,%v", kind, v, cancel, err)
		c.Check(d >= to, "early-timeout", "wait kind %d returned after %v, timeout %v", kind, d, to)
		c.Eval(1)
		c.Observe("expired_waits", 1)
		c.Distinct(vh.Hash(c.Name(), kind, to))
	})
	r.Cases("race", r.N(600, 8000), 48, func(c *vh.Case) {
		f := mk(c)
		o := racePut(c, f, ids(c, 1)[0])
		c.Eval(1)
		c.Observe("raced_"+o, 1)
		c.Distinct(vh.Hash(c.Name(), o))
	})
	r.Cases("late", r.N(12, 60), 12, func(c *vh.Case) {
		// a put for an ended wait must not poll for seconds: the fastest of several tells
		f := mk(c)
		best := time.Hour
		how := c.I % 4
		for i := int64(0); i < 4; i++ {
			id := int64(c.R.Uint64())
			switch how {
			case 0:
				f.Wait(id, time.Millisecond)
			case 1:
				ctx, stop := context.WithCancel(context.Background())
				stop()
				f.WaitWithCancel(ctx, id, forever)
			default:
				done := make(chan bool)
				go func() {
					if how == 2 {
						f.Wait(id, forever)
					} else {
						f.WaitWithCancel(context.Background(), id, 0)
					}
					close(done)
				}()
				f.CloseAndPut(id, 3)
				<-done
			}
			t0 := time.Now()
			if c.I%8 < 4 {
				f.CloseAndPut(id, 5)
			} else {
				f.Close(id)
			}
			best = min(best, time.Since(t0))
			if best < time.Second {
				break
			}
		}
		c.Check(best < time.Second, "late-put-blocks", "puts for ended waits (kind %d) each took at least %v", how, best)
		c.Eval(1)
		c.Observe("late_puts", 1)
		c.Distinct(vh.Hash(c.Name()))
	})
	r.SeqCases("worn", r.N(5, 20), 5, func(c *vh.Case) {
		// after several times its expected number of ids a FastAwait may mistake a few fresh ids for ended ones, not more
		// (the default one, within the million ids it is made for, a few per thousand)
		expected := []int{16, 200, 3000, 20000, 1 << 20}[c.I%5]
		f := lock.NewFastAwait2[int](uint64(expected))
		isDefault := expected > 3000
		limit := int64(30)
		if isDefault {
			f = lock.NewFastAwait[int]()
			limit = 12
		}
		stopped, stop := context.WithCancel(context.Background())
		stop()
		used := expected*3 + c.R.IntN(expected)
		if isDefault {
			used = expected
			if r.Race {
				used /= 20
			}
		}
		for i := 0; i < used; i++ {
			f.WaitWithCancel(stopped, int64(i), 0)
		}
		if isDefault { // all of them are known to be over
			t0 := time.Now()
			c.Par(64, func(g int) {
				for i := g; i < used && time.Since(t0) < 3*time.Second; i += 64 * 37 {
					f.CloseAndPut(int64(i), 1)
				}
			})
			if d := time.Since(t0); d > 2500*time.Millisecond {
				c.Violate("late-put-blocks", "%d puts for ended ids took %v after %d ended ids", used/37, d, used)
			}
		}
		const n = 1500
		var lost, wrong atomic.Int64
		started := make(chan struct{})
		c.Par(2*n, func(g int) {
			id := int64(1<<40 + g/2)
			if g%2 == 0 {
				<-started
				f.CloseAndPut(id, g)
				return
			}
			if g == 1 {
				close(started)
			}
			<-started
			time.Sleep(50 * time.Millisecond)
			switch v, err := f.Wait(id, 2*time.Second); {
			case err != nil:
				lost.Add(1)
			case v != g-1:
				wrong.Add(1)
			}
		})
		c.Check(wrong.Load() == 0, "foreign-value", "%d of %d waits got another id's value", wrong.Load(), n)
		c.Check(lost.Load() <= limit, "worn-loses", "after %d used ids (expected %d) %d of %d values put 50 ms before the wait were lost", used, expected, lost.Load(), n)
		c.Eval(n)
		c.Observe("puts_before_waits_on_a_worn_await", n)
		c.Max("lost_of_1500_on_a_worn_await", int(lost.Load()))
		c.Distinct(vh.Hash(c.Name(), used))
	})
	typed(r, func(c *vh.Case, k int) { typedAll(c, newFasts{}, k) })
	r.Cases("other-ids", r.N(4, 40), 4, func(c *vh.Case) { otherIds(c, mk(c), "FastAwait") })
	r.Cases("ahead", r.N(24, 240), 24, func(c *vh.Case) { ahead(c, mk(c), "FastAwait", 1500*time.Millisecond) })
	r.Cases("unwaited", r.N(4, 12), 12, func(c *vh.Case) {
		// a put nobody waits for ends by itself, and what it put is not delivered later
		f := mk(c)
		id := ids(c, 1)[0]
		f.CloseAndPut(id, 5)
		v, err := f.Wait(id, 5*time.Millisecond)
		c.Check(v == 0 && err != nil, "stale-value", "a wait received %d,%v from a put that had ended before", v, err)
		c.Eval(1)
		c.Observe("unwaited_puts", 1)
	})
}
