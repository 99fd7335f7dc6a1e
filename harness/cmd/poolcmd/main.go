// poolcmd monitors pool/gopool, pool/buffer and the pooled byte buffers of package buffer.
package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/buffer"
	pbuf "github.com/donnie4w/gofer/pool/buffer"
	"github.com/donnie4w/gofer/pool/gopool"
	"verifharness/vh"
)

func main() {
	vh.Main(map[string]func(*vh.Run){"G01": g01, "G02": g02, "G03": g03})
}

func spin(n int) {
	for i := 0; i < n; i++ {
		vh.Yield()
	}
}

// waitZero waits for the count of unexecuted functions to settle at zero.
func waitZero(c *vh.Case, p *gopool.GoPool, what string) {
	for i := 0; i < 20000; i++ {
		if p.NumUnExecu() == 0 {
			return
		}
		if i < 1000 {
			vh.Yield()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	c.Violate("num-unexecuted", "%s: every function finished but NumUnExecu stays %d", what, p.NumUnExecu())
}

func g01(r *vh.Run) {
	r.Rule("each case submits 20-240 functions (some panic, some submit further ones) from 1-6 goroutines to a pool with limits 0-8 and queue length 0-2048 while other goroutines switch it off and on or close it, and counts every execution; non-trivial when functions were submitted concurrently or around a switch or close")
	r.Cases("mix", r.N(8000, 100000), 4, func(c *vh.Case) {
		min, max := int64(c.R.IntN(7)), int64(c.R.IntN(9))
		if min == 0 && max == 0 {
			max = 1
		}
		ql := []int{0, 1, 2, 7, 64, 2048}[c.R.IntN(6)]
		g := 1 + c.R.IntN(6)
		per := 5 + c.R.IntN(40)
		nested := ql == 2048 && c.R.IntN(2) == 0
		closing := c.R.IntN(3) // 0: no, 1: during, 2: during, many times at once
		toggle := c.R.IntN(2) == 0
		panics := c.R.IntN(2) == 0
		exits := c.R.IntN(3) == 0
		p := gopool.NewPoolWithFuncLimit(min, max, ql)
		if c.R.IntN(6) == 0 {
			p = gopool.NewPool(min, max)
		}
		total := g * per
		if nested {
			total *= 2
		}
		cnt := make([]atomic.Int32, total)
		var done atomic.Int64
		allDone := make(chan struct{})
		exec := func(id int) {
			if cnt[id].Add(1) > 1 {
				c.Violate("executed-twice", "function %d executed %d times (limits %d/%d queue %d)", id, cnt[id].Load(), min, max, ql)
				return
			}
			if int(done.Add(1)) == total {
				close(allDone)
			}
		}
		seeds := make([]uint64, g+3)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		var submitting atomic.Int64
		var overl atomic.Int64
		stop := make(chan struct{})
		var aux sync.WaitGroup
		if toggle {
			aux.Add(1)
			go func() {
				defer aux.Done()
				rr := vh.NewRand(seeds[g])
				for off := true; ; off = !off {
					select {
					case <-stop:
						p.TurnOff(rr.IntN(2) == 0)
						return
					default:
					}
					p.TurnOff(off)
					spin(1 + rr.IntN(6))
				}
			}()
		}
		closeAt := int64(c.R.IntN(total + 1))
		if closing > 0 {
			n := 1
			if closing == 2 {
				n = 3
			}
			for k := 0; k < n; k++ {
				aux.Add(1)
				go func() {
					defer aux.Done()
					for submitting.Load() < closeAt {
						select {
						case <-stop:
							p.Close()
							return
						default:
							vh.Yield()
						}
					}
					p.Close()
				}()
			}
		}
		c.Par(g, func(gi int) {
			rr := vh.NewRand(seeds[gi])
			for i := 0; i < per; i++ {
				id := gi*per + i
				kind := rr.IntN(8)
				w := rr.IntN(3)
				if done.Load() < submitting.Load() {
					overl.Add(1)
				}
				submitting.Add(1)
				p.Go(func() {
					spin(w)
					if nested {
						p.Go(func() { exec(g*per + id) })
					}
					exec(id)
					if panics && kind == 0 {
						panic("submitted function panics")
					}
					if exits && kind == 2 {
						runtime.Goexit()
					}
				})
				if kind == 1 {
					spin(rr.IntN(4))
				}
			}
		})
		close(stop)
		aux.Wait()
		<-allDone // a lost function leaves this blocked, which the progress watchdog reports
		waitZero(c, p, fmt.Sprintf("limits %d/%d queue %d closing %d toggle %v", min, max, ql, closing, toggle))
		if c.R.IntN(2) == 0 {
			p.Close()
		}
		spin(4)
		for i := range cnt {
			c.Check(cnt[i].Load() == 1, "not-exactly-once", "function %d executed %d times", i, cnt[i].Load())
		}
		c.Eval(1)
		c.Observe("functions_executed", total)
		c.Observe("submissions_while_others_pending", int(overl.Load()))
		if panics {
			c.Observe("cases_with_panicking_functions", 1)
		}
		if exits {
			c.Observe("cases_with_functions_that_end_their_goroutine", 1)
		}
		if closing > 0 {
			c.Observe("cases_closed_during_submission", 1)
		}
		if toggle {
			c.Observe("cases_switched_off_and_on", 1)
		}
		if overl.Load() > 0 || closing > 0 || toggle {
			c.Distinct(vh.Hash(min, max, ql, g, per, nested, closing, toggle, panics, exits, closeAt, overl.Load()))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"limits": [2]int64{min, max}, "queue": ql, "submitters": g, "functions": total, "closing": closing, "toggle": toggle, "panics": panics})
		}
	})
	// a submission racing with the end of the previous burst: nothing later wakes the pool
	r.Cases("last-wakeup", r.N(1500, 20000), 4, func(c *vh.Case) {
		lim := int64(1 + c.R.IntN(3))
		p := gopool.NewPool(lim, lim+int64(c.R.IntN(2)))
		g := 1 + c.R.IntN(3)
		rounds := 150
		spins := c.R.IntN(4)
		c.Par(g, func(gi int) {
			for i := 0; i < rounds; i++ {
				ch := make(chan struct{})
				p.Go(func() { close(ch) })
				<-ch
				spin((i*7 + gi) % (spins + 1))
			}
		})
		waitZero(c, p, "one at a time")
		p.Close()
		c.Eval(1)
		c.Observe("single_wakeups", g*rounds)
		c.Distinct(vh.Hash("wakeup", lim, g, spins, c.I%8))
	})
	// functions waiting for a slot or in the queue when the pool is closed
	r.Cases("close-pending", r.N(3000, 40000), 4, func(c *vh.Case) {
		min, max := int64(c.R.IntN(4)), int64(1+c.R.IntN(4))
		p := gopool.NewPool(min, max)
		lim := max
		if min > lim {
			lim = min
		}
		gate := make(chan struct{})
		n := int(lim) + 1 + c.R.IntN(12)
		cnt := make([]atomic.Int32, n)
		var wg sync.WaitGroup
		wg.Add(n)
		blocked := c.R.IntN(int(lim) + 1)
		for i := 0; i < n; i++ {
			pan, exit := c.R.IntN(5) == 0, c.R.IntN(8) == 0
			p.Go(func() {
				if i < blocked {
					<-gate
				}
				if cnt[i].Add(1) == 1 {
					wg.Done()
				}
				if pan {
					panic("submitted function panics")
				}
				if exit {
					runtime.Goexit()
				}
			})
			spin(c.R.IntN(3))
		}
		late := c.R.IntN(2) == 0
		if c.R.IntN(3) == 0 {
			// Close starts what waits, however long the running ones go on
			p.Close()
			for t0 := time.Now(); ; {
				left := 0
				for i := blocked; i < n; i++ {
					if cnt[i].Load() == 0 {
						left++
					}
				}
				if left == 0 {
					break
				}
				if time.Since(t0) > 20*time.Second {
					c.Violate("not-started-by-close", "%d of %d waiting functions have not run 20 s after Close while %d running ones go on (limits %d/%d)", left, n-blocked, blocked, min, max)
					break
				}
				time.Sleep(20 * time.Microsecond)
			}
			c.Observe("started_by_close", n-blocked)
			close(gate)
		} else if late {
			p.Close()
			close(gate)
		} else {
			done := make(chan struct{})
			go func() { spin(n % 3); close(gate); close(done) }()
			p.Close()
			<-done
		}
		wg.Wait()
		var post atomic.Int32
		ch := make(chan struct{})
		p.Go(func() { post.Add(1); close(ch) })
		<-ch
		waitZero(c, p, "closed with functions pending")
		spin(3)
		for i := range cnt {
			c.Check(cnt[i].Load() == 1, "not-exactly-once", "function %d executed %d times", i, cnt[i].Load())
		}
		c.Check(post.Load() == 1, "not-exactly-once", "function submitted after Close executed %d times", post.Load())
		c.Eval(1)
		c.Observe("functions_pending_at_close", n)
		c.Distinct(vh.Hash("closepending", min, max, n, blocked, late))
	})
}

func g02(r *vh.Run) {
	r.Rule("each case measures the number of submitted functions running at once under limits 0-8 and queues of 0 to 131072 functions through phases of short, blocking and mutually waiting functions; non-trivial when the limit was reached")
	wide(r)
	r.Cases("gauge", r.N(6000, 60000), 4, func(c *vh.Case) {
		min, max := int64(c.R.IntN(7)), int64(c.R.IntN(9))
		if min == 0 && max == 0 {
			min = 1
		}
		lim := max
		if min > lim {
			lim = min
		}
		ql := []int{0, 1, 2, 5, 1 << 17}[c.R.IntN(5)]
		p := gopool.NewPoolWithFuncLimit(min, max, ql)
		var cur, peak, ran atomic.Int64
		var wg sync.WaitGroup
		body := func(f func()) func() {
			wg.Add(1)
			return func() {
				n := cur.Add(1)
				for o := peak.Load(); n > o && !peak.CompareAndSwap(o, n); o = peak.Load() {
				}
				if n > lim {
					c.Violate("limit-exceeded", "%d functions running at once with limits %d/%d", n, min, max)
				}
				defer wg.Done()
				defer ran.Add(1)
				defer cur.Add(-1)
				f()
			}
		}
		phases := 1 + c.R.IntN(4)
		shape := ""
		for ph := 0; ph < phases; ph++ {
			kind := c.R.IntN(5)
			shape += fmt.Sprint(kind)
			switch kind {
			case 0: // short functions from several goroutines
				g, per := 1+c.R.IntN(4), 5+c.R.IntN(25)
				pan := c.R.IntN(3) == 0
				c.Par(g, func(gi int) {
					for i := 0; i < per; i++ {
						p.Go(body(func() {
							spin((gi + i) % 4)
							if pan && i%5 == 0 {
								panic("submitted function panics")
							}
							if pan && i%7 == 0 {
								runtime.Goexit()
							}
						}))
					}
				})
				wg.Wait()
			case 4: // switched off for a while: functions run outside the limits, and afterwards the limits hold again
				p.TurnOff(true)
				n := 1 + c.R.IntN(12)
				var out sync.WaitGroup
				out.Add(n)
				for i := 0; i < n; i++ {
					p.Go(func() {
						defer out.Done()
						spin(i % 3)
						if i%5 == 4 {
							panic("submitted function panics")
						}
					})
				}
				if c.R.IntN(2) == 0 {
					p.TurnOff(true)
				}
				out.Wait()
				p.TurnOff(false)
				c.Observe("phases_switched_off", 1)
			case 1: // the full limit runs at once: these wait for each other
				var b sync.WaitGroup
				b.Add(int(lim))
				for i := int64(0); i < lim; i++ {
					p.Go(body(func() { b.Done(); b.Wait() }))
				}
				b.Wait()
				wg.Wait()
				c.Observe("limit_reached_by_waiting_functions", 1)
			case 2: // all but k slots blocked: others still run
				gates := make([]chan struct{}, lim)
				started := make(chan int, lim)
				for i := range gates {
					gates[i] = make(chan struct{})
					p.Go(body(func() { started <- i; <-gates[i] }))
				}
				for range gates {
					<-started
				}
				var extra sync.WaitGroup
				m := 1 + c.R.IntN(6)
				extra.Add(m)
				fs := make([]func(), m)
				for i := range fs {
					fs[i] = body(func() { spin(i % 3); extra.Done() })
				}
				go func() { // a full queue makes the submitter wait
					for _, f := range fs {
						p.Go(f)
					}
				}()
				spin(c.R.IntN(6))
				// one freed slot, whichever function held it, lets all of them run
				k := c.R.IntN(int(lim))
				close(gates[k])
				extra.Wait()
				c.Observe("slot_freed_while_others_block", 1)
				for i := range gates {
					if i != k {
						close(gates[i])
					}
				}
				wg.Wait()
			case 3: // blocked functions end in random order while more arrive
				n := int(lim) + 2 + c.R.IntN(10)
				gates := make([]chan struct{}, n)
				fs := make([]func(), n)
				for i := range gates {
					gates[i] = make(chan struct{})
					fs[i] = body(func() { <-gates[i] })
				}
				go func() {
					for _, f := range fs {
						p.Go(f)
					}
				}()
				spin(c.R.IntN(5))
				for _, i := range c.R.Perm(n) {
					close(gates[i])
					spin(c.R.IntN(3))
				}
				wg.Wait()
			}
		}
		c.Eval(1)
		c.Observe("functions_run", int(ran.Load()))
		if peak.Load() == lim {
			c.Observe("cases_at_the_limit", 1)
			c.Distinct(vh.Hash(min, max, shape, ran.Load()))
		}
		c.Max("peak_concurrency", int(peak.Load()))
		if c.I < 2 {
			c.Sample(map[string]any{"limits": [2]int64{min, max}, "queue": ql, "phases": shape, "peak": peak.Load(), "ran": ran.Load()})
		}
		p.Close()
	})
}

// wide: limits beyond a handful are limits too.
func wide(r *vh.Run) {
	r.Cases("wide", r.N(24, 300), 2, func(c *vh.Case) {
		lim := []int64{33, 65, 100, 129, 257, 500, 1025, 3000}[c.R.IntN(8)]
		min, max := lim, lim
		switch c.R.IntN(3) {
		case 0:
			min = int64(c.R.IntN(int(lim)))
		case 1:
			max = int64(c.R.IntN(int(lim)))
		}
		p := gopool.NewPool(min, max)
		var cur, over atomic.Int64
		for round := 0; round < 2; round++ {
			var b, all sync.WaitGroup
			b.Add(int(lim))
			n := int(lim) * 2
			all.Add(n)
			var first atomic.Int64
			for i := 0; i < n; i++ {
				p.Go(func() {
					defer all.Done()
					if cur.Add(1) > lim {
						over.Add(1)
					}
					defer cur.Add(-1)
					if first.Add(1) <= lim { // as many as the limit allows run at once
						b.Done()
						b.Wait()
					}
				})
			}
			all.Wait()
		}
		c.Check(over.Load() == 0, "limit-exceeded", "with limits %d/%d more than %d functions ran at once", min, max, lim)
		c.Eval(1)
		c.Observe("cases_at_a_wide_limit", 1)
		c.Max("peak_concurrency", int(lim))
		c.Distinct(vh.Hash("wide", min, max))
		p.Close()
	})
}

type obj struct {
	owner int
	data  []byte
	n     int
}

func g03(r *vh.Run) {
	r.Rule("each case has 2-8 goroutines take, stamp, check and put back objects of generic pools, BufferPool and the byte-buffer pool, with a registry of owners by address; non-trivial when objects were reused")
	r.Cases("owners", r.N(5000, 40000), 4, func(c *vh.Case) {
		g := 2 + c.R.IntN(7)
		per := 40
		var mu sync.Mutex
		owner := map[any]int{}
		seen := map[any]int{}
		reused := 0
		take := func(p any, gi int, what string) {
			mu.Lock()
			if o, ok := owner[p]; ok {
				c.Violate("two-owners", "%s given to %d while held by %d", what, gi, o)
			}
			owner[p] = gi
			if seen[p] > 0 {
				reused++
			}
			seen[p]++
			mu.Unlock()
		}
		give := func(p any) {
			mu.Lock()
			delete(owner, p)
			mu.Unlock()
		}
		built := &atomic.Int64{}
		op := pbuf.NewPool(func() *obj { built.Add(1); return &obj{} }, func(o *obj) { o.data = o.data[:0]; o.owner = 0; o.n = 0 })
		raw := pbuf.NewPool[obj](nil, nil)
		var bp *pbuf.BufferPool
		bp = pbuf.NewBufferPool(1 + c.R.IntN(12))
		seeds := make([]uint64, g)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		c.Par(g, func(gi int) {
			rr := vh.NewRand(seeds[gi])
			for i := 0; i < per; i++ {
				stamp := []byte(fmt.Sprintf("<%d.%d.%d>", c.I, gi, i))
				content := bytes.Repeat(stamp, rr.IntN(20))
				switch rr.IntN(5) {
				case 0:
					o := op.Get()
					take(o, gi, "object")
					if o.owner != 0 || len(o.data) != 0 || o.n != 0 {
						c.Violate("not-reset", "object of a pool with a reset function arrives as %+v", *o)
					}
					o.owner, o.n = gi+1, i
					o.data = append(o.data, content...)
					spin(rr.IntN(3))
					if o.owner != gi+1 || o.n != i || !bytes.Equal(o.data, content) {
						c.Violate("altered", "held object changed")
					}
					give(o)
					if ok := op.Put(&o); !ok || o != nil {
						c.Violate("put-result", "Put of an object: %v, pointer cleared %v", ok, o == nil)
					}
					if op.Put(&o) {
						c.Violate("put-result", "Put through a cleared pointer reports true")
					}
				case 1:
					o := raw.Get()
					if o == nil {
						c.Violate("nil-object", "pool without constructor returned nil")
						return
					}
					take(o, gi, "object")
					o.owner, o.n = gi, i
					spin(rr.IntN(3))
					if o.owner != gi || o.n != i {
						c.Violate("altered", "held object changed")
					}
					give(o)
					if ok := raw.Put(&o); !ok || o != nil {
						c.Violate("put-result", "Put of an object: %v, pointer cleared %v", ok, o == nil)
					}
				case 2:
					b := bp.Get(rr.IntN(5000))
					take(b, gi, "bytes.Buffer")
					if b.Len() != 0 {
						c.Violate("not-reset", "pooled bytes.Buffer arrives with %q", b.Bytes())
					}
					b.Write(content)
					spin(rr.IntN(3))
					if !bytes.Equal(b.Bytes(), content) {
						c.Violate("altered", "held bytes.Buffer has %q, wrote %q", b.Bytes(), content)
					}
					b.Next(rr.IntN(4))
					give(b)
					if !bp.Put(b) {
						c.Violate("put-result", "BufferPool.Put of a buffer reports false")
					}
				case 3, 4:
					var b *buffer.Buffer
					if rr.IntN(2) == 0 {
						b = buffer.NewBufferByPool()
					} else {
						b = buffer.BufPool.Get()
					}
					take(b, gi, "Buffer")
					if b.Len() != 0 || len(b.Bytes()) != 0 || b.String() != "" {
						c.Violate("not-reset", "pooled Buffer arrives with %q", b.String())
					}
					b.Write(content)
					spin(rr.IntN(3))
					if b.String() != string(content) {
						c.Violate("altered", "held Buffer has %q, wrote %q", b.String(), content)
					}
					if rr.IntN(3) == 0 {
						b.Read(make([]byte, rr.IntN(50)))
					}
					give(b)
					if rr.IntN(2) == 0 {
						b.Free()
					} else if ok := buffer.BufPool.Put(&b); !ok || b != nil {
						c.Violate("put-result", "BufPool.Put: %v, pointer cleared %v", ok, b == nil)
					}
				}
			}
		})
		if bp.Put(nil) {
			c.Violate("put-nil", "BufferPool.Put(nil) reports true")
		}
		var nb *buffer.Buffer
		if buffer.BufPool.Put(&nb) {
			c.Violate("put-nil", "BufPool.Put through a nil pointer reports true")
		}
		nb.Free()
		if b := buffer.BufPool.Get(); b == nil || b.Len() != 0 {
			c.Violate("nil-object", "BufPool.Get after freeing a nil buffer")
		}
		c.Eval(1)
		c.Observe("objects_taken", g*per)
		c.Observe("objects_reused", reused)
		if reused > 0 {
			c.Distinct(vh.Hash(g, reused, len(seen), c.I%64))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"goroutines": g, "taken": g * per, "reused": reused, "objects": len(seen), "constructed": built.Load()})
		}
	})
}
