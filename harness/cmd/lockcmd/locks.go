// lockcmd monitors the lock package.
package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/lock"
	"verifharness/vh"
)

func main() {
	vh.Main(map[string]func(*vh.Run){"L01": l01, "L02": l02, "L03": l03, "L04": l04, "L05": l05, "L06": l06})
}

func spin(n int) {
	for i := 0; i < n; i++ {
		vh.Yield()
	}
}

func l01(r *vh.Run) {
	r.Rule("each case runs 2-8 goroutines doing Lock/TryLock/Unlock (Unlock by key or on the returned mutex) on a Numlock of 1-64 stripes over 1-6 keys drawn from small, negative and extreme 64-bit values, with a shadow owner per key and unsynchronized data guarded by the lock; non-trivial when at least one acquisition was contended")
	r.Cases("mutex", r.N(1500, 25000), 2, func(c *vh.Case) {
		stripes := []int{1, 2, 3, 7, 16, 64}[c.R.IntN(6)]
		nl := lock.NewNumLock(stripes)
		pool := []int64{0, 1, 2, -1, -2, -3, -64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64, 1 << 32, -1 << 33, int64(c.R.Uint64()), -int64(c.R.Uint64() >> 1)}
		var keys []int64
		seen := map[int64]bool{}
		for n := 1 + c.R.IntN(6); len(keys) < n; {
			if k := pool[c.R.IntN(len(pool))]; !seen[k] {
				seen[k] = true
				keys = append(keys, k)
			}
		}
		owner := make([]atomic.Int32, len(keys))
		data := make([]int, len(keys)) // guarded by the lock of its key
		var contended, tries, fails atomic.Int64
		seeds := make([]uint64, 8)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		g := 2 + c.R.IntN(7)
		per := 60
		total := make([]atomic.Int64, len(keys))
		c.Par(g, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < per; i++ {
				k := rr.IntN(len(keys))
				var mu *sync.Mutex
				if rr.IntN(3) == 0 {
					m, ok := nl.TryLock(keys[k])
					tries.Add(1)
					if !ok {
						fails.Add(1)
						if m != nil {
							c.Violate("trylock-result", "failed TryLock returned a mutex")
						}
						continue
					}
					mu = m
				} else {
					if owner[k].Load() != 0 {
						contended.Add(1)
					}
					mu = nl.Lock(keys[k])
				}
				if !owner[k].CompareAndSwap(0, int32(g+1)) {
					c.Violate("mutual-exclusion", "key %d (%d stripes) acquired by %d while held by %d", keys[k], stripes, g+1, owner[k].Load())
					return
				}
				data[k]++
				total[k].Add(1)
				spin(rr.IntN(3))
				data[k] += 0
				if mu == nil {
					c.Violate("nil-mutex", "acquiring key %d returned no mutex", keys[k])
				} else if mu.TryLock() {
					c.Violate("wrong-mutex", "the mutex returned for key %d is free while the key is held", keys[k])
					return
				}
				if !owner[k].CompareAndSwap(int32(g+1), 0) {
					c.Violate("mutual-exclusion", "owner of key %d changed while held", keys[k])
					return
				}
				if rr.IntN(2) == 0 && mu != nil {
					mu.Unlock()
				} else {
					nl.Unlock(keys[k])
				}
			}
		})
		for k := range keys {
			m, ok := nl.TryLock(keys[k])
			if !ok {
				c.Violate("not-released", "TryLock(%d) fails with nothing held", keys[k])
				break
			}
			c.Check(int64(data[k]) == total[k].Load(), "lost-update", "guarded counter of key %d is %d, want %d", keys[k], data[k], total[k].Load())
			m2, ok2 := nl.TryLock(keys[k])
			c.Check(!ok2 && m2 == nil, "trylock-result", "TryLock(%d) twice succeeded", keys[k])
			m.Unlock()
		}
		c.Eval(1)
		c.Observe("contended_locks", int(contended.Load()))
		c.Observe("trylocks", int(tries.Load()))
		c.Observe("trylocks_failed", int(fails.Load()))
		if contended.Load()+fails.Load() > 0 {
			c.Distinct(vh.Hash(c.Name(), stripes, fmt.Sprint(keys), contended.Load(), fails.Load()))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"stripes": stripes, "keys": fmt.Sprint(keys), "goroutines": g, "contended": contended.Load(), "trylocks_failed": fails.Load()})
		}
	})
	r.Case("waiters", 0, func(c *vh.Case) {
		// every one of many waiters gets a released lock; another key on another stripe is not affected
		nl := lock.NewNumLock(4)
		for _, k := range []int64{-7, 5, math.MinInt64} {
			nl.Lock(k)
			var got atomic.Int32
			var wg sync.WaitGroup
			for i := 0; i < 20; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); nl.Lock(k); got.Add(1); nl.Unlock(k) }()
			}
			spin(50)
			c.Check(got.Load() == 0, "mutual-exclusion", "%d waiters got a held lock", got.Load())
			nl.Unlock(k)
			wg.Wait()
			c.Check(got.Load() == 20, "lost-waiter", "%d of 20 waiters got the lock", got.Load())
			c.Eval(1)
		}
	})
}

func clone(s string, how int) string {
	switch how {
	case 0:
		return s
	case 1:
		return strings.Clone(s)
	case 2:
		return ("xx" + s + "yy")[2 : 2+len(s)]
	}
	return string(append([]byte{}, s...))
}

func l02(r *vh.Run) {
	r.Rule("each case runs 2-8 goroutines mixing Lock/TryLock/RLock/TryRLock and their unlocks (by key or on the returned RWMutex, with equal strings built differently) on a Strlock of 1-64 stripes over 1-5 strings, with shadow reader/writer counts per key and unsynchronized data guarded by the lock; non-trivial when readers overlapped or acquisitions were contended")
	r.Cases("rw", r.N(1500, 25000), 2, func(c *vh.Case) {
		stripes := []int{1, 2, 3, 7, 16, 64}[c.R.IntN(6)]
		sl := lock.NewStrlock(stripes)
		pool := []string{"", "a", "b", "\x00", "键", strings.Repeat("long", 300), strings.Repeat("longer", 1000) + "1", strings.Repeat("longer", 12000) + "2", "user:1", "user:2", "a\x00b"}
		var keys []string
		c.R.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		keys = pool[:1+c.R.IntN(5)]
		type shadow struct{ readers, writers atomic.Int32 }
		sh := make([]shadow, len(keys))
		data := make([]int, len(keys))
		ptr := make([]atomic.Pointer[sync.RWMutex], len(keys))
		total := make([]atomic.Int64, len(keys))
		var contended, together atomic.Int64
		seeds := make([]uint64, 8)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		n := 2 + c.R.IntN(7)
		c.Par(n, func(g int) {
			rr := vh.NewRand(seeds[g])
			for i := 0; i < 50; i++ {
				k := rr.IntN(len(keys))
				key := clone(keys[k], rr.IntN(4))
				var mu *sync.RWMutex
				ok := true
				write := false
				if sh[k].readers.Load()+sh[k].writers.Load() > 0 {
					contended.Add(1)
				}
				switch rr.IntN(5) {
				case 0:
					write = true
					mu = sl.Lock(key)
				case 1:
					write = true
					mu, ok = sl.TryLock(key)
				case 2:
					mu, ok = sl.TryRLock(key)
				default:
					mu = sl.RLock(key)
				}
				if !ok {
					continue
				}
				if mu == nil {
					c.Violate("nil-mutex", "acquiring %q returned no mutex", key)
					return
				}
				if old := ptr[k].Swap(mu); old != nil && old != mu {
					c.Violate("two-locks", "the string %.20q mapped to two different locks", key)
				}
				if write {
					if w, q := sh[k].writers.Add(1), sh[k].readers.Load(); w != 1 || q != 0 {
						c.Violate("rw-exclusion", "write lock on %.20q held with %d writers and %d readers", key, w, q)
						return
					}
					data[k]++
					total[k].Add(1)
					spin(rr.IntN(3))
					if sh[k].readers.Load() != 0 || sh[k].writers.Load() != 1 {
						c.Violate("rw-exclusion", "write lock on %.20q joined by %d readers, %d writers", key, sh[k].readers.Load(), sh[k].writers.Load())
						return
					}
					sh[k].writers.Add(-1)
				} else {
					if q := sh[k].readers.Add(1); q > 1 {
						together.Add(1)
					}
					if sh[k].writers.Load() != 0 {
						c.Violate("rw-exclusion", "read lock on %.20q held with a writer", key)
						return
					}
					_ = data[k]
					spin(rr.IntN(3))
					if sh[k].writers.Load() != 0 {
						c.Violate("rw-exclusion", "read lock on %.20q joined by a writer", key)
						return
					}
					sh[k].readers.Add(-1)
				}
				key = clone(keys[k], rr.IntN(4))
				byMu := rr.IntN(2) == 0
				switch {
				case write && byMu:
					mu.Unlock()
				case write:
					sl.Unlock(key)
				case byMu:
					mu.RUnlock()
				default:
					sl.RUnlock(key)
				}
			}
		})
		for k, key := range keys {
			c.Check(int64(data[k]) == total[k].Load(), "lost-update", "guarded counter of %.20q is %d, want %d", key, data[k], total[k].Load())
			m, ok := sl.TryLock(key)
			if !ok {
				c.Violate("not-released", "TryLock(%.20q) fails with nothing held", key)
				break
			}
			m2, ok := sl.TryLock(clone(key, 1))
			c.Check(!ok && m2 == nil, "rw-exclusion", "second TryLock(%.20q) succeeded", key)
			m2, ok = sl.TryRLock(clone(key, 2))
			c.Check(!ok && m2 == nil, "rw-exclusion", "TryRLock(%.20q) succeeded while write locked", key)
			m.Unlock()
			a := sl.RLock(key)
			b, ok := sl.TryRLock(clone(key, 3))
			c.Check(ok && a == b, "readers-exclude", "a second reader of %.20q was refused", key)
			_, ok2 := sl.TryLock(key)
			c.Check(!ok2, "rw-exclusion", "TryLock(%.20q) succeeded while read locked", key)
			if ok {
				sl.RUnlock(key)
			}
			_, ok2 = sl.TryLock(key)
			c.Check(!ok2, "rw-exclusion", "TryLock(%.20q) succeeded while still read locked once", key)
			sl.RUnlock(key)
			m, ok = sl.TryLock(key)
			c.Check(ok, "not-released", "TryLock(%.20q) fails after all readers left", key)
			if ok {
				m.Unlock()
			}
		}
		c.Eval(1)
		c.Observe("contended_acquisitions", int(contended.Load()))
		c.Observe("readers_together", int(together.Load()))
		if contended.Load() > 0 {
			c.Distinct(vh.Hash(c.Name(), stripes, len(keys), contended.Load(), together.Load()))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"stripes": stripes, "keys": len(keys), "goroutines": n, "contended": contended.Load(), "readers_together": together.Load()})
		}
	})
	r.Case("waiters", 0, func(c *vh.Case) {
		sl := lock.NewStrlock(3)
		for round := 0; round < 20; round++ {
			k := fmt.Sprint("key", round)
			sl.Lock(k)
			var got atomic.Int32
			var wg sync.WaitGroup
			for i := 0; i < 20; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if i%2 == 0 {
						sl.Lock(k)
						got.Add(1)
						sl.Unlock(k)
					} else {
						sl.RLock(k)
						got.Add(1)
						sl.RUnlock(k)
					}
				}()
			}
			spin(50)
			c.Check(got.Load() == 0, "rw-exclusion", "%d waiters got a write-locked key", got.Load())
			sl.Unlock(k)
			wg.Wait()
			c.Check(got.Load() == 20, "lost-waiter", "%d of 20 waiters got the lock", got.Load())
			c.Eval(1)
		}
	})
}

func l03(r *vh.Run) {
	r.Rule("each case runs more goroutines than slots through Lock/Unlock of one LimitLock (limit 1-8, timeouts from 1 ns to 10 min) with a shadow holder count, observers calling Cc and LockCount meanwhile, and exact counter checks while holders hold and after all released; non-trivial when all slots were in use at some time")
	r.Cases("limit", r.N(1200, 20000), 2, func(c *vh.Case) {
		limit := 1 + c.R.IntN(8)
		long := c.R.IntN(2) == 0
		timeout := 10 * time.Minute
		if !long {
			timeout = []time.Duration{1, 1000, 100000, 2000000}[c.R.IntN(4)]
		}
		ll := lock.NewLimitLock(limit, timeout)
		var holders, peak, oks, errs atomic.Int64
		g := limit + 1 + c.R.IntN(6)
		seeds := make([]uint64, g+1)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		var left atomic.Int32
		left.Store(int32(g))
		c.Par(g+1, func(i int) {
			rr := vh.NewRand(seeds[i])
			if i == g {
				for left.Load() > 0 {
					ll.Cc()
					ll.LockCount()
					spin(1)
				}
				return
			}
			defer left.Add(-1)
			for j := 0; j < 30; j++ {
				if err := ll.Lock(); err != nil {
					errs.Add(1)
					if long {
						c.Violate("spurious-timeout", "Lock failed (%v) although slots were freed well within its %v timeout", err, timeout)
						return
					}
					continue
				}
				oks.Add(1)
				h := holders.Add(1)
				if h > int64(limit) {
					c.Violate("limit-exceeded", "%d holders with limit %d", h, limit)
				}
				for o := peak.Load(); h > o && !peak.CompareAndSwap(o, h); o = peak.Load() {
				}
				spin(rr.IntN(4))
				holders.Add(-1)
				ll.Unlock()
			}
		})
		c.Check(ll.Cc() == 0, "count-drift", "nothing held, Cc=%d", ll.Cc())
		c.Check(ll.LockCount() == oks.Load(), "count-drift", "LockCount=%d after %d successful Locks", ll.LockCount(), oks.Load())
		// all slots are free again: take them one by one, the counter follows
		got := 0
		if long {
			for i := 0; i < limit; i++ {
				if err := ll.Lock(); err != nil {
					c.Violate("slot-lost", "only %d of %d slots left: %v", i, limit, err)
					break
				}
				got++
				c.Check(ll.Cc() == int64(got), "count-drift", "%d held, Cc=%d", got, ll.Cc())
			}
			for i := 0; i < got; i++ {
				ll.Unlock()
				c.Check(ll.Cc() == int64(got-1-i), "count-drift", "%d held, Cc=%d", got-1-i, ll.Cc())
			}
			c.Check(ll.LockCount() == oks.Load()+int64(got), "count-drift", "LockCount=%d want %d", ll.LockCount(), oks.Load()+int64(got))
		}
		c.Eval(1)
		c.Observe("successful_locks", int(oks.Load()))
		c.Observe("timed_out_locks", int(errs.Load()))
		if peak.Load() == int64(limit) {
			c.Observe("runs_reaching_the_limit", 1)
			c.Distinct(vh.Hash(c.Name(), limit, timeout, oks.Load(), errs.Load()))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"limit": limit, "goroutines": g, "timeout": timeout.String(), "locks": oks.Load(), "timeouts": errs.Load(), "peak_holders": peak.Load()})
		}
	})
	r.Cases("timeout", r.N(60, 600), 16, func(c *vh.Case) {
		limit := 1 + c.R.IntN(4)
		to := time.Duration(1 + c.R.IntN(30_000_000))
		ll := lock.NewLimitLock(limit, to)
		held := 0
		for held < limit {
			if ll.Lock() == nil {
				held++
			}
		}
		base := ll.LockCount()
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
				err := ll.Lock()
				d := time.Since(t0)
				if err == nil {
					c.Violate("limit-exceeded", "Lock succeeded with all %d slots held", limit)
				} else if d < to {
					c.Violate("early-timeout", "Lock gave up after %v, timeout %v", d, to)
				}
			}()
		}
		wg.Wait()
		c.Check(ll.Cc() == int64(limit) && ll.LockCount() == base, "count-drift", "after failed Locks: Cc=%d (held %d) LockCount=%d (was %d)", ll.Cc(), limit, ll.LockCount(), base)
		// the failed Locks took no slot
		for i := 0; i < limit; i++ {
			ll.Unlock()
		}
		c.Check(ll.Cc() == 0, "count-drift", "Cc=%d with nothing held", ll.Cc())
		again := 0
		for tries := 0; again < limit && tries < 200; tries++ {
			if ll.Lock() == nil {
				again++
			}
		}
		c.Check(again == limit, "slot-lost", "only %d of %d slots can be taken after failed Locks", again, limit)
		c.Eval(1)
		c.Observe("timeouts_observed", 4)
	})
	r.Cases("deadline", r.N(60, 1000), 2, func(c *vh.Case) {
		// slots are freed just when the waiters give up
		limit := 1 + c.R.IntN(2)
		to := time.Duration(200_000 + c.R.IntN(800_000))
		ll := lock.NewLimitLock(limit, to)
		held, failed := int64(0), 0
		for round := 0; round < 60 && !c.Failed(); round++ {
			for tries := 0; held < int64(limit); tries++ {
				if ll.Lock() == nil {
					held++
				} else if tries > 400 {
					c.Violate("slot-lost", "only %d of %d slots can be taken after %d waiters gave up while slots were freed", held, limit, failed)
					return
				}
			}
			waiters := 1 + c.R.IntN(3)
			res := make(chan error, waiters)
			t0 := time.Now()
			for i := 0; i < waiters; i++ {
				go func() { res <- ll.Lock() }()
			}
			at := to + time.Duration(c.R.IntN(120_000))
			for time.Since(t0) < at {
			}
			ll.Unlock()
			held--
			for i := 0; i < waiters; i++ {
				if <-res == nil {
					held++
				} else {
					failed++
				}
			}
			c.Check(ll.Cc() == held, "count-drift", "%d slots held, Cc=%d", held, ll.Cc())
			c.Check(held <= int64(limit), "limit-exceeded", "%d holders with limit %d", held, limit)
			for held > 0 && c.R.IntN(3) > 0 {
				ll.Unlock()
				held--
			}
		}
		c.Eval(1)
		c.Observe("waiters_that_gave_up_as_a_slot_was_freed", failed)
		c.Distinct(vh.Hash(c.Name(), limit, to, failed))
	})
	r.Cases("many-slots", r.N(6, 60), 2, func(c *vh.Case) { // all of thousands of slots, and not one more
		limit := []int{100, 257, 1025, 4097, 20000, 70001}[c.I%6]
		ll := lock.NewLimitLock(limit, 30*time.Second)
		for i := 0; i < limit; i++ {
			if err := ll.Lock(); err != nil {
				c.Violate("slot-lost", "only %d of %d slots can be taken: %v", i, limit, err)
				return
			}
		}
		c.Check(ll.Cc() == int64(limit) && ll.LockCount() == int64(limit), "count-drift", "%d held, Cc=%d LockCount=%d", limit, ll.Cc(), ll.LockCount())
		var in atomic.Int32
		done := make(chan error, 1)
		go func() {
			err := ll.Lock()
			in.Add(1)
			done <- err
		}()
		time.Sleep(20 * time.Millisecond)
		c.Check(in.Load() == 0, "limit-exceeded", "Lock returned with all %d slots held", limit)
		ll.Unlock()
		err := <-done
		c.Check(err == nil, "spurious-timeout", "Lock failed (%v) although a slot was freed well within its timeout", err)
		for i := 0; i < limit; i++ {
			ll.Unlock()
		}
		c.Check(ll.Cc() == 0 && ll.LockCount() == int64(limit)+1, "count-drift", "nothing held, Cc=%d LockCount=%d after %d Locks", ll.Cc(), ll.LockCount(), limit+1)
		c.Eval(1)
		c.Max("largest_limit", limit)
	})
	r.Cases("handover", r.N(100, 1500), 4, func(c *vh.Case) {
		limit := 1 + c.R.IntN(3)
		ll := lock.NewLimitLock(limit, 10*time.Minute)
		for i := 0; i < limit; i++ {
			ll.Lock()
		}
		n := 1 + c.R.IntN(6)
		var in atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := ll.Lock(); err != nil {
					c.Violate("spurious-timeout", "%v", err)
					return
				}
				in.Add(1)
				ll.Unlock()
			}()
		}
		spin(c.R.IntN(40))
		c.Check(in.Load() == 0, "limit-exceeded", "%d waiters entered with all slots held", in.Load())
		ll.Unlock() // one freed slot must do for all of them, one after the other
		wg.Wait()
		c.Check(in.Load() == int32(n), "lost-waiter", "%d of %d waiters got the freed slot", in.Load(), n)
		c.Check(ll.Cc() == int64(limit-1), "count-drift", "Cc=%d want %d", ll.Cc(), limit-1)
		c.Eval(1)
		c.Observe("waiters_handed_a_slot", n)
	})
}
