package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/hashmap"
	"github.com/donnie4w/gofer/lock"
	"github.com/donnie4w/gofer/pool/gopool"
	"github.com/donnie4w/gofer/uuid"
	"verifharness/vh"
)

var quiet = log.New(io.Discard, "", 0)

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	debug.FreeOSMemory()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

type churn struct {
	name string
	n    int // keys per batch
	mk   func() func(lo, n int)
}

var live, ended = context.Background(), func() context.Context {
	c, f := context.WithCancel(context.Background())
	f()
	return c
}()

func big(i int) *[64]byte { return &[64]byte{byte(i)} }

var churns = []churn{
	{"Map", 60000, func() func(int, int) {
		m := hashmap.NewMap[int, *[64]byte]()
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i, big(i))
				if i%3 == 0 {
					m.Put(i, big(i))
				}
				m.Del(i)
			}
		}
	}},
	{"MapL", 60000, func() func(int, int) {
		m := hashmap.NewMapL[string, *[64]byte]()
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(fmt.Sprint(i), big(i))
			}
			for i := lo; i < lo+n; i++ {
				m.Del(fmt.Sprint(i))
			}
		}
	}},
	{"TreeMap", 60000, func() func(int, int) {
		m := hashmap.NewTreeMap[int, *[64]byte](8)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i, big(i))
			}
			for i := lo; i < lo+n; i++ {
				m.Del(i)
			}
		}
	}},
	{"LimitMap", 60000, func() func(int, int) {
		m := hashmap.NewLimitMap[int, *[64]byte](100)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i, big(i))
				if i%5 == 0 {
					m.Del(i)
				}
				if i%7 == 0 {
					m.RemoveMulti([]int{i, i - 1})
				}
			}
		}
	}},
	{"LimitHashMap", 60000, func() func(int, int) {
		m := hashmap.NewLimitHashMapWithSegment[int, *[64]byte](128, 4)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i, big(i))
				if i%5 < 3 {
					m.Del(i)
				}
				m.Put(i-i%9, big(i))
			}
		}
	}},
	{"LinkedHashMap", 60000, func() func(int, int) {
		m := hashmap.NewLinkedHashMap[int, *[64]byte](100)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i, big(i))
				m.LoadOrStore(i+1, big(i))
				if i%5 == 0 {
					m.Delete(i)
				}
				if i%2000 == 0 {
					m.Clear()
				}
			}
		}
	}},
	{"LruCache", 60000, func() func(int, int) {
		m := cache.NewLruCache[*[64]byte](100)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Add(fmt.Sprint(i), big(i))
				if i%5 == 0 {
					m.Remove(fmt.Sprint(i))
				}
			}
		}
	}},
	{"BloomFilter", 60000, func() func(int, int) {
		m := cache.NewBloomFilter(1000, 0.01)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Add([]byte(fmt.Sprint(i)))
			}
		}
	}},
	{"Consistenthash", 400, func() func(int, int) {
		m := hashmap.NewConsistenthash(50)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Add(int64(i))
				m.Del(int64(i))
			}
		}
	}},
	{"Numlock", 60000, func() func(int, int) {
		m := lock.NewNumLock(16)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Lock(int64(i))
				m.Unlock(int64(i))
				if _, ok := m.TryLock(int64(-i)); ok {
					m.Unlock(int64(-i))
				}
			}
		}
	}},
	{"Strlock", 60000, func() func(int, int) {
		m := lock.NewStrlock(16)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				s := fmt.Sprint("key ", i)
				m.Lock(s)
				m.Unlock(s)
				m.RLock(s)
				m.RUnlock(s)
			}
		}
	}},
	{"LimitLock", 60000, func() func(int, int) {
		m := lock.NewLimitLock(2, time.Second)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Lock()
				m.Unlock()
			}
		}
	}},
	{"Await", 30000, func() func(int, int) {
		m := lock.NewAwait[int](8)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				switch i % 5 {
				case 3:
					m.WaitWithCancel(ended, int64(i), time.Hour)
				case 4:
					m.WaitWithCancel(ended, int64(i), 0)
				case 0:
					m.Get(int64(i))
					m.CloseAndPut(int64(i), i)
				case 1:
					m.Get(int64(i))
					m.Close(int64(i))
				case 2:
					m.Wait(int64(i), 1)
				}
			}
		}
	}},
	{"FastAwait", 30000, func() func(int, int) {
		m := lock.NewFastAwait2[int](1000)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				switch i % 4 {
				case 0:
					m.Wait(int64(i), 1)
				case 1:
					m.WaitWithCancel(live, int64(i), 1)
				case 2:
					m.WaitWithCancel(ended, int64(i), time.Hour)
				case 3:
					m.WaitWithCancel(ended, int64(i), 0)
				}
			}
		}
	}},
	{"GoPool", 60000, func() func(int, int) {
		m := gopool.NewPoolWithFuncLimit(2, 4, 100)
		return func(lo, n int) {
			done := make(chan struct{}, n)
			for i := lo; i < lo+n; i++ {
				b := big(i)
				m.Go(func() {
					b[1]++
					done <- struct{}{}
					if b[0] == 7 {
						panic("submitted function panics")
					}
				})
			}
			for i := 0; i < n; i++ {
				<-done
			}
		}
	}},
	{"Map, few keys", 60000, func() func(int, int) {
		m, l := hashmap.NewMap[int, *[64]byte](), hashmap.NewMapL[int, *[64]byte]()
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i%50, big(i))
				l.Put(i%50, big(i))
			}
		}
	}},
	{"TreeMap, few keys", 60000, func() func(int, int) {
		m := hashmap.NewTreeMap[int, *[64]byte](3)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i%50, big(i))
				if i%7 == 0 {
					m.Del(i * 3 % 50)
				}
			}
		}
	}},
	{"LimitMap, few keys", 60000, func() func(int, int) {
		m, h := hashmap.NewLimitMap[int, *[64]byte](100), hashmap.NewLimitHashMapWithSegment[string, *[64]byte](100, 4)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i%50, big(i))
				h.Put(fmt.Sprint(i%15), big(i))
				if i%7 == 0 {
					m.Del(i * 3 % 50)
					h.Del(fmt.Sprint(i * 3 % 15))
				}
			}
		}
	}},
	{"LinkedHashMap, few keys", 60000, func() func(int, int) {
		m := hashmap.NewLinkedHashMap[int, *[64]byte](100)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Put(i%50, big(i))
				m.MoveToFront(i * 7 % 50)
				m.LoadOrStore(i*3%50, big(i))
				if i%7 == 0 {
					m.Delete(i * 3 % 50)
				}
			}
		}
	}},
	{"LruCache, few keys", 60000, func() func(int, int) {
		m := cache.NewLruCache[*[64]byte](100)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Add(fmt.Sprint(i%50), big(i))
				m.Get(fmt.Sprint(i * 7 % 50))
			}
		}
	}},
	{"Consistenthash, few nodes", 1000, func() func(int, int) {
		m := hashmap.NewConsistenthash(50)
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				m.Add(int64(i%5), int64(i%5))
				if i%7 == 0 {
					m.Del(int64(i * 3 % 5))
				}
				m.Get(int64(i))
				m.GetNextNodeStr(fmt.Sprint(i), 3)
			}
		}
	}},
	{"Await without waiters", 2000, func() func(int, int) {
		m := lock.NewAwait[int](8)
		return func(lo, n int) {
			var wg sync.WaitGroup
			for i := lo; i < lo+n; i++ {
				wg.Add(1)
				go func() { // gives up after a second
					defer wg.Done()
					if i%2 == 0 {
						m.CloseAndPut(int64(i), i)
					} else {
						m.Close(int64(i))
					}
				}()
			}
			wg.Wait()
		}
	}},
	{"UUID", 60000, func() func(int, int) {
		return func(lo, n int) {
			for i := lo; i < lo+n; i++ {
				uuid.NewUUID()
			}
		}
	}},
}

func r02(r *vh.Run) {
	r.Rule("each case passes three or more batches of distinct keys through one bounded, keyed or transient structure (each key is removed, evicted or released again, or the same few keys are put again and again) and compares the live heap after the first and after the last batch; one retained word per key would exceed the limit; counted by structure and batch size")
	r.SeqCases("churn", len(churns)*r.N(2, 12), 1, func(c *vh.Case) {
		x := churns[c.I%len(churns)]
		n := x.n + c.R.IntN(x.n/4)
		f := x.mk()
		lo := 1 + c.R.IntN(1<<20)
		f(lo, n)
		lo += n
		batches := c.N(3, 8)
		limit := int64(n*batches) * 6
		if strings.HasPrefix(x.name, "Consistenthash") {
			limit = int64(n*batches) * 200 // 50 points each
		}
		limit += 64 << 10
		// what is retained is retained every time: growth counts if it repeats
		grown := int64(1 << 62)
		for try := 0; try < 3 && grown >= limit; try++ {
			h0 := heap()
			for b := 0; b < batches; b++ {
				f(lo, n)
				lo += n
			}
			grown = min(grown, heap()-h0)
		}
		c.Check(grown < limit, "memory-grows", "%s: the live heap grew by %d bytes over %d keys that are no longer in it, three times in a row", x.name, grown, n*batches)
		runtime.KeepAlive(f)
		c.Eval(1)
		c.Observe("keys_passed_"+x.name, n*batches)
		c.Max("largest_growth_bytes", int(max(0, grown)))
		c.Distinct(vh.Hash(x.name, n))
		if c.I < len(churns) && c.I%5 == 0 {
			c.Sample(map[string]any{"structure": x.name, "keys": n * batches, "heap_growth_bytes": grown})
		}
	})
}
