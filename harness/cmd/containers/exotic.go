package main

import (
	"fmt"
	"strings"

	"github.com/donnie4w/gofer/hashmap"
	"verifharness/vh"
)

// unusual key and value types: keys of mixed dynamic types that many renderings or hashes make equal, values that
// cannot be compared, nil interface values, callbacks that panic, read or change the structure they are called from.

func asVal[V any](v any) (r V) {
	if v != nil {
		r = v.(V)
	}
	return
}

func asAny[V any](v V, ok bool) (any, bool) {
	if !ok {
		return nil, false
	}
	return v, true
}

func gMap[K comparable, V any]() vh.GMap {
	m := hashmap.NewMap[K, V]()
	return vh.GMap{Reports: true,
		Put:   func(k, v any) (any, bool) { return asAny(m.Put(k.(K), asVal[V](v))) },
		Get:   func(k any) (any, bool) { return asAny(m.Get(k.(K))) },
		Has:   func(k any) bool { return m.Has(k.(K)) },
		DelOk: func(k any) bool { return m.Del(k.(K)) },
		Each:  func(f func(k, v any) bool) { m.Range(func(k K, v V) bool { return f(k, v) }) }}
}

func gMapL[K comparable, V any]() vh.GMap {
	m := hashmap.NewMapL[K, V]()
	return vh.GMap{Reports: true,
		Put:   func(k, v any) (any, bool) { return asAny(m.Put(k.(K), asVal[V](v))) },
		Get:   func(k any) (any, bool) { return asAny(m.Get(k.(K))) },
		Has:   func(k any) bool { return m.Has(k.(K)) },
		DelOk: func(k any) bool { return m.Del(k.(K)) },
		Len:   func() int { return int(m.Len()) },
		Each:  func(f func(k, v any) bool) { m.Range(func(k K, v V) bool { return f(k, v) }) }}
}

func gLimit[K comparable, V any](capacity int) vh.GMap {
	m := hashmap.NewLimitMap[K, V](capacity)
	return vh.GMap{Reports: true,
		Put: func(k, v any) (any, bool) { return asAny(m.Put(k.(K), asVal[V](v))) },
		Get: func(k any) (any, bool) { return asAny(m.Get(k.(K))) },
		Del: func(k any) { m.Del(k.(K)) },
		Len: m.Len}
}

func gLimitMulti[K comparable, V any](capacity int) vh.GMap {
	m := hashmap.NewLimitMap[K, V](capacity)
	return vh.GMap{Reports: true,
		Put: func(k, v any) (any, bool) { return asAny(m.Put(k.(K), asVal[V](v))) },
		Get: func(k any) (any, bool) { return asAny(m.Get(k.(K))) },
		Del: func(k any) { m.RemoveMulti([]K{k.(K)}) },
		Len: m.Len}
}

func gLinked[K comparable, V any](limit int64) vh.GMap {
	m := hashmap.NewLinkedHashMap[K, V](limit)
	walk := func(front bool) func(f func(k, v any) bool) {
		return func(f func(k, v any) bool) {
			it := m.Iterator(front)
			for {
				k, v, ok := it.Next()
				if !ok || !f(k, v) {
					return
				}
			}
		}
	}
	return vh.GMap{
		Put: func(k, v any) (any, bool) { m.Put(k.(K), asVal[V](v)); return nil, false },
		Get: func(k any) (any, bool) { return asAny(m.Get(k.(K))) },
		Del: func(k any) { m.Delete(k.(K)) },
		Len: func() int { return int(m.Len()) }, Each: walk(true), EachRev: walk(false)}
}

func strKeys() (ks []any) {
	for _, s := range []string{"", " ", "\x00", "\x00\x00", "a", "A", "á", "a\u0301", "key", "Key", "key ", "key\n", "\xff", "\xff\xfe", "0", "00"} {
		ks = append(ks, s)
	}
	for i := 0; i < 12; i++ {
		ks = append(ks, strings.Repeat("x", 1<<i), strings.Repeat("x", 1<<i)+"y")
	}
	return
}

func exotic(r *vh.Run, n int, mixed, strs map[string]func() vh.GMap) {
	r.SeqCases("mixed-keys", n, 4, func(c *vh.Case) {
		names := sortedKeys(mixed)
		name := names[c.I%len(names)]
		c.Lockstep(name, mixed[name](), vh.MixedKeys(), vh.OddValue, 300)
		if c.I == 0 {
			var s []string
			for _, k := range vh.MixedKeys() {
				s = append(s, fmt.Sprintf("%T", k))
			}
			c.Sample(name + " keys of types " + strings.Join(s, " "))
		}
	})
	r.SeqCases("odd-values", n, 4, func(c *vh.Case) {
		names := sortedKeys(strs)
		name := names[c.I%len(names)]
		val := vh.OddValue
		switch {
		case strings.Contains(name, "[]int"):
			val = func(n int) any {
				if n%5 == 0 {
					return []int(nil)
				}
				return make([]int, n%4, n%4+n%3)
			}
		case strings.Contains(name, "func"):
			val = func(n int) any { return func() int { return n } }
		case strings.Contains(name, "map"):
			val = func(n int) any { return map[int]int{n: n} }
		case strings.Contains(name, "struct{}"):
			val = func(n int) any { return struct{}{} }
		}
		c.Lockstep(name, strs[name](), strKeys(), val, 300)
	})
}

func exoticMaps(r *vh.Run, n int) {
	exotic(r, n, map[string]func() vh.GMap{"Map[any,any]": gMap[any, any]},
		map[string]func() vh.GMap{"Map[string,any]": gMap[string, any], "Map[string,[]int]": gMap[string, []int], "Map[string,func]": gMap[string, func() int], "Map[string,map]": gMap[string, map[int]int], "Map[string,struct{}]": gMap[string, struct{}]})
}

func exoticMapL(r *vh.Run, n int) {
	exotic(r, n, map[string]func() vh.GMap{"MapL[any,any]": gMapL[any, any]},
		map[string]func() vh.GMap{"MapL[string,any]": gMapL[string, any], "MapL[string,[]int]": gMapL[string, []int], "MapL[string,func]": gMapL[string, func() int], "MapL[string,map]": gMapL[string, map[int]int], "MapL[string,struct{}]": gMapL[string, struct{}]})
	// Range callbacks may read and change the map and may panic
	r.SeqCases("range-callback", n, 4, func(c *vh.Case) {
		a, b := hashmap.NewMapL[int, int](), hashmap.NewMap[int, int]()
		size := 1 + c.R.IntN(40)
		for i := 0; i < size; i++ {
			a.Put(i, i)
			b.Put(i, i)
		}
		for _, m := range []struct {
			name  string
			rng   func(func(int, int) bool)
			put   func(int, int) (int, bool)
			get   func(int) (int, bool)
			del   func(int) bool
			count func() int64
		}{{"MapL", a.Range, a.Put, a.Get, a.Del, a.Len}, {"Map", b.Range, b.Put, b.Get, b.Del, nil}} {
			p := vh.Try(func() { m.rng(func(int, int) bool { panic("callback") }) })
			c.Check(strings.Contains(p, "callback"), "range-panic", "%s: panic in a Range callback came out as %q", m.name, p)
			seen := map[int]int{}
			nested := 0
			m.rng(func(k, v int) bool {
				seen[k]++
				g, ok := m.get(k)
				c.Check(ok && g == v, "range-get", "%s: inside Range Get(%d) = %d,%v want %d", m.name, k, g, ok, v)
				if len(seen) == 1 {
					m.rng(func(int, int) bool { nested++; return true })
				}
				if k%2 == 0 {
					c.Check(m.del(k), "range-del", "%s: Del(%d) inside Range reports nothing removed", m.name, k)
				} else {
					pv, pb := m.put(k, v+1)
					c.Check(pb && pv == v, "range-put", "%s: Put(%d) inside Range replaced %d,%v", m.name, k, pv, pb)
				}
				return true
			})
			c.Check(len(seen) == size && nested == size, "range-all", "%s: Range that deletes and updates visits %d, a nested one %d of %d", m.name, len(seen), nested, size)
			for k, n := range seen {
				c.Check(n == 1 && k >= 0 && k < size, "range-once", "%s: Range visits %d %d times", m.name, k, n)
				g, ok := m.get(k)
				c.Check(ok == (k%2 == 1) && (!ok || g == k+1), "range-effect", "%s: after Range %d = %d,%v", m.name, k, g, ok)
			}
			if m.count != nil {
				c.Check(m.count() == int64(size/2), "len", "%s: Len %d after deleting the even keys of %d", m.name, m.count(), size)
			}
		}
		c.Eval(1)
		c.Observe("range_callbacks_that_changed_the_map", size)
		c.Distinct(vh.Hash("range-callback", size))
	})
}

func exoticTree(r *vh.Run, n int) {
	type str string
	r.SeqCases("odd-values", n, 4, func(c *vh.Case) {
		m := hashmap.NewTreeMap[string, any](2 + c.I%5)
		c.Lockstep("TreeMap[string,any]", vh.GMap{Reports: true,
			Put:     func(k, v any) (any, bool) { return asAny(m.Put(k.(string), v)) },
			Get:     func(k any) (any, bool) { return asAny(m.Get(k.(string))) },
			Del:     func(k any) { m.Del(k.(string)) },
			Each:    func(f func(k, v any) bool) { m.Ascend(func(k string, v any) bool { return f(k, v) }) },
			EachRev: func(f func(k, v any) bool) { m.Descend(func(k string, v any) bool { return f(k, v) }) },
		}, strKeys(), vh.OddValue, 300)
		mf := hashmap.NewTreeMap[str, func() int](2 + c.I%5)
		c.Lockstep("TreeMap[named string,func]", vh.GMap{Reports: true,
			Put:  func(k, v any) (any, bool) { return asAny(mf.Put(str(k.(string)), v.(func() int))) },
			Get:  func(k any) (any, bool) { return asAny(mf.Get(str(k.(string)))) },
			Del:  func(k any) { mf.Del(str(k.(string))) },
			Each: func(f func(k, v any) bool) { mf.Ascend(func(k str, v func() int) bool { return f(string(k), v) }) },
		}, strKeys(), func(n int) any { return func() int { return n } }, 300)
		if c.I == 0 {
			c.Sample("TreeMap with values of function, map, slice, struct and nil types")
		}
	})
	r.SeqCases("callbacks", n, 4, func(c *vh.Case) {
		m := hashmap.NewTreeMap[int, int](2 + c.R.IntN(5))
		size := 1 + c.R.IntN(60)
		for i := 0; i < size; i++ {
			m.Put(i, i)
		}
		at := c.R.IntN(size)
		for dir, f := range []func(func(int, int) bool){m.Ascend, m.Descend} {
			n := 0
			p := vh.Try(func() {
				f(func(k, v int) bool {
					if n++; n > at {
						panic("callback")
					}
					return true
				})
			})
			c.Check(strings.Contains(p, "callback") && n == at+1, "callback-panic", "direction %d: panic in callback %d came out as %q after %d calls", dir, at, p, n)
			// the map stays usable
			m.Put(1000+dir, 1)
			v, ok := m.Get(1000 + dir)
			c.Check(ok && v == 1, "callback-panic", "after a panic in a callback Get gives %d,%v", v, ok)
			m.Del(1000 + dir)
			// reading the map and traversing it again from a callback
			tot := 0
			f(func(k, v int) bool {
				g, ok := m.Get(k)
				c.Check(ok && g == v, "callback-get", "Get(%d) inside a traversal = %d,%v", k, g, ok)
				if k == at {
					m.Ascend(func(int, int) bool { tot++; return true })
					m.Descend(func(int, int) bool { tot++; return tot < size+at+1 })
				}
				return true
			})
			c.Check(tot == size+at+1, "callback-nested", "traversals inside a traversal made %d calls, want %d", tot, size+at+1)
		}
		c.Eval(1)
		c.Observe("traversals_with_panicking_or_reading_callbacks", 4)
		c.Distinct(vh.Hash("callbacks", size, at))
	})
}

func exoticLimit(r *vh.Run, n int) {
	exotic(r, n, map[string]func() vh.GMap{"LimitMap[any,any]": func() vh.GMap { return gLimit[any, any](len(vh.MixedKeys())) }, "LimitMap[any,any] multi": func() vh.GMap { return gLimitMulti[any, any](1 << 40) }},
		map[string]func() vh.GMap{"LimitMap[string,any]": func() vh.GMap { return gLimit[string, any](1 << 50) }, "LimitMap[string,[]int]": func() vh.GMap { return gLimit[string, []int](len(strKeys())) }, "LimitMap[string,func] multi": func() vh.GMap { return gLimitMulti[string, func() int](100) }, "LimitMap[string,map]": func() vh.GMap { return gLimit[string, map[int]int](1000) }})
}

func exoticLHM(r *vh.Run, n int) {
	r.SeqCases("odd-values", n, 4, func(c *vh.Case) {
		size := len(strKeys())
		capacity := []int{size * 64, 1 << 30, 1 << 12}[c.I%3]
		if c.I%2 == 0 {
			m := hashmap.NewLimitHashMap[string, any](capacity)
			c.Lockstep("LimitHashMap[string,any]", vh.GMap{Reports: true,
				Put: func(k, v any) (any, bool) { return asAny(m.Put(k.(string), v)) },
				Get: func(k any) (any, bool) { return asAny(m.Get(k.(string))) },
				Has: func(k any) bool { return m.Contains(k.(string)) },
				Del: func(k any) { m.Del(k.(string)) }, Len: m.Len}, strKeys(), vh.OddValue, 300)
		} else {
			m := hashmap.NewLimitHashMapWithSegment[string, []int](capacity, 1+c.R.IntN(8))
			c.Lockstep("LimitHashMap[string,[]int]", vh.GMap{Reports: true,
				Put: func(k, v any) (any, bool) { return asAny(m.Put(k.(string), v.([]int))) },
				Get: func(k any) (any, bool) { return asAny(m.Get(k.(string))) },
				Has: func(k any) bool { return m.Contains(k.(string)) },
				Del: func(k any) { m.Del(k.(string)) }, Len: m.Len}, strKeys(), func(n int) any {
				if n%5 == 0 {
					return []int(nil)
				}
				return make([]int, n%4)
			}, 300)
		}
	})
}

func exoticLinked(r *vh.Run, n int) {
	exotic(r, n, map[string]func() vh.GMap{"LinkedHashMap[any,any]": func() vh.GMap { return gLinked[any, any](1 << 60) }, "LinkedHashMap[any,any] tight": func() vh.GMap { return gLinked[any, any](int64(len(vh.MixedKeys()))) }},
		map[string]func() vh.GMap{"LinkedHashMap[string,any]": func() vh.GMap { return gLinked[string, any](int64(len(strKeys()))) }, "LinkedHashMap[string,[]int]": func() vh.GMap { return gLinked[string, []int](1 << 40) }, "LinkedHashMap[string,func]": func() vh.GMap { return gLinked[string, func() int](100) }})
}
