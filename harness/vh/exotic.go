package vh

import (
	"fmt"
	"reflect"
	"sort"
)

// GMap is one keyed structure seen through its operations; an operation it does not offer is nil.
type GMap struct {
	Put     func(k, v any) (prev any, had bool)
	Reports bool // Put reports what it replaced
	Get     func(k any) (any, bool)
	Has     func(k any) bool
	Del     func(k any)
	DelOk   func(k any) bool
	Len     func() int
	Each    func(f func(k, v any) bool)
	EachRev func(f func(k, v any) bool)
}

type keyA struct{ N int }
type keyB struct{ N int }
type keyS string

// MixedKeys are pairwise different keys which many a rendering, conversion or hash makes equal.
func MixedKeys() []any {
	a, b := 7, 7
	return []any{1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), uintptr(1),
		1.0, float32(1), complex(1, 0), "1", keyS("1"), true, "true", [1]int{1}, [2]int{1, 0}, [1]any{1}, [1]any{"1"},
		keyA{1}, keyB{1}, struct{ N int }{1}, &a, &b, "", " ", "\x00", "\x00\x00", keyS(""), 0, int64(0), false, 0.0,
		"1 ", "01", "é", "e\u0301", keyA{}, keyB{}, struct{}{}, [0]int{}, reflect.TypeOf(1), reflect.TypeOf("")}
}

// OddValues makes values most of which cannot be compared; UnOdd gives a text which tells them apart.
func OddValue(n int) any {
	switch n % 9 {
	case 0:
		return []int{n}
	case 1:
		return map[string]int{"n": n}
	case 2:
		return func() int { return n }
	case 3:
		return nil
	case 4:
		return fmt.Errorf("error %d", n)
	case 5:
		return struct{ A, B any }{n, []string{fmt.Sprint(n)}}
	case 6:
		return (*int)(nil)
	case 7:
		return [3]any{n, nil, []byte{byte(n)}}
	}
	return n
}

func UnOdd(v any) string {
	if f, ok := v.(func() int); ok && f != nil {
		return fmt.Sprintf("func %d", f())
	}
	return fmt.Sprintf("%T %v", v, v)
}

// Lockstep runs n random operations on m and on a reference, with keys and values as given; m must be unbounded or wide
// enough for every key. key gives the text that identifies a key (pointers by address).
func (c *Case) Lockstep(what string, m GMap, keys []any, val func(int) any, n int) {
	type ent struct {
		v any
	}
	ref := map[any]ent{}
	kt := func(k any) string { return fmt.Sprintf("%T %v", k, k) }
	check := func() {
		if m.Len != nil {
			c.Check(m.Len() == len(ref), "len", "%s: length %d, stored %d", what, m.Len(), len(ref))
		}
		for _, each := range []func(func(k, v any) bool){m.Each, m.EachRev} {
			if each == nil {
				continue
			}
			seen := map[any]bool{}
			each(func(k, v any) bool {
				e, ok := ref[k]
				c.Check(ok && !seen[k] && UnOdd(v) == UnOdd(e.v), "each", "%s: traversal gives %s = %s, want %s present %v, seen before %v", what, kt(k), UnOdd(v), UnOdd(e.v), ok, seen[k])
				seen[k] = true
				return true
			})
			c.Check(len(seen) == len(ref), "each", "%s: traversal visits %d of %d entries", what, len(seen), len(ref))
		}
	}
	for i := 0; i < n && !c.Failed(); i++ {
		k := keys[c.R.IntN(len(keys))]
		old, had := ref[k]
		switch x := c.R.IntN(10); {
		case x < 5:
			v := val(i)
			pv, pb := m.Put(k, v)
			if m.Reports {
				c.Check(pb == had && UnOdd(pv) == UnOdd(old.v), "put-prev", "%s: Put(%s) reports %s,%v want %s,%v", what, kt(k), UnOdd(pv), pb, UnOdd(old.v), had)
			}
			ref[k] = ent{v}
		case x < 7:
			if m.DelOk != nil {
				b := m.DelOk(k)
				c.Check(b == had, "del", "%s: Del(%s) = %v, want %v", what, kt(k), b, had)
			} else {
				m.Del(k)
			}
			delete(ref, k)
		}
		for _, k := range []any{k, keys[c.R.IntN(len(keys))]} {
			e, want := ref[k]
			v, ok := m.Get(k)
			c.Check(ok == want && UnOdd(v) == UnOdd(e.v), "get", "%s: Get(%s) = %s,%v want %s,%v", what, kt(k), UnOdd(v), ok, UnOdd(e.v), want)
			if m.Has != nil {
				c.Check(m.Has(k) == want, "has", "%s: presence of %s is %v, want %v", what, kt(k), m.Has(k), want)
			}
		}
		if i%8 == 0 || i == n-1 {
			check()
		}
	}
	c.Eval(1)
	c.Observe("operations_on_unusual_keys_and_values", n)
	var ts []string
	for k := range ref {
		ts = append(ts, fmt.Sprintf("%T", k))
	}
	sort.Strings(ts)
	if len(ref) > 1 {
		c.Distinct(Hash(what, c.I, len(ref), ts))
	}
}
