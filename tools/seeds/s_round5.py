SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="treemap-ascend-pages", property="M03", pkg="hashmap",
 edits=[("hashmap/treemap.go", '''	m.mutex.RLock()
	defer m.mutex.RUnlock()
	m.tree.Ascend(func(item btree.Item) bool {
		i := item.(treeItem[K, V])
		return iter(i.Key, i.Value)
	})''', '''	m.mutex.RLock()
	defer m.mutex.RUnlock()
	n := 0
	var last btree.Item
	for more := true; more; {
		more = false
		page := func(item btree.Item) bool {
			i := item.(treeItem[K, V])
			if last != nil && !last.Less(item) {
				return true
			}
			last = item
			if !iter(i.Key, i.Value) {
				return false
			}
			if n++; n%1024 == 0 {
				more = true
				return false
			}
			return true
		}
		if last == nil {
			m.tree.Ascend(page)
			continue
		}
		// let writers in between the pages
		m.mutex.RUnlock()
		m.mutex.RLock()
		m.tree.AscendGreaterOrEqual(last, page)
	}''')],
 needs="a tree of more than 1024 entries and a writer that gets in between two pages of a walk",
 breaks="Ascend visits entries that were never all present at one instant",
 demo='''
package hashmap

import "testing"

func TestDemo(t *testing.T) {
	m := NewTreeMap[int, int](16)
	for i := 0; i < 2500; i++ {
		m.Put(i, 0)
	}
	stop := make(chan bool)
	m.Put(9999, 0)
	go func() { // at any instant there is an entry -1 or an entry 9999
		for {
			m.Put(-1, 0)
			m.Del(9999)
			m.Put(9999, 0)
			m.Del(-1)
			select {
			case <-stop:
				return
			default:
			}
		}
	}()
	for i := 0; i < 3000 && !t.Failed(); i++ {
		n := 0
		m.Ascend(func(k, v int) bool {
			if k == -1 || k == 9999 {
				n++
			}
			return true
		})
		if n == 0 {
			t.Errorf("walk %d saw neither entry", i)
		}
	}
	stop <- true
}
''')
seed(id="limitmap-whole-batch-clears", property="M04", pkg="hashmap",
 edits=[("hashmap/limitmap.go", '''	for _, key := range keys {
		if elem''', '''	if len(keys) > 8 && len(keys) >= len(mc.cache) {
		clear(mc.cache) // all of it goes
		mc.order.Init()
		keys = nil
	}
	for i := range keys {
		key := keys[i]
		if elem''')],
 needs="RemoveMulti of more keys than the map holds, some of which it does not hold",
 breaks="keys that were not to be removed vanish",
 demo='''
package hashmap

import "testing"

func TestDemo(t *testing.T) {
	m := NewLimitMap[int, int](100)
	for i := 0; i < 10; i++ {
		m.Put(i, i)
	}
	m.RemoveMulti([]int{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 5, 5})
	for i := 0; i < 5; i++ {
		if v, ok := m.Get(i); !ok || v != i {
			t.Fatalf("key %d was removed by a batch that did not name it", i)
		}
	}
}
''')
seed(id="limitlock-timeout-frees-slot", property="L03", pkg="lock",
 edits=[("lock/lock.go", '''		err = errors.New("timeout")
''', '''		err = ll.late()
'''), ("lock/lock.go", '''// Lock acquires a lock with a timeout.
''', '''// late returns nil for a waiter whose slot came free in the last moment.
func (ll *LimitLock) late() error {
	select {
	case ll.ch <- 1:
		if atomic.LoadInt64(&ll.count) < int64(cap(ll.ch)) {
			atomic.AddInt64(&ll.count, 1)
			return nil
		}
	default:
	}
	return errors.New("timeout")
}

// Lock acquires a lock with a timeout.
''')],
 needs="a slot that is released in the moment in which a waiter's time ends",
 breaks="the waiter reports a timeout and keeps the slot for ever",
 demo='''
package lock

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 4000; round++ {
		l := NewLimitLock(1, 200*time.Microsecond)
		if l.Lock() != nil {
			continue
		}
		got := make(chan error)
		go func() { got <- l.Lock() }()
		time.Sleep(time.Duration(150+round%100) * time.Microsecond)
		l.Unlock()
		if <-got == nil {
			l.Unlock()
		}
		free := false
		for i := 0; i < 50 && !free; i++ {
			free = l.Lock() == nil
		}
		if !free {
			t.Fatalf("round %d: nobody holds the slot, and it cannot be had", round)
		}
		l.Unlock()
	}
}
''')
seed(id="mapl-range-bounded-by-length", property="M02", pkg="hashmap",
 edits=[("hashmap/map.go", '''func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
	t.m.Range(func(k, v any) bool {
		key, _ := k.(K) // a nil interface has no type to assert
		value, _ := v.(V)
		return f(key, value)
	})
}''', '''func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
	left := t.Len() // no more than there are
	visit := func(k, v any) bool {
		left--
		key, _ := k.(K) // a nil interface has no type to assert
		value, _ := v.(V)
		return f(key, value) && left > 0
	}
	t.m.Range(visit)
}''')],
 needs="insertions while Range walks",
 breaks="Range misses keys that were there all the time",
 demo='''
package hashmap

import "testing"

func TestDemo(t *testing.T) {
	for round := 0; round < 50; round++ {
		m := NewMapL[int, int]()
		for i := 0; i < 64; i++ {
			m.Put(i, i)
		}
		n, first := 0, true
		m.Range(func(k, v int) bool {
			if first {
				first = false
				// others put and delete meanwhile, so that the map is rebuilt
				for i := 1000; i < 3000; i++ {
					m.Put(i, i)
				}
			}
			if k < 64 {
				n++
			}
			return true
		})
		if n != 64 {
			t.Fatalf("Range visited %d of 64 keys that stayed", n)
		}
	}
}
''')
seed(id="uuid-int32-fifteen-bytes", property="I03", pkg="uuid",
 edits=[("uuid/uuid.go", '''	return int32(hash64(u[:]))''', '''	return int32(hash64(u[:len(u)-1]))''')],
 needs="two UUIDs that differ in the last byte alone",
 breaks="the 32-bit number ignores a byte of the UUID",
 demo='''
package uuid

import "testing"

func TestDemo(t *testing.T) {
	var a UUID
	n := 0
	for i := 1; i < 10; i++ {
		b := a
		b[15] = byte(i)
		if b.Int32() == a.Int32() {
			n++
		}
	}
	if n > 2 {
		t.Fatalf("%d of 9 UUIDs that differ in one byte have the same number", n)
	}
}
''')
seed(id="proto-discards-unknown-fields", property="U04", pkg="util",
 edits=[("util/protobuf.go", '''return proto.Unmarshal(bs, m)''', '''return proto.UnmarshalOptions{DiscardUnknown: true}.Unmarshal(bs, m)''')],
 needs="a message that carries fields its receiver does not know",
 breaks="the message decoded differs from the one encoded",
 demo='''
package util

import (
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

func TestDemo(t *testing.T) {
	m := wrapperspb.String("x")
	m.ProtoReflect().SetUnknown([]byte{0x98, 0x06, 0x01}) // field 99
	o := &wrapperspb.StringValue{}
	if err := Unmarshal(Marshal(m), o); err != nil || !proto.Equal(m, o) {
		t.Fatalf("%v, got %v want %v", err, o, m)
	}
}
''')
seed(id="mmap-close-skips-untouched", property="P03", pkg="mmap",
 edits=[("mmap/mmap.go", '''	if err = t.Flush(); err == nil {
		err = t.Unmap()
	}''', '''	if t.offset > 0 { // something was written
		err = t.Flush()
	}
	if err == nil {
		err = t.Unmap()
	}''')],
 needs="a mapping opened at offset 0 and changed through Bytes alone before Close",
 breaks="Close does not flush what was written",
 demo='''
package mmap

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if p := os.Getenv("DEMO_FILE"); p != "" {
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		if err != nil {
			t.Fatal(err)
		}
		m, err := NewMMAP(f, 0)
		if err != nil {
			t.Fatal(err)
		}
		copy(m.Bytes(), "hello")
		if err = m.Close(); err != nil {
			t.Fatal(err)
		}
		return
	}
	d := t.TempDir()
	p := filepath.Join(d, "f")
	if err := os.WriteFile(p, make([]byte, 8192), 0o600); err != nil {
		t.Fatal(err)
	}
	log := filepath.Join(d, "log")
	c := exec.Command("strace", "-f", "-e", "trace=msync,fsync,fdatasync", "-o", log, os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_FILE="+p)
	if out, err := c.CombinedOutput(); err != nil {
		t.Skipf("no trace: %v %s", err, out)
	}
	b, _ := os.ReadFile(log)
	if s := string(b); !strings.Contains(s, "msync(") && !strings.Contains(s, "sync(") {
		t.Fatalf("no flush before Close returned: %s", s)
	}
}
''')
seed(id="bytestointarray-limited", property="U03", pkg="util",
 edits=[("util/num.go", '''	data = make([]int64, len(bs)/8)''', '''	data = make([]int64, min(len(bs)/8, 1<<17)) // a megabyte at most''')],
 needs="more than 131072 numbers",
 breaks="large slices come back cut short",
 demo='''
package util

import "testing"

func TestDemo(t *testing.T) {
	a := make([]int64, 200000)
	for i := range a {
		a[i] = int64(i) - 1000
	}
	b := BytesToIntArray(IntArrayToBytes(a))
	if len(b) != len(a) {
		t.Fatalf("%d numbers, back %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			t.Fatal(i, a[i], b[i])
		}
	}
}
''')
seed(id="keystore-skips-equal-checksum", property="K01", pkg="keystore",
 edits=[("keystore/bin.go", '''	var obs []byte
	if obs, err''', '''	obs := bs
	if old, e := os.ReadFile(this.fname); e == nil {
		// the same content need not be written again
		if was, e := util.UnZlib(old); e == nil && len(was) == len(bs) && util.CRC32(was) == util.CRC32(bs) {
			return nil
		}
	}
	if obs, err''')],
 needs="a content of the same length and CRC-32 as the one stored",
 breaks="a write that reports success changes nothing",
 demo='''
package keystore

import (
	"encoding/binary"
	"hash/crc32"
	"testing"
)

func TestDemo(t *testing.T) {
	// four bytes that bring the CRC-32 of "b"+them to that of a, found by inverting the last steps
	a := []byte("some content of the store")
	want := crc32.ChecksumIEEE(a)
	prefix := []byte("quite another content")
	var b []byte
	idx := map[byte]int{}
	for i := range crc32.IEEETable {
		idx[byte(crc32.IEEETable[i]>>24)] = i
	}
	c := ^want
	for i := 0; i < 4; i++ {
		k := idx[byte(c>>24)]
		c = (c^crc32.IEEETable[k])<<8 | uint32(k)
	}
	var x [4]byte
	binary.LittleEndian.PutUint32(x[:], c^^crc32.ChecksumIEEE(prefix))
	b = append(prefix, x[:]...)
	if len(a) != len(b) || crc32.ChecksumIEEE(b) != want {
		t.Fatalf("demo: %d %d %x %x", len(a), len(b), crc32.ChecksumIEEE(b), want)
	}
	d, err := NewKeyStore(t.TempDir(), "demo")
	if err != nil {
		t.Fatal(err)
	}
	for _, v := range [][]byte{a, b} {
		if err := d.Write(v); err != nil {
			t.Fatal(err)
		}
		if got, err := d.Read(); err != nil || string(got) != string(v) {
			t.Fatalf("wrote %q, read %q, %v", v, got, err)
		}
	}
}
''')
