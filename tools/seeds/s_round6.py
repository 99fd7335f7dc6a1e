SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="limitmap-entry-ceiling", property="M04", pkg="hashmap",
 edits=[("hashmap/limitmap.go", "		capacity: capacity,\n", "		capacity: min(capacity, 1<<16),\n")],
 needs="a capacity above 65536 and that many entries",
 breaks="a map that isn't full evicts an entry",
 demo='''
package hashmap

import "testing"

func TestDemo(t *testing.T) {
	m := NewLimitMap[int, int](70000)
	for i := 0; i < 70000; i++ {
		m.Put(i, i)
	}
	for i := 0; i < 70000; i++ {
		if v, ok := m.Get(i); !ok || v != i {
			t.Fatalf("%d of 70000 entries left, %d is %d,%v", m.Len(), i, v, ok)
		}
	}
}
''')

seed(id="limitlock-slot-ceiling", property="L03", pkg="lock",
 edits=[("lock/lock.go", '''	ch := make(chan int, limit) // Create a buffered channel
''', '''	ch := make(chan int, min(limit, 1<<14)) // Create a buffered channel
''')],
 needs="a limit above 16384 and that many holders",
 breaks="a Lock times out although slots are free",
 demo='''
package lock

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l := NewLimitLock(20000, 5*time.Second)
	for i := 0; i < 20000; i++ {
		if err := l.Lock(); err != nil {
			t.Fatalf("slot %d of 20000: %v", i, err)
		}
	}
}
''')

seed(id="consistenthash-bounded-walk", property="M08", pkg="hashmap",
 edits=[("hashmap/consistenthash.go", "			if _, ok := m[node]; !ok {", "			if _, ok := m[node]; !ok && len(m) < 1024 {")],
 needs="a ring of more than 1025 members and a list of many next nodes",
 breaks="the list of next nodes ends early",
 demo='''
package hashmap

import "testing"

func TestDemo(t *testing.T) {
	c := NewConsistenthash(2)
	for i := int64(1); i <= 6000; i++ {
		c.Add(i)
	}
	nodes, ok := c.GetNextNodeStr("some value", 5990)
	if !ok || len(nodes) != 5990 {
		t.Fatalf("%d next nodes of 5990, %v", len(nodes), ok)
	}
}
''')

seed(id="aes-long-key-prefix", property="K04", pkg="keystore",
 edits=[("keystore/aes.go", '''func _sha256(s string) []byte {
	m := sha256.New()
	m.Write([]byte(s))
''', '''func _sha256(s string) []byte {
	m := sha256.New()
	var block [4096]byte // no copy of the key on the heap
	m.Write(block[:copy(block[:], s)])
''')],
 needs="a key of more than 4096 bytes",
 breaks="only the first 4096 bytes of the key count: the ciphertext isn't the one under the key",
 demo='''
package keystore

import (
	"bytes"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	k := strings.Repeat("k", 5000)
	a, err := NewAes("iv", k+"1").EncrypterCbc([]byte("text"))
	b, err2 := NewAes("iv", k+"2").EncrypterCbc([]byte("text"))
	if err != nil || err2 != nil || bytes.Equal(a, b) {
		t.Fatalf("two keys, one ciphertext: %v %v", err, err2)
	}
}
''')

seed(id="keystore-inflate-guard", property="K01", pkg="keystore",
 edits=[("keystore/bin.go", "			if obs, er := util.UnZlib(bs); er == nil {", "			if obs, er := util.UnZlib(bs); er == nil && len(obs) <= 64*len(bs)+1<<20 { // no decompression bombs")],
 needs="a content of more than 1 MB that compresses better than 64 to 1",
 breaks="Read returns the compressed bytes instead of the content",
 demo='''
package keystore

import "testing"

func TestDemo(t *testing.T) {
	s, err := NewKeyStore(t.TempDir(), "demo")
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Write(make([]byte, 8<<20)); err != nil {
		t.Fatal(err)
	}
	if got, err := s.Read(); err != nil || len(got) != 8<<20 {
		t.Fatalf("wrote %d bytes, read %d, %v", 8<<20, len(got), err)
	}
}
''')

seed(id="fastio-readat-pages", property="F02", pkg="fastio",
 edits=[("fastio/file.go", "	return f.file.ReadAt(b, off)", '''	for n < len(b) && err == nil {
		var m int
		m, err = f.file.ReadAt(b[n:min(len(b), n+1<<20)], off+int64(n%(1<<20)))
		n += m
	}
	return''')],
 needs="a single read of more than 1 MB",
 breaks="the bytes after the first megabyte come from the wrong place",
 demo='''
package fastio

import (
	"bytes"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	f, err := Open(filepath.Join(t.TempDir(), "f"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	b := make([]byte, 3<<20)
	for i := range b {
		b[i] = byte(i >> 13)
	}
	off, err := f.WriteSync(b)
	if err != nil {
		t.Fatal(err)
	}
	got := make([]byte, len(b))
	if n, err := f.ReadAt(got, off); n != len(b) || !bytes.Equal(got, b) {
		t.Fatalf("read %d bytes, %v, equal %v", n, err, bytes.Equal(got, b))
	}
}
''')

seed(id="mmap-append-low-half", property="P01", pkg="mmap",
 edits=[("mmap/mmap.go", "	n = t.offset\n", "	n = int64(uint32(t.offset))\n")],
 needs="a mapped file of more than 4 GB",
 breaks="Append returns the lower half of the position",
 demo='''
package mmap

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(path, nil, 0o600); err != nil {
		t.Fatal(err)
	}
	if err := os.Truncate(path, 4<<30+8192); err != nil { // sparse
		t.Fatal(err)
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	m, err := NewMMAP(f, 4<<30+100)
	if err != nil {
		t.Fatal(err)
	}
	defer m.UnmapAndCloseFile()
	if n, err := m.Append([]byte("hello")); err != nil || n != 4<<30+100 {
		t.Fatalf("appended at %d, %v", n, err)
	}
}
''')
