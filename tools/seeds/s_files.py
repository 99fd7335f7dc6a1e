SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="fastio-offset-current", property="F01", pkg="fastio",
 edits=[("fastio/util.go", "file.Seek(0, io.SeekEnd)", "file.Seek(0, io.SeekCurrent)")],
 needs="opening a file that already has content",
 breaks="offsets returned by WriteSync ignore the earlier content",
 demo='''
package fastio_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/donnie4w/gofer/fastio"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	os.WriteFile(p, []byte("earlier content"), 0666)
	f, err := fastio.Open(p)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	off, err := f.WriteSync([]byte("block"))
	if err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 5)
	if n, _ := f.ReadAt(b, off); n != 5 || string(b) != "block" {
		t.Fatalf("at the returned offset %d lies %q", off, b[:n])
	}
}
''')

seed(id="fastio-failed-write-offset", property="F01", pkg="fastio",
 edits=[("fastio/fw.go", """		atomic.AddInt64(&m.fh.offset, int64(n))
		return
	}
	return m.queue(bs)
""", """		if err == nil {
			atomic.AddInt64(&m.fh.offset, int64(n))
		}
		return
	}
	return m.queue(bs)
""")],
 needs="a write that the file takes only in part, followed by further writes",
 breaks="the bytes of a partly written block are not counted, so later offsets are wrong",
 demo='''
package fastio_test

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/donnie4w/gofer/fastio"
)

func TestDemo(t *testing.T) {
	if dir := os.Getenv("DEMO_DIR"); dir != "" {
		child(t, dir)
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_DIR="+t.TempDir())
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%s", out)
	}
}

func child(t *testing.T, dir string) {
	f, err := fastio.Open(filepath.Join(dir, "f"))
	if err != nil {
		t.Fatal(err)
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := old
	lim.Cur = 1000
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Skip(err)
	}
	if _, err := f.WriteSync(bytes.Repeat([]byte("x"), 1500)); err == nil {
		t.Fatal("a write over the limit was acknowledged")
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	off, err := f.WriteSync([]byte("block"))
	if err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 5)
	if n, _ := f.ReadAt(b, off); n != 5 || string(b) != "block" {
		t.Fatalf("at the returned offset %d lies %q", off, b[:n])
	}
}
''')

seed(id="fastio-write-short-length", property="F03", pkg="fastio",
 edits=[("fastio/fw.go", """		if n, err = m.fh.file.Write(bs); n > 0 {
			atomic.AddInt64(&m.fh.offset, int64(n))
		}
		return n, err
""", """		if n, err = m.fh.file.Write(bs); n > 0 {
			atomic.AddInt64(&m.fh.offset, int64(n))
			err = nil
		}
		return
""")],
 needs="a write that the file takes only in part",
 breaks="a partly written block is acknowledged without an error",
 demo='''
package fastio_test

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/donnie4w/gofer/fastio"
)

func TestDemo(t *testing.T) {
	if dir := os.Getenv("DEMO_DIR"); dir != "" {
		child(t, dir)
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_DIR="+t.TempDir())
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%s", out)
	}
}

func child(t *testing.T, dir string) {
	f, err := fastio.Open(filepath.Join(dir, "f"))
	if err != nil {
		t.Fatal(err)
	}
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
	lim.Cur = 1000
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Skip(err)
	}
	if n, err := f.Write(bytes.Repeat([]byte("x"), 1500)); err == nil {
		t.Fatalf("a write over the limit was acknowledged with length %d", n)
	}
}
''')

seed(id="mmap-writeat-straddle", property="P01", pkg="mmap",
 edits=[("mmap/mmap.go", """	if int64(offset+len(bs)) > t.offset {
		t.offset = int64(offset + len(bs))
	}
""", """	if int64(offset) >= t.offset {
		t.offset = int64(offset + len(bs))
	}
""")],
 needs="a positional write that starts before the append position and ends after it, then an append",
 breaks="the append position is not moved past such a write, so the next append overwrites part of it",
 demo='''
package mmap_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/donnie4w/gofer/mmap"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	os.WriteFile(p, make([]byte, 4096), 0666)
	f, _ := os.OpenFile(p, os.O_RDWR, 0666)
	m, err := mmap.NewMMAP(f, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer m.UnmapAndCloseFile()
	m.Append([]byte("0123456789"))
	m.WriteAt([]byte("abcd"), 8)
	n, err := m.Append([]byte("XY"))
	if err != nil || n != 12 || string(m.Bytes()[:14]) != "01234567abcdXY" {
		t.Fatalf("append went to %d, content %q", n, m.Bytes()[:14])
	}
}
''')

seed(id="mmap-append-split-lock", property="P01", pkg="mmap",
 edits=[("mmap/mmap.go", """	n = t.offset
	t.offset += int64(len(bs))
	t.mux.Unlock()
	copy(t._mmap[n:int(n)+len(bs)], bs)
	return
}

func (t *Mmap) AppendSync""", """	n = t.offset
	t.mux.Unlock()
	copy(t._mmap[n:int(n)+len(bs)], bs)
	t.mux.Lock()
	t.offset = max(t.offset, n+int64(len(bs)))
	t.mux.Unlock()
	return
}

func (t *Mmap) AppendSync""")],
 needs="two appends at the same moment",
 breaks="the region is reserved only after the copy, so concurrent appends overlap",
 demo='''
package mmap_test

import (
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/mmap"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	os.WriteFile(p, make([]byte, 32<<20), 0666)
	f, _ := os.OpenFile(p, os.O_RDWR, 0666)
	m, err := mmap.NewMMAP(f, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer m.UnmapAndCloseFile()
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := map[int64]bool{}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []int64
			for i := 0; i < 4000; i++ {
				n, err := m.Append(make([]byte, 64))
				if err != nil {
					t.Error(err)
					return
				}
				mine = append(mine, n)
			}
			mu.Lock()
			defer mu.Unlock()
			for _, n := range mine {
				if seen[n] {
					t.Errorf("two appends at %d", n)
					return
				}
				seen[n] = true
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="mmap-sync-tail", property="P03", pkg="mmap",
 edits=[("mmap/sync_unix.go", "	leng = uintptr(int(n-alignedStart) + length)\n", "	leng = uintptr(length)\n")],
 needs="a synchronous write that starts inside a page and crosses its end",
 breaks="the flush stops short of the end of the write",
 demo='''
package mmap_test

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/donnie4w/gofer/mmap"
)

// The child writes 200 bytes across a page boundary; strace shows the flushed range.
func TestDemo(t *testing.T) {
	if dir := os.Getenv("DEMO_DIR"); dir != "" {
		p := filepath.Join(dir, "f")
		os.WriteFile(p, make([]byte, 5*4096), 0666)
		f, _ := os.OpenFile(p, os.O_RDWR, 0666)
		m, err := mmap.NewMMAP(f, 0)
		if err != nil {
			t.Fatal(err)
		}
		fmt.Printf("BASE %p\\n", &m.Bytes()[0])
		if err := m.WriteAtSync(make([]byte, 200), 4096-100); err != nil {
			t.Fatal(err)
		}
		return
	}
	if _, err := exec.LookPath("strace"); err != nil {
		t.Skip(err)
	}
	dir := t.TempDir()
	trace := filepath.Join(dir, "trace")
	c := exec.Command("strace", "-f", "-e", "trace=msync", "-o", trace, os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_DIR="+dir)
	out, err := c.Output()
	if err != nil {
		t.Fatalf("%v %s", err, out)
	}
	var base uint64
	for _, l := range strings.Split(string(out), "\\n") {
		if strings.HasPrefix(l, "BASE ") {
			base, _ = strconv.ParseUint(strings.TrimPrefix(l[5:], "0x"), 16, 64)
		}
	}
	f, _ := os.Open(trace)
	defer f.Close()
	re := regexp.MustCompile(`msync\\(0x([0-9a-f]+), (\\d+), MS_SYNC`)
	covered := make([]bool, 200)
	for s := bufio.NewScanner(f); s.Scan(); {
		if m := re.FindStringSubmatch(s.Text()); m != nil {
			a, _ := strconv.ParseUint(m[1], 16, 64)
			n, _ := strconv.ParseUint(m[2], 10, 64)
			end := (a + n + 4095) &^ 4095 // the kernel flushes whole pages
			for i := range covered {
				if x := base + 4096 - 100 + uint64(i); x >= a && x < end {
					covered[i] = true
				}
			}
		}
	}
	for i, ok := range covered {
		if !ok {
			t.Fatalf("byte %d of the write was not flushed", i)
		}
	}
}
''')

seed(id="mmap-sync-ignores-error", property="P03", pkg="mmap",
 edits=[("mmap/mmap.go", """	if n, err = t.Append(bs); err == nil {
		err = mmapSyncToDisk(t.file, t._mmap, n, len(bs))
	}
	return
""", """	if n, err = t.Append(bs); err == nil && n+int64(len(bs)) < t.maxsize {
		err = mmapSyncToDisk(t.file, t._mmap, n, len(bs))
	}
	return
""")],
 needs="a synchronous append that exactly fills the file",
 breaks="the append that reaches the end of the file is not flushed",
 demo='''
package mmap_test

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/donnie4w/gofer/mmap"
)

func TestDemo(t *testing.T) {
	if dir := os.Getenv("DEMO_DIR"); dir != "" {
		p := filepath.Join(dir, "f")
		os.WriteFile(p, make([]byte, 4096), 0666)
		f, _ := os.OpenFile(p, os.O_RDWR, 0666)
		m, err := mmap.NewMMAP(f, 4000)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := m.AppendSync(make([]byte, 96)); err != nil {
			t.Fatal(err)
		}
		return
	}
	if _, err := exec.LookPath("strace"); err != nil {
		t.Skip(err)
	}
	dir := t.TempDir()
	trace := filepath.Join(dir, "trace")
	c := exec.Command("strace", "-f", "-e", "trace=msync,fsync,fdatasync", "-o", trace, os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_DIR="+dir)
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	b, _ := os.ReadFile(trace)
	if !strings.Contains(string(b), "sync(") {
		t.Fatal("a synchronous append returned success without any flush")
	}
}
''')

seed(id="mmap-append-exact-fit", property="P02", pkg="mmap",
 edits=[("mmap/mmap.go", """	if t.offset+int64(len(bs)) > t.maxsize {
		err""", """	if t.offset+int64(len(bs)) >= t.maxsize+int64(len(bs)&1) {
		err""")],
 needs="an append of even length that exactly fits, ",
 breaks="an append that exactly fits the file is refused",
 demo='''
package mmap_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/donnie4w/gofer/mmap"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	os.WriteFile(p, make([]byte, 100), 0666)
	f, _ := os.OpenFile(p, os.O_RDWR, 0666)
	m, err := mmap.NewMMAP(f, 50)
	if err != nil {
		t.Fatal(err)
	}
	defer m.UnmapAndCloseFile()
	if _, err := m.Append(make([]byte, 50)); err != nil {
		t.Fatalf("an append that exactly fits: %v", err)
	}
}
''')

seed(id="keystore-read-prefix", property="K01", pkg="keystore",
 edits=[("keystore/bin.go", """			if obs, er := util.UnZlib(bs); er == nil {
				return obs, er
			}
""", """			if obs, er := util.UnZlib(bs); er == nil {
				if ob2, e2 := util.UnZlib(obs); e2 == nil { // written twice by old versions
					return ob2, nil
				}
				return obs, nil
			}
""")],
 needs="a content that is itself a zlib stream",
 breaks="Read returns the decompressed form of a content that was a zlib stream",
 demo='''
package keystore_test

import (
	"bytes"
	"testing"

	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	ks, err := keystore.NewKeyStore(t.TempDir(), "k")
	if err != nil {
		t.Fatal(err)
	}
	want, _ := util.Zlib([]byte("some content"))
	if err := ks.Write(want); err != nil {
		t.Fatal(err)
	}
	if got, err := ks.Read(); err != nil || !bytes.Equal(got, want) {
		t.Fatalf("read %q, %v instead of the %d bytes written", got, err, len(want))
	}
}
''')

seed(id="storeadmin-last-client", property="K02", pkg="keystore",
 edits=[("keystore/keystore.go", """		delete(this.kb.Client, name)
		KeyStore.Write(util.TEncode(this.kb))
""", """		delete(this.kb.Client, name)
		if len(this.kb.Client) > 0 {
			KeyStore.Write(util.TEncode(this.kb))
		}
""")],
 needs="deleting the last client and reloading",
 breaks="the deletion of the last client is not persisted",
 demo='''
package keystore_test

import (
	"testing"

	"github.com/donnie4w/gofer/keystore"
)

func TestDemo(t *testing.T) {
	ks, err := keystore.NewKeyStore(t.TempDir(), "k")
	if err != nil {
		t.Fatal(err)
	}
	keystore.KeyStore = ks
	a := keystore.NewStoreAdmin()
	a.Load()
	a.PutClient("c", "p", 1)
	a.DelClient("c")
	b := keystore.NewStoreAdmin()
	b.Load()
	if _, ok := b.GetClient("c"); ok {
		t.Fatal("a deleted client is back after a reload")
	}
}
''')

seed(id="storeadmin-other-unchanged", property="K02", pkg="keystore",
 edits=[("keystore/keystore.go", """	this.kb.Other[key] = value
	KeyStore.Write(util.TEncode(this.kb))
""", """	if this.kb.Other[key] != value { // unchanged values need no write
		this.kb.Other[key] = value
		KeyStore.Write(util.TEncode(this.kb))
	}
""")],
 needs="putting an empty value under a new key",
 breaks="a new entry with an empty value is not stored",
 demo='''
package keystore_test

import (
	"testing"

	"github.com/donnie4w/gofer/keystore"
)

func TestDemo(t *testing.T) {
	ks, err := keystore.NewKeyStore(t.TempDir(), "k")
	if err != nil {
		t.Fatal(err)
	}
	keystore.KeyStore = ks
	a := keystore.NewStoreAdmin()
	a.Load()
	a.PutOther("k", "")
	if _, ok := a.GetOther("k"); !ok {
		t.Fatal("an entry with an empty value is missing")
	}
}
''')

seed(id="storeadmin-admin-type", property="K02", pkg="keystore",
 edits=[("keystore/keystore.go", """	this.kb.Mq[name] = &UserBean{name, util.Md5Str(pwd), _type}
	KeyStore.Write(util.TEncode(this.kb))
""", """	u, ok := this.kb.Mq[name]
	if !ok {
		u = &UserBean{}
		this.kb.Mq[name] = u
	}
	u.Name, u.Pwd, u.Type = name, util.Md5Str(pwd), _type
	KeyStore.Write(util.TEncode(this.kb))
""")],
 needs="a reader using a bean it got earlier while the same user is put again",
 breaks="a put changes a bean other goroutines hold, so they race with it and see mixed users",
 flags="-race",
 demo='''
package keystore_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/keystore"
)

func TestDemo(t *testing.T) {
	ks, err := keystore.NewKeyStore(t.TempDir(), "k")
	if err != nil {
		t.Fatal(err)
	}
	keystore.KeyStore = ks
	a := keystore.NewStoreAdmin()
	a.Load()
	a.PutMq("m", "0", 0)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			a.PutMq("m", fmt.Sprint(i), int8(i%100))
		}
	}()
	n := 0
	for i := 0; i < 20000; i++ {
		if u, ok := a.GetMq("m"); ok {
			n += int(u.Type) + len(u.Pwd)
		}
	}
	wg.Wait()
}
''')

seed(id="aes-no-full-padding-block", property="K04", pkg="keystore",
 edits=[("keystore/aes.go", """		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
""", """		n := blockSize - len(src)%blockSize
		if n == blockSize && len(src) > 0 {
			n = 0
		}
		bs := bytes.Repeat([]byte{byte(n)}, n)
""")],
 needs="a plaintext whose length is a multiple of 16",
 breaks="block-aligned plaintexts get no padding and cannot be decrypted",
 demo='''
package keystore_test

import (
	"bytes"
	"testing"

	"github.com/donnie4w/gofer/keystore"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 70; n++ {
		src := bytes.Repeat([]byte{1}, n)
		c, err := keystore.AesEncrypter(src, "key")
		if err != nil {
			t.Fatal(err)
		}
		p, err := keystore.AesDecrypter(c, "key")
		if err != nil || !bytes.Equal(p, src) {
			t.Fatalf("%d bytes: %v %v", n, p, err)
		}
	}
}
''')

seed(id="aes-shared-iv-state", property="K04", pkg="keystore",
 edits=[("keystore/aes.go", """		_r = make([]byte, len(bs))
		decrypter.CryptBlocks(_r, bs)
""", """		_r = bs
		decrypter.CryptBlocks(_r, bs)
""")],
 needs="using the ciphertext again after decrypting it",
 breaks="decryption overwrites the caller's ciphertext",
 demo='''
package keystore_test

import (
	"bytes"
	"testing"

	"github.com/donnie4w/gofer/keystore"
)

func TestDemo(t *testing.T) {
	c, _ := keystore.AesEncrypter([]byte("plain text"), "key")
	keep := bytes.Clone(c)
	keystore.AesDecrypter(c, "key")
	if !bytes.Equal(c, keep) {
		t.Fatal("the ciphertext was overwritten")
	}
}
''')

seed(id="rsa-missing-key-default", property="K05", pkg="keystore",
 edits=[("keystore/key.go", """	if publickeypath != "" {
		if util.IsFileExist(publickeypath) {
			if buf, err = os.ReadFile(publickeypath); err != nil {
				return
			}
		} else {
			err = errors.New(publickeypath + " not exist")
			return
		}
	} else {
		buf = []byte(defaultPubKey)
	}
""", """	if publickeypath != "" && util.IsFileExist(publickeypath) {
		if buf, err = os.ReadFile(publickeypath); err != nil {
			return
		}
	} else {
		buf = []byte(defaultPubKey)
	}
""")],
 needs="a key path that does not exist",
 breaks="a missing public key file silently falls back to the built-in key",
 demo='''
package keystore_test

import (
	"path/filepath"
	"testing"

	"github.com/donnie4w/gofer/keystore"
)

func TestDemo(t *testing.T) {
	if c, err := keystore.RsaEncrypt([]byte("secret"), filepath.Join(t.TempDir(), "missing.pem")); err == nil {
		t.Fatalf("encrypted %d bytes with a key file that does not exist", len(c))
	}
}
''')
