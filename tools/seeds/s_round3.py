SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="limitlock-background-acquire", property="R01", pkg="lock",
 edits=[("lock/lock.go", '''	select {
	case <-time.After(ll.timeout): // Wait until timeout
		err = errors.New("timeout")
	case ll.ch <- 1: // Acquire lock
		atomic.AddInt64(&ll.count, 1) // Increment lock count
	}
	return''', '''	select {
	case ll.ch <- 1: // Acquire lock
		atomic.AddInt64(&ll.count, 1) // Increment lock count
		return
	default:
	}
	done := make(chan struct{})
	go func() {
		ll.ch <- 1
		close(done)
	}()
	select {
	case <-time.After(ll.timeout): // Wait until timeout
		go func() { <-done; <-ll.ch }()
		err = errors.New("timeout")
	case <-done: // Acquire lock
		atomic.AddInt64(&ll.count, 1) // Increment lock count
	}
	return''')],
 needs="lock attempts that time out while every permit is held for longer",
 breaks="every attempt that timed out leaves two goroutines behind until a permit is released",
 demo='''
package lock

import (
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ll := NewLimitLock(1, 10*time.Millisecond)
	if err := ll.Lock(); err != nil {
		t.Fatal(err)
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		if ll.Lock() == nil {
			t.Fatal("two holders")
		}
	}
	time.Sleep(300 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatalf("%d goroutines after 20 failed attempts, %d before", n, before)
	}
	ll.Unlock()
}
''')
seed(id="limithashmap-capacity-rounded-up", property="M05", pkg="hashmap",
 edits=[("hashmap/limithashmap.go", '''		capacity:      capacity / segmentNumber,''', '''		capacity:      (capacity + segmentNumber - 1) / segmentNumber,''')],
 needs="a capacity that the number of segments does not divide, and enough keys to fill every segment",
 breaks="the map holds more entries than its capacity",
 demo='''
package hashmap_test

import (
	"fmt"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewLimitHashMapWithSegment[string, int](130, 64)
	for i := 0; i < 20000; i++ {
		m.Put(fmt.Sprint("key", i), i)
	}
	n := 0
	for i := 0; i < 20000; i++ {
		if _, ok := m.Get(fmt.Sprint("key", i)); ok {
			n++
		}
	}
	if n > 130 {
		t.Fatalf("%d entries in a map of 130", n)
	}
}
''')
seed(id="treemap-ascend-from-zero", property="M03", pkg="hashmap",
 edits=[("hashmap/treemap.go", '''	m.tree.Ascend(func(item btree.Item) bool {
		i := item.(treeItem[K, V])
		return iter(i.Key, i.Value)
	})''', '''	var zero K
	m.tree.AscendGreaterOrEqual(treeItem[K, V]{Key: zero}, func(item btree.Item) bool {
		i := item.(treeItem[K, V])
		return iter(i.Key, i.Value)
	})''')],
 needs="keys below the zero value of their type",
 breaks="an ascending iteration leaves out every negative key",
 demo='''
package hashmap_test

import (
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	m := hashmap.NewTreeMap[int, int](32)
	for i := -5; i <= 5; i++ {
		m.Put(i, i)
	}
	var got []int
	m.Ascend(func(k, v int) bool { got = append(got, k); return true })
	if len(got) != 11 || got[0] != -5 {
		t.Fatalf("ascending: %v", got)
	}
}
''')
seed(id="treemap-delete-clears-last", property="M03", pkg="hashmap",
 edits=[("hashmap/treemap.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	m.tree.Delete(treeItem[K, V]{Key: key})''', '''	m.mutex.RLock()
	one := m.tree.Len() == 1 && m.tree.Has(treeItem[K, V]{Key: key})
	m.mutex.RUnlock()
	m.mutex.Lock()
	defer m.mutex.Unlock()
	if one {
		m.tree.Clear(true)
	} else {
		m.tree.Delete(treeItem[K, V]{Key: key})
	}''')],
 needs="a put of another key between the look at the size and the deletion of the only entry",
 breaks="the deletion of one key removes another that was just put",
 demo='''
package hashmap_test

import (
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 150000; i++ {
		m := hashmap.NewTreeMap[int, int](32)
		m.Put(1, 1)
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); m.Del(1) }()
		go func() { defer wg.Done(); m.Put(2, 2) }()
		wg.Wait()
		if _, ok := m.Get(2); !ok {
			t.Fatalf("round %d: key 2 was removed by the deletion of key 1", i)
		}
	}
}
''')
seed(id="bloom-reuses-half-cleared-segment", property="C03", pkg="cache",
 edits=[("cache/bloom.go", '''		bf.bits[index] = make([]uint64, bf.arraySize)
		if bf.bits[rmIndex] != nil {
			bf.bits[rmIndex] = nil
		}''', '''		if bf.bits[rmIndex] != nil {
			// reuse the memory of the segment that goes
			bf.bits[index], bf.bits[rmIndex] = bf.bits[rmIndex], nil
			clear(bf.bits[index][:len(bf.bits[index])/2])
		} else {
			bf.bits[index] = make([]uint64, bf.arraySize)
		}''')],
 needs="more than twice the expected items added, so that segments rotate",
 breaks="a new segment starts with half the bits of an old one: far more false positives than configured",
 demo='''
package cache_test

import (
	"encoding/binary"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	key := func(i int) []byte { return binary.BigEndian.AppendUint64(nil, uint64(i)*0x9E3779B97F4A7C15) }
	b := cache.NewBloomFilter(1000, 0.001)
	for i := 0; i < 9000; i++ {
		b.Add(key(i))
	}
	fp := 0
	for i := 0; i < 100000; i++ {
		if b.Contains(key(1000000 + i)) {
			fp++
		}
	}
	if fp > 600 { // two segments of 0.1% each are 200
		t.Fatalf("%d false positives in 100000", fp)
	}
}
''')
seed(id="lru-large-batch-new-cache", property="C01", pkg="cache",
 edits=[("cache/lrucache.go", '''	for _, k := range keys {
		lc.cache.Remove(k)
	}''', '''	if len(keys) >= lc.cache.Len() && lc.cache.Len() > 0 {
		// everything goes
		lc.cache.Clear()
	} else {
		for _, k := range keys {
			lc.cache.Remove(k)
		}
	}''')],
 needs="a batch removal with at least as many keys as the cache has entries, some of them repeated or absent",
 breaks="entries that were not in the batch are removed",
 demo='''
package cache_test

import (
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestDemo(t *testing.T) {
	c := cache.NewLruCache[int](10)
	c.Add("a", 1)
	c.Add("b", 2)
	c.RemoveMulti([]string{"a", "x", "y"})
	if v, ok := c.Get("b"); !ok || v != 2 {
		t.Fatal("b is gone although it was not in the batch")
	}
}
''')
seed(id="zstd-decoder-memory-32mb", property="U02", pkg="compress",
 edits=[("compress/compress.go", '''	decoder, err := zstd.NewReader(nil, zstd.WithDecoderConcurrency(0))''', '''	decoder, err := zstd.NewReader(nil, zstd.WithDecoderConcurrency(0), zstd.WithDecoderMaxMemory(32<<20))''')],
 needs="more than 32 MB compressed",
 breaks="what was compressed cannot be decompressed again",
 demo='''
package compress_test

import (
	"bytes"
	"testing"

	"github.com/donnie4w/gofer/compress"
)

func TestDemo(t *testing.T) {
	in := bytes.Repeat([]byte("0123456789abcdef"), 40<<16)
	z, err := compress.Zstd(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := compress.UnZstd(z)
	if err != nil || !bytes.Equal(in, out) {
		t.Fatalf("%d bytes came back as %d: %v", len(in), len(out), err)
	}
}
''')
seed(id="unzlib-input-limit", property="U01", pkg="util",
 edits=[("util/compress.go", '''	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {''', '''	if read, err = zlib.NewReader(io.LimitReader(bytes.NewReader(bs), 1<<20)); err == nil {''')],
 needs="data that is more than one MB when compressed",
 breaks="what was compressed is reported as damaged",
 demo='''
package util_test

import (
	"bytes"
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	in := make([]byte, 3<<20)
	for i, x := 0, uint32(1); i < len(in); i++ {
		x = x*1664525 + 1013904223
		in[i] = byte(x >> 24)
	}
	z, err := util.Zlib(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := util.UnZlib(z)
	if err != nil || !bytes.Equal(in, out) {
		t.Fatalf("%d bytes came back as %d: %v", len(in), len(out), err)
	}
}
''')
seed(id="strtotime-one-digit-month", property="U08", pkg="util",
 edits=[("util/encode.go", '''	t, err = time.ParseInLocation("2006-01-02 15:04:05", s, l)''', '''	t, err = time.ParseInLocation("2006-1-2 15:04:05", s, l)''')],
 needs="a text whose month or day has one digit only",
 breaks="a text that is not of the form is taken instead of refused",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{"2024-1-2 03:04:05", "2024-01-2 03:04:05", "2024-1-02 03:04:05"} {
		if x, err := util.StrToTimeFormat(s); err == nil {
			t.Fatalf("%q is taken as %v", s, x)
		}
	}
}
''')
seed(id="buffer-reset-keeps-large", property="B01", pkg="buffer",
 edits=[("buffer/buffer.go", '''	*b = (*b)[:0]
}''', '''	if cap(*b) <= 1<<16 { // large ones are left to the collector
		*b = (*b)[:0]
	}
}''')],
 needs="a buffer that held more than 64 KB",
 breaks="Reset leaves the content in it",
 demo='''
package buffer_test

import (
	"testing"

	"github.com/donnie4w/gofer/buffer"
)

func TestDemo(t *testing.T) {
	b := buffer.NewBuffer()
	b.Write(make([]byte, 100000))
	b.Reset()
	if b.Len() != 0 {
		t.Fatalf("%d bytes after Reset", b.Len())
	}
}
''')
seed(id="http-skips-empty-header", property="N01", pkg="httpclient",
 edits=[("httpclient/post.go", '''				req.Header.Set(k, v)
''', '''				if v != "" {
					req.Header.Set(k, v)
				}
''')],
 needs="a header with an empty value",
 breaks="the header does not arrive",
 demo='''
package httpclient_test

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/donnie4w/gofer/httpclient"
)

func TestDemo(t *testing.T) {
	got := make(chan http.Header, 1)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got <- r.Header.Clone()
		w.Write([]byte("ok"))
	}))
	defer s.Close()
	if _, err := httpclient.Post3([]byte("x"), true, s.URL, map[string]string{"X-Empty": "", "X-Full": "1"}, nil); err != nil {
		t.Fatal(err)
	}
	if v, ok := (<-got)["X-Empty"]; !ok || len(v) != 1 || v[0] != "" {
		t.Fatalf("the empty header arrived as %q (present: %v)", v, ok)
	}
}
''')

seed(id="storeadmin-reload-merges", property="K02", pkg="keystore",
 edits=[("keystore/keystore.go", '''		this.kb, err = util.TDecode(bs, &KeyBean{})
''', '''		if this.kb == nil {
			this.kb = &KeyBean{}
		}
		this.kb, err = util.TDecode(bs, this.kb)
''')],
 needs="a second load by one admin object, of a store in which a whole kind of entry is absent or other names are",
 breaks="what an earlier load held is still there although the store does not contain it",
 demo='''
package keystore

import "testing"

func TestDemo(t *testing.T) {
	open := func(dir string) {
		var err error
		if KeyStore, err = NewKeyStore(dir, "ks"); err != nil {
			t.Fatal(err)
		}
	}
	open(t.TempDir())
	a := NewStoreAdmin()
	a.Load()
	a.PutAdmin("root", "pw", 1)

	// another store: written by a program that leaves out what it has none of
	open(t.TempDir())
	if err := KeyStore.Write([]byte{0}); err != nil {
		t.Fatal(err)
	}
	b := NewStoreAdmin()
	b.Load()
	if l := b.AdminList(); len(l) != 0 {
		t.Fatalf("a new object found %v", l)
	}
	a.Load()
	if l := a.AdminList(); len(l) != 0 {
		t.Fatalf("the second store has no admins, but %v are there", l)
	}
}
''')
TLS='''
package websocket_test

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/donnie4w/gofer/websocket"
	wss "golang.org/x/net/websocket"
)

var _ = os.WriteFile
var _ = filepath.Join

// server makes a TLS websocket server with a certificate of its own for the given host.
func server(t *testing.T, host string) (u string, cert []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: host},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	if ip := net.ParseIP(host); ip != nil {
		tm.IPAddresses = []net.IP{ip}
	} else {
		tm.DNSNames = []string{host}
	}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, k.Public(), k)
	if err != nil {
		t.Fatal(err)
	}
	s := httptest.NewUnstartedServer(wss.Handler(func(c *wss.Conn) { var b []byte; wss.Message.Receive(c, &b) }))
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}}
	s.StartTLS()
	t.Cleanup(s.CloseClientConnections)
	return "wss" + strings.TrimPrefix(s.URL, "https"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func dial(u string, files []string, bs [][]byte) error {
	h, err := websocket.NewHandler(&websocket.Config{Url: u, Origin: "http://localhost/", CertFiles: files, CertBytes: bs, TimeOut: 5 * time.Second})
	if err == nil {
		h.Close()
	}
	return err
}
'''

seed(id="ws-certificate-pool-cache", property="N04", pkg="websocket",
 edits=[("websocket/wshandle.go", '''func loadCACertificatesFromFiles(certFiles []string) (*x509.CertPool, error) {
	pool := x509.NewCertPool()
''', '''var filepools sync.Map

func loadCACertificatesFromFiles(certFiles []string) (pool *x509.CertPool, err error) {
	if p, ok := filepools.Load(strings.Join(certFiles, "\\n")); ok {
		return p.(*x509.CertPool), nil
	}
	pool = x509.NewCertPool()
	defer func() {
		if err == nil {
			filepools.Store(strings.Join(certFiles, "\\n"), pool)
		}
	}()
''')],
 needs="a certificate file that is replaced between two connections of one process",
 breaks="a server is trusted that only the replaced file vouched for, and the one the new file vouches for is not",
 demo=TLS + '''
func TestDemo(t *testing.T) {
	u1, c1 := server(t, "127.0.0.1")
	u2, c2 := server(t, "127.0.0.1")
	f := filepath.Join(t.TempDir(), "ca.pem")
	os.WriteFile(f, c1, 0600)
	if err := dial(u1, []string{f}, nil); err != nil {
		t.Fatal(err)
	}
	os.WriteFile(f, c2, 0600)
	if err := dial(u2, []string{f}, nil); err != nil {
		t.Fatalf("the server of the new file is refused: %v", err)
	}
	if dial(u1, []string{f}, nil) == nil {
		t.Fatal("the server of the old file is still trusted")
	}
}
''')
seed(id="ws-one-malformed-certificate-tolerated", property="N04", pkg="websocket",
 edits=[("websocket/wshandle.go", '''	for _, bs := range certBytes {
		if ok := pool.AppendCertsFromPEM(bs); !ok {
			return nil, errors.New("failed to append certificates from PEM data")
		}
	}''', '''	ok := len(certBytes) == 0
	for _, bs := range certBytes {
		ok = pool.AppendCertsFromPEM(bs) || ok
	}
	if !ok {
		return nil, errors.New("failed to append certificates from PEM data")
	}''')],
 needs="several certificates given as bytes, one of which is malformed",
 breaks="the connection is made although a certificate it was given is not one",
 demo=TLS + '''
func TestDemo(t *testing.T) {
	u, c := server(t, "127.0.0.1")
	if err := dial(u, nil, [][]byte{c}); err != nil {
		t.Fatal(err)
	}
	if dial(u, nil, [][]byte{c, []byte("no certificate")}) == nil {
		t.Fatal("a malformed certificate is passed over")
	}
}
''')
seed(id="ws-host-name-unchecked", property="N04", pkg="websocket",
 edits=[("websocket/wshandle.go", '''			if rootcas, e := loadCACertificatesFromBytes(cfg.CertBytes); e == nil {
				config.TlsConfig = &tls.Config{
					RootCAs:            rootcas,
					InsecureSkipVerify: false,
				}''', '''			if rootcas, e := loadCACertificatesFromBytes(cfg.CertBytes); e == nil {
				config.TlsConfig = &tls.Config{
					RootCAs:            rootcas,
					InsecureSkipVerify: true,
					VerifyPeerCertificate: func(raw [][]byte, _ [][]*x509.Certificate) error {
						c, err := x509.ParseCertificate(raw[0])
						if err == nil {
							_, err = c.Verify(x509.VerifyOptions{Roots: rootcas})
						}
						return err
					},
				}''')],
 needs="a server whose certificate is vouched for, but made for another host",
 breaks="a server with a vouched-for certificate of another host is trusted",
 demo=TLS + '''
func TestDemo(t *testing.T) {
	u, c := server(t, "127.0.0.1")
	if err := dial(u, nil, [][]byte{c}); err != nil {
		t.Fatal(err)
	}
	u, c = server(t, "other.example")
	if dial(u, nil, [][]byte{c}) == nil {
		t.Fatal("a certificate of another host is taken")
	}
}
''')
seed(id="limitlock-unlock-gives-up", property="L03", pkg="lock",
 edits=[("lock/lock.go", '''	case <-time.After(ll.timeout): // Wait until timeout
		err = errors.New("timeout")''', '''	case <-time.After(ll.timeout): // Wait until timeout
		if len(ll.ch) == cap(ll.ch) {
			err = errors.New("timeout")
		}''')],
 needs="a permit given back in the moment in which a waiting attempt times out",
 breaks="an attempt reports success without holding a permit",
 demo='''
package lock

import (
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ll := NewLimitLock(1, 2*time.Millisecond)
	end := time.Now().Add(20 * time.Second)
	for i := 0; time.Now().Before(end); i++ {
		if ll.Lock() != nil {
			t.Fatal("a free permit is not given")
		}
		// the permit is given back about when the others time out
		var wg sync.WaitGroup
		got := make(chan bool, 8)
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); got <- ll.Lock() == nil }()
		}
		for s := time.Now(); time.Since(s) < 2*time.Millisecond+time.Duration(i%40-20)*10*time.Microsecond; {
		}
		ll.Unlock()
		wg.Wait()
		held := 0
		for j := 0; j < 8; j++ {
			if <-got {
				held++
			}
		}
		if held > 1 {
			t.Fatalf("%d holders of one permit", held)
		}
		for ; held > 0; held-- {
			ll.Unlock()
		}
	}
}
''')

seed(id="uuid32-low-half-of-int64", property="I03", pkg="util",
 edits=[("util/encode.go", '''	return uint32(uuid.NewUUID().Int32())''', '''	return uint32(uuid.NewUUID().Int64())''')],
 needs="many ids, compared with each other or bit by bit",
 breaks="four bits of the 32-bit ids are always the same, so they repeat sixteen times as often",
 demo='''
package util_test

import (
	"testing"

	"github.com/donnie4w/gofer/util"
)

func TestDemo(t *testing.T) {
	all, any := ^uint32(0), uint32(0)
	for i := 0; i < 2000; i++ {
		v := util.UUID32()
		all &= v
		any |= v
	}
	if all != 0 || any != ^uint32(0) {
		t.Fatalf("bits that are always set: %x, never set: %x", all, ^any)
	}
}
''')
seed(id="uuid-int32-first-half", property="I03", pkg="uuid",
 edits=[("uuid/uuid.go", '''	return int32(hash64(u[:]))''', '''	return int32(hash64(u[:8]))''')],
 needs="UUIDs that share their first eight bytes",
 breaks="UUIDs that differ in their second half only have the same 32-bit number",
 demo='''
package uuid_test

import (
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestDemo(t *testing.T) {
	same := 0
	for i := 0; i < 16; i++ {
		a := *uuid.NewUUID()
		b := a
		b[15] ^= byte(1 + i)
		if a.Int32() == b.Int32() {
			same++
		}
	}
	if same > 2 {
		t.Fatalf("%d of 16 pairs of different UUIDs have the same number", same)
	}
}
''')
