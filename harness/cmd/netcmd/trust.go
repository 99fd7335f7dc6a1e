package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/donnie4w/gofer/websocket"
	"verifharness/vh"
)

// ---- N04: whom a wss connection trusts

type issuer struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	der  []byte
}

func (i *issuer) pem() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: i.der})
}

var serial struct {
	sync.Mutex
	n int64
}

func issue(t *x509.Certificate, by *issuer) *issuer {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	serial.Lock()
	serial.n++
	t.SerialNumber = big.NewInt(serial.n)
	serial.Unlock()
	t.Subject = pkix.Name{CommonName: fmt.Sprint("cert ", t.SerialNumber)}
	if t.NotBefore.IsZero() {
		t.NotBefore = time.Unix(0, 0)
	}
	if t.NotAfter.IsZero() {
		t.NotAfter = time.Unix(1<<33, 0)
	}
	t.BasicConstraintsValid = true
	parent, pk := t, k
	if by != nil {
		parent, pk = by.cert, by.key
	}
	der, err := x509.CreateCertificate(crand.Reader, t, parent, &k.PublicKey, pk)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &issuer{c, k, der}
}

func authority(by *issuer) *issuer {
	return issue(&x509.Certificate{IsCA: true, KeyUsage: x509.KeyUsageCertSign}, by)
}

// a server to connect to: its chain, and whether it is what it says it is to somebody who trusts only its root
type identity struct {
	name  string
	root  int // index of the authority
	chain tls.Certificate
	valid bool
}

type trustworld struct {
	roots []*issuer
	ids   []identity
	self  []*issuer // servers that are their own authority
}

var (
	worldOnce sync.Once
	world     trustworld
)

func leaf() *x509.Certificate {
	return &x509.Certificate{KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
}

func theWorld() *trustworld {
	worldOnce.Do(func() {
		w := &world
		add := func(name string, root int, valid bool, l *issuer, rest ...*issuer) {
			ch := tls.Certificate{Certificate: [][]byte{l.der}, PrivateKey: l.key}
			for _, x := range rest {
				ch.Certificate = append(ch.Certificate, x.der)
			}
			w.ids = append(w.ids, identity{name, root, ch, valid})
		}
		for i := 0; i < 5; i++ {
			ca := authority(nil)
			w.roots = append(w.roots, ca)
			add("plain", i, true, issue(leaf(), ca))
			mid := authority(ca)
			add("with intermediate", i, true, issue(leaf(), mid), mid)
			add("intermediate withheld", i, false, issue(leaf(), mid))
			add("root sent along", i, true, issue(leaf(), ca), ca)
			t := leaf()
			t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 2)}
			add("another address", i, false, issue(t, ca))
			t = leaf()
			t.IPAddresses, t.DNSNames = nil, []string{"example.org"}
			add("a name", i, false, issue(t, ca))
			t = leaf()
			t.NotAfter = time.Now().Add(-time.Hour)
			add("expired", i, false, issue(t, ca))
			t = leaf()
			t.NotBefore = time.Now().Add(time.Hour)
			add("not yet valid", i, false, issue(t, ca))
			t = leaf()
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
			add("client certificate", i, false, issue(t, ca))
			// issued by a server certificate of that authority, which may not issue
			srv := issue(leaf(), ca)
			add("issued by a server", i, false, issue(leaf(), srv), srv)
		}
		for i := 0; i < 3; i++ {
			t := leaf()
			t.IsCA, t.KeyUsage = true, x509.KeyUsageDigitalSignature|x509.KeyUsageCertSign
			s := issue(t, nil)
			w.roots = append(w.roots, s)
			add("its own authority", len(w.roots)-1, true, s)
		}
	})
	return &world
}

// attempt makes one connection to a server of the given identity.
func attempt(c *vh.Case, r *rand.Rand, dir, tag string) {
	w := theWorld()
	id := w.ids[r.IntN(len(w.ids))]
	cfg := &websocket.Config{Origin: "http://127.0.0.1/"}
	if r.IntN(2) == 0 {
		cfg.TimeOut = 60 * time.Second
	}
	j := newJournal()
	cfg.OnOpen = func(*websocket.Handler) { j.add("open", nil) }
	cfg.OnError = func(_ *websocket.Handler, err error) { j.add("error", err) }
	cfg.OnClose = func(*websocket.Handler) { j.add("close", nil) }
	got := make(chan []byte, 8)
	cfg.OnMessage = func(_ *websocket.Handler, b []byte) { got <- b }

	// which authorities are trusted, spread over how many files or byte strings
	n := r.IntN(4)
	var trusted []int
	for _, k := range r.Perm(len(w.roots))[:n] {
		trusted = append(trusted, k)
	}
	if n > 0 && r.IntN(2) == 0 { // more often than chance: the right one, in any place
		trusted[r.IntN(n)] = id.root
	}
	want, how := id.valid, ""
	if n == 0 {
		want, how = true, "no certificates" // nothing to compare with: any server is accepted
	} else {
		in := false
		for _, k := range trusted {
			in = in || k == id.root
		}
		want = want && in
		var parts [][]byte
		for i, k := range trusted {
			b := w.roots[k].pem()
			switch r.IntN(6) {
			case 0:
				b = append([]byte("# a comment\n"), b...)
			case 1:
				b = append(b, "\nsome text behind\n"...)
			}
			if i > 0 && r.IntN(3) == 0 { // two certificates in one
				parts[len(parts)-1] = append(append(parts[len(parts)-1], '\n'), b...)
			} else {
				parts = append(parts, b)
			}
		}
		broken := ""
		if r.IntN(6) == 0 {
			at := r.IntN(len(parts) + 1)
			bad := [][]byte{nil, []byte("not a certificate"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: []byte("key")}), parts[0][:len(parts[0])/2], pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("no DER")})}
			k := r.IntN(len(bad))
			if k == 3 && len(trusted) > 1 { // half of two certificates may be one
				k = 1
			}
			parts = append(parts[:at:at], append([][]byte{bad[k]}, parts[at:]...)...)
			broken = fmt.Sprintf(", part %d of %d malformed (%d)", at, len(parts), k)
			want = false
		}
		if r.IntN(2) == 0 {
			cfg.CertBytes, how = parts, fmt.Sprintf("CertBytes with the authorities %v%s", trusted, broken)
		} else {
			for i, b := range parts {
				f := filepath.Join(dir, fmt.Sprintf("%s-%d.pem", tag, i)) // the same names with other content from one attempt to the next
				if err := os.WriteFile(f, b, 0600); err != nil {
					panic(err)
				}
				defer os.Remove(f)
				cfg.CertFiles = append(cfg.CertFiles, f)
			}
			if broken == "" && r.IntN(10) == 0 {
				at := r.IntN(len(cfg.CertFiles) + 1)
				cfg.CertFiles = append(cfg.CertFiles[:at:at], append([]string{filepath.Join(dir, "missing.pem")}, cfg.CertFiles[at:]...)...)
				broken, want = fmt.Sprintf(", file %d missing", at), false
			}
			how = fmt.Sprintf("CertFiles with the authorities %v%s", trusted, broken)
		}
	}
	desc := fmt.Sprintf("server %q of authority %d, %s", id.name, id.root, how)

	ln := listen()
	defer ln.Close()
	cfg.Url = "wss://" + ln.Addr().String() + "/x"
	type res struct {
		p    *peer
		data int // bytes of the request that reached the server
		tls  bool
	}
	ch := make(chan res, 1)
	go func() {
		var o res
		defer func() { ch <- o }()
		cn, err := ln.Accept()
		if err != nil {
			return
		}
		cn.SetDeadline(time.Now().Add(60 * time.Second))
		t := tls.Server(cn, &tls.Config{Certificates: []tls.Certificate{id.chain}})
		cc := &counting{Conn: t, n: &o.data}
		p, err := handshake(cc)
		o.tls = t.ConnectionState().HandshakeComplete
		if err != nil {
			cn.Close()
			return
		}
		o.p = p
	}()
	h, err := websocket.NewHandler(cfg)
	if err != nil {
		ln.Close()
	}
	o := <-ch
	if want {
		if !c.Check(err == nil && o.p != nil, "trusted-refused", "%s: NewHandler fails with %v", desc, err) {
			if h != nil && err == nil {
				h.Close()
			}
			if o.p != nil {
				o.p.Conn.Close()
			}
			return
		}
		m := content(r.Uint64(), size(r, 100000))
		p := o.p
		if len(m) == 0 {
			m = []byte{1}
		}
		errc := make(chan error, 1)
		go func() { errc <- h.Send(m) }()
		f, rerr := p.read()
		serr := <-errc
		c.Check(serr == nil && rerr == nil && same(f.payload, m), "message", "%s: sent %s (error %v), the server has %s (error %v)", desc, brief(m), serr, brief(f.payload), rerr)
		p.write(opBin, m)
		select {
		case b := <-got:
			c.Check(same(b, m), "message", "%s: the server sent %s, the callback got %s", desc, brief(m), brief(b))
		case <-time.After(30 * time.Second):
			c.Violate("message", "%s: a message of the server did not arrive", desc)
		}
		h.Close()
		p.Conn.Close()
		c.Observe("trusted_connections", 1)
	} else {
		c.Check(err != nil, "untrusted-accepted", "%s: NewHandler gives %v without an error", desc, h)
		c.Check(o.data == 0, "untrusted-told", "%s: %d bytes were sent to the server (NewHandler's error: %v)", desc, o.data, err)
		if ks := j.kinds(); err != nil && len(ks) > 0 {
			c.Violate("callback", "%s: callbacks %v although NewHandler failed with %v", desc, ks, err)
		}
		if h != nil && err == nil {
			h.Close()
		}
		if o.p != nil {
			o.p.Conn.Close()
		}
		c.Observe("refused_connections", 1)
	}
	c.Eval(1)
	c.Sample(desc)
	c.Distinct(vh.Hash(id.name, id.root, how))
}

type counting struct {
	net.Conn
	n *int
}

func (c *counting) Read(b []byte) (n int, err error) {
	n, err = c.Conn.Read(b)
	*c.n += n
	return
}

func n04(r *vh.Run) {
	r.Rule("one per connection attempt (server identity, authority, configuration of certificates)")
	dir, err := os.MkdirTemp(r.Tmp, "trust")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	// what one handler trusts says nothing about the next
	r.Cases("trust", r.N(1400, 14000), 4, func(c *vh.Case) {
		for i := 0; i < 3; i++ {
			attempt(c, c.R, dir, fmt.Sprint(c.I))
		}
	})
	r.Cases("together", r.N(100, 1000), 1, func(c *vh.Case) {
		seeds := [8]uint64{}
		for g := range seeds {
			seeds[g] = c.R.Uint64()
		}
		c.Par(8, func(g int) {
			rr := rand.New(rand.NewPCG(seeds[g], 4))
			for i := 0; i < 4; i++ {
				attempt(c, rr, dir, fmt.Sprint("t", c.I, "-", g))
			}
		})
	})
}
