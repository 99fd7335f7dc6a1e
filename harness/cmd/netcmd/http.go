package main

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/httpclient"
	"verifharness/vh"
)

// seen is one request as the server received it.
type seen struct {
	method, uri string
	body        []byte
	bodyErr     error
	header      http.Header
	cookies     []*http.Cookie
	length      int64
}

// plan is the response the server gives to one call.
type plan struct {
	status int
	body   []byte
	mode   int // 0 length, 1 chunked in pieces, 2 delimited by the end of the connection (HTTP/1.0)
	slow   bool
	mu     sync.Mutex
	got    []seen
}

type server struct {
	mu    sync.Mutex
	plans map[string]*plan
	open  atomic.Int64
	srv   *http.Server
	url   string
}

func (s *server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, err := io.ReadAll(r.Body)
	s.mu.Lock()
	p := s.plans[r.URL.Path]
	s.mu.Unlock()
	if p == nil {
		w.WriteHeader(599)
		return
	}
	p.mu.Lock()
	p.got = append(p.got, seen{r.Method, r.RequestURI, b, err, r.Header.Clone(), r.Cookies(), r.ContentLength})
	p.mu.Unlock()
	switch p.mode {
	case 0:
		w.Header().Set("Content-Length", strconv.Itoa(len(p.body)))
		w.WriteHeader(p.status)
		w.Write(p.body)
	case 1:
		w.WriteHeader(p.status)
		rest := p.body
		for len(rest) > 0 {
			n := min(len(rest), 1+len(p.body)/3)
			w.Write(rest[:n])
			w.(http.Flusher).Flush()
			rest = rest[n:]
			if p.slow {
				time.Sleep(time.Millisecond)
			}
		}
	case 2:
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		fmt.Fprintf(c, "HTTP/1.0 %d X\r\n\r\n", p.status)
		c.Write(p.body)
		c.Close()
		s.open.Add(-1) // a hijacked connection reports no further states
	}
}

func newServer(cert *tls.Certificate) *server {
	s := &server{plans: map[string]*plan{}}
	ln := listen()
	s.url = "http://" + ln.Addr().String()
	if cert != nil {
		ln = tls.NewListener(ln, &tls.Config{Certificates: []tls.Certificate{*cert}})
		s.url = "https://" + ln.Addr().String()
	}
	s.srv = &http.Server{Handler: s, ErrorLog: quiet, ConnState: func(c net.Conn, st http.ConnState) {
		switch st {
		case http.StateNew:
			s.open.Add(1)
		case http.StateClosed:
			s.open.Add(-1)
		}
	}}
	go s.srv.Serve(ln)
	return s
}

// clientGoroutines counts goroutines of client connections.
func clientGoroutines() int {
	buf := make([]byte, 8<<20)
	return strings.Count(string(buf[:runtime.Stack(buf, true)]), "net/http.(*persistConn)")
}

func settle(f func() bool) bool {
	for i := 0; i < 2000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Duration(min(i, 50)) * 100 * time.Microsecond)
	}
	return false
}

var statuses = []int{200, 200, 201, 202, 203, 206, 226, 300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 409, 418, 429, 500, 501, 502, 503, 504, 599}

const token = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.!~"

func word(r *rand.Rand, from string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = from[r.IntN(len(from))]
	}
	return string(b)
}

func header(r *rand.Rand) map[string]string {
	if r.IntN(3) == 0 {
		return nil
	}
	h := map[string]string{}
	for k := r.IntN(6); k > 0; k-- {
		n := "X-" + word(r, token[:62], 1+r.IntN(12))
		if r.IntN(3) == 0 {
			n = []string{"Content-Type", "Authorization", "User-Agent", "Accept", "x-lower-case", "X-UPPER", "Origin", "Referer", "Accept-Language"}[r.IntN(9)]
		}
		v := word(r, token, 1)
		if r.IntN(4) > 0 {
			v += word(r, token+" ;,=\"/()é", r.IntN(60)) + "z"
		}
		if n != "User-Agent" && r.IntN(10) == 0 {
			v = ""
		}
		h[n] = v
	}
	// two spellings of one name have no defined order
	names := map[string]bool{}
	for n := range h {
		if c := http.CanonicalHeaderKey(n); names[c] {
			delete(h, n)
		} else {
			names[c] = true
		}
	}
	return h
}

// own lists what the client itself adds to a request.
var own = map[string]bool{"User-Agent": true, "Content-Length": true, "Accept-Encoding": true, "Connection": true, "Cookie": true}

// call performs one post and judges everything about it.
func call(c *vh.Case, s *server, r *rand.Rand, id string, limit int) {
	p := &plan{status: statuses[r.IntN(len(statuses))], body: content(r.Uint64(), size(r, limit)), mode: r.IntN(3), slow: r.IntN(20) == 0}
	path := "/" + id
	s.mu.Lock()
	s.plans[path] = p
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		delete(s.plans, path)
		s.mu.Unlock()
	}()
	in := content(r.Uint64(), size(r, limit))
	if len(in) == 0 && r.IntN(2) == 0 {
		in = nil
	}
	keep := append([]byte{}, in...)
	uri := path
	if r.IntN(3) == 0 {
		uri += "?q=" + word(r, token[:62], r.IntN(30)) + "&a=%2F"
	}
	h := header(r)
	hs := fmt.Sprint(h)
	var ck *http.Cookie
	if r.IntN(2) == 0 {
		ck = &http.Cookie{Name: word(r, token[:62], 1+r.IntN(8)), Value: word(r, token[:62]+"!#$%&'()*+-./:<=>?@[]^_`{|}~", r.IntN(40))}
		if r.IntN(3) == 0 {
			ck.Value = word(r, token[:62]+"  ,,", r.IntN(40))
		}
	}
	var first []string
	if h != nil && r.IntN(6) == 0 { // a cookie of the header comes before the other
		first = []string{"first", word(r, token[:62], 1+r.IntN(20))}
		h["Cookie"] = "first=" + first[1]
		hs = fmt.Sprint(h)
	}
	var out []byte
	var err error
	form := r.IntN(4)
	switch {
	case form == 0:
		h, ck, hs, first = nil, nil, "map[]", nil
		out, err = httpclient.Post(in, s.url+uri)
	case form == 1:
		h, ck, hs, first = nil, nil, "map[]", nil
		out, err = httpclient.Post2(in, r.IntN(2) == 0, s.url+uri)
	default:
		out, err = httpclient.Post3(in, r.IntN(2) == 0, s.url+uri, h, ck)
	}
	what := fmt.Sprintf("post of %s to %s (status %d, response mode %d)", brief(keep), s.url+uri, p.status, p.mode)
	if !c.Check(err == nil, "error", "%s: %v", what, err) {
		return
	}
	c.Check(same(out, p.body), "response", "%s returns %s, the server sent %s", what, brief(out), brief(p.body))
	c.Check(same(in, keep) && fmt.Sprint(h) == hs, "input-modified", "%s modified its arguments", what)
	p.mu.Lock()
	defer p.mu.Unlock()
	if !c.Check(len(p.got) == 1, "requests", "%s: the server received %d requests", what, len(p.got)) {
		return
	}
	g := p.got[0]
	c.Check(g.method == "POST" && g.uri == uri, "request-line", "%s: the server received %s %s", what, g.method, g.uri)
	c.Check(g.bodyErr == nil && same(g.body, keep) && g.length == int64(len(keep)), "body", "%s: the server received %s (length %d), %v", what, brief(g.body), g.length, g.bodyErr)
	given := map[string]bool{}
	for k, v := range h {
		ck := http.CanonicalHeaderKey(k)
		given[ck] = true
		vs := g.header[ck]
		if ck == "Cookie" {
			continue
		}
		c.Check(len(vs) == 1 && vs[0] == v, "header", "%s: header %s: %q arrived as %q", what, k, v, vs)
	}
	for k := range g.header {
		c.Check(given[k] || own[k], "header", "%s: the server received header %s: %q, which was not given", what, k, g.header[k])
	}
	if first != nil {
		if !c.Check(len(g.cookies) > 0 && g.cookies[0].Name == first[0] && g.cookies[0].Value == first[1], "cookie", "%s: header cookie %v arrived as %v", what, first, g.cookies) {
			return
		}
		g.cookies = g.cookies[1:]
	}
	if ck == nil {
		c.Check(len(g.cookies) == 0, "cookie", "%s: the server received cookies %v", what, g.cookies)
	} else {
		c.Check(len(g.cookies) == 1 && g.cookies[0].Name == ck.Name && g.cookies[0].Value == ck.Value, "cookie", "%s: cookie %s=%q arrived as %v", what, ck.Name, ck.Value, g.cookies)
	}
	c.Eval(1)
	c.Observe("exchanges", 1)
	c.Observe("request_bytes", len(keep))
	c.Observe("response_bytes", len(p.body))
	c.Distinct(vh.Hash(what, hs))
}

// fault scripts of a peer that breaks the exchange; each one must end in an error without a body
var faults = []struct {
	name string
	f    func(c net.Conn, body []byte)
}{
	{"close before reading", func(c net.Conn, _ []byte) {}},
	{"reset before reading", func(c net.Conn, _ []byte) { c.(*net.TCPConn).SetLinger(0) }},
	{"close without response", func(c net.Conn, _ []byte) { readReq(c) }},
	{"reset without response", func(c net.Conn, _ []byte) { readReq(c); c.(*net.TCPConn).SetLinger(0) }},
	{"half a status line", func(c net.Conn, _ []byte) { readReq(c); io.WriteString(c, "HTTP/1.1 20") }},
	{"half the header", func(c net.Conn, _ []byte) { readReq(c); io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Le") }},
	{"header without its end", func(c net.Conn, _ []byte) {
		readReq(c)
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n")
	}},
	{"no body", func(c net.Conn, b []byte) {
		readReq(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(b)+1)
	}},
	{"body cut short by one", func(c net.Conn, b []byte) {
		readReq(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(b)+1)
		c.Write(b)
	}},
	{"body cut in half", func(c net.Conn, b []byte) {
		readReq(c)
		fmt.Fprintf(c, "HTTP/1.1 404 Not\r\nContent-Length: %d\r\n\r\n", 2*len(b)+1)
		c.Write(b)
	}},
	{"body cut by a reset", func(c net.Conn, b []byte) {
		readReq(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", 2*len(b)+1)
		c.Write(b)
		time.Sleep(2 * time.Millisecond)
		c.(*net.TCPConn).SetLinger(0)
	}},
	{"chunks without the last", func(c net.Conn, b []byte) {
		readReq(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(b)+1, string(b)+"x")
	}},
	{"chunk cut in the middle", func(c net.Conn, b []byte) {
		readReq(c)
		fmt.Fprintf(c, "HTTP/1.1 500 E\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s", len(b)+10, b)
	}},
	{"bad chunk size", func(c net.Conn, b []byte) {
		readReq(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\nzz\r\n%s\r\n0\r\n\r\n", b)
	}},
	{"not HTTP", func(c net.Conn, b []byte) { readReq(c); io.WriteString(c, "SSH-2.0-x\r\n\r\n") }},
	{"bad content length", func(c net.Conn, b []byte) {
		readReq(c)
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\nxyz")
	}},
	{"two content lengths", func(c net.Conn, b []byte) {
		readReq(c)
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nxyzw")
	}},
}

func readReq(c net.Conn) {
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	r, err := http.ReadRequest(bufio.NewReader(c))
	if err == nil {
		io.Copy(io.Discard, r.Body)
	}
}

func n01(r *vh.Run) {
	r.Rule("each exchange posts a generated body with generated headers and cookie to a recording server (http or https) that answers with a generated status, body and framing, and compares both directions; each fault case runs one of the scripted broken peers; concurrent cases run 8 callers with stamped bodies; counted by distinct exchanges and faults")
	cert, _ := selfSigned()
	plainSrv, tlsSrv := newServer(nil), newServer(&cert)
	srvs := []*server{plainSrv, tlsSrv}
	r.SeqCases("exchange", r.N(3000, 40000), 4, func(c *vh.Case) {
		call(c, srvs[c.I%2], c.R, fmt.Sprint("x", c.I), 1<<20)
		if c.I < 2 {
			c.Sample(map[string]any{"url": srvs[c.I%2].url, "exchange": c.I})
		}
	})
	r.SeqCases("large", r.N(12, 100), 2, func(c *vh.Case) {
		limit := 24 << 20
		if c.I%8 == 0 {
			limit = 105 << 20 // one third of it at least
		}
		call(c, srvs[c.I%2], c.R, fmt.Sprint("l", c.I), limit)
	})
	r.Cases("concurrent", r.N(60, 800), 1, func(c *vh.Case) {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			rr := vh.NewRand(c.R.Uint64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 5; k++ {
					call(c, srvs[rr.IntN(2)], rr, fmt.Sprintf("c%d-%d-%d", c.I, g, k), 70000)
				}
			}()
		}
		wg.Wait()
	})
	r.Cases("faults", r.N(400, 4000), 4, func(c *vh.Case) {
		ft := faults[c.I%len(faults)]
		ln := listen()
		var conns atomic.Int64
		served := make(chan struct{})
		b := content(c.R.Uint64(), size(c.R, 60000))
		go func() {
			defer close(served)
			for {
				cn, err := ln.Accept()
				if err != nil {
					return
				}
				conns.Add(1)
				ft.f(cn, b)
				cn.Close()
			}
		}()
		in := content(c.R.Uint64(), size(c.R, 60000))
		out, err := httpclient.Post3(in, c.R.IntN(2) == 0, "http://"+ln.Addr().String()+"/f", header(c.R), nil)
		c.Check(err != nil, "fault-unreported", "%q: a post returns %s without error", ft.name, brief(out))
		c.Check(len(out) == 0, "partial-body", "%q: a post returns %s with error %v", ft.name, brief(out), err)
		ln.Close()
		<-served
		c.Check(conns.Load() <= 1, "requests", "%q: one post made %d connections", ft.name, conns.Load())
		// nobody listens any more
		out, err = httpclient.Post(in, "http://"+ln.Addr().String()+"/f")
		c.Check(err != nil && len(out) == 0, "fault-unreported", "a post to a closed port returns %s, %v", brief(out), err)
		c.Eval(2)
		c.Observe("faults", 1)
		c.Distinct(vh.Hash("fault", ft.name, c.I))
		if c.I < 1 {
			c.Sample(map[string]any{"fault": ft.name, "error": fmt.Sprint(err)})
		}
	})
	r.Cases("refused", r.N(60, 600), 4, func(c *vh.Case) {
		urls := []string{"", ":", "http://", "ftp://127.0.0.1/", "http://127.0.0.1:99999/", "http://127.0.0.1:0/", "no scheme", "http://[::bad/", "https:" + plainSrv.url[5:] + "/x", "http://a b/", "http://127.0.0.1/\x7f"}
		u := urls[c.I%len(urls)]
		out, err := httpclient.Post([]byte("x"), u)
		c.Check(err != nil && len(out) == 0, "fault-unreported", "a post to %q returns %s, %v", u, brief(out), err)
		bad := map[string]string{"X-Ok": "1", []string{"bad name", "", "x\n", "é"}[c.I%4]: "v"}
		if c.I%5 == 0 {
			bad = map[string]string{"X": "a\nb"}
		}
		out, err = httpclient.Post3([]byte("x"), false, plainSrv.url+"/nothing", bad, nil)
		c.Check(err != nil && len(out) == 0, "fault-unreported", "a post with header %q returns %s, %v", bad, brief(out), err)
		c.Eval(2)
		c.Observe("unusable_calls", 2)
		c.Distinct(vh.Hash("refused", u, fmt.Sprint(bad)))
	})
	r.Case("leaks", 0, func(c *vh.Case) {
		for _, s := range srvs {
			if !settle(func() bool { return s.open.Load() == 0 }) {
				c.Violate("connection-leak", "%d connections stay open on the server after all calls returned", s.open.Load())
			}
		}
		if !settle(func() bool { return clientGoroutines() == 0 }) {
			c.Violate("goroutine-leak", "%d goroutines of client connections remain after all calls returned", clientGoroutines())
		}
		c.Eval(1)
		c.Observe("leak_checks", 1)
	})
	plainSrv.srv.Close()
	tlsSrv.srv.Close()
}
