// rescmd monitors what finished objects leave behind: goroutines, descriptors, mappings, files, memory.
package main

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/compress"
	"github.com/donnie4w/gofer/fastio"
	"github.com/donnie4w/gofer/httpclient"
	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/lock"
	"github.com/donnie4w/gofer/mmap"
	"github.com/donnie4w/gofer/pool/gopool"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/websocket"
	klzstd "github.com/klauspost/compress/zstd"
	xws "golang.org/x/net/websocket"

	"verifharness/vh"
)

func main() {
	vh.Main(map[string]func(*vh.Run){"R01": r01, "R02": r02})
}

// strays returns the goroutines that run or were started by the library or a library it uses.
func strays() (n int, one string) {
	b := make([]byte, 1<<20)
	for {
		k := runtime.Stack(b, true)
		if k < len(b) {
			b = b[:k]
			break
		}
		b = make([]byte, 2*len(b))
	}
	for _, g := range strings.Split(string(b), "\n\n") {
		for _, p := range []string{"github.com/donnie4w/gofer/", "github.com/klauspost/", "golang.org/x/net/websocket", "net/http.(*Transport)", "net/http.(*persistConn)"} {
			if strings.Contains(g, p) {
				n++
				one = g
				break
			}
		}
	}
	return
}

// fds counts the open descriptors of regular files and directories under dir and of sockets.
func fds(dir string) (files, socks int, what string) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue
		}
		if strings.HasPrefix(l, dir) {
			files++
			what = l
		} else if strings.HasPrefix(l, "socket:") {
			socks++
		}
	}
	return
}

func maps(dir string) (n int) {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	return strings.Count(string(b), dir)
}

// gone waits until f reports nothing left, for at most 20 seconds: ends are asynchronous, leaks are for ever.
func gone(f func() string) string {
	for t0 := time.Now(); ; {
		s := f()
		if s == "" || time.Since(t0) > 20*time.Second {
			return s
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// after judges a case: nothing of the library runs, nothing under dir is open or mapped, no socket was added.
func after(c *vh.Case, what, dir string, socks int) { afterKeeping(c, what, dir, socks, 0) }

func afterKeeping(c *vh.Case, what, dir string, socks, keep int) {
	s := gone(func() string {
		if n, g := strays(); n > 0 {
			return fmt.Sprintf("%d goroutines, one of them:\n%s", n, g)
		}
		if dir != "" {
			if n, _, l := fds(dir); n > keep {
				return fmt.Sprintf("%d open descriptors, one of %s", n, l)
			}
			if n := maps(dir); n > 0 {
				return fmt.Sprintf("%d mapped regions", n)
			}
		}
		if socks >= 0 {
			if _, k, _ := fds("/\x00"); k > socks {
				return fmt.Sprintf("%d sockets more than before", k-socks)
			}
		}
		return ""
	})
	c.Check(s == "", "left-behind", "%s: left behind %.1500s", what, s)
	c.Eval(1)
	if c.I < 2 {
		c.Sample(map[string]any{"life": what, "left_behind": s})
	}
	if c.I%100 == 99 { // between lives; within one the collector is off
		runtime.GC()
	}
}

func names(c *vh.Case, d string) []string {
	es, err := os.ReadDir(d)
	if err != nil {
		panic(err)
	}
	var l []string
	for _, e := range es {
		l = append(l, e.Name())
	}
	return l
}

func spin(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

func r01(r *vh.Run) {
	r.Rule("each case uses one kind of object through a generated life (ordinary use, timeouts, cancellations, panics, refused and broken connections, files that cannot be opened or written), ends it, and then takes stock of goroutines (all stacks), descriptors (/proc/self/fd), mappings (/proc/self/maps), sockets and files in the scratch directory; descriptors are counted with the garbage collector off, so finalizers hide nothing; counted by distinct lives")
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	r.Cases("gopool", r.N(400, 5000), 1, func(c *vh.Case) {
		min, max := int64(c.R.IntN(5)), int64(1+c.R.IntN(6))
		p := gopool.NewPoolWithFuncLimit(min, max, []int{0, 1, 3, 1000}[c.R.IntN(4)])
		n, g := 1+c.R.IntN(30), 1+c.R.IntN(4)
		var wg sync.WaitGroup
		wg.Add(n * g)
		pan, when := c.R.IntN(3) == 0, c.R.IntN(4)
		off := c.R.IntN(4) == 0
		c.Par(g, func(gi int) {
			for i := 0; i < n; i++ {
				if gi == 0 && i == n/2 {
					if off {
						p.TurnOff(true)
						spin(3)
						p.TurnOff(false)
					}
					if when == 1 {
						p.Close()
					}
				}
				p.Go(func() {
					defer wg.Done()
					spin(i % 3)
					if pan && i%4 == 0 {
						panic("submitted function panics")
					}
				})
			}
		})
		switch when {
		case 0:
			wg.Wait()
			p.Close()
		case 2:
			p.Close()
			p.Close()
		case 3:
			spin(c.R.IntN(20))
			p.Close()
		}
		wg.Wait()
		after(c, fmt.Sprintf("goroutine pool %d/%d closed (moment %d) with all %d functions run", min, max, when, n*g), "", -1)
		c.Observe("pools_closed", 1)
		c.Distinct(vh.Hash("gopool", min, max, n, g, pan, when, off))
	})
	r.Cases("gopool-closing", r.N(60, 800), 1, func(c *vh.Case) {
		seed := c.R.Uint64()
		c.Par(8, func(g int) {
			rr := vh.NewRand(seed + uint64(g))
			for i := 0; i < 60; i++ {
				k := 1 + rr.IntN(8)
				p := gopool.NewPool(int64(k), int64(k))
				var wg sync.WaitGroup
				wg.Add(2 * k)
				for j := 0; j < 2*k; j++ {
					p.Go(wg.Done)
				}
				if i%2 == 0 {
					wg.Wait()
				}
				spin(rr.IntN(40))
				p.Close()
				wg.Wait()
			}
		})
		after(c, "pools closed while their functions end", "", -1)
		c.Observe("pools_closed", 8*60)
		c.Distinct(vh.Hash("gopool-closing", seed))
	})
	r.Cases("waits", r.N(60, 900), 1, func(c *vh.Case) {
		a := lock.NewAwait[int](1 + c.R.IntN(3))
		f := lock.NewFastAwait2[int](1000)
		ll := lock.NewLimitLock(1+c.R.IntN(2), time.Duration(1+c.R.IntN(3_000_000)))
		n := 4 + c.R.IntN(12)
		seed := c.R.Uint64()
		long, end := context.WithCancel(context.Background())
		defer end()
		c.Par(n, func(g int) {
			rr := vh.NewRand(seed + uint64(g))
			id := int64(g/2 + 1)
			to, pause := time.Duration(1+rr.IntN(4_000_000)), time.Duration(rr.IntN(2_000_000))
			switch k := rr.IntN(14); {
			case k < 4: // answered; the context outlives the wait
				id = -int64(g) - 1
				var put func(int64, int) error
				if put = a.CloseAndPut; k%2 == 1 {
					put = f.CloseAndPut
				}
				go func() {
					time.Sleep(pause)
					put(id, 7)
				}()
				var err error
				switch k {
				case 0:
					_, err = a.Wait(id, time.Minute)
				case 1:
					_, err = f.Wait(id, time.Minute)
				case 2:
					_, _, err = a.WaitWithCancel(long, id, time.Minute)
				case 3:
					_, _, err = f.WaitWithCancel(long, id, time.Minute)
				}
				c.Check(err == nil, "answered", "wait %d: %v", k, err)
			case k < 8: // times out; the context outlives the wait
				switch k {
				case 4:
					a.Wait(id, to)
				case 5:
					f.Wait(id, to)
				case 6:
					a.WaitWithCancel(long, id, to)
				case 7:
					f.WaitWithCancel(long, id, to)
				}
			case k == 8:
				a.SyncWait(nil, id, to)
			case k < 13:
				ctx, stop := context.WithTimeout(context.Background(), pause)
				defer stop()
				switch k {
				case 9:
					a.WaitWithCancel(ctx, id, to)
				case 10:
					f.WaitWithCancel(ctx, id, to)
				case 11:
					a.WaitWithCancel(ctx, id, 0)
				case 12:
					f.WaitWithCancel(ctx, id, 0)
				}
			default:
				if ll.Lock() == nil {
					time.Sleep(pause)
					ll.Unlock()
				}
			}
		})
		after(c, "waits that timed out or were cancelled", "", -1)
		c.Observe("waits_ended", n)
		c.Distinct(vh.Hash("waits", seed))
	})
	r.SeqCases("held", r.N(40, 400), 1, func(c *vh.Case) { // the holders stay; the calls that gave up do not
		limit, n := 1+c.R.IntN(3), 1+c.R.IntN(8)
		ll := lock.NewLimitLock(limit, time.Duration(1+c.R.IntN(3_000_000)))
		for range limit {
			c.Check(ll.Lock() == nil, "lock", "Lock below the limit fails")
		}
		c.Par(n, func(int) {
			c.Check(ll.Lock() != nil, "timeout", "Lock above the limit succeeds")
		})
		after(c, "timed-out Lock calls of a LimitLock whose holders still hold it", "", -1)
		for range limit {
			ll.Unlock()
		}
		c.Observe("timed_out_locks", n)
		c.Distinct(vh.Hash("held", limit, n))
	})
	r.SeqCases("fastio", r.N(300, 5000), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		p := filepath.Join(d, "f")
		what := "closed"
		switch k := c.R.IntN(7); k {
		default:
			f, err := fastio.Open(p)
			if !c.Check(err == nil, "open", "Open: %v", err) {
				return
			}
			g := 1 + c.R.IntN(5)
			c.Par(g, func(gi int) {
				for i := 0; i < 10; i++ {
					if (gi+i)%2 == 0 {
						f.WriteSync([]byte("abc"))
					} else {
						f.Write([]byte("defg"))
					}
				}
			})
			f.Close()
			if k == 3 {
				f.Close()
				f.Write([]byte("late"))
			}
		case 0:
			what = "a directory opened as a file"
			_, err := fastio.Open(d)
			c.Check(err != nil, "open", "Open of a directory succeeds")
		case 1:
			what = "a pipe, which has no end to append to, opened as a file"
			if err := syscall.Mkfifo(p, 0o600); err != nil {
				panic(err)
			}
			f, err := fastio.Open(p)
			if err == nil {
				f.Close()
			}
		case 6:
			what = "a device that takes no data"
			f, err := fastio.Open("/dev/full")
			if err == nil {
				f.Write([]byte("x"))
				f.WriteSync([]byte("x"))
				f.Close()
			}
		case 2:
			what = "a file in a missing directory"
			_, err := fastio.Open(p + "/x")
			c.Check(err != nil, "open", "Open in a missing directory succeeds")
		}
		after(c, "fastio file: "+what, d, -1)
		if n, _, _ := fds("/dev/full"); n > 0 {
			c.Violate("left-behind", "fastio file: %s: %d descriptors left", what, n)
		}
		c.Observe("fastio_lives", 1)
		c.Distinct(vh.Hash("fastio", c.I, what))
	})
	r.SeqCases("mmap", r.N(400, 6000), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		p := filepath.Join(d, "f")
		size := []int{0, 1, 4096, 5000, 100000}[c.R.IntN(5)]
		if err := os.WriteFile(p, make([]byte, size), 0o600); err != nil {
			panic(err)
		}
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		start := int64(c.R.IntN(size+3)) - 1
		m, err := mmap.NewMMAP(f, start)
		c.Check((err == nil) == (start >= 0 && start < int64(size)), "open", "NewMMAP of %d bytes at %d: %v", size, start, err)
		what := "refused"
		if err != nil {
			f.Close()
		} else {
			m.Append([]byte("x"))
			m.AppendSync(make([]byte, size))
			m.WriteAtSync([]byte("y"), c.R.IntN(size))
			switch c.R.IntN(3) {
			case 0:
				what = "closed"
				err = m.Close()
				f.Close()
			case 1:
				what = "unmapped"
				m.Flush()
				err = m.Unmap()
				f.Close()
			case 2:
				what = "unmapped and file closed"
				err = m.UnmapAndCloseFile()
			}
			c.Check(err == nil, "close", "%s: %v", what, err)
		}
		after(c, "mapping "+what, d, -1)
		c.Observe("mappings_ended", 1)
		c.Distinct(vh.Hash("mmap", size, start, what))
	})
	r.SeqCases("files", r.N(200, 3000), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		p := filepath.Join(d, "f")
		os.WriteFile(p, make([]byte, []int{c.R.IntN(100), c.R.IntN(10000), 1<<16 + c.R.IntN(1<<18), c.R.IntN(5 << 20)}[c.R.IntN(4)]), 0o600)
		for i := 0; i < 3; i++ {
			util.ReadFile(p)
			util.IsFileExist(p)
			util.ReadFile(d)
			util.ReadFile(p + ".missing")
		}
		if c.R.IntN(2) == 0 {
			os.WriteFile(p, nil, 0o600)
			util.ReadFile(p)
		}
		after(c, "ReadFile", d, -1)
		c.Distinct(vh.Hash("files", c.I))
		c.Observe("files_read", 1)
	})
	r.SeqCases("keystore", r.N(100, 1500), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		ks, err := keystore.LoadKeyStore(d, "store")
		if !c.Check(err == nil, "open", "LoadKeyStore: %v", err) {
			return
		}
		fails := 0
		for i := 0; i < 6; i++ {
			if err := ks.Write([]byte(fmt.Sprint("content ", i, strings.Repeat("x", c.R.IntN(9000))))); err != nil {
				fails++
			}
			ks.Read()
			if l := names(c, d); len(l) != 1 || l[0] != "store" {
				c.Violate("left-behind", "key store: after a write the directory holds %q", l)
			}
			if i == 3 && c.R.IntN(2) == 0 { // a directory in the place of the file: writing and reading fail
				os.Remove(filepath.Join(d, "store"))
				os.MkdirAll(filepath.Join(d, "store", "x"), 0o700)
			}
		}
		if fails > 0 {
			c.Observe("failed_key_store_writes", fails)
		}
		afterKeeping(c, "key store, which has one descriptor", d, -1, 1)
		c.Observe("key_stores", 1)
		c.Distinct(vh.Hash("keystore", c.I))
	})
	r.SeqCases("http", r.N(80, 1200), 1, httpCase)
	r.Cases("websocket", r.N(150, 2000), 1, wsCase)
	debug.SetGCPercent(100)
	r.SeqCases("compress", r.N(60, 600), 1, func(c *vh.Case) {
		in := make([]byte, c.R.IntN(200000))
		for i := range in {
			in[i] = byte(i * i >> 7)
		}
		for i := 0; i < 4; i++ {
			z, err := compress.Zstd(in)
			if err == nil {
				compress.UnZstd(z)
				compress.UnZstd(z[:len(z)*3/4])
			}
			compress.ZstdLevel(in, []klzstd.EncoderLevel{klzstd.SpeedFastest, klzstd.SpeedDefault, klzstd.SpeedBetterCompression}[c.R.IntN(3)])
			compress.UnZstd(in)
			if b, err := util.Gzip(in); err == nil && b.Len() > 0 {
				util.UnGzip(b.Bytes())
			}
		}
		after(c, "compression", "", -1)
		c.Observe("streams", 16)
		c.Distinct(vh.Hash("compress", len(in)))
	})
}

func scratch(c *vh.Case) string {
	d, err := os.MkdirTemp(c.Tmp, "r")
	if err != nil {
		panic(err)
	}
	return d
}

func listen() net.Listener {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return ln
}

func sockets() int {
	_, n, _ := fds("/\x00")
	return n
}

func httpCase(c *vh.Case) {
	s0 := sockets()
	ln := listen()
	kind := c.R.IntN(5)
	body := make([]byte, []int{0, 1, 5000, 300000}[c.R.IntN(4)])
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		switch kind {
		case 1: // cut in the middle
			w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
			w.Write(body)
			if h, _, err := w.(http.Hijacker).Hijack(); err == nil {
				h.Close()
			}
			return
		case 2:
			w.WriteHeader(500)
		case 3: // the request is not read
			w.Header().Set("Connection", "close")
		}
		w.Write(body)
	}), ErrorLog: nil}
	srv.ErrorLog = quiet
	go srv.Serve(ln)
	url := "http://" + ln.Addr().String() + "/x"
	if kind == 4 { // nobody listens
		srv.Close()
	}
	n := 5
	for i := 0; i < n; i++ {
		send := make([]byte, []int{0, 10, 200000}[c.R.IntN(3)])
		switch c.R.IntN(3) {
		case 0:
			httpclient.Post(send, url)
		case 1:
			httpclient.Post2(send, c.R.IntN(2) == 0, url)
		case 2:
			httpclient.Post3(send, c.R.IntN(2) == 0, url, map[string]string{"X-A": "b"}, &http.Cookie{Name: "a", Value: "b"})
		}
	}
	// before the server goes: the client alone must have let go
	s := gone(func() string {
		if k, g := strays(); k > 0 {
			return fmt.Sprintf("%d goroutines of the client, one of them:\n%s", k, g)
		}
		if k := sockets() - s0; kind != 4 && k > 1 {
			return fmt.Sprintf("%d connections after %d finished calls", k-1, n)
		}
		return ""
	})
	c.Check(s == "", "left-behind", "http posts (server behaviour %d): left behind %.1500s", kind, s)
	srv.Close()
	after(c, "http posts", "", s0)
	c.Observe("posts", n)
	c.Distinct(vh.Hash("http", c.I, kind, len(body)))
}

func wsCase(c *vh.Case) {
	s0 := sockets()
	ln := listen()
	kind := c.R.IntN(7)
	peers := make(chan *xws.Conn, 8)
	hold := make(chan struct{})
	srv := &http.Server{ErrorLog: quiet, Handler: xws.Server{Handler: func(w *xws.Conn) {
		peers <- w
		switch kind {
		case 0: // echo until the end
			for {
				var b []byte
				if xws.Message.Receive(w, &b) != nil {
					return
				}
				if xws.Message.Send(w, b) != nil {
					return
				}
			}
		case 1: // the peer goes at once
			return
		}
		<-hold
	}}}
	if kind == 2 { // no websocket there
		srv.Handler = http.NotFoundHandler()
	}
	go srv.Serve(ln)
	cfg := &websocket.Config{Url: "ws://" + ln.Addr().String() + "/", Origin: "http://127.0.0.1/"}
	if c.R.IntN(2) == 0 {
		cfg.TimeOut = 10 * time.Second
	}
	closed := make(chan struct{})
	cfg.OnClose = func(*websocket.Handler) { close(closed) }
	if kind == 3 {
		srv.Close() // refused
	}
	if kind == 6 { // accepts and never answers
		srv.Close()
		ln = listen()
		defer ln.Close()
		cfg.Url = "ws://" + ln.Addr().String() + "/"
		cfg.TimeOut = 30 * time.Millisecond
	}
	w, err := websocket.NewHandler(cfg)
	if kind == 2 || kind == 3 || kind == 6 {
		c.Check(err != nil, "connect", "connecting to what is no websocket server (%d) succeeds", kind)
		if kind == 6 {
			s0++ // the listener stays until the end of the case
			if a, err := ln.Accept(); err == nil {
				a.Close()
			}
		}
	} else if c.Check(err == nil, "connect", "connecting: %v", err) {
		for i := 0; i < 3; i++ {
			w.Send([]byte("message"))
		}
		switch {
		case kind == 1:
		case kind == 4: // lost without a farewell
			p := <-peers
			p.SetDeadline(time.Now())
			close(hold)
			hold = nil
		default:
			spin(c.R.IntN(30))
			w.Close()
			if c.R.IntN(2) == 0 {
				w.Close()
			}
		}
		<-closed
	}
	// the client's end is gone while the server still stands
	s := gone(func() string {
		b, g := strays2()
		if b > 0 {
			return fmt.Sprintf("%d goroutines of the client, one of them:\n%s", b, g)
		}
		return ""
	})
	c.Check(s == "", "left-behind", "websocket (course %d): left behind %.1500s", kind, s)
	if hold != nil {
		close(hold)
	}
	srv.Close()
	after(c, fmt.Sprintf("websocket (course %d)", kind), "", s0)
	c.Observe("connections_ended", 1)
	c.Distinct(vh.Hash("ws", c.I, kind))
}

// strays2 counts only the client's goroutines.
func strays2() (n int, one string) {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "github.com/donnie4w/gofer/") {
			n++
			one = g
		}
	}
	return
}
