package main

import (
	"bufio"
	"crypto/sha1"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/donnie4w/gofer/websocket"
	"verifharness/vh"
)

var quiet = log.New(io.Discard, "", 0)

const (
	opCont, opText, opBin, opClose, opPing, opPong = 0, 1, 2, 8, 9, 10
)

// peer is the other end, speaking RFC 6455 by itself.
type peer struct {
	net.Conn
	br *bufio.Reader
	wm sync.Mutex
}

type frame struct {
	op      byte
	payload []byte
}

func handshake(c net.Conn) (*peer, error) {
	c.SetDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(c)
	r, err := http.ReadRequest(br)
	if err != nil {
		return nil, err
	}
	h := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	_, err = fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", base64.StdEncoding.EncodeToString(h[:]))
	return &peer{Conn: c, br: br}, err
}

var errFrame = errors.New("malformed frame")

// read returns the next frame; anything a client may not send is errFrame.
func (p *peer) read() (f frame, err error) {
	var h [14]byte
	if _, err = io.ReadFull(p.br, h[:2]); err != nil {
		return
	}
	f.op = h[0] & 15
	switch f.op {
	case opText, opBin, opClose, opPing, opPong:
	default:
		return f, fmt.Errorf("%w: opcode %d", errFrame, f.op)
	}
	if h[0]&0xf0 != 0x80 || h[1]&0x80 == 0 {
		return f, fmt.Errorf("%w: header %x", errFrame, h[:2])
	}
	n := uint64(h[1] & 0x7f)
	switch n {
	case 126:
		if _, err = io.ReadFull(p.br, h[2:4]); err != nil {
			return
		}
		n = uint64(binary.BigEndian.Uint16(h[2:]))
	case 127:
		if _, err = io.ReadFull(p.br, h[2:10]); err != nil {
			return
		}
		n = binary.BigEndian.Uint64(h[2:])
	}
	if n > 64<<20 {
		return f, fmt.Errorf("%w: length %d", errFrame, n)
	}
	var mask [4]byte
	if _, err = io.ReadFull(p.br, mask[:]); err != nil {
		return
	}
	f.payload = make([]byte, n)
	if _, err = io.ReadFull(p.br, f.payload); err != nil {
		return
	}
	for i := range f.payload {
		f.payload[i] ^= mask[i%4]
	}
	return
}

func encodeFrame(op byte, b []byte) []byte {
	o := []byte{0x80 | op}
	switch {
	case len(b) < 126:
		o = append(o, byte(len(b)))
	case len(b) < 65536:
		o = append(o, 126, byte(len(b)>>8), byte(len(b)))
	default:
		o = binary.BigEndian.AppendUint64(append(o, 127), uint64(len(b)))
	}
	return append(o, b...)
}

func (p *peer) write(op byte, b []byte) error {
	p.wm.Lock()
	defer p.wm.Unlock()
	_, err := p.Conn.Write(encodeFrame(op, b))
	return err
}

func (p *peer) tcp() *net.TCPConn {
	if t, ok := p.Conn.(*tls.Conn); ok {
		return t.NetConn().(*net.TCPConn)
	}
	return p.Conn.(*net.TCPConn)
}

func (p *peer) closeWrite() {
	if t, ok := p.Conn.(*tls.Conn); ok {
		t.CloseWrite()
		t.NetConn().(*net.TCPConn).CloseWrite()
		return
	}
	p.tcp().CloseWrite()
}

// hub accepts connections and hands them out.
type hub struct {
	ln   net.Listener
	url  string
	tls  bool
	cert tls.Certificate
	pem  []byte
	// greet runs in the peer as soon as the handshake is through
	greet func(*peer)
}

var theCert, thePEM = selfSigned()

func newHub(secure bool) *hub {
	h := &hub{ln: listen(), tls: secure, cert: theCert, pem: thePEM}
	h.url = "ws://" + h.ln.Addr().String() + "/ws"
	if secure {
		h.url = "wss://" + h.ln.Addr().String() + "/ws"
	}
	return h
}

// connect makes a connection; the peer end is returned with it.
func (h *hub) connect(cfg *websocket.Config) (w *websocket.Handler, p *peer, err error) {
	type res struct {
		p   *peer
		err error
	}
	ch := make(chan res, 1)
	go func() {
		c, err := h.ln.Accept()
		if err != nil {
			ch <- res{nil, err}
			return
		}
		if h.tls {
			c = tls.Server(c, &tls.Config{Certificates: []tls.Certificate{h.cert}})
		}
		p, err := handshake(c)
		if err == nil && h.greet != nil {
			h.greet(p)
		}
		ch <- res{p, err}
	}()
	cfg.Url, cfg.Origin = h.url, "http://127.0.0.1/"
	w, err = websocket.NewHandler(cfg)
	if err != nil {
		h.ln.Close() // let Accept go
		if r := <-ch; r.p != nil {
			r.p.Conn.Close()
		}
		return nil, nil, err
	}
	r := <-ch
	if r.err != nil {
		return w, nil, r.err
	}
	return w, r.p, nil
}

// ---- N02

func stamp(sender, seq, n int) []byte {
	b := make([]byte, 12, 12+n)
	binary.BigEndian.PutUint32(b, uint32(sender))
	binary.BigEndian.PutUint32(b[4:], uint32(seq))
	binary.BigEndian.PutUint32(b[8:], uint32(n))
	return append(b, content(uint64(sender)<<32|uint64(seq), n)...)
}

func unstamp(b []byte) (sender, seq int, ok bool) {
	if len(b) < 12 {
		return
	}
	sender, seq = int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:]))
	n := int(binary.BigEndian.Uint32(b[8:]))
	return sender, seq, n == len(b)-12 && same(b, stamp(sender, seq, n))
}

func n02(r *vh.Run) {
	r.Rule("each case opens one ws or wss connection to a peer that speaks the protocol by itself, sends 1-60 stamped messages from each of 1-8 goroutines while the peer sends 0-200 stamped messages and pings, and compares the multiset and per-sender order at both ends; ends by peer close, by local close right after the last send, or with empty messages; counted by distinct message sets")
	r.Cases("traffic", r.N(700, 8000), 4, func(c *vh.Case) {
		h := newHub(c.I%3 == 2)
		defer h.ln.Close()
		g, per := 1+c.R.IntN(8), 1+c.R.IntN(60)
		down := c.R.IntN(200)
		limit := 70000
		switch c.R.IntN(4) {
		case 0:
			limit = 200
		case 1:
			limit, per, down = 1<<20, 1+per%4, down%6
		}
		if c.I%50 == 10 {
			limit, g, per, down = 9<<20, 1+g%2, 1, 1+down%2
		}
		huge := c.I%170 == 100 // near the greatest size the websocket package takes
		if huge {
			g, per, down = 1, 1, 1
		}
		long := func(r *rand.Rand) int {
			if huge {
				return 32<<20 - 100 - r.IntN(1<<20)
			}
			return size(r, limit)
		}
		endLocal := c.R.IntN(3) == 0
		if endLocal {
			down = 0 // unread data at a local close may legitimately reset the connection
		}
		var mu sync.Mutex
		got := map[[2]int]int{} // (sender, seq) as the callback saw it
		var ndown atomic.Int64
		downDone := make(chan struct{})
		closed := make(chan struct{})
		cfg := &websocket.Config{OnMessage: func(_ *websocket.Handler, m []byte) {
			s, q, ok := unstamp(m)
			if !ok {
				c.Violate("altered", "the callback received %s, which is not a message the peer sent", brief(m))
				return
			}
			mu.Lock()
			got[[2]int{s, q}]++
			n := got[[2]int{s, q}]
			mu.Unlock()
			if n > 1 {
				c.Violate("duplicate", "message %d of the peer was passed to the callback %d times", q, n)
			} else if int(ndown.Add(1)) == down {
				close(downDone)
			}
		}, OnClose: func(*websocket.Handler) { close(closed) }}
		if down == 0 {
			close(downDone)
		}
		if c.R.IntN(2) == 0 {
			cfg.TimeOut = 30 * time.Second
		}
		if h.tls && c.R.IntN(2) == 0 {
			cfg.CertBytes = [][]byte{h.pem}
		}
		w, p, err := h.connect(cfg)
		if err != nil {
			c.Violate("connect", "connecting to %s: %v", h.url, err)
			return
		}
		defer p.Conn.Close()
		defer w.Close()
		total := g * per
		var sentOK atomic.Int64
		var wg sync.WaitGroup
		for s := 0; s < g; s++ {
			rr := vh.NewRand(c.R.Uint64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for q := 0; q < per; q++ {
					m := stamp(s, q, long(rr))
					k := append([]byte{}, m...)
					if err := w.Send(m); err != nil {
						c.Violate("send", "Send of %s on an open connection: %v", brief(m), err)
						return
					}
					c.Check(same(m, k), "input-modified", "Send modified its argument")
					for i := range m { // the caller may reuse its slice
						m[i] = 0xEE
					}
					sentOK.Add(1)
				}
			}()
		}
		var pw sync.WaitGroup
		pw.Add(1)
		drr := vh.NewRand(c.R.Uint64())
		go func() { // the peer sends
			defer pw.Done()
			for q := 0; q < down; q++ {
				op := byte(opBin)
				if drr.IntN(2) == 0 {
					op = opText
				}
				if drr.IntN(6) == 0 {
					p.write(opPing, []byte("ping"))
				}
				if err := p.write(op, stamp(1000, q, long(drr))); err != nil {
					c.Violate("peer", "the peer cannot send: %v", err)
					return
				}
			}
		}()
		if endLocal {
			go func() {
				wg.Wait()
				if c.Failed() {
					return
				}
				if err := w.Close(); err != nil {
					c.Violate("close", "Close of an open connection: %v", err)
				}
			}()
		}
		next := make([]int, g)
		n := 0
		sawClose := false
		for n < total || endLocal && !sawClose {
			f, err := p.read()
			if err != nil {
				c.Violate("lost", "the peer received %d of %d messages, then %v (senders at %v, %d sends succeeded)", n, total, err, next, sentOK.Load())
				break
			}
			if f.op == opClose {
				sawClose = true
				if n < total {
					c.Violate("lost", "the peer received %d of %d messages, then a close frame", n, total)
				}
				break
			}
			if f.op == opPong {
				c.Observe("pongs", 1)
				continue
			}
			if f.op == opText && !utf8.Valid(f.payload) {
				c.Violate("altered", "%s arrives marked as text, which it is not: a peer refuses it", brief(f.payload))
				break
			}
			s, q, ok := unstamp(f.payload)
			if !ok || s >= g {
				c.Violate("altered", "the peer received %s, which nobody sent", brief(f.payload))
				break
			}
			if q != next[s] {
				c.Violate("order", "the peer received message %d of sender %d, expected %d", q, s, next[s])
				break
			}
			next[s]++
			n++
		}
		if c.Failed() {
			p.tcp().SetLinger(0)
			p.Conn.Close()
		}
		wg.Wait()
		pw.Wait()
		if !c.Failed() && !endLocal {
			// everything the peer sent before closing is passed on
			p.write(opClose, []byte{3, 232})
			p.closeWrite()
			<-closed
			<-downDone
		}
		if endLocal {
			<-closed
		}
		// nothing more than what was sent: a late second delivery would show now
		vh.Yield()
		mu.Lock()
		c.Check(c.Failed() || len(got) == down, "lost", "the callback received %d of %d messages", len(got), down)
		mu.Unlock()
		c.Eval(total + down)
		c.Observe("messages_to_peer", n)
		c.Observe("messages_to_callback", down)
		c.Distinct(vh.Hash(g, per, down, limit, endLocal, h.tls, c.I))
		if c.I < 2 {
			c.Sample(map[string]any{"url": h.url, "senders": g, "messages_each": per, "messages_from_peer": down, "local_close": endLocal})
		}
	})
	r.Cases("empty", r.N(60, 400), 4, func(c *vh.Case) {
		h := newHub(false)
		defer h.ln.Close()
		n := 1 + c.R.IntN(20)
		var cnt atomic.Int64
		closed, all := make(chan struct{}), make(chan struct{})
		w, p, err := h.connect(&websocket.Config{OnMessage: func(_ *websocket.Handler, m []byte) {
			if len(m) != 0 {
				c.Violate("altered", "an empty message arrives as %s", brief(m))
			}
			if int(cnt.Add(1)) == n {
				close(all)
			}
		}, OnClose: func(*websocket.Handler) { close(closed) }})
		if err != nil {
			c.Violate("connect", "%v", err)
			return
		}
		defer p.Conn.Close()
		defer w.Close()
		for k := 0; k < n; k++ {
			var m []byte
			if k%2 == 0 {
				m = []byte{}
			}
			if err := w.Send(m); err != nil {
				c.Violate("send", "Send of an empty message: %v", err)
				return
			}
			f, err := p.read()
			c.Check(err == nil && len(f.payload) == 0 && (f.op == opBin || f.op == opText), "altered", "an empty message arrives at the peer as %v, %v", f, err)
			p.write(opBin, nil)
		}
		p.write(opClose, nil)
		p.closeWrite()
		<-closed
		<-all
		vh.Yield()
		c.Check(int(cnt.Load()) == n, "duplicate", "%d empty messages arrive as %d", n, cnt.Load())
		c.Eval(2 * n)
		c.Observe("empty_messages", 2*n)
		c.Distinct(vh.Hash("empty", n))
	})
	r.SeqCases("cut", 3, 1, func(c *vh.Case) {
		h := newHub(false)
		defer h.ln.Close()
		closed := make(chan struct{})
		msgs := make(chan []byte, 8)
		w, p, err := h.connect(&websocket.Config{OnMessage: func(_ *websocket.Handler, m []byte) { msgs <- m }, OnClose: func(*websocket.Handler) { close(closed) }})
		if err != nil {
			c.Violate("connect", "%v", err)
			return
		}
		defer p.Conn.Close()
		defer w.Close()
		full := stamp(1, 1, 500)
		e := encodeFrame(opBin, full)
		p.Conn.Write(e[:[]int{1, 3, 300}[c.I]]) // inside the header, at its end, inside the payload
		p.closeWrite()
		<-closed
		select {
		case m := <-msgs:
			sig := "altered"
			if c.I == 2 {
				sig = "cut-off message delivered as complete (end of stream inside the payload)"
			}
			c.Violate(sig, "the peer's connection ended inside a message of %d bytes; the callback received %s", len(full), brief(m))
		case <-time.After(50 * time.Millisecond):
		}
		c.Eval(1)
		c.Observe("cut_messages", 1)
		c.Distinct(vh.Hash("cut", c.I))
	})
}

// ---- N03

type event struct {
	kind string
	err  error
}

type journal struct {
	mu     sync.Mutex
	ev     []event
	closed chan struct{}
	errd   chan struct{}
	opened chan struct{}
	msg    chan struct{}
}

func newJournal() *journal {
	return &journal{closed: make(chan struct{}), errd: make(chan struct{}), opened: make(chan struct{}), msg: make(chan struct{})}
}

func (j *journal) add(kind string, err error) (first bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	first = true
	for _, e := range j.ev {
		if e.kind == kind {
			first = false
		}
	}
	j.ev = append(j.ev, event{kind, err})
	return
}

func (j *journal) kinds() (s []string) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for _, e := range j.ev {
		s = append(s, e.kind)
	}
	return
}

// verify is the trace specification.
func (j *journal) verify(c *vh.Case, what string) {
	j.mu.Lock()
	defer j.mu.Unlock()
	n := map[string]int{}
	for i, e := range j.ev {
		n[e.kind]++
		if e.kind == "message" && n["open"] == 0 {
			c.Violate("message-before-open", "%s: a message came before the open callback: event %d", what, i)
		}
		if (e.kind == "error" || e.kind == "close") && n["open"] == 0 {
			c.Violate("end-before-open", "%s: the %s callback came before the open callback: event %d", what, e.kind, i)
		}
		if e.kind == "error" && e.err == nil {
			c.Violate("nil-error", "%s: the error callback ran with a nil error", what)
		}
	}
	for _, k := range []string{"open", "error", "close"} {
		if n[k] != 1 {
			c.Violate("count-"+k, "%s: the %s callback ran %d times", what, k, n[k])
		}
	}
}

func n03(r *vh.Run) {
	r.Rule("each case opens a connection and ends it in one of 18 ways (local close from a caller, several callers, or a callback; peer close frame, end of stream, reset, garbage, frames a server may not send; with senders and peer messages under way), logs every callback and checks the log against the trace specification, again at the end of the run; failing connects must give an error and an empty log; counted by distinct (ending, log shape)")
	type kept struct {
		c    *vh.Case
		j    *journal
		what string
	}
	var mu sync.Mutex
	var all []kept
	endings := []string{"close", "close-many", "close-in-open", "close-in-message", "close-in-error", "close-in-close", "peer-close", "peer-fin", "peer-reset", "peer-garbage", "peer-masked", "peer-huge", "peer-half-frame", "both", "close-while-sending", "reset-while-sending", "peer-close-at-once", "close-while-receiving"}
	r.Cases("endings", r.N(2000, 20000), 4, func(c *vh.Case) {
		end := endings[c.I%len(endings)]
		h := newHub(c.I%7 == 3)
		defer h.ln.Close()
		j := newJournal()
		var closing atomic.Int64
		cl := func(w *websocket.Handler) {
			closing.Add(1)
			defer closing.Add(-1)
			w.Close()
		}
		// the peer may speak first, while the open callback takes its time
		slowOpen := 0
		if c.I/len(endings)%3 == 1 {
			slowOpen = 1 + c.R.IntN(2000)
			hello := c.R.IntN(4)
			h.greet = func(p *peer) {
				switch hello {
				case 0, 1:
					p.write(opBin, []byte("hello"))
				case 2:
					p.write(opText, []byte("hello"))
					p.write(opPing, []byte("ping"))
				case 3:
					p.Conn.Write([]byte{0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9})
				}
			}
			c.Observe("peers_speaking_first", 1)
		}
		var afterClose error = errors.New("not checked")
		cfg := &websocket.Config{
			OnOpen: func(w *websocket.Handler) {
				if slowOpen > 0 {
					time.Sleep(time.Duration(slowOpen) * time.Microsecond)
				}
				j.add("open", nil)
				if end == "close-in-open" {
					cl(w)
				}
				close(j.opened)
			},
			OnMessage: func(w *websocket.Handler, m []byte) {
				if j.add("message", nil) {
					close(j.msg)
				}
				if end == "close-in-message" {
					cl(w)
				}
			},
			OnError: func(w *websocket.Handler, err error) {
				if j.add("error", err) {
					close(j.errd)
				}
				if end == "close-in-error" {
					cl(w)
				}
			},
			OnClose: func(w *websocket.Handler) {
				if end == "close-in-close" {
					cl(w)
				}
				if w.Error() == nil {
					c.Violate("error-nil", "%s: Error is nil inside the close callback", end)
				}
				afterClose = w.Send([]byte("late"))
				if j.add("close", nil) {
					close(j.closed)
				}
			},
		}
		w, p, err := h.connect(cfg)
		if err != nil || p == nil {
			if end == "close-in-open" && w != nil { // the handshake ended before the close
				c.Violate("connect", "peer: %v", err)
			} else {
				c.Violate("connect", "connecting to %s: %v", h.url, err)
			}
			return
		}
		defer p.Conn.Close()
		select {
		case <-j.opened:
		default:
			c.Violate("open-late", "%s: NewHandler returned before the open callback had finished", end)
		}
		// the peer reads all the time
		pr := make(chan error, 1)
		go func() {
			for {
				if _, err := p.read(); err != nil {
					pr <- err
					return
				}
			}
		}()
		var snd sync.WaitGroup
		stop := make(chan struct{})
		sender := func(n int) {
			for k := 0; k < n; k++ {
				snd.Add(1)
				go func() {
					defer snd.Done()
					m := content(uint64(k), 100+1000*k)
					for {
						select {
						case <-stop:
							return
						default:
						}
						if w.Send(m) != nil {
							return
						}
						_ = w.Error()
					}
				}()
			}
		}
		noise := c.R.IntN(3)
		if end == "close-while-sending" || end == "reset-while-sending" || noise == 0 {
			sender(1 + c.R.IntN(4))
		}
		down := 0
		if end != "peer-close-at-once" && (noise < 2 || end == "close-in-message" || end == "close-while-receiving") {
			down = 1 + c.R.IntN(5)
			for k := 0; k < down; k++ {
				p.write(opBin, content(uint64(k), c.R.IntN(300)))
			}
			if end == "close-while-receiving" {
				snd.Add(1)
				go func() {
					defer snd.Done()
					for k := 0; k < 500; k++ {
						if p.write(opBin, []byte("more")) != nil {
							return
						}
					}
				}()
			}
		}
		if c.R.IntN(3) == 0 {
			time.Sleep(time.Duration(c.R.IntN(800)) * time.Microsecond)
		}
		switch end {
		case "close", "close-while-sending", "close-while-receiving":
			cl(w)
		case "close-many":
			var wg sync.WaitGroup
			for k := 0; k < 6; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					cl(w)
					if w.Error() == nil {
						c.Violate("error-nil", "%s: Error is nil after Close", end)
					}
				}()
			}
			wg.Wait()
		case "close-in-open", "close-in-message":
		case "close-in-error", "close-in-close":
			if c.R.IntN(2) == 0 {
				cl(w)
			} else {
				p.write(opClose, []byte{3, 232})
			}
		case "peer-close", "peer-close-at-once":
			p.write(opClose, []byte{3, 232})
			if c.R.IntN(2) == 0 {
				p.closeWrite()
			}
		case "peer-fin":
			p.closeWrite()
		case "peer-reset", "reset-while-sending":
			p.tcp().SetLinger(0)
			p.tcp().Close()
		case "peer-garbage":
			p.Conn.Write([]byte{0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9})
			p.Conn.Close()
		case "peer-masked":
			p.Conn.Write([]byte{0x82, 0x81, 1, 2, 3, 4, 5})
		case "peer-huge":
			p.Conn.Write([]byte{0x82, 127, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3})
			p.closeWrite()
		case "peer-half-frame":
			p.Conn.Write([]byte{0x82, 126, 1})
			p.closeWrite()
		case "both":
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); cl(w) }()
			go func() { defer wg.Done(); p.write(opClose, []byte{3, 232}); p.closeWrite() }()
			wg.Wait()
		}
		<-j.closed
		<-j.errd
		close(stop)
		for closing.Load() > 0 { // a Close that never returns is reported by the progress watchdog
			time.Sleep(50 * time.Microsecond)
		}
		c.Check(afterClose != nil && afterClose.Error() != "not checked", "send-after-close", "%s: Send inside the close callback returns %v", end, afterClose)
		c.Check(w.Error() != nil, "error-nil", "%s: Error is nil after the close callback", end)
		c.Check(w.Send([]byte("x")) != nil, "send-after-close", "%s: Send after the close callback succeeds", end)
		w.Close()
		w.Close()
		c.Check(w.Error() != nil, "error-nil", "%s: Error is nil after closing again", end)
		snd.Wait()
		p.Conn.Close()
		<-pr
		j.verify(c, end)
		ks := j.kinds()
		mu.Lock()
		if len(all) < 5000 {
			all = append(all, kept{c, j, end})
		}
		mu.Unlock()
		c.Eval(1)
		c.Observe("ending_"+end, 1)
		c.Observe("callbacks", len(ks))
		c.Distinct(vh.Hash(end, fmt.Sprint(ks), h.tls))
		if c.I < 2 {
			c.Sample(map[string]any{"ending": end, "log": ks})
		}
	})
	// much later: nothing was called again
	r.Case("late", 0, func(c *vh.Case) {
		for _, k := range all {
			k.j.verify(k.c, k.what)
		}
		c.Eval(1)
		c.Observe("logs_rechecked", len(all))
	})
	r.Cases("unread", r.N(6, 30), 6, func(c *vh.Case) {
		// a peer that does not read: senders block, Close still ends everything
		h := newHub(c.I%3 == 2)
		defer h.ln.Close()
		j := newJournal()
		w, p, err := h.connect(&websocket.Config{OnOpen: func(*websocket.Handler) { j.add("open", nil) }, OnError: func(_ *websocket.Handler, err error) {
			if j.add("error", err) {
				close(j.errd)
			}
		}, OnClose: func(*websocket.Handler) {
			if j.add("close", nil) {
				close(j.closed)
			}
		}})
		if err != nil {
			c.Violate("connect", "%v", err)
			return
		}
		defer p.Conn.Close()
		var wg sync.WaitGroup
		var sent atomic.Int64
		m := content(1, 300000)
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for w.Send(m) == nil {
					sent.Add(1)
				}
			}()
		}
		for last, still := int64(-1), 0; still < 10; time.Sleep(10 * time.Millisecond) {
			if s := sent.Load(); s == last {
				still++
			} else {
				last, still = s, 0
			}
		}
		for k := 0; k < 1+c.I%3; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); w.Close() }()
		}
		wg.Wait() // the progress watchdog reports a Close or Send that never returns
		<-j.closed
		<-j.errd
		j.verify(c, "unread")
		c.Eval(1)
		c.Observe("closes_with_blocked_senders", 1)
		c.Distinct(vh.Hash("unread", c.I))
	})
	r.Cases("connect-fails", r.N(600, 5000), 4, func(c *vh.Case) { connectFails(c, c.R) })
}

func connectFails(c *vh.Case, r *rand.Rand) {
	j := newJournal()
	cfg := &websocket.Config{Origin: "http://127.0.0.1/",
		OnOpen:    func(*websocket.Handler) { j.add("open", nil) },
		OnMessage: func(*websocket.Handler, []byte) { j.add("message", nil) },
		OnError:   func(_ *websocket.Handler, err error) { j.add("error", err) },
		OnClose:   func(*websocket.Handler) { j.add("close", nil) }}
	ln := listen()
	defer ln.Close()
	addr := ln.Addr().String()
	cfg.Url = "ws://" + addr + "/"
	kinds := []string{"refused", "404", "200", "close", "reset", "garbage", "wrong-accept", "no-upgrade", "tls-to-plain", "untrusted", "bad-pem", "missing-cert", "bad-scheme", "bad-url", "bad-origin", "cut-handshake", "silent"}
	kind := kinds[c.I%len(kinds)]
	if kind == "silent" && c.I%(len(kinds)*8) != len(kinds)-1 {
		kind = "close" // costs its timeout
	}
	if r.IntN(2) == 0 {
		cfg.TimeOut = 20 * time.Second
	}
	var answer func(net.Conn)
	say := func(s string) func(net.Conn) {
		return func(c net.Conn) { http.ReadRequest(bufio.NewReader(c)); io.WriteString(c, s) }
	}
	switch kind {
	case "refused":
		ln.Close()
	case "404":
		answer = say("HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n")
	case "200":
		answer = say("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi")
	case "close":
		answer = say("")
	case "reset":
		answer = func(c net.Conn) { c.(*net.TCPConn).SetLinger(0) }
	case "garbage":
		answer = say("\x00\x01\x02 garbage\r\n\r\n")
	case "wrong-accept":
		answer = say("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAAAAAAAAAAAAAAAAAAAAAAAAA=\r\n\r\n")
	case "no-upgrade":
		answer = say("HTTP/1.1 101 Switching Protocols\r\n\r\n")
	case "cut-handshake":
		answer = say("HTTP/1.1 101 Switching Protocols\r\nUpgrade: web")
	case "tls-to-plain":
		cfg.Url = "wss://" + addr + "/"
		answer = say("HTTP/1.1 400 Bad\r\n\r\n")
	case "untrusted":
		cfg.Url = "wss://" + addr + "/"
		_, other := selfSigned()
		cfg.CertBytes = [][]byte{other}
		answer = func(c net.Conn) {
			if p, err := handshake(tls.Server(c, &tls.Config{Certificates: []tls.Certificate{theCert}})); err == nil {
				p.write(opBin, []byte("x"))
			}
		}
	case "bad-pem":
		cfg.Url = "wss://" + addr + "/"
		cfg.CertBytes = [][]byte{[]byte("not pem")}
		if r.IntN(2) == 0 {
			cfg.CertBytes = [][]byte{thePEM, nil}
		}
	case "missing-cert":
		cfg.Url = "wss://" + addr + "/"
		cfg.CertFiles = []string{filepath.Join(os.TempDir(), "no-such-file", "x.pem")}
	case "bad-scheme":
		cfg.Url = []string{"http://" + addr, "", addr, "wsx://" + addr, "ftp:ws:"}[r.IntN(5)]
	case "bad-url":
		cfg.Url = []string{"ws:", "ws://", "ws://%zz/", "ws://127.0.0.1:notaport/", "ws://a b/", "wss:"}[r.IntN(6)]
	case "bad-origin":
		cfg.Origin = []string{"", "%zz", "not an origin", "\x7f"}[r.IntN(4)]
	case "silent":
		cfg.TimeOut = 300 * time.Millisecond
		answer = func(c net.Conn) { io.Copy(io.Discard, c) }
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		cn, err := ln.Accept()
		if err != nil {
			return
		}
		if answer != nil {
			cn.SetDeadline(time.Now().Add(30 * time.Second))
			answer(cn)
		}
		cn.Close()
	}()
	w, err := websocket.NewHandler(cfg)
	c.Check(err != nil, "connect-reported", "%s (url %q, origin %q): NewHandler returns %v without error", kind, cfg.Url, cfg.Origin, w)
	ln.Close()
	<-done
	vh.Yield()
	if ks := j.kinds(); len(ks) > 0 {
		c.Violate("callback", "%s: callbacks ran although connecting failed: %v (error %v)", kind, ks, err)
	}
	if w != nil && err == nil {
		w.Close()
	}
	c.Eval(1)
	c.Observe("failed_connects_"+kind, 1)
	c.Distinct(vh.Hash("fail", kind, cfg.Url == "", c.I%97))
}
