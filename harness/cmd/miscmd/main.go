// miscmd monitors gosignal (in child processes that signal themselves) and fast.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/fast"
	"github.com/donnie4w/gofer/gosignal"
	"verifharness/vh"
)

func main() {
	vh.Helpers["sig"] = sigHelper
	vh.Main(map[string]func(*vh.Run){"S01": s01, "S02": s02})
}

// script is what a child does: register handlers for the signal sets, then send itself the signals in order.
type script struct {
	Sets    [][]int `json:"sets"`
	Late    int     `json:"late"` // this many of the registrations happen after half of the signals
	Signals []int   `json:"signals"`
	Burst   bool    `json:"burst"` // do not wait between signals
	Bare    bool    `json:"bare"`  // nothing but the registrations keeps the signals from ending the process
}

type entry struct {
	Reg, Sig, Pos int // registration, signal number, how many signals had been sent
}

type report struct {
	Calls []entry `json:"calls"`
	Wrong string  `json:"wrong"`
	Alive bool    `json:"alive"`
}

var catchable = []syscall.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGALRM, syscall.SIGWINCH, syscall.SIGCHLD, syscall.SIGCONT, syscall.SIGIO, syscall.SIGTSTP, syscall.SIGTTIN, syscall.SIGTTOU, syscall.SIGXCPU, syscall.SIGXFSZ, syscall.SIGVTALRM, syscall.SIGPWR, syscall.SIGSYS, syscall.SIGPIPE, syscall.SIGTRAP, syscall.SIGABRT}

func sigHelper(a []string) {
	var s script
	if err := json.Unmarshal([]byte(a[0]), &s); err != nil {
		panic(err)
	}
	var rep report
	var mu sync.Mutex
	sent := 0
	// the sentinel sees every signal (and keeps unlisted ones from ending the process)
	seen := make(chan os.Signal, 4096)
	var sg []os.Signal
	for _, c := range catchable {
		sg = append(sg, c)
	}
	if !s.Bare {
		signal.Notify(seen, sg...)
	}
	called := make([]chan struct{}, len(s.Sets))
	register := func(k int) {
		called[k] = make(chan struct{}, 64)
		var l []os.Signal
		for _, n := range s.Sets[k] {
			l = append(l, syscall.Signal(n))
		}
		gosignal.ListenSignalEvent(func(o os.Signal) {
			mu.Lock()
			n, _ := o.(syscall.Signal)
			rep.Calls = append(rep.Calls, entry{k, int(n), sent})
			mu.Unlock()
			called[k] <- struct{}{}
		}, l...)
		for i := range l { // the caller may reuse its slice
			l[i] = syscall.SIGKILL
		}
	}
	first := len(s.Sets) - s.Late
	for k := 0; k < first; k++ {
		register(k)
	}
	fired := make([]bool, len(s.Sets))
	for i, n := range s.Signals {
		if i == len(s.Signals)/2 {
			for k := first; k < len(s.Sets); k++ {
				register(k)
			}
		}
		mu.Lock()
		sent = i + 1
		mu.Unlock()
		if err := syscall.Kill(syscall.Getpid(), syscall.Signal(n)); err != nil {
			rep.Wrong = "kill: " + err.Error()
			break
		}
		if s.Burst {
			continue
		}
		if !s.Bare {
			select {
			case <-seen: // the runtime has handed the signal to every channel before it takes the next one
			case <-time.After(12 * time.Second):
				rep.Wrong = fmt.Sprintf("a listener of its own in the process did not receive signal %d", n)
			}
		}
		for k := range s.Sets {
			if fired[k] || called[k] == nil {
				continue
			}
			for _, m := range s.Sets[k] {
				if m == n && !fired[k] {
					select {
					case <-called[k]:
						fired[k] = true
					case <-time.After(12 * time.Second):
						rep.Wrong = fmt.Sprintf("registration %d of %v was not notified of signal %d", k, s.Sets[k], n)
					}
				}
			}
		}
		if rep.Wrong != "" {
			break
		}
	}
	if s.Burst {
		for k := range s.Sets {
			want := false
			for i, n := range s.Signals {
				for _, m := range s.Sets[k] {
					if m == n && (k < first || i >= len(s.Signals)/2) {
						want = true
					}
				}
			}
			if want {
				select {
				case <-called[k]:
				case <-time.After(12 * time.Second):
					rep.Wrong = fmt.Sprintf("registration %d of %v was not notified in a burst", k, s.Sets[k])
				}
			}
		}
	}
	time.Sleep(3 * time.Millisecond) // a call too many would come now
	if s.Bare {
		for _, n := range s.Signals { // still alive after the handlers are done, too
			syscall.Kill(syscall.Getpid(), syscall.Signal(n))
		}
		time.Sleep(3 * time.Millisecond)
	}
	for i := 0; i < 100; i++ {
		runtime.Gosched()
	}
	mu.Lock()
	rep.Alive = true
	json.NewEncoder(os.Stdout).Encode(rep)
	mu.Unlock()
	os.Exit(0)
}

func s01(r *vh.Run) {
	r.Rule("each case runs a child process that registers 1-5 handlers for generated signal sets (some of them later) and sends itself 1-12 listed and unlisted signals, one at a time or in a burst; its call log is compared with the script; counted by distinct scripts")
	self, _ := os.Executable()
	r.Cases("children", r.N(500, 8000), 8, func(c *vh.Case) {
		if r.Failed() {
			return
		}
		var s script
		s.Burst = c.R.IntN(4) == 0
		s.Bare = c.I%3 == 2
		for k := 1 + c.R.IntN(5); k > 0; k-- {
			var set []int
			for n := 1 + c.R.IntN(4); n > 0; n-- {
				set = append(set, int(catchable[c.R.IntN(len(catchable))]))
			}
			if c.R.IntN(10) == 0 {
				set = nil
				for _, x := range catchable {
					set = append(set, int(x))
				}
			}
			s.Sets = append(s.Sets, set)
		}
		s.Late = c.R.IntN(len(s.Sets))
		if s.Bare {
			s.Late = 0
		}
		for n := 1 + c.R.IntN(12); n > 0; n-- {
			x := int(catchable[c.R.IntN(len(catchable))])
			if s.Bare || c.R.IntN(2) == 0 { // mostly listed ones
				set := s.Sets[c.R.IntN(len(s.Sets))]
				x = set[c.R.IntN(len(set))]
			}
			s.Signals = append(s.Signals, x)
			for c.R.IntN(4) == 0 {
				s.Signals = append(s.Signals, x)
			}
		}
		for _, n := range s.Signals {
			// the kernel drops a pending SIGCONT when a stop signal comes, and the other way round
			if syscall.Signal(n) == syscall.SIGCONT {
				s.Burst = false
			}
		}
		j, _ := json.Marshal(s)
		cmd := exec.Command(self, "-helper", "sig", string(j))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		var rep report
		if err != nil || json.Unmarshal(out, &rep) != nil || !rep.Alive {
			if strings.Contains(eb.String(), "DATA RACE") {
				c.Violate("data-race", "in the child of %s:\n%.3000s", j, eb.String())
				return
			}
			c.Violate("process-ended", "the child of %s ended with %v\n%.2000s", j, err, eb.String())
			return
		}
		if rep.Wrong != "" {
			c.Violate("not-notified", "%s: %s (calls %v)", j, rep.Wrong, rep.Calls)
			return
		}
		first := len(s.Sets) - s.Late
		calls := make([]int, len(s.Sets))
		for _, e := range rep.Calls {
			calls[e.Reg]++
			if calls[e.Reg] > 1 {
				c.Violate("called-again", "%s: registration %d was called %d times (%v)", j, e.Reg, calls[e.Reg], rep.Calls)
				return
			}
		}
		for k, set := range s.Sets {
			from := 0
			if k >= first {
				from = len(s.Signals) / 2
			}
			want, at := 0, 0 // the first listed signal after the registration
			eligible := map[int]bool{}
			for i := from; i < len(s.Signals); i++ {
				for _, m := range set {
					if m == s.Signals[i] {
						if want == 0 {
							want, at = m, i+1
						}
						eligible[m] = true
					}
				}
			}
			// in a burst a signal sent just before a late registration may arrive after it
			maybe := s.Burst && k >= first
			var got *entry
			for i := range rep.Calls {
				if rep.Calls[i].Reg == k {
					got = &rep.Calls[i]
				}
			}
			switch {
			case got == nil && want != 0:
				c.Violate("not-notified", "%s: registration %d was not called", j, k)
			case got != nil && want == 0 && !maybe:
				c.Violate("unlisted", "%s: registration %d was called with signal %d although none of its signals was sent", j, k, got.Sig)
			case got != nil && !s.Burst && (got.Sig != want || got.Pos != at):
				c.Violate("wrong-signal", "%s: registration %d was called with signal %d after %d signals, want %d after %d", j, k, got.Sig, got.Pos, want, at)
			case got != nil && s.Burst && !maybe && !eligible[got.Sig]:
				c.Violate("wrong-signal", "%s: registration %d was called with signal %d", j, k, got.Sig)
			}
			if got != nil {
				ok := false
				for _, m := range set {
					ok = ok || m == got.Sig
				}
				c.Check(ok, "unlisted", "%s: registration %d was called with signal %d", j, k, got.Sig)
			}
		}
		c.Eval(1)
		if s.Bare {
			c.Observe("children_without_other_listeners", 1)
		}
		c.Observe("signals_sent", len(s.Signals))
		c.Observe("handler_calls", len(rep.Calls))
		c.Distinct(vh.Hash(j))
		if c.I < 2 {
			c.Sample(map[string]any{"script": s, "calls": rep.Calls})
		}
	})
}

var literals = []string{"", "x", "a literal in read-only memory", "\x00", "日本語", "ends with zero\x00"}

func s02(r *vh.Run) {
	r.Rule("each case views generated strings (literals, built, substrings, concatenations, empty) as bytes, compares with a copy, then drops the strings, allocates and collects garbage and compares the held views again; appending to a view must leave the neighbouring bytes alone; the race build also checks pointers; counted by distinct strings")
	r.Cases("views", r.N(1500, 20000), 2, func(c *vh.Case) {
		if r.Failed() {
			return
		}
		type held struct{ view, want []byte }
		var hs []held
		// room behind a view would let an append overwrite what follows the string in memory: here, the rest of a larger string
		big := make([]byte, 40+c.R.IntN(200))
		for i := range big {
			big[i] = byte(c.R.Uint32())
		}
		whole := string(big)
		i := c.R.IntN(len(whole) - 8)
		j := i + c.R.IntN(len(whole)-8-i)
		if v := fast.StringToSlice(whole[i:j]); len(v) == j-i && cap(v) != len(v) {
			bad := cap(v) < len(v)
			if !bad {
				_ = append(v, ^whole[j])
				bad = whole != string(big)
			}
			if bad {
				c.Violate("append", "the view of %d bytes of a string of %d has capacity %d; appending to it writes behind the string", len(v), len(whole), cap(v))
				return
			}
		}
		func() {
			var base []string
			for k := 0; k < 12; k++ {
				n := []int{0, 1, 7, 8, 31, 32, 33, 1000, 40000}[c.R.IntN(9)]
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(c.R.Uint32())
				}
				s := string(b)
				switch c.R.IntN(5) {
				case 0:
					s = literals[c.R.IntN(len(literals))]
				case 1:
					if len(base) > 0 { // a part of another string
						t := base[c.R.IntN(len(base))]
						i := c.R.IntN(len(t) + 1)
						s = t[i : i+c.R.IntN(len(t)-i+1)]
					}
				case 2:
					if len(base) > 1 {
						s = base[0] + base[len(base)-1]
					}
				case 3:
					var sb strings.Builder
					for i := 0; i < 5; i++ {
						fmt.Fprintf(&sb, "%d-%s", i, s[:len(s)/2])
					}
					s = sb.String()
				}
				base = append(base, s)
			}
			for _, s := range base {
				want := append([]byte{}, s...)
				v := fast.StringToSlice(s)
				if !c.Check(len(v) == len(s) && bytes.Equal(v, want), "content", "the view of a string of %d bytes has %d bytes (equal %v)", len(s), len(v), bytes.Equal(v, want)) {
					return
				}
				for i := range v {
					if v[i] != s[i] {
						c.Violate("content", "byte %d of the view differs", i)
						return
					}
				}
				if !c.Check(cap(v) >= len(v), "capacity", "the view of a string of %d bytes has length %d and capacity %d", len(s), len(v), cap(v)) {
					return
				}
				c.Check(s == string(want), "altered", "a string changed from %.40q to %.40q", want, s)
				hs = append(hs, held{v, want})
				c.Distinct(vh.Hash(s))
			}
		}()
		// the strings are gone; only the views are left
		junk := make([][]byte, 0, 64)
		for k := 0; k < 64; k++ {
			junk = append(junk, bytes.Repeat([]byte{0xAA}, 32<<(k%8)))
		}
		if c.I%8 == 0 {
			runtime.GC()
		}
		for k := range junk {
			junk[k] = bytes.Repeat([]byte{0x55}, len(junk[k]))
		}
		for _, h := range hs {
			c.Check(bytes.Equal(h.view, h.want), "collected", "a view of %d bytes changed after garbage collection", len(h.want))
		}
		runtime.KeepAlive(junk)
		c.Eval(len(hs))
		c.Observe("views_held_across_collections", len(hs))
		if c.I == 0 {
			c.Sample(map[string]any{"views": len(hs)})
		}
	})
}
