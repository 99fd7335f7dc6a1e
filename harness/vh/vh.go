// Package vh is the monitoring harness: it runs numbered cases of a property, each with its own
// PRNG state, watches for panics and lack of progress, and records what was observed.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Kind   string `json:"kind"`
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Case   string `json:"case"`
}

type Result struct {
	Prop         string           `json:"prop"`
	Variant      string           `json:"variant"`
	Seed         uint64           `json:"seed"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int              `json:"distinct"`
	Rule         string           `json:"rule"`
	Samples      []any            `json:"samples"`
	Observed     map[string]int64 `json:"observed"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Complete     bool             `json:"complete"`
}

type Run struct {
	Prop, Tier, Variant string
	Seed                uint64
	Race, Perturb       bool
	Tmp                 string

	only     string
	out      string
	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	obs      map[string]*atomic.Int64
	evals    atomic.Int64
	nviol    atomic.Int64
	flushed  bool
}

// Case is one numbered, individually replayable execution.
type Case struct {
	*Run
	Tag string
	I   int
	R   *rand.Rand
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N scales a case count to tier and build variant.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.Thorough() {
		n = thorough
	}
	if r.Race {
		n = (n + 4) / 5
	} else if r.Perturb && !r.Race {
		n = (n + 2) / 3
	}
	if n < 1 {
		n = 1
	}
	return n
}

func (r *Run) Rule(s string) { r.mu.Lock(); r.res.Rule = s; r.mu.Unlock() }

func (r *Run) Eval(n int) { r.evals.Add(int64(n)) }

func Hash(vs ...any) uint64 {
	h := fnv.New64a()
	for _, v := range vs {
		switch x := v.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Distinct notes one distinct, non-trivial case or history by fingerprint.
func (r *Run) Distinct(h uint64) {
	r.mu.Lock()
	if len(r.distinct) < 400000 {
		r.distinct[h] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.res.Samples) < 4 {
		r.res.Samples = append(r.res.Samples, v)
	}
	r.mu.Unlock()
}

// Observe counts an observed event class (monitor reach).
func (r *Run) Observe(k string, n int) {
	r.mu.Lock()
	c := r.obs[k]
	if c == nil {
		c = new(atomic.Int64)
		r.obs[k] = c
	}
	r.mu.Unlock()
	c.Add(int64(n))
}

func (r *Run) Max(k string, n int) {
	r.mu.Lock()
	c := r.obs[k]
	if c == nil {
		c = new(atomic.Int64)
		r.obs[k] = c
	}
	if c.Load() < int64(n) {
		c.Store(int64(n))
	}
	r.mu.Unlock()
}

func (r *Run) Observed(k string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	if c := r.obs[k]; c != nil {
		return c.Load()
	}
	return 0
}

func (r *Run) Inconclusive(f string, a ...any) {
	r.mu.Lock()
	if len(r.res.Inconclusive) < 50 {
		r.res.Inconclusive = append(r.res.Inconclusive, fmt.Sprintf(f, a...))
	}
	r.mu.Unlock()
}

func (r *Run) Failed() bool { return r.nviol.Load() > 0 }

func (r *Run) violate(cs, sig, detail string) {
	r.mu.Lock()
	if len(r.res.Violations) < 12 {
		if len(detail) > 6000 {
			detail = detail[:6000] + "..."
		}
		v := Violation{Kind: sig, Sig: sig, Detail: detail, Case: cs}
		r.res.Violations = append(r.res.Violations, v)
		if r.out != "" { // what broke may take the process down before it ends
			if f, err := os.OpenFile(r.out+".viol", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644); err == nil {
				b, _ := json.Marshal(v)
				f.Write(append(b, '\n'))
				f.Close()
			}
		}
	}
	r.mu.Unlock()
	r.nviol.Add(1)
}

// Violate records a violation; sig is a stable name of what was violated.
func (r *Run) Violate(sig, f string, a ...any) { r.violate("", sig, fmt.Sprintf(f, a...)) }

func (c *Case) Name() string { return fmt.Sprintf("%s:%d", c.Tag, c.I) }

func (c *Case) Violate(sig, f string, a ...any) { c.violate(c.Name(), sig, fmt.Sprintf(f, a...)) }

// Check records a violation unless ok.
func (c *Case) Check(ok bool, sig, f string, a ...any) bool {
	if !ok {
		c.Violate(sig, f, a...)
	}
	return ok
}

func NewRand(vs ...any) *rand.Rand {
	h := Hash(vs...)
	return rand.New(rand.NewPCG(h, h*0x9E3779B97F4A7C15+1))
}

// stacks returns all goroutine stacks.
func stacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func runnable(st string) int {
	n := 0
	for _, g := range strings.Split(st, "\n\n") {
		if i := strings.IndexByte(g, '['); i >= 0 && i < 40 {
			s := g[i+1:]
			if strings.HasPrefix(s, "running") || strings.HasPrefix(s, "runnable") || strings.HasPrefix(s, "syscall") {
				n++
			}
		}
	}
	return n
}

func stuckExcerpt(st string) string {
	var out []string
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "donnie4w/gofer") {
			out = append(out, g)
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

// Bounds of the progress watchdog: cases take milliseconds to a few seconds.
const (
	stuckAfter = 40 * time.Second
	giveUp     = 150 * time.Second
)

// Case runs f as case i of tag unless a replay selects another one.
// A panic is a violation; a case that does not finish is a violation of bounded progress and ends the process.
func (r *Run) Case(tag string, i int, f func(c *Case)) {
	if r.only != "" && r.only != fmt.Sprintf("%s:%d", tag, i) && r.only != tag {
		return
	}
	if r.nviol.Load() >= 12 {
		return
	}
	c := &Case{Run: r, Tag: tag, I: i, R: NewRand(r.Seed, r.Prop, r.Variant, tag, i)}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				c.Violate("panic", "panic: %v\n%s", e, debug.Stack())
			}
		}()
		f(c)
	}()
	r.await(c.Name(), done)
}

func (r *Run) await(name string, done chan struct{}) {
	start := time.Now()
	t := time.NewTimer(stuckAfter)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
			st := stacks()
			if runnable(st) <= 1 || time.Since(start) > giveUp {
				// look twice: a machine that is merely slow shows runnable goroutines
				time.Sleep(2 * time.Second)
				select {
				case <-done:
					return
				default:
				}
				st = stacks()
				if runnable(st) <= 1 || time.Since(start) > giveUp {
					r.violate(name, "no-progress", fmt.Sprintf("operation did not finish within %v and nothing is runnable\n%s", time.Since(start), stuckExcerpt(st)))
					r.Flush()
					os.Exit(3)
				}
			}
			t.Reset(10 * time.Second)
		}
	}
}

// Cases runs n cases on w workers.
func (r *Run) Cases(tag string, n, w int, f func(c *Case)) {
	if w <= 0 {
		w = runtime.GOMAXPROCS(0)
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				r.Case(tag, i, f)
			}
		}()
	}
	wg.Wait()
}

// Try runs f and returns its panic value as text ("" if none).
func Try(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("%v", e)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return
}

func (r *Run) Flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.flushed {
		return
	}
	r.flushed = true
	r.res.Evaluations = r.evals.Load()
	r.res.Distinct = len(r.distinct)
	r.res.Observed = map[string]int64{}
	for k, v := range r.obs {
		r.res.Observed[k] = v.Load()
	}
	b, err := json.MarshalIndent(&r.res, "", " ")
	if err != nil {
		r.res.Samples = []any{fmt.Sprintf("%v", r.res.Samples)}
		b, _ = json.MarshalIndent(&r.res, "", " ")
	}
	if r.out == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	hs := make([]uint64, 0, len(r.distinct))
	for h := range r.distinct {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	hb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
	}
	os.WriteFile(r.out+".distinct", hb, 0o644)
	os.WriteFile(r.out, b, 0o644)
}

// Helpers lets a command act as a helper process: "<cmd> -helper name args...".
var Helpers = map[string]func(args []string){}

func Main(props map[string]func(*Run)) {
	if len(os.Args) > 2 && os.Args[1] == "-helper" {
		Helpers[os.Args[2]](os.Args[3:])
		return
	}
	r := &Run{distinct: map[uint64]struct{}{}, obs: map[string]*atomic.Int64{}}
	flag.StringVar(&r.Prop, "prop", "", "")
	flag.StringVar(&r.Tier, "tier", "quick", "")
	flag.StringVar(&r.Variant, "variant", "plain", "")
	flag.Uint64Var(&r.Seed, "seed", 1, "")
	flag.StringVar(&r.out, "out", "", "")
	flag.StringVar(&r.only, "only", "", "replay one case, tag:index")
	flag.StringVar(&r.Tmp, "tmp", os.TempDir(), "")
	flag.Parse()
	f := props[r.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(2)
	}
	r.Race = raceBuild
	r.Perturb = perturbBuild
	r.res = Result{Prop: r.Prop, Variant: r.Variant, Seed: r.Seed}
	SetPerturb(1)
	f(r)
	if r.Perturb && !r.Race {
		r.Observe("perturbation_points_hit", int(PerturbPoints()))
	}
	if t := r.Observed("checker_timeouts"); t*50 > r.Observed("histories") {
		r.Inconclusive("%d history checks timed out", t)
	}
	r.mu.Lock()
	r.res.Complete = true
	r.mu.Unlock()
	r.Flush()
}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// SeqCases is Cases for single-threaded cases: only the plain build runs them.
func (r *Run) SeqCases(tag string, n, w int, f func(c *Case)) {
	if r.Race || r.Perturb {
		return
	}
	r.Cases(tag, n, w, f)
}
