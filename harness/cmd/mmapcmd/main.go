// mmapcmd monitors mmap.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/donnie4w/gofer/mmap"
	"verifharness/vh"
)

func main() {
	vh.Helpers["mmap"] = helper
	vh.Main(map[string]func(*vh.Run){"P01": p01, "P02": p02, "P03": p03})
}

func spin(n int) {
	for i := 0; i < n; i++ {
		vh.Yield()
	}
}

func scratch(c *vh.Case) string {
	d, err := os.MkdirTemp(c.Tmp, "m")
	if err != nil {
		panic(err)
	}
	return d
}

// fill returns n non-zero bytes.
func fill(salt uint64, id, n int) []byte {
	b := make([]byte, n)
	x := vh.Hash(salt, id) | 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x>>24) | 1
	}
	return b
}

func mapFile(path string, size int, start int64, pre []byte) (*mmap.Mmap, *os.File) {
	b := make([]byte, size)
	copy(b, pre)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	m, err := mmap.NewMMAP(f, start)
	if err != nil {
		panic(fmt.Sprintf("NewMMAP(size %d, start %d): %v", size, start, err))
	}
	return m, f
}

type app struct {
	off  int64
	n    int
	id   int
	err  error
	call int64 // largest end known before the call
}

func p01(r *vh.Run) {
	r.Rule("each case has 2-8 goroutines append (plain and synchronous) to and write disjoint regions of a mapped file of 1 byte to 40 KB from a random start offset, then checks regions, mapping and file byte for byte; non-trivial when calls overlapped or the file filled up")
	r.Cases("appends", r.N(4000, 40000), 4, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		size := []int{1, 7, 100, 4096, 4097, 8192, 12288, 40000}[c.R.IntN(8)]
		start := int64(0)
		if c.R.IntN(2) == 0 {
			start = int64(c.R.IntN(size))
		}
		salt := c.R.Uint64()
		pre := fill(salt, 1<<20, int(start))
		if c.I%2 == 0 { // the rest of the file has content too
			pre = fill(salt, 1<<20, size)
		}
		m, f := mapFile(path, size, start, pre)
		g := 2 + c.R.IntN(7)
		per := 4 + c.R.IntN(20)
		maxLen := 1 + size/(1+c.R.IntN(60))
		if c.R.IntN(3) == 0 {
			maxLen = 1 + c.R.IntN(64)
		}
		seeds := make([]uint64, g)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		// positional writes go to g equal regions in front of the start offset
		slot := int(start) / g
		tails := c.R.IntN(2) == 0 && size-int(start) > 200
		var high atomic.Int64
		high.Store(start)
		recs := make([][]app, g)
		tail := make([]app, 0)
		want := make([]byte, size)
		copy(want, pre)
		wants := make([][]byte, g)
		var inflight, overl, sync atomic.Int64
		tailLen := 0
		if tails {
			tailLen = 10 + c.R.IntN(50)
		}
		var tailDone atomic.Int64
		tailAt := c.R.IntN(g * per)
		var ops atomic.Int64
		c.Par(g, func(gi int) {
			rr := vh.NewRand(seeds[gi])
			for i := 0; i < per; i++ {
				k := rr.IntN(8)
				if int(ops.Add(1)) == tailAt && tails {
					// a positional write ending at the end of the file
					b := fill(salt, 1<<21, tailLen)
					if err := m.WriteAt(b, size-tailLen); err != nil {
						c.Violate("write-refused", "WriteAt of %d bytes at %d of %d: %v", tailLen, size-tailLen, size, err)
					}
					tailDone.Store(1)
					continue
				}
				if inflight.Add(1) > 1 {
					overl.Add(1)
				}
				if k == 0 && slot > 0 {
					n := 1 + rr.IntN(slot)
					b := fill(salt, 1<<22+gi*1000+i, n)
					off := gi*slot + rr.IntN(slot-n+1)
					var err error
					if rr.IntN(3) == 0 {
						err = m.WriteAtSync(b, off)
						sync.Add(1)
					} else {
						err = m.WriteAt(b, off)
					}
					if err != nil {
						c.Violate("write-refused", "WriteAt(%d bytes, %d) of %d: %v", n, off, size, err)
					}
					if wants[gi] == nil {
						wants[gi] = append([]byte(nil), pre[gi*slot:(gi+1)*slot]...)
					}
					copy(wants[gi][off-gi*slot:], b)
					for j := range b {
						b[j] = 0
					}
					if !bytes.Equal(m.Bytes()[gi*slot:(gi+1)*slot], wants[gi]) {
						c.Violate("mapping-content", "region of a completed WriteAt at %d differs", off)
					}
				} else {
					n := rr.IntN(maxLen + 1)
					id := gi*1000 + i
					b := fill(salt, id, n)
					a := app{n: n, id: id, call: high.Load()}
					after := tailDone.Load() == 1
					if rr.IntN(5) == 0 {
						a.off, a.err = m.AppendSync(b)
						sync.Add(1)
					} else {
						a.off, a.err = m.Append(b)
					}
					if a.err == nil {
						if a.off < a.call || a.off+int64(n) > int64(size) {
							c.Violate("append-region", "Append of %d bytes to a file of %d got offset %d; offsets up to %d were already given out", n, size, a.off, a.call)
							inflight.Add(-1)
							return
						}
						if after && n > 0 {
							c.Violate("append-after-tail", "Append got offset %d after a positional write filled the file's end", a.off)
						}
						for o := high.Load(); a.off+int64(n) > o && !high.CompareAndSwap(o, a.off+int64(n)); o = high.Load() {
						}
						if !bytes.Equal(m.Bytes()[a.off:a.off+int64(n)], b) && !tails {
							c.Violate("mapping-content", "bytes of a completed Append at %d are not there", a.off)
						}
					}
					for j := range b {
						b[j] = 0
					}
					recs[gi] = append(recs[gi], a)
				}
				inflight.Add(-1)
				spin(rr.IntN(2))
			}
		})
		var all []app
		fails := 0
		for _, rs := range recs {
			for _, a := range rs {
				if a.err != nil {
					fails++
				} else {
					all = append(all, a)
				}
			}
		}
		_ = tail
		sort.Slice(all, func(i, j int) bool {
			if all[i].off != all[j].off {
				return all[i].off < all[j].off
			}
			return all[i].n < all[j].n
		})
		pos := start
		for _, a := range all {
			if a.n == 0 {
				continue
			}
			if a.off != pos {
				c.Violate("append-region", "appended regions are not disjoint and consecutive: one begins at %d, the previous ended at %d", a.off, pos)
				return
			}
			pos += int64(a.n)
			copy(want[a.off:], fill(salt, a.id, a.n))
		}
		if tails && tailDone.Load() == 1 {
			// appends whose region was taken before it may share the tail's bytes: compare up to it
			if pos > int64(size-tailLen) {
				copy(want[size-tailLen:], m.Bytes()[size-tailLen:])
			} else {
				copy(want[size-tailLen:], fill(salt, 1<<21, tailLen))
			}
		} else {
			for _, rs := range recs {
				for _, a := range rs {
					if a.err != nil && pos+int64(a.n) <= int64(size) {
						c.Violate("append-refused", "Append of %d bytes failed (%v), but at the end the file of %d was filled only up to %d", a.n, a.err, size, pos)
					}
				}
			}
		}
		for gi, w := range wants {
			copy(want[gi*slot:], w)
		}
		if !bytes.Equal(m.Bytes(), want) {
			c.Violate("mapping-content", "mapping differs from the expected content at byte %d", diff(m.Bytes(), want))
		}
		if m.FileSize() != int64(size) {
			c.Violate("file-size", "FileSize %d of a file of %d bytes", m.FileSize(), size)
		}
		var err error
		switch c.R.IntN(3) {
		case 0:
			err = m.Flush()
			if err == nil {
				got, _ := os.ReadFile(path)
				if !bytes.Equal(got, want) {
					c.Violate("file-content", "file after Flush differs at byte %d", diff(got, want))
				}
				err = m.UnmapAndCloseFile()
			}
		case 1:
			err = m.Close()
		case 2:
			err = m.UnmapAndCloseFile()
		}
		if err != nil {
			c.Violate("close-error", "flush or close: %v", err)
		}
		f.Close()
		got, _ := os.ReadFile(path)
		if !bytes.Equal(got, want) {
			c.Violate("file-content", "file after close differs at byte %d (%d and %d bytes)", diff(got, want), len(got), len(want))
		}
		c.Eval(1)
		c.Observe("appends_placed", len(all))
		c.Observe("appends_refused_full", fails)
		c.Observe("overlapping_calls", int(overl.Load()))
		c.Observe("synchronous_calls", int(sync.Load()))
		if overl.Load() > 0 || fails > 0 {
			c.Distinct(vh.Hash(want))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"size": size, "start": start, "goroutines": g, "appends": len(all), "refused": fails, "end": pos})
		}
	})
	if !r.Race && !r.Perturb {
		far(r)
	}
}

func diff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// far drives a mapping of a sparse file around the offsets that no longer fit 31, 32 or 33 bits.
func far(r *vh.Run) {
	r.SeqCases("far", r.N(12, 120), 2, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		edge := 1 << (31 + c.I%3)
		size := edge + 4096*c.R.IntN(4) + c.R.IntN(5000)
		f, err := os.Create(path)
		if err == nil {
			err = f.Truncate(int64(size))
		}
		if err != nil {
			c.Inconclusive("file with a hole: %v", err)
			return
		}
		defer f.Close()
		start := edge - c.R.IntN(6000)
		m, err := mmap.NewMMAP(f, int64(start))
		if err != nil {
			c.Inconclusive("mapping of %d bytes: %v", size, err)
			return
		}
		salt := c.R.Uint64()
		end := start
		want := make([]byte, size-edge+100000) // from edge-100000 on
		base := edge - 100000
		for i := 0; i < 30; i++ {
			n := 1 + c.R.IntN(600)
			if c.R.IntN(6) == 0 {
				n = size - end + c.R.IntN(2)
			}
			b := fill(salt, i, n)
			off, sync := int64(end), c.R.IntN(2) == 0
			app := c.R.IntN(2) == 0
			if !app {
				off = int64(base + c.R.IntN(size+50-base))
			}
			before := off
			p := vh.Try(func() {
				switch {
				case app && sync:
					off, err = m.AppendSync(b)
				case app:
					off, err = m.Append(b)
				case sync:
					err = m.WriteAtSync(b, int(off))
				default:
					err = m.WriteAt(b, int(off))
				}
			})
			what := fmt.Sprintf("write of %d bytes at %d of %d (append %v, sync %v, end %d)", n, before, size, app, sync, end)
			if p != "" {
				c.Violate("crash", "%s: %s", what, p)
				return
			}
			fits := int(before)+n <= size
			if !c.Check(fits == (err == nil), "bounds", "%s: %v", what, err) {
				return
			}
			if fits {
				if !c.Check(off == before, "append-position", "%s: returned %d", what, off) {
					return
				}
				copy(want[int(off)-base:], b)
				end = max(end, int(off)+n)
			}
		}
		got := append([]byte{}, m.Bytes()[base:]...)
		c.Check(bytes.Equal(got, want), "content", "the mapping of %d bytes does not hold what was written around %d", size, edge)
		if p := vh.Try(func() { err = m.Close() }); p != "" || err != nil {
			c.Violate("close", "Close of a mapping of %d bytes: %v %s", size, err, p)
		}
		got = make([]byte, size-base)
		_, err = f.ReadAt(got, int64(base))
		c.Check(err == nil && bytes.Equal(got, want), "content", "the file of %d bytes does not hold what was written around %d: %v", size, edge, err)
		zero := make([]byte, 1<<16)
		_, err = f.ReadAt(zero, 0)
		c.Check(err == nil && bytes.Count(zero, []byte{0}) == len(zero), "content", "the start of a file of %d bytes changed", size)
		c.Eval(1)
		c.Max("file_bytes", size)
		c.Observe("writes_beyond_2GB", 30)
		c.Distinct(vh.Hash(c.Name(), size, start))
	})
}

func p02(r *vh.Run) {
	r.Rule("each case drives one mapping through 60 operations with fitting, exactly fitting, empty, overlong, negative and overflowing arguments against a model of file and append position, or opens files with offsets inside and outside; non-trivial when calls were refused")
	if !r.Race && !r.Perturb {
		far(r)
	}
	r.SeqCases("bounds", r.N(4000, 60000), 6, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		size := []int{1, 2, 9, 100, 4095, 4096, 4097, 8192, 10000}[c.R.IntN(9)]
		start := c.R.IntN(size)
		if c.R.IntN(2) == 0 {
			start = 0
		}
		salt := c.R.Uint64()
		pre := fill(salt, 1<<20, size)
		m, f := mapFile(path, size, int64(start), pre)
		defer f.Close()
		model := append([]byte(nil), pre...)
		end := start
		refused, exact, empty := 0, 0, 0
		length := func() int {
			switch c.R.IntN(7) {
			case 0:
				return 0
			case 1:
				return size - end
			case 2:
				return size - end + 1
			case 3:
				return size
			case 4:
				return size + 1 + c.R.IntN(5000)
			}
			return c.R.IntN(1 + size/8)
		}
		for i := 0; i < 60; i++ {
			what := ""
			var p string
			if c.R.IntN(2) == 0 {
				n := length()
				if n < 0 {
					n = 0
				}
				b := fill(salt, i, n)
				var off int64
				var err error
				sync := c.R.IntN(2) == 0
				what = fmt.Sprintf("append of %d bytes (sync %v) at %d of %d", n, sync, end, size)
				p = vh.Try(func() {
					if sync {
						off, err = m.AppendSync(b)
					} else {
						off, err = m.Append(b)
					}
				})
				fits := end+n <= size
				if p == "" && fits != (err == nil) {
					c.Violate("bounds", "%s: error %v", what, err)
				}
				if err == nil && p == "" {
					if off != int64(end) {
						c.Violate("append-position", "%s: returned %d", what, off)
					}
					if fits {
						copy(model[end:], b)
						end += n
					}
					if end == size {
						exact++
					}
				} else {
					refused++
				}
			} else {
				n := length()
				if n < 0 {
					n = 0
				}
				var off int
				switch c.R.IntN(10) {
				case 0:
					off = -1 - c.R.IntN(10)
				case 1:
					off = math.MaxInt - c.R.IntN(20)
				case 2:
					off = math.MinInt + c.R.IntN(20)
				case 3:
					off = math.MaxInt - n + 1 - c.R.IntN(3)
				case 4:
					off = size - n
				case 5:
					off = size - n + 1
				case 6:
					off = size
				case 7:
					off = -n
				default:
					off = c.R.IntN(size)
				}
				b := fill(salt, i, n)
				var err error
				sync := c.R.IntN(2) == 0
				what = fmt.Sprintf("positional write of %d bytes at %d (sync %v), file of %d", n, off, sync, size)
				p = vh.Try(func() {
					if sync {
						err = m.WriteAtSync(b, off)
					} else {
						err = m.WriteAt(b, off)
					}
				})
				fits := off >= 0 && off <= size && n <= size-off
				if p == "" && fits != (err == nil) {
					c.Violate("bounds", "%s: error %v", what, err)
				}
				if fits {
					copy(model[off:], b)
					if off+n > end {
						end = off + n
					}
					if off+n == size {
						exact++
					}
					if n == 0 {
						empty++
					}
				} else {
					refused++
				}
			}
			if p != "" {
				c.Violate("panic", "%s: panic: %s", what, p)
				return
			}
			if i%6 == 0 || i > 54 {
				got, _ := os.ReadFile(path)
				if !bytes.Equal(got, model) {
					c.Violate("side-effect", "after %s: file differs from the model at byte %d (%d and %d bytes)", what, diff(got, model), len(got), len(model))
					return
				}
			}
			if !bytes.Equal(m.Bytes(), model) {
				c.Violate("side-effect", "after %s: mapping differs from the model at byte %d", what, diff(m.Bytes(), model))
				return
			}
		}
		if err := m.Close(); err != nil {
			c.Violate("close-error", "Close: %v", err)
		}
		c.Eval(1)
		c.Observe("refused", refused)
		c.Observe("exactly_filling", exact)
		c.Observe("empty_writes", empty)
		if refused > 0 {
			c.Distinct(vh.Hash(size, start, end, refused, model))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"size": size, "start": start, "end": end, "refused": refused})
		}
	})
	r.SeqCases("open", r.N(800, 8000), 4, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		size := []int{0, 1, 100, 4096, 5000}[c.R.IntN(5)]
		content := fill(1, 2, size)
		os.WriteFile(path, content, 0o644)
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		start := []int64{0, -1, int64(size), int64(size) - 1, int64(size) + 1, math.MaxInt64, math.MinInt64, int64(size) / 2}[c.R.IntN(8)]
		var m *mmap.Mmap
		if p := vh.Try(func() { m, err = mmap.NewMMAP(f, start) }); p != "" {
			c.Violate("panic", "NewMMAP(size %d, start %d): panic: %s", size, start, p)
			return
		}
		ok := size > 0 && start >= 0 && start < int64(size)
		if ok != (err == nil) || ok != (m != nil) {
			c.Violate("open-bounds", "NewMMAP of a file of %d bytes with start offset %d: %v, error %v", size, start, m != nil, err)
		}
		if m != nil {
			off, err := m.Append([]byte{1})
			if ok && (err != nil || off != start) {
				c.Violate("append-position", "first append with start offset %d: %d, %v", start, off, err)
			}
			m.Unmap()
		}
		c.Eval(1)
		c.Observe("opens", 1)
		if !ok {
			c.Observe("opens_refused", 1)
		}
		c.Distinct(vh.Hash("open", size, start))
	})
	// the last bytes of the file, contended
	r.Cases("full", r.N(1500, 20000), 4, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		size := 20 + c.R.IntN(300)
		m, f := mapFile(path, size, 0, nil)
		defer f.Close()
		g := 2 + c.R.IntN(6)
		var placed, refused atomic.Int64
		n := 1 + c.R.IntN(9)
		used := make([]atomic.Int32, size)
		c.Par(g, func(gi int) {
			for i := 0; i < size; i++ {
				b := bytes.Repeat([]byte{byte(gi + 1)}, n)
				off, err := m.Append(b)
				if err != nil {
					refused.Add(1)
					if placed.Load() == 0 && i > 3*size {
						return
					}
					break
				}
				placed.Add(1)
				if off < 0 || int(off)+n > size {
					c.Violate("append-region", "append of %d bytes at %d of %d", n, off, size)
					return
				}
				for j := 0; j < n; j++ {
					if used[int(off)+j].Add(1) != 1 {
						c.Violate("append-region", "byte %d given to two appends", int(off)+j)
						return
					}
				}
			}
		})
		if want := size / n; int(placed.Load()) != want {
			c.Violate("append-refused", "%d appends of %d bytes were placed in a file of %d bytes, %d fit", placed.Load(), n, size, want)
		}
		m.Close()
		c.Eval(1)
		c.Observe("contended_refusals", int(refused.Load()))
		c.Distinct(vh.Hash("full", size, n, g))
	})
}

// ---- P03: synchronous flushes, observed as system calls of a traced process

type op struct {
	app bool
	off int
	b   []byte
}

// script is the sequence of operations of goroutine gi; both sides compute it.
func script(salt uint64, gi, g, size, n int) []op {
	rr := vh.NewRand(salt, gi, "script")
	page := os.Getpagesize()
	lo, hi := gi*size/g, (gi+1)*size/g // positional writes stay in this part; appends go to the half behind
	lo, hi = lo/2, hi/2
	var ops []op
	pos := size / 2 // append position, known when there is one goroutine
	for i := 0; i < n; i++ {
		var o op
		ln := 1 + rr.IntN(60)
		switch rr.IntN(6) {
		case 0:
			ln = page/2 + rr.IntN(page)
		case 1:
			ln = []int{0, 1, page, page + 1, page - 1}[rr.IntN(5)]
		}
		o.app = rr.IntN(2) == 0
		if !o.app {
			ln = min(ln, hi-lo)
			o.off = lo + rr.IntN(hi-lo-ln+1)
			// near and across page boundaries
			if rr.IntN(2) == 0 {
				if p := (o.off+page-1)/page*page - rr.IntN(ln+2); p >= lo && p+ln <= hi {
					o.off = p
				}
			}
		}
		if g == 1 {
			// up to and around the end of the file
			switch k := rr.IntN(12); {
			case o.app && k == 0:
				ln = size - pos + rr.IntN(3) - 1
			case o.app && k == 1 || !o.app && k < 2:
				o.app, ln = false, min(size, 1+rr.IntN(page+page/4))
				o.off = size - ln - rr.IntN(2)*rr.IntN(size-ln+1)
			}
			if ln = max(ln, 0); o.app && pos+ln <= size {
				pos += ln
			} else if !o.app {
				pos = max(pos, o.off+ln)
			}
		}
		o.b = fill(salt, gi*100000+i, ln)
		ops = append(ops, o)
	}
	return ops
}

const (
	mBase = iota + 1
	mBegin
	mOff
	mErr
	mEnd
)

func helper(a []string) {
	salt, _ := strconv.ParseUint(a[1], 10, 64)
	g, _ := strconv.Atoi(a[2])
	n, _ := strconv.Atoi(a[3])
	f, err := os.OpenFile(a[0], os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	st, _ := f.Stat()
	size := int(st.Size())
	start := int64(size / 2)
	if n == 0 {
		start = 0
	}
	m, err := mmap.NewMMAP(f, start)
	if err != nil {
		panic(err)
	}
	vh.Mark(mBase, int64(uintptr(unsafe.Pointer(&m.Bytes()[0]))))
	done := make(chan bool)
	for gi := 0; gi < g; gi++ {
		go func() {
			runtime.LockOSThread() // so that the tracer can tell the goroutines apart
			for i, o := range script(salt, gi, g, size, n) {
				vh.Mark(mBegin, int64(gi*100000+i))
				off, err := int64(o.off), error(nil)
				if o.app {
					off, err = m.AppendSync(o.b)
				} else {
					err = m.WriteAtSync(o.b, o.off)
				}
				vh.Mark(mOff, off)
				if err != nil {
					vh.Mark(mErr, 1)
				}
				vh.Mark(mEnd, int64(gi*100000+i))
			}
			done <- true
		}()
	}
	for gi := 0; gi < g; gi++ {
		<-done
	}
	runtime.LockOSThread()
	rest := flushed(salt, size)
	for i, o := range rest { // plain writes made durable by Flush, the last one by Close
		vh.Mark(mBegin, int64(g*100000+i))
		var err error
		if n == 0 { // nothing is written but through the mapping itself
			copy(m.Bytes()[o.off:], o.b)
		} else {
			err = m.WriteAt(o.b, o.off)
		}
		if err == nil {
			if i < len(rest)-1 {
				err = m.Flush()
			} else {
				err = m.Close()
			}
		}
		vh.Mark(mOff, int64(o.off))
		if err != nil {
			vh.Mark(mErr, 1)
		}
		vh.Mark(mEnd, int64(g*100000+i))
	}
	os.Exit(0)
}

func flushed(salt uint64, size int) (l []op) {
	rr := vh.NewRand(salt, "flush")
	for i := 0; i < 4; i++ {
		n := 1 + rr.IntN(100)
		if rr.IntN(2) == 0 {
			n = 1 + rr.IntN(size)
		}
		off := rr.IntN(size - n + 1)
		if rr.IntN(4) == 0 {
			off = size - n
		}
		l = append(l, op{off: off, b: fill(salt, 9900000+i, n)})
	}
	return l
}

type flush struct {
	seq, end int // event numbers of entry and exit
	lo, hi   int // file range, in whole pages
	ret      int64
	sync     bool
	snap     []byte
}

type span struct {
	id         int
	begin, end int
	off        int64
	err        bool
	fails      int // failed flush calls of this thread in between
}

func p03(r *vh.Run) {
	r.Rule("each case traces the system calls of a process doing 24 synchronous appends and positional writes per goroutine (lengths and offsets around page boundaries), and of plain writes, or changes of the mapping itself, followed by Flush or Close, reads the file at each flush call's entry, optionally makes random flush calls fail, and matches every successful operation with successful flushes between its call and return that cover its pages while its bytes were in place; non-trivial when flush calls were observed")
	r.SeqCases("trace", r.N(220, 4000), 4, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		page := os.Getpagesize()
		size := (4+c.R.IntN(30))*page - c.R.IntN(2)*c.R.IntN(page)
		if err := os.WriteFile(path, make([]byte, size), 0o644); err != nil {
			panic(err)
		}
		salt := c.R.Uint64()
		g := 1
		if c.R.IntN(3) == 0 {
			g = 2 + c.R.IntN(2)
		}
		n := 24
		if c.R.IntN(8) == 0 {
			n = 0
		}
		rate := 0
		if c.R.IntN(2) == 0 {
			rate = 1 + c.R.IntN(5)
		}
		rr := vh.NewRand(salt, "faults")
		base := int64(0)
		var flushes []flush
		open := map[int]int{}
		cur := map[int]*span{}
		var spans []*span
		seq := 0
		ws, out, err := c.Trace(d, []string{"mmap", path, strconv.FormatUint(salt, 10), strconv.Itoa(g), strconv.Itoa(n)}, 60*time.Second, func(s *vh.Stop) {
			seq++
			if k, v, ok := s.Marker(); ok {
				sp := cur[s.Tid]
				switch k {
				case mBase:
					base = v
				case mBegin:
					cur[s.Tid] = &span{id: int(v), begin: seq}
				case mOff:
					sp.off = v
				case mErr:
					sp.err = true
				case mEnd:
					sp.end = seq
					spans = append(spans, sp)
					delete(cur, s.Tid)
				}
				return
			}
			isMsync := s.Nr == syscall.SYS_MSYNC
			isFsync := s.Nr == syscall.SYS_FSYNC || s.Nr == syscall.SYS_FDATASYNC
			if s.Entry && (isMsync || isFsync) && base != 0 {
				f := flush{seq: seq, sync: true, lo: 0, hi: size}
				if isMsync {
					lo := int64(s.Args[0]) - base
					f.lo, f.hi = int(lo), int(lo)+(int(s.Args[1])+page-1)/page*page
					f.sync = s.Args[2]&syscall.MS_SYNC != 0
				}
				f.snap, _ = os.ReadFile(path)
				open[s.Tid] = len(flushes)
				flushes = append(flushes, f)
				if rate > 0 && rr.IntN(6) < rate {
					s.Fail([]syscall.Errno{syscall.EIO, syscall.ENOMEM, syscall.EBUSY}[rr.IntN(3)])
					if sp := cur[s.Tid]; sp != nil {
						sp.fails++
					}
				}
			} else if !s.Entry {
				if k, ok := open[s.Tid]; ok {
					flushes[k].end = seq
					flushes[k].ret = s.Ret
					delete(open, s.Tid)
				}
			}
		})
		if err != nil {
			c.Inconclusive("trace: %v\n%.500s", err, out)
			return
		}
		if !ws.Exited() || ws.ExitStatus() != 0 {
			c.Violate("helper", "process doing synchronous writes ended with %v\n%.3000s", ws, out)
			return
		}
		scripts := make([][]op, g)
		for gi := range scripts {
			scripts[gi] = script(salt, gi, g, size, n)
		}
		scripts = append(scripts, flushed(salt, size))
		okOps, errOps, crossing := 0, 0, 0
		for _, sp := range spans {
			o := scripts[sp.id/100000][sp.id%100000]
			lo, hi := int(sp.off), int(sp.off)+len(o.b)
			if sp.err {
				errOps++
				fits := !o.app && o.off+len(o.b) <= size
				if fits && sp.fails == 0 {
					c.Violate("spurious-error", "positional write (and flush) of %d bytes at %d of %d failed without a failed flush", len(o.b), o.off, size)
				}
				continue
			}
			if len(o.b) == 0 {
				continue
			}
			okOps++
			if lo/page != (hi-1)/page {
				crossing++
			}
			covered := make([]bool, len(o.b))
			failed := 0
			for _, f := range flushes {
				if f.seq < sp.begin || f.end > sp.end || f.end == 0 {
					continue
				}
				if f.ret != 0 {
					failed++
					continue
				}
				if !f.sync {
					continue
				}
				for j := max(lo, f.lo); j < min(hi, f.hi); j++ {
					if j < len(f.snap) && f.snap[j] == o.b[j-lo] {
						covered[j-lo] = true
					}
				}
			}
			for j, ok := range covered {
				if !ok {
					c.Violate("not-flushed", "write of %d bytes at %d (append %v) returned success, but byte %d was not covered by a successful synchronous flush issued with the byte in place (%d flushes in between failed)", len(o.b), lo, o.app, lo+j, failed)
					return
				}
			}
		}
		c.Eval(1)
		c.Observe("flush_calls", len(flushes))
		c.Observe("writes_matched", okOps)
		c.Observe("writes_reporting_errors", errOps)
		c.Observe("writes_crossing_pages", crossing)
		if len(spans) != g*n+4 {
			c.Violate("helper", "%d of %d operations were observed", len(spans), g*n+4)
		}
		if len(flushes) > 0 {
			var k []string
			for _, f := range flushes {
				k = append(k, fmt.Sprint(f.lo, f.hi, f.ret))
			}
			j, _ := json.Marshal(k)
			c.Distinct(vh.Hash(j))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"file_bytes": size, "goroutines": g, "flush_calls": len(flushes), "matched": okOps, "errors": errOps})
		}
	})
}

var _ = rand.IntN
