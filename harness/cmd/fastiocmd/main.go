// fastiocmd monitors fastio.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"math/rand/v2"

	"github.com/donnie4w/gofer/fastio"
	"verifharness/vh"
)

func main() {
	vh.Helpers["kill"] = helperKill
	vh.Helpers["fsize"] = helperFsize
	vh.Main(map[string]func(*vh.Run){"F01": f01, "F02": f02, "F03": f03})
}

func spin(n int) {
	for i := 0; i < n; i++ {
		vh.Yield()
	}
}

func scratch(c *vh.Case) string {
	d, err := os.MkdirTemp(c.Tmp, "f")
	if err != nil {
		panic(err)
	}
	return d
}

var sizes = []int{0, 1, 2, 17, 100, 511, 4095, 4096, 4097, 9000}

func size(rr *rand.Rand) int {
	if rr.IntN(60) == 0 {
		return 60000 + rr.IntN(80000)
	}
	if rr.IntN(2) == 0 {
		return 1 + rr.IntN(200)
	}
	return sizes[rr.IntN(len(sizes))]
}

// block is the content of write i of goroutine g: its first byte is g, the rest depends on both.
func block(salt uint64, g, i, n int) []byte {
	b := make([]byte, n)
	x := vh.Hash(salt, g, i) | 1
	for j := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[j] = byte(x >> 32)
	}
	if n > 0 {
		b[0] = byte(g)
	}
	return b
}

func initial(rr *rand.Rand) []byte {
	b := make([]byte, []int{0, 0, 1, 10, 4096, 5001}[rr.IntN(6)])
	for i := range b {
		b[i] = byte(200 + i%50)
	}
	return b
}

func open(c *vh.Case, path string, app bool) (fastio.File, *os.File) {
	if app {
		f, err := fastio.Open(path)
		if err != nil {
			panic(err)
		}
		return f, nil
	}
	of, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	f, err := fastio.New(of)
	if err != nil {
		panic(err)
	}
	return f, of
}

type rec struct {
	Sync bool
	Len  int
	Off  int64
	N    int
	OK   bool
	Err  string
}

// parse checks that data is the blocks of recs, in order per goroutine, and nothing else.
func parse(c *vh.Case, data []byte, base int, recs [][]rec, salt uint64) {
	pos := base
	next := make([]int, len(recs))
	skip := func(g int) {
		for next[g] < len(recs[g]) && recs[g][next[g]].Len == 0 {
			next[g]++
		}
	}
	for pos < len(data) {
		g := int(data[pos])
		if g >= len(recs) {
			c.Violate("file-content", "byte %d at offset %d starts no written block", g, pos)
			return
		}
		skip(g)
		if next[g] >= len(recs[g]) {
			c.Violate("file-content", "offset %d: a block of goroutine %d beyond the ones it wrote", pos, g)
			return
		}
		w := recs[g][next[g]]
		want := block(salt, g, next[g], w.Len)
		if pos+w.Len > len(data) || !bytes.Equal(data[pos:pos+w.Len], want) {
			c.Violate("file-content", "offset %d: block %d of goroutine %d (%d bytes) expected there is not", pos, next[g], g, w.Len)
			return
		}
		if w.Sync && w.Off != int64(pos) {
			c.Violate("reported-offset", "WriteSync of block %d of goroutine %d returned offset %d, the block lies at %d", next[g], g, w.Off, pos)
			return
		}
		pos += w.Len
		next[g]++
	}
	for g := range recs {
		skip(g)
		if next[g] != len(recs[g]) {
			c.Violate("missing-block", "block %d of goroutine %d (%d bytes, sync %v) was acknowledged but is not in the file", next[g], g, recs[g][next[g]].Len, recs[g][next[g]].Sync)
			return
		}
	}
}

func f01(r *vh.Run) {
	r.Rule("each case has 1-8 goroutines write 10-50 blocks of 0 to 140000 bytes (or a few of up to 2 MB) with Write and WriteSync to a file with earlier content, opened for appending or positioned at its end, then parses the file; non-trivial when calls overlapped")
	r.Cases("writes", r.N(2500, 20000), 3, func(c *vh.Case) { writes(c, false, 0) })
	r.Cases("large", r.N(60, 600), 2, func(c *vh.Case) { writes(c, true, 0) })
	r.Cases("far", r.N(90, 900), 2, func(c *vh.Case) {
		// around the offsets that no longer fit 31, 32 or 33 bits
		writes(c, false, 1<<(31+c.R.IntN(3))-int64(c.R.IntN(3)*c.R.IntN(60000)))
	})
	// offsets stay right after writes that failed or were cut off
	failing(r, r.N(600, 8000))
	if !r.Race && !r.Perturb {
		sizeLimit(r, r.N(80, 1200))
	}
}

func readFrom(path string, off int64) ([]byte, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if _, err = f.Seek(off, io.SeekStart); err != nil {
		return nil, err
	}
	return io.ReadAll(f)
}

// writes starts behind a hole if far is given.
func writes(c *vh.Case, big bool, far int64) {
	{
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		pre := initial(c.R)
		if err := os.WriteFile(path, pre, 0o644); err != nil {
			panic(err)
		}
		if far > 0 {
			pre = nil
			if err := os.Truncate(path, far); err != nil {
				c.Inconclusive("file with a hole: %v", err)
				return
			}
		}
		app := c.R.IntN(3) > 0
		f, _ := open(c, path, app)
		g := 1 + c.R.IntN(8)
		per := 10 + c.R.IntN(40)
		if big {
			g, per = 2+c.R.IntN(6), 2+c.R.IntN(4)
		}
		salt := c.R.Uint64()
		mode := c.R.IntN(4) // 0: all Write, 1: all WriteSync, else mixed
		seeds := make([]uint64, g)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		recs := make([][]rec, g)
		var inflight, overl atomic.Int64
		sessions := 1 + c.R.IntN(2)
		base := int64(len(pre)) + far
		for s := 0; s < sessions; s++ {
			c.Par(g, func(gi int) {
				rr := vh.NewRand(seeds[gi], s)
				for i := 0; i < per; i++ {
					n := size(rr)
					if big {
						n = 1 + rr.IntN(1<<(10+rr.IntN(12)))
					}
					b := block(salt, gi, len(recs[gi]), n)
					w := rec{Len: n, Sync: mode == 1 || mode > 1 && rr.IntN(2) == 0}
					if inflight.Add(1) > 1 {
						overl.Add(1)
					}
					if w.Sync {
						off, err := f.WriteSync(b)
						w.Off = off - far
						if err != nil {
							c.Violate("write-error", "WriteSync on a healthy file: %v", err)
						}
						if off < base {
							c.Violate("reported-offset", "WriteSync returned offset %d, inside the earlier content (%d bytes)", off, base)
						}
					} else {
						m, err := f.Write(b)
						if err != nil || m != n {
							c.Violate("write-result", "Write of %d bytes on a healthy file: %d, %v", n, m, err)
						}
					}
					inflight.Add(-1)
					recs[gi] = append(recs[gi], w)
					// the slice is the caller's again
					for j := range b {
						b[j] = 0xEE
					}
					spin(rr.IntN(2))
				}
			})
			if s+1 < sessions {
				f.Close()
				f, _ = open(c, path, app)
			}
		}
		if c.R.IntN(2) == 0 {
			f.Close()
		} else {
			defer f.Close()
		}
		data, err := readFrom(path, far)
		if err != nil {
			panic(err)
		}
		if !bytes.HasPrefix(data, pre) {
			c.Violate("earlier-content", "the %d bytes the file had before changed", len(pre))
			return
		}
		parse(c, data, len(pre), recs, salt)
		c.Eval(1)
		c.Observe("blocks_written", sessions*g*per)
		c.Observe("overlapping_writes", int(overl.Load()))
		c.Observe("bytes_verified", len(data))
		if overl.Load() > 0 {
			// the order of blocks in the file is the observed interleaving
			order := vh.Hash(data)
			c.Distinct(order)
		}
		if c.I < 2 {
			c.Sample(map[string]any{"goroutines": g, "blocks": g * per * sessions, "file_bytes": len(data), "overlaps": overl.Load(), "append_mode": app})
		}
	}
}

func f02(r *vh.Run) {
	r.Rule("each case checks every acknowledged block at the moment of its acknowledgement (own ReadAt, another descriptor), overwrites the passed slice, closes the file or kills the writing process right after an acknowledgement, and then compares the file; non-trivial when writers overlapped")
	r.Cases("ack-readback", r.N(2500, 20000), 3, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		pre := initial(c.R)
		os.WriteFile(path, pre, 0o644)
		f, _ := open(c, path, c.R.IntN(3) > 0)
		g := 1 + c.R.IntN(7)
		per := 12
		salt := c.R.Uint64()
		closer := c.R.IntN(2) == 0
		var acked, closed, inflight, overl atomic.Int64
		closeAfter := int64(1 + c.R.IntN(g*per))
		seeds := make([]uint64, g)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		recs := make([][]rec, g)
		c.Par(g, func(gi int) {
			rr := vh.NewRand(seeds[gi])
			rd, err := os.Open(path)
			if err != nil {
				panic(err)
			}
			defer rd.Close()
			for i := 0; i < per; i++ {
				n := 24 + rr.IntN(300)
				if rr.IntN(20) == 0 {
					n = 70000
				}
				b := block(salt, gi, i, n)
				want := append([]byte(nil), b...)
				w := rec{Len: n, Sync: rr.IntN(2) == 0}
				if inflight.Add(1) > 1 {
					overl.Add(1)
				}
				var err error
				if w.Sync {
					w.Off, err = f.WriteSync(b)
				} else {
					w.N, err = f.Write(b)
				}
				inflight.Add(-1)
				w.OK = err == nil
				recs[gi] = append(recs[gi], w)
				if err != nil {
					if closed.Load() == 0 {
						c.Violate("write-error", "write on a healthy file: %v", err)
					}
					return
				}
				for j := range b {
					b[j] = 0xEE
				}
				if w.Sync {
					got := make([]byte, n)
					if closed.Load() == 0 && !closer {
						if m, err := f.ReadAt(got, w.Off); m != n || !bytes.Equal(got, want) {
							c.Violate("not-readable-at-ack", "ReadAt(%d) right after WriteSync returned: %d bytes, %v, equal %v", w.Off, m, err, bytes.Equal(got, want))
						}
					}
					m, err := rd.ReadAt(got, w.Off)
					if m != n || !bytes.Equal(got, want) {
						c.Violate("not-in-file-at-ack", "another descriptor right after WriteSync returned %d: %d of %d bytes, %v", w.Off, m, n, err)
					}
				} else if i%2 == 0 {
					all, _ := os.ReadFile(path)
					if !bytes.Contains(all, want) {
						c.Violate("not-in-file-at-ack", "right after Write returned, its %d bytes are not in the file (%d bytes long)", n, len(all))
					}
				}
				if a := acked.Add(1); closer && a == closeAfter {
					closed.Store(1)
					f.Close()
				}
			}
		})
		if !closer {
			f.Close()
		}
		data, _ := os.ReadFile(path)
		ok := 0
		for gi := range recs {
			for i, w := range recs[gi] {
				if !w.OK {
					continue
				}
				ok++
				want := block(salt, gi, i, w.Len)
				if w.Sync {
					if int(w.Off)+w.Len > len(data) || !bytes.Equal(data[w.Off:int(w.Off)+w.Len], want) {
						c.Violate("lost-after-close", "block acknowledged at offset %d is not in the file after Close", w.Off)
					}
				} else if !bytes.Contains(data, want) {
					c.Violate("lost-after-close", "block acknowledged by Write is not in the file after Close (closed during the run: %v)", closer)
				}
			}
		}
		c.Eval(1)
		c.Observe("acknowledged_blocks_checked", ok)
		c.Observe("overlapping_writes", int(overl.Load()))
		if closer {
			c.Observe("closed_right_after_an_ack", 1)
		}
		if overl.Load() > 0 {
			c.Distinct(vh.Hash(data))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"goroutines": g, "acknowledged": ok, "closed_after_ack": closer, "file_bytes": len(data)})
		}
	})
	r.Cases("far", r.N(16, 160), 2, func(c *vh.Case) { // ReadAt at offsets beyond 2 and 4 GB (sparse files), and of several MB at once
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		far := []int64{0, 1<<31 - 5000, 1<<31 + 77, 1<<32 - 3000, 1<<32 + 12345, 1 << 33}[c.I%6]
		if err := os.WriteFile(path, nil, 0o644); err != nil {
			panic(err)
		}
		if err := os.Truncate(path, far); err != nil {
			c.Inconclusive("file with a hole: %v", err)
			return
		}
		f, _ := open(c, path, true)
		defer f.Close()
		salt := c.R.Uint64()
		var all []byte
		for i := 0; i < 6; i++ {
			n := 24 + c.R.IntN(5000)
			if i == 2 {
				n = 1<<20 + c.R.IntN(1<<20)
			}
			b := block(salt, 0, i, n)
			all = append(all, b...)
			off, err := f.WriteSync(b)
			if err != nil {
				c.Violate("write-error", "WriteSync at the end of a file of %d bytes: %v", far, err)
				return
			}
			got := make([]byte, n)
			m, err := f.ReadAt(got, off)
			if m != n || !bytes.Equal(got, all[len(all)-n:]) {
				c.Violate("not-readable-at-ack", "ReadAt(%d bytes, %d) right after WriteSync returned: %d bytes, %v", n, off, m, err)
			}
		}
		got := make([]byte, len(all))
		if m, err := f.ReadAt(got, far); m != len(all) || !bytes.Equal(got, all) {
			c.Violate("not-readable-at-ack", "ReadAt(%d bytes, %d) of acknowledged blocks: %d bytes, %v", len(all), far, m, err)
		}
		if tail, err := readFrom(path, far); err != nil || !bytes.Equal(tail, all) {
			c.Violate("not-in-file-at-ack", "the file from %d on is %d bytes, %d were acknowledged", far, len(tail), len(all))
		}
		c.Eval(1)
		c.Observe("acknowledged_blocks_checked", 6)
		c.Max("farthest_offset", int(far))
	})
	if r.Race || r.Perturb {
		return
	}
	r.Cases("kill", r.N(150, 2500), 6, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		salt := c.R.Uint64()
		g := 1 + c.R.IntN(6)
		cmd := exec.Command("/proc/self/exe", "-helper", "kill", path, strconv.Itoa(g), strconv.FormatUint(salt, 10))
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		stop := 1 + c.R.IntN(400)
		sc := bufio.NewScanner(out)
		var lines []string
		for sc.Scan() {
			lines = append(lines, sc.Text())
			if len(lines) == stop {
				cmd.Process.Kill()
			}
		}
		cmd.Process.Kill()
		cmd.Wait()
		data, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		for _, l := range lines {
			var gi, i, n, sync int
			var off int64
			if k, _ := fmt.Sscan(l, &gi, &i, &n, &sync, &off); k != 5 {
				continue // cut off by the kill
			}
			want := block(salt, gi, i, n)
			if sync == 1 {
				if int(off)+n > len(data) || !bytes.Equal(data[off:int(off)+n], want) {
					c.Violate("lost-at-kill", "block acknowledged at offset %d before the kill is not there", off)
				}
			} else if !bytes.Contains(data, want) {
				c.Violate("lost-at-kill", "block acknowledged by Write before the kill is not in the file")
			}
		}
		c.Eval(1)
		c.Observe("processes_killed", 1)
		c.Observe("acknowledged_before_kill", len(lines))
		c.Distinct(vh.Hash("kill", data))
	})
}

func helperKill(a []string) {
	g, _ := strconv.Atoi(a[1])
	salt, _ := strconv.ParseUint(a[2], 10, 64)
	f, err := fastio.Open(a[0])
	if err != nil {
		panic(err)
	}
	for gi := 0; gi < g; gi++ {
		go func() {
			rr := vh.NewRand(salt, gi)
			for i := 0; ; i++ {
				n := 24 + rr.IntN(200)
				b := block(salt, gi, i, n)
				s, off := rr.IntN(2), int64(0)
				var err error
				if s == 1 {
					off, err = f.WriteSync(b)
				} else {
					_, err = f.Write(b)
				}
				if err != nil {
					return
				}
				syscall.Write(1, []byte(fmt.Sprintln(gi, i, n, s, off)))
			}
		}()
	}
	time.Sleep(20 * time.Second)
}

// checkFaulty compares the acknowledged blocks with the file.
func checkFaulty(c *vh.Case, data, pre []byte, recs [][]rec, salt uint64, what string) (ok, failed int) {
	if !bytes.HasPrefix(data, pre) {
		c.Violate("earlier-content", "%s: the bytes the file had before changed", what)
	}
	for gi := range recs {
		for i, w := range recs[gi] {
			if !w.OK {
				failed++
				continue
			}
			ok++
			want := block(salt, gi, i, w.Len)
			if w.Sync {
				if w.Off < 0 || int(w.Off)+w.Len > len(data) || !bytes.Equal(data[w.Off:int(w.Off)+w.Len], want) {
					c.Violate("silent-failure", "%s: WriteSync of block %d/%d returned offset %d and no error, but its %d bytes are not there", what, gi, i, w.Off, w.Len)
				}
			} else {
				if w.N != w.Len {
					c.Violate("silent-failure", "%s: Write of %d bytes returned %d without error", what, w.Len, w.N)
				}
				if !bytes.Contains(data, want) {
					c.Violate("silent-failure", "%s: Write of block %d/%d returned no error, but its %d bytes are not in the file", what, gi, i, w.Len)
				}
			}
		}
	}
	return
}

func doWrite(f fastio.File, b []byte, sync bool) rec {
	w := rec{Len: len(b), Sync: sync}
	var err error
	if sync {
		w.Off, err = f.WriteSync(b)
	} else {
		w.N, err = f.Write(b)
	}
	w.OK = err == nil
	if err != nil {
		w.Err = err.Error()
	}
	return w
}

func f03(r *vh.Run) {
	r.Rule("each case lets the descriptor of 1-8 active writers start failing at a random point (closed, read-only, full device, size limit, swapped underneath and restored) and compares every acknowledgement with the file; positional reads and writes are compared with a model of the file; non-trivial when some writes succeeded and some failed, or offsets differed")
	failing(r, r.N(4000, 40000))
	sizeLimit(r, r.N(200, 2500))
	r.SeqCases("positional", r.N(3000, 40000), 4, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		pre := initial(c.R)
		os.WriteFile(path, pre, 0o644)
		model := append([]byte(nil), pre...)
		app := c.R.IntN(3) == 0
		f, _ := open(c, path, app)
		defer f.Close()
		for i := 0; i < 25; i++ {
			off := int64(c.R.IntN(len(model) + 20))
			switch c.R.IntN(4) {
			case 0:
				if c.R.IntN(12) == 0 {
					off = -1 - off
				}
				b := block(7, i, i, c.R.IntN(60))
				n, err := f.WriteAt(b, off)
				if err == nil {
					if n != len(b) {
						c.Violate("positional-write", "WriteAt returned %d of %d without error", n, len(b))
					}
					if off < 0 {
						c.Violate("positional-write", "WriteAt at %d succeeded", off)
						return
					}
					if len(b) > 0 {
						for int64(len(model)) < off+int64(len(b)) {
							model = append(model, 0)
						}
						copy(model[off:], b)
					}
					c.Observe("positional_writes", 1)
				} else {
					c.Observe("positional_writes_refused", 1)
					if !app && off >= 0 {
						c.Violate("positional-write", "WriteAt(%d bytes, %d) on a healthy file: %v", len(b), off, err)
					}
				}
			case 1, 2:
				b := make([]byte, c.R.IntN(80))
				n, err := f.ReadAt(b, off)
				want := []byte{}
				if off < int64(len(model)) {
					want = model[off:]
				}
				if len(want) > len(b) {
					want = want[:len(b)]
				}
				if n != len(want) || !bytes.Equal(b[:n], want) || (err != nil) != (n < len(b)) || err != nil && err != io.EOF {
					c.Violate("positional-read", "ReadAt(%d bytes, %d) of a file of %d: %d, %v, content equal %v", len(b), off, len(model), n, err, bytes.Equal(b[:n], want))
				}
				c.Observe("positional_reads", 1)
			case 3:
				if app {
					b := block(9, i, i, c.R.IntN(60))
					o, err := f.WriteSync(b)
					if err != nil || o != int64(len(model)) {
						c.Violate("reported-offset", "WriteSync to a file of %d bytes: %d, %v", len(model), o, err)
					}
					model = append(model, b...)
				}
			}
		}
		data, _ := os.ReadFile(path)
		if !bytes.Equal(data, model) {
			c.Violate("positional-content", "the file differs from the model after positional writes (%d and %d bytes)", len(data), len(model))
		}
		c.Eval(1)
		if len(model) > len(pre) || app {
			c.Distinct(vh.Hash("pos", model))
		}
	})
}

func failing(r *vh.Run, n int) {
	r.Cases("failing", n, 3, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		pre := initial(c.R)
		os.WriteFile(path, pre, 0o644)
		kind := []string{"close", "swap", "swap-restore", "read-only", "full"}[c.R.IntN(5)]
		var f fastio.File
		var of *os.File
		var err error
		switch kind {
		case "read-only":
			of, err = os.Open(path)
		case "full":
			of, err = os.OpenFile("/dev/full", os.O_RDWR, 0)
		default:
			fl := os.O_RDWR
			if c.R.IntN(2) == 0 {
				fl |= os.O_APPEND
			}
			of, err = os.OpenFile(path, fl, 0)
		}
		if err != nil {
			c.Observe("fault_target_unavailable_"+kind, 1)
			return
		}
		f, err = fastio.New(of)
		if err != nil {
			c.Violate("open-error", "New on %s: %v", kind, err)
			return
		}
		defer f.Close()
		g := 1 + c.R.IntN(8)
		per := 6 + c.R.IntN(14)
		salt := c.R.Uint64()
		seeds := make([]uint64, g)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		recs := make([][]rec, g)
		var started, inflight, overl atomic.Int64
		failAt := int64(c.R.IntN(g * per))
		restoreAt := failAt + int64(c.R.IntN(g*per))
		var once, once2 sync.Once
		fd := -1
		good := -1
		if strings.HasPrefix(kind, "swap") {
			fd = int(of.Fd())
			good, _ = syscall.Dup(fd)
			defer syscall.Close(good)
		}
		var badAt, closedAt atomic.Int64
		event := func(n int64) {
			if n >= failAt {
				once.Do(func() {
					switch kind {
					case "close":
						closedAt.Store(1)
						f.Close()
						closedAt.Store(2)
					case "swap", "swap-restore":
						ro, err := os.Open(path)
						if err == nil {
							syscall.Dup3(int(ro.Fd()), fd, 0)
							ro.Close()
						}
						badAt.Store(1)
					}
				})
			}
			if kind == "swap-restore" && n >= restoreAt {
				once2.Do(func() { syscall.Dup3(good, fd, 0) })
			}
		}
		c.Par(g, func(gi int) {
			rr := vh.NewRand(seeds[gi])
			for i := 0; i < per; i++ {
				n := 24 + rr.IntN(200)
				if rr.IntN(10) == 0 {
					n = 5000
				}
				b := block(salt, gi, i, n)
				event(started.Add(1))
				late := closedAt.Load() == 2
				if inflight.Add(1) > 1 {
					overl.Add(1)
				}
				w := doWrite(f, b, rr.IntN(2) == 0)
				inflight.Add(-1)
				if w.OK && (late || kind == "read-only" || kind == "full") {
					c.Violate("silent-failure", "%s: a write on the failing descriptor returned success", kind)
				}
				recs[gi] = append(recs[gi], w)
			}
		})
		if kind == "swap-restore" {
			once2.Do(func() { syscall.Dup3(good, fd, 0) })
			for i := 0; i < 4; i++ {
				w := doWrite(f, block(salt, 0, len(recs[0]), 40), i%2 == 0)
				if !w.OK {
					c.Violate("later-write", "write after the descriptor works again: %s", w.Err)
				}
				recs[0] = append(recs[0], w)
			}
		}
		data, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		ok, failed := checkFaulty(c, data, pre, recs, salt, kind)
		c.Eval(1)
		c.Observe("writes_acknowledged", ok)
		c.Observe("writes_failed", failed)
		c.Observe("overlapping_writes", int(overl.Load()))
		c.Observe("fault_"+kind, 1)
		if failed > 0 && (ok > 0 || kind == "full" || kind == "read-only") {
			c.Distinct(vh.Hash(kind, ok, failed, data))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"fault": kind, "goroutines": g, "acknowledged": ok, "failed": failed})
		}
	})
}

func sizeLimit(r *vh.Run, n int) {
	r.SeqCases("size-limit", n, 6, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "f")
		pre := initial(c.R)
		os.WriteFile(path, pre, 0o644)
		salt := c.R.Uint64()
		g := 1 + c.R.IntN(6)
		limit := len(pre) + 100 + c.R.IntN(9000)
		cmd := exec.Command("/proc/self/exe", "-helper", "fsize", path, strconv.Itoa(g), strconv.FormatUint(salt, 10), strconv.Itoa(limit))
		var se bytes.Buffer
		cmd.Stderr = &se
		done := make(chan struct{})
		var out []byte
		var err error
		go func() { out, err = cmd.Output(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			cmd.Process.Signal(syscall.SIGQUIT)
			<-done
			c.Violate("no-progress", "writes on a file at its size limit did not return within 30 s:\n%.3000s", se.String())
			return
		}
		if err != nil {
			c.Violate("helper", "writer process at the size limit: %v\n%.3000s", err, se.String())
			return
		}
		var recs [][]rec
		if err := json.Unmarshal(out, &recs); err != nil {
			c.Inconclusive("helper output: %v", err)
			return
		}
		data, _ := os.ReadFile(path)
		ok, failed := checkFaulty(c, data, pre, recs, salt, "size limit")
		c.Eval(1)
		c.Observe("writes_acknowledged", ok)
		c.Observe("writes_failed", failed)
		c.Observe("fault_size_limit", 1)
		for gi := range recs {
			for i := len(recs[gi]) - 3; i < len(recs[gi]); i++ {
				c.Check(recs[gi][i].OK, "later-write", "write after the size limit was lifted: %s", recs[gi][i].Err)
			}
		}
		if ok > 0 && failed > 0 {
			c.Distinct(vh.Hash("fsize", data))
		}
	})
}

func helperFsize(a []string) {
	signal.Ignore(syscall.SIGXFSZ)
	g, _ := strconv.Atoi(a[1])
	salt, _ := strconv.ParseUint(a[2], 10, 64)
	limit, _ := strconv.ParseUint(a[3], 10, 64)
	f, err := fastio.Open(a[0])
	if err != nil {
		panic(err)
	}
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
	old := lim
	lim.Cur = limit
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	recs := make([][]rec, g)
	round := func(n int) {
		var wg sync.WaitGroup
		for gi := 0; gi < g; gi++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := vh.NewRand(salt, gi, n)
				for i := 0; i < n; i++ {
					b := block(salt, gi, len(recs[gi]), 24+rr.IntN(400))
					recs[gi] = append(recs[gi], doWrite(f, b, rr.IntN(2) == 0))
				}
			}()
		}
		wg.Wait()
	}
	round(40)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	round(3)
	json.NewEncoder(os.Stdout).Encode(recs)
}
