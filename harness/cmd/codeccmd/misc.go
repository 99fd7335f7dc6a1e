package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/buffer"
	"github.com/donnie4w/gofer/util"
	"verifharness/vh"
)

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func refEncode(v uint64) string {
	n, m, b := new(big.Int).SetUint64(v), new(big.Int), big.NewInt(58)
	s := ""
	for n.Sign() > 0 {
		n.DivMod(n, b, m)
		s = string(alphabet[m.Int64()]) + s
	}
	return s
}

// refDecode reports whether s is a digit string whose value fits 64 bits.
func refDecode(s []byte) (uint64, bool) {
	n, b := new(big.Int), big.NewInt(58)
	for _, x := range s {
		i := strings.IndexByte(alphabet, x)
		if i < 0 {
			return 0, false
		}
		n.Mul(n, b).Add(n, big.NewInt(int64(i)))
	}
	return n.Uint64(), n.IsUint64()
}

func u06(r *vh.Run) {
	r.Rule("each case encodes and decodes 200 values (powers of 58 and 2 and their neighbours, random widths) and decodes 200 digit strings (near the 64-bit limit, with foreign characters, leading zero digits), compared with big-integer arithmetic; counted by distinct values and strings")
	r.SeqCases("values", r.N(500, 12000), 4, func(c *vh.Case) {
		var vs []uint64
		for k := 0; k < 200; k++ {
			v := c.R.Uint64() >> c.R.IntN(64)
			switch c.R.IntN(5) {
			case 0:
				p := uint64(1)
				for j := c.R.IntN(11); j > 0; j-- {
					p *= 58
				}
				v = p*uint64(1+c.R.IntN(57)) + uint64(c.R.IntN(3)) - 1
			case 1:
				v = 1<<c.R.IntN(64) + uint64(c.R.IntN(3)) - 1
			case 2:
				v = []uint64{0, 1, 57, 58, math.MaxUint64, math.MaxUint64 - 1, math.MaxInt64, 1 << 63}[c.R.IntN(8)]
			}
			vs = append(vs, v)
			want := refEncode(v)
			e := base58.EncodeForInt64(v)
			c.Check(string(e) == want, "encode", "encoding of %d is %q, want %q", v, e, want)
			c.Check(v == 0 && len(e) == 0 || len(e) > 0 && e[0] != '1', "leading-zero", "encoding of %d is %q", v, e)
			g, same := guarded(e)
			back, ok := base58.DecodeForInt64(g)
			c.Check(ok && back == v, "roundtrip", "%d encodes to %q, which decodes to %d, %v", v, e, back, ok)
			c.Check(same(), "input-modified", "decoding modified its input")
			c.Distinct(v)
		}
		for i := 1; i < len(vs); i++ {
			a, b := vs[i-1], vs[i]
			if a > b {
				a, b = b, a
			}
			c.Check(len(base58.EncodeForInt64(a)) <= len(base58.EncodeForInt64(b)), "length-order", "%d has a longer encoding than %d", a, b)
		}
		c.Eval(200)
		c.Observe("values", 200)
	})
	r.SeqCases("strings", r.N(500, 12000), 4, func(c *vh.Case) {
		for k := 0; k < 200; k++ {
			n := c.R.IntN(14)
			if c.R.IntN(3) == 0 {
				n = 11 // just around 2^64
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = alphabet[c.R.IntN(58)]
			}
			what := c.R.IntN(8)
			switch {
			case what == 0 && n > 0:
				b[c.R.IntN(n)] = byte(c.R.Uint32())
			case what == 1 && n > 0:
				b[c.R.IntN(n)] = "0OIl+/ \x00\xff-"[c.R.IntN(10)]
			case what == 2:
				// the limit and its neighbours
				lim := new(big.Int).Lsh(big.NewInt(1), 64)
				lim.Add(lim, big.NewInt(int64(c.R.IntN(200)-100)))
				s, m := "", new(big.Int)
				for lim.Sign() > 0 {
					lim.DivMod(lim, big.NewInt(58), m)
					s = string(alphabet[m.Int64()]) + s
				}
				b = []byte(s)
			case what == 3:
				b = append(bytes.Repeat([]byte{'1'}, c.R.IntN(20)), b...)
			case what == 4: // wraps to something small if carries are lost
				b = append([]byte(refEncode(math.MaxUint64-uint64(c.R.IntN(100)))), b[:min(n, 3)]...)
			}
			want, ok := refDecode(b)
			got, gok := base58.DecodeForInt64(b)
			c.Check(gok == ok && (!ok || got == want), "decode", "decoding %q gives %d, %v, want %d, %v", b, got, gok, want, ok)
			if ok {
				c.Observe("strings_that_fit", 1)
			} else {
				c.Observe("strings_to_reject", 1)
			}
			c.Distinct(vh.Hash("str", b))
		}
		c.Eval(200)
		if c.I == 0 {
			c.Sample(map[string]any{"encoding_of_max": string(base58.EncodeForInt64(math.MaxUint64))})
		}
	})
}

type errType struct{ n int }

func (e errType) Error() string { return fmt.Sprintf("errType %d", e.n) }

func u07(r *vh.Run) {
	r.Rule("files of generated sizes including zero and page multiples, missing files and directories; all bounds 1-40 until every value was seen, powers of two and random bounds; generated string lists; panics of many kinds turned into errors; concurrent use; counted by distinct inputs")
	root, err := os.MkdirTemp(r.Tmp, "u07")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	r.Cases("files", r.N(400, 6000), 4, func(c *vh.Case) {
		d := filepath.Join(root, fmt.Sprint(c.I))
		if err := os.Mkdir(d, 0o755); err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		p := filepath.Join(d, []string{"f", "a b", "日本", strings.Repeat("x", 200)}[c.R.IntN(4)])
		c.Check(!util.IsFileExist(p), "exist", "IsFileExist of a missing file")
		if b, err := util.ReadFile(p); err == nil {
			c.Violate("missing-file", "ReadFile of a missing file returns %s without error", brief(b))
		}
		in := data(c.R, size(c.R, c.I%10 == 0))
		if c.R.IntN(3) == 0 { // text with what text tools like to trim or translate
			in = append([]byte([]string{"\xef\xbb\xbf", "\xff\xfe", " ", "\n", "#!", ""}[c.R.IntN(6)]), in...)
			in = append(in, []string{"\n", "\r\n", "\x00", " ", "\x1a", "\n\n"}[c.R.IntN(6)]...)
		}
		if err := os.WriteFile(p, in, 0o644); err != nil {
			panic(err)
		}
		c.Check(util.IsFileExist(p) && util.IsFileExist(d) && util.IsFileExist(d+"/"), "exist", "IsFileExist of an existing file or directory is false")
		c.Check(!util.IsFileExist("") && !util.IsFileExist(p+"/x") && !util.IsFileExist(p+"\x00") && !util.IsFileExist(strings.Repeat("y", 5000)), "exist", "IsFileExist of an impossible path is true")
		b, err := util.ReadFile(p)
		c.Check(err == nil && bytes.Equal(b, in), "content", "ReadFile of a file with %s: %s, %v", brief(in), brief(b), err)
		// the bytes are the caller's: they may be changed and outlive the file
		if err := os.WriteFile(p, []byte("other"), 0o644); err != nil {
			panic(err)
		}
		c.Check(bytes.Equal(b, in), "content", "the result of ReadFile changed with the file")
		for i := range b {
			b[i]++
		}
		b2, err := util.ReadFile(p)
		c.Check(err == nil && string(b2) == "other", "content", "ReadFile after a rewrite: %s, %v", brief(b2), err)
		os.Remove(p)
		c.Check(!util.IsFileExist(p), "exist", "IsFileExist of a removed file")
		if b, err := util.ReadFile(d); err == nil {
			c.Violate("missing-file", "ReadFile of a directory returns %s without error", brief(b))
		}
		c.Eval(1)
		c.Observe("files_read", 2)
		c.Distinct(vh.Hash(in))
		if c.I == 0 {
			c.Sample(map[string]any{"file_bytes": len(in)})
		}
	})
	r.SeqCases("large-files", r.N(3, 24), 3, func(c *vh.Case) {
		p := filepath.Join(root, fmt.Sprint("large", c.I))
		defer os.Remove(p)
		n := []int{1<<24 + 5, 40<<20 + 1, 1<<26 + 4096}[c.I%3] + c.R.IntN(5000)
		in := make([]byte, n)
		for k := 0; k < 200; k++ { // the file has holes
			copy(in[c.R.IntN(n-100):], data(c.R, 90))
		}
		in[n-1] = 'e'
		if err := os.WriteFile(p, in, 0o644); err != nil {
			panic(err)
		}
		b, err := util.ReadFile(p)
		c.Check(err == nil && bytes.Equal(b, in), "content", "ReadFile of a file of %d bytes: %d bytes, %v", n, len(b), err)
		c.Eval(1)
		c.Max("largest_file", n)
		c.Distinct(vh.Hash(c.Name(), n))
	})
	r.Case("kinds-of-paths", 0, func(c *vh.Case) {
		d := filepath.Join(root, "kinds")
		if err := os.Mkdir(d, 0o755); err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		at := func(s string) string { return filepath.Join(d, s) }
		os.WriteFile(at("empty"), nil, 0)
		os.Symlink("empty", at("link"))
		os.Symlink(d, at("dirlink"))
		os.Symlink("gone", at("dangling"))
		os.Symlink("loop", at("loop"))
		syscall.Mkfifo(at("fifo"), 0o600)
		l, err := net.Listen("unix", at("sock"))
		if err == nil {
			defer l.Close()
		}
		os.Mkdir(at("closed"), 0)
		for _, s := range []string{"empty", "link", "dirlink", "dirlink/empty", "fifo", "sock", "closed", ".", "closed/..", "./empty"} {
			if s == "sock" && err != nil {
				continue
			}
			c.Check(util.IsFileExist(d+"/"+s), "exist", "IsFileExist of an existing %s is false", s)
			c.Eval(1)
		}
		for _, s := range []string{"Empty", "empty ", "link2", "dirlink/none", "empty/", "empty/.", "fifo/x", "*", "e*", "%65mpty", "none/../empty", "dangling", "dangling/", "loop"} {
			c.Check(!util.IsFileExist(d+"/"+s), "exist", "IsFileExist of %q, which does not exist, is true", s)
			c.Eval(1)
		}
		b, err := util.ReadFile(at("link"))
		c.Check(err == nil && len(b) == 0, "content", "ReadFile of a link to an empty file: %d bytes, %v", len(b), err)
	})
	r.Cases("bounds", r.N(60, 600), 4, func(c *vh.Case) {
		n := 1 + c.I%40
		// each value of n is missed by all of 60n tries with probability below e^-60
		seenU, seenI := map[uint]bool{}, map[int64]bool{}
		for k := 0; k < 60*n; k++ {
			u := util.RandUint(uint(n))
			i, err := util.RandInt64Strict(int64(n))
			if !c.Check(u < uint(n) && err == nil && i >= 0 && i < int64(n), "range", "bound %d: RandUint %d, RandInt64Strict %d, %v", n, u, i, err) {
				return
			}
			seenU[u], seenI[i] = true, true
			if k > 0 && k%n == 0 && len(seenU) == n && len(seenI) == n {
				break
			}
		}
		c.Check(len(seenU) == n && len(seenI) == n, "reach", "bound %d: RandUint reached %d values, RandInt64Strict %d in %d tries", n, len(seenU), len(seenI), 60*n)
		c.Eval(n)
		c.Observe("small_bounds_covered", 1)
		// wide bounds
		var big []uint64
		for k := 0; k < 100; k++ {
			m := int64(1)<<c.R.IntN(63) + int64(c.R.IntN(3))
			if k%3 == 0 {
				m = int64(c.R.Uint64() >> (1 + c.R.IntN(62)))
			}
			if k%10 == 9 {
				m = math.MaxInt64
			}
			if m < 1 {
				m = 1
			}
			u := util.RandUint(uint(m))
			i, err := util.RandInt64Strict(m)
			c.Check(u < uint(m) && err == nil && i >= 0 && i < m, "range", "bound %d: RandUint %d, RandInt64Strict %d, %v", m, u, i, err)
			if m == math.MaxInt64 {
				big = append(big, uint64(u), uint64(i))
			}
			c.Distinct(vh.Hash("bound", m))
		}
		seen := map[uint64]bool{}
		for _, v := range big {
			c.Check(!seen[v], "constant", "the value %d of a 63-bit range repeats within %d draws", v, len(big))
			seen[v] = true
		}
		c.Eval(100)
	})
	r.Cases("strings", r.N(1000, 12000), 4, func(c *vh.Case) {
		var ss []string
		var want []byte
		for k := c.R.IntN([]int{12, 12, 12, 12, 12, 12, 12, 12, 12, 2000}[c.I%10]); k > 0; k-- {
			s := text(c.R, 20)
			if c.R.IntN(10) == 0 {
				s = string(data(c.R, c.R.IntN(5000)))
			}
			ss = append(ss, s)
			want = append(want, s...)
		}
		got := util.Concat(ss...)
		c.Check(got == string(want), "concat", "Concat of %d strings: %s, want %s", len(ss), brief([]byte(got)), brief(want))
		c.Eval(1)
		c.Distinct(vh.Hash("concat", len(ss), want))
	})
	r.Cases("recover", r.N(400, 4000), 4, func(c *vh.Case) {
		run := func(f func()) (err error) {
			defer util.Recover(&err)
			f()
			return
		}
		txt := text(c.R, 10) + "!"
		var nilMap map[string]int
		var nilPtr *errType
		boom := errors.New(txt)
		panics := []func(){func() { panic(txt) }, func() { panic(c.I) }, func() { panic(boom) }, func() { panic(errType{c.I}) }, func() { panic([]int{1}) }, func() { panic(struct{}{}) },
			func() { nilMap["x"] = 1 }, func() { _ = nilPtr.n }, func() { _ = make([]byte, 3)[3+c.R.IntN(1+c.I)] }, func() { _ = 1 / (len(txt) - len(txt)) }, func() { panic(nil) }, func() { panic("") }, func() { panic(error(nil)) }, func() { panic(func() {}) }}
		k := c.I % len(panics)
		var err error
		if p := vh.Try(func() { err = run(panics[k]) }); p != "" {
			c.Violate("panic-escapes", "a panic of kind %d is not caught: %s", k, p)
		}
		c.Check(err != nil, "panic-lost", "a panic of kind %d leaves a nil error", k)
		if k == 0 || k == 2 {
			c.Check(err != nil && strings.Contains(err.Error(), txt), "panic-text", "panic %q becomes error %v", txt, err)
		}
		c.Check(run(func() {}) == nil, "recover", "no panic leaves an error")
		keep := func() (err error) {
			defer util.Recover(&err)
			return boom
		}()
		c.Check(keep == boom, "recover", "an error returned without a panic becomes %v", keep)
		if p := vh.Try(func() { func() { defer util.Recover(nil); panic(txt) }() }); p != "" {
			c.Violate("panic-escapes", "Recover(nil) lets a panic escape: %s", p)
		}
		c.Eval(1)
		c.Observe("panics_recovered", 2)
		c.Distinct(vh.Hash("recover", k, txt))
	})
	r.Cases("concurrent", r.N(100, 1000), 1, func(c *vh.Case) {
		p := filepath.Join(root, fmt.Sprintf("shared%d", c.I))
		in := data(c.R, 1+c.R.IntN(9000))
		if err := os.WriteFile(p, in, 0o644); err != nil {
			panic(err)
		}
		defer os.Remove(p)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 10; k++ {
					b, err := util.ReadFile(p)
					c.Check(err == nil && bytes.Equal(b, in), "content", "concurrent ReadFile: %s, %v", brief(b), err)
					u := util.RandUint(10)
					i, _ := util.RandInt64Strict(10)
					c.Check(u < 10 && i >= 0 && i < 10, "range", "concurrent RandUint %d, RandInt64Strict %d", u, i)
					c.Check(util.Concat("a", "b", "c") == "abc", "concat", "concurrent Concat")
				}
			}()
		}
		wg.Wait()
		c.Eval(8)
	})
}

// ---- B01

func b01(r *vh.Run) {
	r.Rule("each case drives a Buffer made by one of the constructors and a reference byte stream in lock-step through 20-120 writes, reads, copies and resets and compares every result; non-trivial when data was written and read back; counted by distinct sequences")
	r.SeqCases("model", r.N(6000, 120000), 4, func(c *vh.Case) {
		var b *buffer.Buffer
		var m []byte
		kind := c.R.IntN(5)
		switch kind {
		case 0:
			b = buffer.NewBuffer()
		case 1:
			b = buffer.NewBufferWithCapacity(c.R.IntN(200))
		case 2:
			b = buffer.NewBufferByPool()
		case 3:
			s := data(c.R, c.R.IntN(50))
			m = append(m, s...)
			b = buffer.NewBufferBySlice(s)
		case 4:
			b = new(buffer.Buffer)
		}
		var log []string
		fail := func(sig, f string, a ...any) {
			c.Violate(sig, "constructor %d, after %v: %s", kind, log[max(0, len(log)-20):], fmt.Sprintf(f, a...))
		}
		same := func() bool {
			if b.Len() != len(m) || !bytes.Equal(b.Bytes(), m) || b.String() != string(m) {
				fail("content", "Len %d, Bytes %s, String %s; want %s", b.Len(), brief(b.Bytes()), brief([]byte(b.String())), brief(m))
				return false
			}
			return true
		}
		if !same() {
			return
		}
		wrote, read := 0, 0
		type str struct{ got, want string }
		var taken []str
		k := 20 + c.R.IntN(100)
		big := c.I%60 == 7
		if big {
			k = 20
		}
		for ; k > 0 && !c.Failed(); k-- {
			n := []int{0, 1, 2, 3, 7, 64, 300}[c.R.IntN(7)]
			if big && c.R.IntN(3) == 0 {
				n = c.R.IntN(1 << (10 + c.R.IntN(12)))
			}
			switch op := c.R.IntN(12); op {
			case 0, 1:
				p := data(c.R, n)
				g, unchanged := guarded(p)
				log = append(log, fmt.Sprintf("Write(%d)", n))
				if w, err := b.Write(g); w != n || err != nil {
					fail("count", "Write of %d bytes reports %d, %v", n, w, err)
				}
				if !unchanged() {
					fail("input-modified", "Write modified its argument")
				}
				m = append(m, p...)
				wrote += n
				for i := range g { // the buffer keeps its own copy
					g[i]++
				}
			case 2:
				s := text(c.R, n)
				log = append(log, fmt.Sprintf("WriteString(%d)", len(s)))
				if w, err := b.WriteString(s); w != len(s) || err != nil {
					fail("count", "WriteString of %d bytes reports %d, %v", len(s), w, err)
				}
				m = append(m, s...)
				wrote += len(s)
			case 3:
				x := byte(c.R.Uint32())
				log = append(log, "WriteByte")
				if err := b.WriteByte(x); err != nil {
					fail("count", "WriteByte: %v", err)
				}
				m = append(m, x)
			case 4:
				v := int32(i64(c.R))
				log = append(log, fmt.Sprintf("WriteInt32(%d)", v))
				if w, err := b.WriteInt32(int(v)); w != 4 || err != nil {
					fail("count", "WriteInt32 reports %d, %v", w, err)
				}
				m = append(m, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
				wrote += 4
			case 5, 6, 7:
				p := make([]byte, n, n+8)
				for i := range p[:n+8] {
					p[:n+8][i] = 0xEE
				}
				log = append(log, fmt.Sprintf("Read(%d)", n))
				got, err := b.Read(p)
				want := min(n, len(m))
				switch {
				case n > 0 && len(m) == 0:
					if got != 0 || err != io.EOF {
						fail("eof", "Read from an empty buffer returns %d, %v", got, err)
					}
				case n == 0 && len(m) == 0:
					if got != 0 || err != nil && err != io.EOF {
						fail("eof", "empty Read from an empty buffer returns %d, %v", got, err)
					}
				case err != nil || got < 1 && n > 0 || got > want:
					fail("read", "Read into %d bytes with %d present returns %d, %v", n, len(m), got, err)
				}
				if got < 0 || got > want {
					return
				}
				if !bytes.Equal(p[:got], m[:got]) {
					fail("read", "Read returns %s, want %s", brief(p[:got]), brief(m[:got]))
				}
				for _, x := range p[n : n+8] {
					if x != 0xEE {
						fail("read", "Read wrote beyond its argument")
					}
				}
				m = m[got:]
				read += got
			case 8:
				if c.R.IntN(3) > 0 {
					continue
				}
				log = append(log, "Reset")
				b.Reset()
				m = nil
			case 9:
				log = append(log, "io.ReadAll")
				// a reader that never ends would keep io.ReadAll going: bound it
				lim := &io.LimitedReader{R: b, N: int64(len(m)) + 5000}
				all, err := io.ReadAll(lim)
				if err != nil || !bytes.Equal(all, m) {
					fail("copy", "reading to the end gives %s, %v, want %s", brief(all), err, brief(m))
				}
				read += len(all)
				m = nil
			case 10:
				log = append(log, "io.Copy to another buffer")
				o := buffer.NewBuffer()
				o.WriteString("x")
				lim := &io.LimitedReader{R: b, N: int64(len(m)) + 5000}
				nn, err := io.Copy(o, lim)
				if err != nil || int(nn) != len(m) || o.String() != "x"+string(m) {
					fail("copy", "io.Copy reports %d, %v and copies %s, want %s", nn, err, brief(o.Bytes()), brief(m))
				}
				read += int(nn)
				m = nil
			case 11:
				log = append(log, "fmt.Fprintf")
				fmt.Fprintf(b, "%d-%s", c.I, "v")
				m = append(m, fmt.Sprintf("%d-%s", c.I, "v")...)
			}
			if !same() {
				return
			}
			if c.R.IntN(4) == 0 {
				taken = append(taken, str{b.String(), string(m)})
			}
		}
		if kind == 2 {
			b.Free()
			o := buffer.NewBufferByPool()
			o.Write(bytes.Repeat([]byte{0xAA}, 100))
			o.Free()
		}
		for i, s := range taken {
			if s.got != s.want {
				fail("string-changed", "string %d taken from the buffer was %s and is now %s", i, brief([]byte(s.want)), brief([]byte(s.got)))
				break
			}
		}
		c.Observe("strings_held", len(taken))
		c.Eval(1)
		c.Observe("operations", len(log))
		c.Observe("bytes_written", wrote)
		c.Observe("bytes_read", read)
		if wrote > 0 && read > 0 {
			c.Distinct(vh.Hash("seq", kind, fmt.Sprint(log)))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"constructor": kind, "operations": log[:min(12, len(log))]})
		}
	})
	r.SeqCases("two", r.N(600, 8000), 1, func(c *vh.Case) {
		// pooled buffers in use at the same time are different streams and start empty
		var bs []*buffer.Buffer
		var ms [][]byte
		for k := 0; k < 40; k++ {
			switch {
			case len(bs) == 0 || c.R.IntN(3) == 0:
				b := buffer.NewBufferByPool()
				c.Check(b.Len() == 0 && b.String() == "", "pool", "a buffer from the pool starts with %s", brief(b.Bytes()))
				bs, ms = append(bs, b), append(ms, nil)
			case c.R.IntN(3) == 0:
				i := c.R.IntN(len(bs))
				bs[i].Free()
				bs, ms = append(bs[:i], bs[i+1:]...), append(ms[:i], ms[i+1:]...)
			default:
				i := c.R.IntN(len(bs))
				p := data(c.R, 1+c.R.IntN(40))
				bs[i].Write(p)
				ms[i] = append(ms[i], p...)
				q := make([]byte, c.R.IntN(30))
				n, _ := bs[i].Read(q)
				c.Check(n <= len(ms[i]) && bytes.Equal(q[:n], ms[i][:n]), "pool", "Read from a pooled buffer")
				ms[i] = ms[i][n:]
			}
			for i := range bs {
				if !c.Check(bytes.Equal(bs[i].Bytes(), ms[i]), "pool", "pooled buffer %d of %d holds %s, want %s", i, len(bs), brief(bs[i].Bytes()), brief(ms[i])) {
					return
				}
			}
		}
		c.Eval(1)
		c.Observe("pooled_sequences", 1)
		c.Distinct(vh.Hash("pool", c.I))
	})
	r.SeqCases("nil", 1, 1, func(c *vh.Case) {
		var b *buffer.Buffer
		if _, err := b.Write([]byte("x")); err == nil {
			c.Violate("nil", "Write to a nil buffer reports success")
		}
		if _, err := b.Read(make([]byte, 1)); err != io.EOF {
			c.Violate("nil", "Read from a nil buffer: %v", err)
		}
		c.Eval(1)
	})
}
