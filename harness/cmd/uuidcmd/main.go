// uuidcmd monitors package uuid and the ids derived from it.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/uuid"
	"verifharness/vh"
)

func main() {
	vh.Helpers["gen"] = genHelper
	vh.Main(map[string]func(*vh.Run){"I01": i01, "I02": i02, "I03": i03})
}

// generate makes g*n ids on g goroutines that start together.
func generate(g, n int) [][16]byte {
	out := make([][16]byte, g*n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < n; i++ {
				out[k*n+i] = *uuid.NewUUID()
			}
		}()
	}
	close(start)
	wg.Wait()
	return out
}

// genHelper is a separate process: the package has been initialised; wait for the word to go.
func genHelper(a []string) {
	g, _ := strconv.Atoi(a[0])
	n, _ := strconv.Atoi(a[1])
	w := bufio.NewWriter(os.Stdout)
	for _, u := range generate(g, n) {
		w.Write(u[:])
	}
	w.Flush()
}

// dup returns the first id that occurs twice; it sorts ids.
func dup(ids [][16]byte) (d *[16]byte, n int) {
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	for i := 1; i < len(ids); i++ {
		if ids[i] == ids[i-1] {
			if d == nil {
				d = &ids[i]
			}
			n++
		}
	}
	return
}

// dup64 counts equal 64-bit ids among different UUIDs.
func dup64(ids [][16]byte) (v uint64, n int) {
	s := make([]uint64, len(ids))
	for i := range ids {
		u := uuid.UUID(ids[i])
		s[i] = uint64(u.Int64())
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	for i := 1; i < len(s); i++ {
		if s[i] == s[i-1] {
			v = s[i]
			n++
		}
	}
	return
}

func judge(c *vh.Case, ids [][16]byte, what string) {
	if d, n := dup(ids); d != nil {
		c.Violate("duplicate", "%d of %d UUIDs from %s repeat, first %x", n, len(ids), what, d[:])
		return
	}
	// two equal 60-bit values among this many are expected less than once in 10^10 runs
	if v, n := dup64(ids); n > 1 {
		c.Violate("duplicate-64", "%d of %d 64-bit ids from %s repeat, for instance %x", n, len(ids), what, v)
	}
	for k := 0; k < len(ids); k += 1 + len(ids)/1000 {
		c.Distinct(binary.BigEndian.Uint64(ids[k][:8]))
	}
	c.Eval(len(ids))
	c.Observe("ids_compared", len(ids))
}

func i01(r *vh.Run) {
	r.Rule("all ids of a case, and then all ids of the run, are sorted and compared: cases generate on 1-64 goroutines released together, or in 4-24 processes started together; every id counts as one evaluation, a sample of ids as distinct")
	var mu sync.Mutex
	var all [][16]byte
	r.Cases("goroutines", r.N(60, 600), 1, func(c *vh.Case) {
		g := []int{1, 2, 3, 8, 16, 64}[c.R.IntN(6)]
		n := 12000 / g
		ids := generate(g, n)
		mu.Lock()
		if len(all) < 1<<21 {
			all = append(all, ids...)
		}
		mu.Unlock()
		judge(c, ids, fmt.Sprintf("%d goroutines", g))
		if c.I < 2 {
			c.Sample(map[string]any{"goroutines": g, "ids": len(ids), "first": hex.EncodeToString(ids[0][:])})
		}
	})
	r.Cases("all", 1, 1, func(c *vh.Case) {
		if len(all) > 0 {
			judge(c, all, "the whole run")
		}
	})
	r.Cases("helpers", r.N(20, 200), 1, func(c *vh.Case) {
		// util's 64-bit ids come from fresh UUIDs
		g, n := 8, 1000
		out := make([]int64, g*n)
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					out[k*n+i] = util.UUID64()
				}
			}()
		}
		wg.Wait()
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		d := 0
		for i := 1; i < len(out); i++ {
			if out[i] == out[i-1] {
				d++
			}
		}
		c.Check(d <= 1, "duplicate-64", "%d of %d values of util.UUID64 repeat", d, len(out))
		c.Eval(len(out))
		c.Observe("util_ids_compared", len(out))
	})
	if r.Perturb || r.Race {
		return
	}
	var every [][16]byte
	defer func() {
		r.Cases("all-processes", 1, 1, func(c *vh.Case) {
			if len(every) > 0 {
				judge(c, every, "all processes of the run")
			}
		})
	}()
	r.Cases("processes", r.N(8, 60), 1, func(c *vh.Case) {
		np := []int{4, 8, 24}[c.R.IntN(3)]
		g := 1 + c.R.IntN(4)
		n := 40000 / np / g
		outs := make([][]byte, np)
		errs := make([]error, np)
		self, _ := os.Executable()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < np; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cmd := exec.Command(self, "-helper", "gen", strconv.Itoa(g), strconv.Itoa(n))
				<-start
				outs[k], errs[k] = cmd.Output()
			}()
		}
		close(start)
		wg.Wait()
		var ids [][16]byte
		for k := range outs {
			if errs[k] != nil || len(outs[k]) != 16*g*n {
				c.Violate("process", "a process generating ids ended with %v after %d bytes", errs[k], len(outs[k]))
				return
			}
			rd := bytes.NewReader(outs[k])
			for {
				var id [16]byte
				if _, err := io.ReadFull(rd, id[:]); err != nil {
					break
				}
				ids = append(ids, id)
			}
		}
		if len(every) < 1<<21 {
			every = append(every, ids...)
		}
		judge(c, ids, fmt.Sprintf("%d processes with %d goroutines", np, g))
		c.Observe("processes", np)
		if c.I == 0 {
			c.Sample(map[string]any{"processes": np, "ids": len(ids)})
		}
	})
}

const digits = "0123456789abcdef"

// format is the canonical text of 16 bytes.
func format(b [16]byte) string {
	var s strings.Builder
	for i, x := range b {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			s.WriteByte('-')
		}
		s.WriteByte(digits[x>>4])
		s.WriteByte(digits[x&15])
	}
	return s.String()
}

// parse accepts exactly the canonical form, in either case.
func parse(s string) (b [16]byte, ok bool) {
	if len(s) != 36 {
		return b, false
	}
	n := 0
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if s[i] != '-' {
				return b, false
			}
			continue
		}
		x := s[i]
		if x >= 'A' && x <= 'F' {
			x += 32
		}
		v := strings.IndexByte(digits, x)
		if v < 0 {
			return b, false
		}
		b[n/2] |= byte(v) << (4 - 4*(n%2))
		n++
	}
	return b, true
}

func i02(r *vh.Run) {
	r.Rule("each case formats, parses, compares and inspects a generated UUID and a random one, then parses 60 mutated texts (every position with every kind of character over the run, shifted dashes, other lengths, braces, prefixes); counted by distinct texts")
	text := func(c *vh.Case, s string) {
		want, ok := parse(s)
		var got *uuid.UUID
		var err error
		if p := vh.Try(func() { got, err = uuid.Parse(s) }); p != "" {
			c.Violate("panic", "Parse(%q) panics: %s", s, p)
			return
		}
		switch {
		case ok && (err != nil || got == nil || [16]byte(*got) != want):
			c.Violate("parse", "Parse(%q) gives %v, %v, want %x", s, got, err, want)
		case !ok && err == nil:
			c.Violate("parse-accepts", "Parse accepts %q as %v", s, got)
		}
		if ok {
			c.Observe("texts_of_canonical_form", 1)
		} else {
			c.Observe("texts_to_reject", 1)
		}
		c.Distinct(vh.Hash(s))
		c.Eval(1)
	}
	r.SeqCases("values", r.N(4000, 60000), 4, func(c *vh.Case) {
		u := uuid.NewUUID()
		c.Check(u[6]>>4 == 4 && u[8]>>6 == 2, "generated", "the generated UUID %x is not version 4, variant RFC 4122", u[:])
		c.Check(u.Version() == 4 && u.Variant() == 1, "generated", "the generated UUID %x reports version %d variant %d", u[:], u.Version(), u.Variant())
		var x uuid.UUID
		for i := range x {
			x[i] = byte(c.R.Uint32())
		}
		switch c.R.IntN(6) {
		case 0:
			x = uuid.UUID{}
		case 1:
			for i := range x {
				x[i] = 0xff
			}
		case 2:
			for i := range x {
				x[i] = byte(c.R.IntN(16)) // leading zero digits
			}
		}
		for _, v := range []*uuid.UUID{u, &x} {
			before := *v
			s := v.String()
			c.Check(s == format([16]byte(before)), "format", "String of %x is %q, want %q", before[:], s, format([16]byte(before)))
			c.Check(bytes.Equal(v.Bytes(), before[:]), "bytes", "Bytes of %x is %x", before[:], v.Bytes())
			c.Check(v.Version() == int(before[6]>>4), "version", "Version of %x is %d", before[:], v.Version())
			want := map[byte]byte{0: 0, 1: 0, 2: 0, 3: 0, 4: 1, 5: 1, 6: 2}
			if w, ok := want[before[8]>>5]; ok {
				c.Check(v.Variant() == w, "variant", "Variant of %x is %d, want %d", before[:], v.Variant(), w)
			} else { // reserved by the RFC
				c.Check(v.Variant() != 1 && v.Variant() != 2, "variant", "Variant of %x is %d", before[:], v.Variant())
			}
			p, err := uuid.Parse(s)
			c.Check(err == nil && p != nil && *p == before && p.Equals(v) && v.Equals(p), "roundtrip", "Parse(%q) gives %v, %v", s, p, err)
			cp := before
			c.Check(v.Equals(v) && v.Equals(&cp), "equals", "%x does not equal itself", before[:])
			cp[c.R.IntN(16)] ^= 1 << c.R.IntN(8)
			c.Check(!v.Equals(&cp) && !cp.Equals(v), "equals", "%x equals %x", before[:], cp[:])
			c.Check(!v.Equals(nil), "equals", "%x equals nil", before[:])
			c.Check(*v == before, "changed", "an accessor changed %x to %x", before[:], v[:])
			text(c, strings.ToUpper(s))
			mix := []byte(s)
			for i := range mix {
				if c.R.IntN(2) == 0 {
					mix[i] = strings.ToUpper(s)[i]
				}
			}
			text(c, string(mix))
		}
		s := x.String()
		for k := 0; k < 60; k++ {
			b := []byte(s)
			switch c.R.IntN(11) {
			case 10: // a run of one character, often at an end
				n := 1 + c.R.IntN(8)
				at := []int{0, 36 - n, c.R.IntN(36 - n)}[c.R.IntN(3)]
				copy(b[at:], bytes.Repeat([]byte{"{}() \x00\n0-\"'g"[c.R.IntN(12)]}, n))
			case 0, 1, 2:
				b[c.R.IntN(36)] = byte(c.R.Uint32())
			case 3:
				b[[]int{8, 13, 18, 23}[c.R.IntN(4)]] = "_ :0a/.\x00"[c.R.IntN(8)]
			case 4:
				b[c.R.IntN(36)] = "gG-+ xX`@/:"[c.R.IntN(11)]
			case 5: // a dash moved
				i, j := c.R.IntN(36), []int{8, 13, 18, 23}[c.R.IntN(4)]
				b[i], b[j] = b[j], b[i]
			case 6:
				b = b[:c.R.IntN(36)]
			case 7:
				n := 1 + c.R.IntN(5)
				b = append(b, bytes.Repeat([]byte{"0- \n"[c.R.IntN(4)]}, n)...)
			case 8:
				b = []byte([]string{"{" + s + "}", "urn:uuid:" + s, strings.ReplaceAll(s, "-", ""), " " + s[:35], s[1:] + "\x00", strings.ReplaceAll(s, "-", "") + "----", "----" + strings.ReplaceAll(s, "-", ""), s[:34] + "é", strings.ReplaceAll(s, "-", "0")}[c.R.IntN(9)])
			case 9:
				b = make([]byte, 36)
				for i := range b {
					b[i] = "0123456789abcdefABCDEF-"[c.R.IntN(23)]
				}
			}
			text(c, string(b))
		}
		if c.I == 0 {
			c.Sample(map[string]any{"uuid": u.String(), "random": s})
		}
	})
}
