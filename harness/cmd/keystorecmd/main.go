// keystorecmd monitors keystore.
package main

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/util"
	"verifharness/vh"
)

func main() {
	vh.Helpers["ks"] = ksHelper
	vh.Main(map[string]func(*vh.Run){"K01": k01, "K02": k02, "K03": k03, "K04": k04, "K05": k05})
}

func spin(n int) {
	for i := 0; i < n; i++ {
		vh.Yield()
	}
}

func scratch(c *vh.Case) string {
	d, err := os.MkdirTemp(c.Tmp, "k")
	if err != nil {
		panic(err)
	}
	return d
}

// content makes n bytes of one of several textures.
func content(salt uint64, kind, n int) []byte {
	b := make([]byte, n)
	x := vh.Hash(salt, kind) | 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		switch kind % 4 {
		case 0: // incompressible
			b[i] = byte(x >> 24)
		case 1: // text
			b[i] = "the quick brown fox "[(x>>20)%20]
		case 2: // runs
			b[i] = byte(i / 97)
		}
	}
	return b
}

type store interface {
	Write([]byte) error
	Read() ([]byte, error)
}

func open(c *vh.Case, dir, name string, create bool) store {
	var s store
	var err error
	if create {
		s, err = keystore.NewKeyStore(dir, name)
	} else {
		s, err = keystore.LoadKeyStore(dir, name)
	}
	if err != nil {
		panic(err)
	}
	return s
}

func k01(r *vh.Run) {
	r.Rule("sequential cases write contents of 0 bytes to 300 KB of different textures (also zlib streams) and read them back before and after reopening, through older and newer objects of the same store; concurrent cases record histories of 2-5 clients (on one object or each on its own) reading and writing unique self-describing contents and check them as an atomic register; non-trivial when operations overlapped or contents differed")
	r.SeqCases("roundtrip", r.N(1500, 20000), 4, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		dir := filepath.Join(d, "a", "b")
		s := open(c, dir, "store", true)
		handles := []store{s}
		if b, err := s.Read(); err == nil {
			c.Violate("never-written", "Read of a store never written returned %d bytes and no error", len(b))
		}
		if c.R.IntN(2) == 0 {
			s = open(c, dir, "store", false)
			if b, err := s.Read(); err == nil {
				c.Violate("never-written", "Read of a reopened store never written returned %d bytes and no error", len(b))
			}
		}
		handles = append(handles, s)
		for i := 0; i < 5; i++ {
			n := 1 + c.R.IntN(300)
			switch c.R.IntN(6) {
			case 0:
				n = c.R.IntN(4)
			case 1:
				n = []int{512, 1023, 1024, 1025, 4096, 32768, 65535, 65536}[c.R.IntN(8)]
			case 2:
				n = 1 + c.R.IntN(300000)
			}
			b := content(c.R.Uint64(), c.R.IntN(4), n)
			if c.R.IntN(8) == 0 {
				// content that is a zlib stream itself
				if z, err := util.Zlib(b); err == nil && len(z) > 0 {
					b = z
				}
			}
			orig := append([]byte(nil), b...)
			if err := s.Write(b); err != nil {
				c.Violate("write-error", "Write of %d bytes: %v", len(b), err)
				return
			}
			if !bytes.Equal(b, orig) {
				c.Violate("input-modified", "Write modified its argument")
			}
			for j := range b {
				b[j] = 0xEE
			}
			check := func(s store, what string) {
				got, err := s.Read()
				if err != nil || !bytes.Equal(got, orig) {
					c.Violate("roundtrip", "Read %s: wrote %d bytes, got %d, equal %v, error %v", what, len(orig), len(got), bytes.Equal(got, orig), err)
				}
				for j := range got {
					got[j] = 0xDD
				}
			}
			check(s, "after Write")
			if c.R.IntN(3) == 0 {
				o := open(c, dir, "store", c.R.IntN(2) == 0)
				check(o, "after reopening")
				handles = append(handles, o)
				s = handles[c.R.IntN(len(handles))]
				check(s, "through another object opened earlier or later")
			} else if c.R.IntN(2) == 0 {
				check(s, "a second time")
			}
			c.Observe("contents_checked", 1)
			c.Distinct(vh.Hash(orig))
		}
		if fs, _ := os.ReadDir(dir); len(fs) != 1 {
			c.Observe("extra_files_seen", 1)
		}
		c.Eval(1)
		if c.I < 2 {
			c.Sample(map[string]any{"writes": 5})
		}
	})
	r.SeqCases("big", r.N(5, 40), 1, func(c *vh.Case) { // contents of many megabytes, compressible or not
		d := scratch(c)
		defer os.RemoveAll(d)
		n := []int{1<<20 + 1, 4<<20 + 3, 9 << 20, 17<<20 + 5, 40 << 20}[c.I%5]
		for kind := 0; kind < 2; kind++ {
			s := open(c, d, "store", true)
			b := make([]byte, n)
			if kind == 0 {
				rr := vh.NewRand(c.R.Uint64())
				for i := 0; i+8 <= n; i += 8 {
					binary.LittleEndian.PutUint64(b[i:], rr.Uint64())
				}
			} else {
				for i := range b {
					b[i] = byte(i / 4096)
				}
			}
			if err := s.Write(b); err != nil {
				c.Violate("write-error", "Write of %d bytes: %v", n, err)
				return
			}
			for _, o := range []store{s, open(c, d, "store", false)} {
				if got, err := o.Read(); err != nil || !bytes.Equal(got, b) {
					c.Violate("roundtrip", "wrote %d bytes, read %d, error %v", n, len(got), err)
					return
				}
			}
			short := []byte("short")
			if err := s.Write(short); err != nil {
				c.Violate("write-error", "Write of 5 bytes after %d: %v", n, err)
				return
			}
			if got, err := s.Read(); err != nil || !bytes.Equal(got, short) {
				c.Violate("roundtrip", "wrote 5 bytes after %d, read %d, error %v", n, len(got), err)
			}
		}
		c.Eval(1)
		c.Max("largest_content", n)
	})
	r.SeqCases("alike", r.N(60, 600), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		s := open(c, d, "store", true)
		// contents that agree in length and in a checksum, in a prefix or a suffix, or once compressed in length
		a := content(c.R.Uint64(), c.R.IntN(4), 128+c.R.IntN(4000))
		b := append([]byte(nil), a...)
		how := ""
		switch c.I % 6 {
		case 0, 1:
			// the same CRC-32, respectively Adler-32
			if how = "CRC-32"; c.I%6 == 0 {
				at := c.R.IntN(len(b) - 8)
				b = sameCRC(c, b, at)
			} else {
				how = "Adler-32"
				at := c.R.IntN(len(b) - 3)
				a[at], a[at+1], a[at+2] = 10, 20, 30
				copy(b, a)
				b[at], b[at+1], b[at+2] = 11, 18, 31
			}
		case 2:
			how = "last byte"
			b[len(b)-1] ^= 1
		case 3:
			how = "first byte"
			b[0] ^= 0x80
		case 4:
			how = "MD5"
			x, y := md5Pair()
			a, b = x, y
		case 5:
			how = "one byte less"
			b = b[:len(b)-1]
		}
		if bytes.Equal(a, b) {
			c.Violate("harness", "contents do not differ (%s)", how)
		}
		for i := 0; i < 4; i++ {
			w := [][]byte{a, b}[i%2]
			if err := s.Write(w); err != nil {
				c.Violate("write-error", "Write: %v", err)
				return
			}
			if got, err := s.Read(); err != nil || !bytes.Equal(got, w) {
				c.Violate("roundtrip", "wrote %d bytes over content that is alike (%s), got %d, equal %v, error %v", len(w), how, len(got), bytes.Equal(got, w), err)
			}
		}
		c.Eval(4)
		c.Observe("alike_contents_checked", 4)
		c.Distinct(vh.Hash(a, b))
	})
	type in struct {
		w bool
		v int
	}
	model := porcupine.Model{
		Init: func() interface{} { return 0 },
		Step: func(st, i, o interface{}) (bool, interface{}) {
			x := i.(in)
			if x.w {
				return true, x.v
			}
			return o.(int) == st.(int), st
		},
		DescribeOperation: func(i, o interface{}) string { return fmt.Sprint(i, o) },
	}
	r.Cases("register", r.N(900, 12000), 4, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		s := open(c, d, "store", true)
		g := 2 + c.R.IntN(4)
		per := 5
		ss := make([]store, g)
		own := c.R.IntN(3) == 0 // each client has its own object of the one store
		for i := range ss {
			if ss[i] = s; own && i > 0 {
				ss[i] = open(c, d, "store", false)
			}
		}
		salt := c.R.Uint64()
		seeds := make([]uint64, g)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		mk := func(v int) []byte {
			n := 20 + int(vh.Hash(salt, v)%3000)
			if v%5 == 0 {
				n *= 8
			}
			return append([]byte(fmt.Sprintf("%06d:", v)), content(salt+uint64(v), v, n)...)
		}
		rec := vh.NewRec(g)
		c.Par(g, func(gi int) {
			s, rr := ss[gi], vh.NewRand(seeds[gi])
			for i := 0; i < per; i++ {
				if rr.IntN(2) == 0 {
					v := gi*100 + i + 1
					b := mk(v)
					rec.Do(gi, in{true, v}, func() any {
						if err := s.Write(b); err != nil {
							c.Violate("write-error", "Write: %v", err)
						}
						return 0
					})
				} else {
					rec.Do(gi, in{false, 0}, func() any {
						b, err := s.Read()
						if err != nil {
							return 0
						}
						var v int
						fmt.Sscanf(string(b[:min(6, len(b))]), "%d", &v)
						if !bytes.Equal(b, mk(v)) {
							c.Violate("mixed-content", "Read returned %d bytes that nobody wrote as a whole (marked %d)", len(b), v)
						}
						return v
					})
				}
			}
		})
		c.Linear(model, rec.Ops(), "not-an-atomic-register")
		if c.I < 1 {
			c.Sample(map[string]any{"clients": g, "history": vh.Describe(rec.Ops())})
		}
	})
}

func md5hex(s string) string {
	h := md5.Sum([]byte(s))
	return strings.ToUpper(hex.EncodeToString(h[:]))
}

type admin interface {
	Load()
	PutAdmin(name, pwd string, t int8)
	DelAdmin(name string)
	GetAdmin(name string) (*keystore.UserBean, bool)
	AdminList() []string
	PutClient(name, pwd string, t int8)
	DelClient(name string)
	GetClient(name string) (*keystore.UserBean, bool)
	ClientList() []string
	PutMq(name, pwd string, t int8)
	DelMq(name string)
	GetMq(name string) (*keystore.UserBean, bool)
	MqList() []string
	PutOther(key, value string)
	DelOther(key string)
	GetOther(key string) (string, bool)
}

type user struct {
	pwd string
	t   int8
}

type state struct {
	users [3]map[string]user
	other map[string]string
}

func newState() *state {
	s := &state{other: map[string]string{}}
	for i := range s.users {
		s.users[i] = map[string]user{}
	}
	return s
}

var kinds = []string{"admin", "client", "mq"}

func put(a admin, k int, name, pwd string, t int8) {
	[]func(string, string, int8){a.PutAdmin, a.PutClient, a.PutMq}[k](name, pwd, t)
}
func del(a admin, k int, name string) {
	[]func(string){a.DelAdmin, a.DelClient, a.DelMq}[k](name)
}
func get(a admin, k int, name string) (*keystore.UserBean, bool) {
	return []func(string) (*keystore.UserBean, bool){a.GetAdmin, a.GetClient, a.GetMq}[k](name)
}
func list(a admin, k int) []string {
	l := []func() []string{a.AdminList, a.ClientList, a.MqList}[k]()
	sort.Strings(l)
	return l
}

// compare checks the four maps of a against the model over the universe of names.
func compare(c *vh.Case, a admin, st *state, names []string, what string) bool {
	for k := range kinds {
		var want []string
		for n := range st.users[k] {
			want = append(want, n)
		}
		sort.Strings(want)
		if got := list(a, k); strings.Join(got, "\x00|") != strings.Join(want, "\x00|") || len(got) != len(want) {
			c.Violate("list", "%s: %s list is %q, expected %q", what, kinds[k], got, want)
			return false
		}
		for _, n := range names {
			b, ok := get(a, k, n)
			u, in := st.users[k][n]
			if ok != in || ok && (b == nil || b.Name != n || b.Pwd != md5hex(u.pwd) || b.Type != u.t) {
				c.Violate("entry", "%s: %s %q is %v (%v), expected %v %v", what, kinds[k], n, b, ok, u, in)
				return false
			}
		}
	}
	for _, n := range names {
		v, ok := a.GetOther(n)
		w, in := st.other[n]
		if ok != in || v != w {
			c.Violate("entry", "%s: other %q is %q (%v), expected %q (%v)", what, n, v, ok, w, in)
			return false
		}
	}
	return true
}

func fresh(c *vh.Case, dir string, reopen bool) admin {
	if reopen {
		ks, err := keystore.LoadKeyStore(dir, "store")
		if err != nil {
			panic(err)
		}
		keystore.KeyStore = ks
	}
	a := keystore.NewStoreAdmin()
	a.Load()
	return a
}

func k02(r *vh.Run) {
	r.Rule("sequential cases drive the admin store with 25 random operations against four model maps, reloading from the file after every mutation; concurrent cases have 2-6 goroutines work on their own names at once and reload at the end; damage cases load truncated, altered, partial or foreign files and then use the store; non-trivial when entries were deleted, overwritten or damaged")
	universe := []string{"", "a", "b", "root", "用户", "x\x00y", "\xff\xfe", strings.Repeat("n", 300), "a b", "A"}
	r.SeqCases("model", r.N(300, 9000), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		a := fresh(c, d, true)
		stale := fresh(c, d, false)
		st := newState()
		over, dels := 0, 0
		for i := 0; i < 25; i++ {
			n := universe[c.R.IntN(len(universe))]
			k := c.R.IntN(4)
			mut := true
			if k == 3 {
				switch c.R.IntN(3) {
				case 0, 1:
					v := string(content(c.R.Uint64(), c.R.IntN(3), c.R.IntN(400)))
					if _, in := st.other[n]; in {
						over++
					}
					a.PutOther(n, v)
					st.other[n] = v
				case 2:
					if _, in := st.other[n]; in {
						dels++
					}
					a.DelOther(n)
					delete(st.other, n)
				}
			} else {
				switch c.R.IntN(4) {
				case 0, 1:
					u := user{string(content(c.R.Uint64(), 1, c.R.IntN(40))), int8(c.R.IntN(256))}
					if old, in := st.users[k][n]; in {
						over++
						switch c.R.IntN(4) { // only one of the two changes
						case 0:
							u.pwd = old.pwd
						case 1:
							u.t = old.t
						}
					}
					put(a, k, n, u.pwd, u.t)
					st.users[k][n] = u
					if len(u.pwd) >= 10 {
						if raw, err := keystore.KeyStore.Read(); err == nil && bytes.Contains(raw, []byte(u.pwd)) {
							c.Violate("plain-password", "the stored file contains the password itself")
						}
					}
				case 2:
					if _, in := st.users[k][n]; in {
						dels++
					}
					del(a, k, n)
					delete(st.users[k], n)
				case 3:
					mut = false
				}
			}
			if !compare(c, a, st, universe, "live store") {
				return
			}
			if mut {
				reopen := c.R.IntN(2) == 0
				b := fresh(c, d, reopen)
				c.Observe("reloads", 1)
				if !compare(c, b, st, universe, "reloaded store") {
					return
				}
				if c.R.IntN(3) == 0 { // an older store object loads again
					stale.Load()
					if !compare(c, stale, st, universe, "store loaded a second time") {
						return
					}
					c.Observe("second_loads", 1)
				}
				if c.R.IntN(4) == 0 {
					a = b
				}
			}
		}
		c.Eval(1)
		c.Observe("overwrites", over)
		c.Observe("deletions", dels)
		if over+dels > 0 {
			c.Distinct(vh.Hash(fmt.Sprint(st)))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"operations": 25, "overwrites": over, "deletions": dels})
		}
	})
	r.SeqCases("crowd", r.N(4, 24), 1, func(c *vh.Case) { // more than a thousand entries of one kind, and some of the others
		d := scratch(c)
		defer os.RemoveAll(d)
		a := fresh(c, d, true)
		st := newState()
		kind := c.I % 4
		var names []string
		set := func(k int, n string) {
			if k == 3 {
				v := ""
				if c.R.IntN(3) > 0 {
					v = string(content(c.R.Uint64(), 1, c.R.IntN(30)))
				}
				a.PutOther(n, v)
				st.other[n] = v
				return
			}
			u := user{string(content(c.R.Uint64(), 1, c.R.IntN(20))), int8(c.R.IntN(256))}
			put(a, k, n, u.pwd, u.t)
			st.users[k][n] = u
		}
		for i := 0; i < 1100; i++ {
			n := fmt.Sprintf("name%d", i)
			names = append(names, n)
			set(kind, n)
			if i%40 == 0 {
				set(c.R.IntN(4), n)
			}
		}
		for i := 0; i < 20; i++ { // single changes on top
			n := names[c.R.IntN(len(names))]
			switch {
			case i%3 == 0 && kind < 3:
				del(a, kind, n)
				delete(st.users[kind], n)
			case i%3 == 0:
				a.DelOther(n)
				delete(st.other, n)
			default:
				set(kind, n)
			}
			if i > 16 {
				set(kind, fmt.Sprintf("late%d", i))
				names = append(names, fmt.Sprintf("late%d", i))
			}
			if i%5 == 4 && !(compare(c, a, st, names, "live store") && compare(c, fresh(c, d, i%2 == 0), st, names, "reloaded store")) {
				return
			}
		}
		if kind == 3 { // an empty value is an entry
			a.PutOther("empty", "")
			st.other["empty"] = ""
			names = append(names, "empty")
			compare(c, fresh(c, d, true), st, names, "store reloaded after an empty value")
		}
		c.Eval(1)
		c.Observe("reloads", 5)
		c.Max("largest_store_entries", 1100)
	})
	r.Cases("concurrent", r.N(300, 4000), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		a := fresh(c, d, true)
		g := 2 + c.R.IntN(5)
		sts := make([]*state, g)
		names := make([][]string, g)
		seeds := make([]uint64, g)
		for i := range sts {
			sts[i] = newState()
			seeds[i] = c.R.Uint64()
			names[i] = []string{fmt.Sprint("g", i), fmt.Sprint("g", i, "x")}
		}
		var inflight, overl atomic.Int64
		c.Par(g, func(gi int) {
			rr := vh.NewRand(seeds[gi])
			st := sts[gi]
			for i := 0; i < 12; i++ {
				n := names[gi][rr.IntN(2)]
				k := rr.IntN(4)
				if inflight.Add(1) > 1 {
					overl.Add(1)
				}
				switch {
				case k == 3 && rr.IntN(3) > 0:
					v := fmt.Sprint("v", gi, i)
					a.PutOther(n, v)
					st.other[n] = v
				case k == 3:
					a.DelOther(n)
					delete(st.other, n)
				case rr.IntN(3) > 0:
					u := user{fmt.Sprint("p", gi, i), int8(i)}
					put(a, k, n, u.pwd, u.t)
					st.users[k][n] = u
				default:
					del(a, k, n)
					delete(st.users[k], n)
				}
				inflight.Add(-1)
				for k := range kinds {
					b, ok := get(a, k, n)
					u, in := st.users[k][n]
					if ok != in || ok && (b.Pwd != md5hex(u.pwd) || b.Type != u.t || b.Name != n) {
						c.Violate("entry", "own %s %q is %v (%v), expected %v (%v)", kinds[k], n, b, ok, u, in)
					}
					l := list(a, k)
					if has := contains(l, n); has != in {
						c.Violate("list", "own %s %q listed: %v, expected %v", kinds[k], n, has, in)
					}
				}
				// entries of the others are whole, whichever of their values they have
				og := rr.IntN(g)
				for k := range kinds {
					n := names[og][rr.IntN(2)]
					if b, ok := get(a, k, n); ok && (b.Name != n || b.Pwd != md5hex(fmt.Sprint("p", og, b.Type))) {
						c.Violate("entry", "%s %q of another goroutine is %v", kinds[k], n, b)
					}
				}
				v, ok := a.GetOther(n)
				if w, in := st.other[n]; ok != in || v != w {
					c.Violate("entry", "own other %q is %q (%v), expected %q (%v)", n, v, ok, w, in)
				}
			}
		})
		all := newState()
		var ns []string
		for i, st := range sts {
			ns = append(ns, names[i]...)
			for k := range kinds {
				for n, u := range st.users[k] {
					all.users[k][n] = u
				}
			}
			for n, v := range st.other {
				all.other[n] = v
			}
		}
		compare(c, a, all, ns, "live store after concurrent use")
		compare(c, fresh(c, d, true), all, ns, "reloaded store after concurrent use")
		c.Eval(1)
		c.Observe("concurrent_mutations", g*12)
		c.Observe("overlapping_mutations", int(overl.Load()))
		if overl.Load() > 0 {
			c.Distinct(vh.Hash("conc", fmt.Sprint(all)))
		}
	})
	r.SeqCases("damaged", r.N(1200, 40000), 1, func(c *vh.Case) {
		d := scratch(c)
		defer os.RemoveAll(d)
		path := filepath.Join(d, "store")
		kb := &keystore.KeyBean{}
		what := ""
		full := c.R.IntN(3) > 0
		want := newState()
		for m := 0; m < 4; m++ {
			if !full && c.R.IntN(2) == 0 {
				continue
			}
			switch m {
			case 0, 1, 2:
				mp := map[string]*keystore.UserBean{}
				for i := c.R.IntN(3); i > 0; i-- {
					n := universe[c.R.IntN(len(universe))]
					want.users[m][n] = user{"pw", 3}
					mp[n] = &keystore.UserBean{Name: n, Pwd: md5hex("pw"), Type: 3}
				}
				*[]*map[string]*keystore.UserBean{&kb.Admin, &kb.Client, &kb.Mq}[m] = mp
			case 3:
				kb.Other = map[string]string{}
				for i := c.R.IntN(3); i > 0; i-- {
					n := universe[c.R.IntN(len(universe))]
					kb.Other[n] = "v"
					want.other[n] = "v"
				}
			}
		}
		ks, err := keystore.LoadKeyStore(d, "store")
		if err != nil {
			panic(err)
		}
		raw := util.TEncode(kb)
		exact := false
		var used admin // an object that has loaded other content before
		if c.R.IntN(2) == 0 {
			used = fresh(c, d, true)
			put(used, 0, "gone0", "p", 1)
			put(used, 1, "gone1", "p", 1)
			put(used, 2, "gone2", "p", 1)
			used.PutOther("gone3", "o")
		}
		switch c.R.IntN(7) {
		case 0:
			what = "partial bean"
			ks.Write(raw)
			exact = true
		case 1:
			what = "damaged file"
			ks.Write(raw)
			b, _ := os.ReadFile(path)
			for i := 1 + c.R.IntN(4); i > 0 && len(b) > 0; i-- {
				b[c.R.IntN(len(b))] ^= byte(1 + c.R.IntN(255))
			}
			os.WriteFile(path, b, 0o644)
		case 2:
			what = "truncated file"
			ks.Write(raw)
			b, _ := os.ReadFile(path)
			os.WriteFile(path, b[:c.R.IntN(len(b)+1)], 0o644)
		case 3:
			what = "damaged bean"
			b := append([]byte(nil), raw...)
			if len(b) > 0 {
				for i := 1 + c.R.IntN(3); i > 0; i-- {
					b[c.R.IntN(len(b))] = byte(c.R.IntN(256))
				}
			}
			ks.Write(b)
		case 4:
			what = "truncated bean"
			ks.Write(raw[:c.R.IntN(len(raw))])
		case 5:
			what = "garbage"
			os.WriteFile(path, content(c.R.Uint64(), 0, c.R.IntN(200)), 0o644)
		case 6:
			what = "empty file"
			os.WriteFile(path, nil, 0o644)
		}
		a := fresh(c, d, true)
		if used != nil {
			a = used
			a.Load()
			c.Observe("loaded_again", 1)
		}
		if exact && !compare(c, a, want, universe, what) {
			return
		}
		put(a, 0, "A", "p0", 1)
		put(a, 1, "A", "p1", 2)
		put(a, 2, "A", "p2", 3)
		a.PutOther("A", "o")
		for _, x := range []admin{a, fresh(c, d, true)} {
			for k := range kinds {
				b, ok := get(x, k, "A")
				if !ok || b.Pwd != md5hex(fmt.Sprint("p", k)) || b.Type != int8(k+1) || !contains(list(x, k), "A") {
					c.Violate("unusable", "%s: %s entry put after loading is %v (%v)", what, kinds[k], b, ok)
				}
				del(x, k, "A")
				if _, ok := get(x, k, "A"); ok {
					c.Violate("unusable", "%s: %s entry still there after deletion", what, kinds[k])
				}
				put(x, k, "A", fmt.Sprint("p", k), int8(k+1))
			}
			if v, ok := x.GetOther("A"); !ok || v != "o" {
				c.Violate("unusable", "%s: other entry put after loading is %q (%v)", what, v, ok)
			}
		}
		c.Eval(1)
		c.Observe("loaded_"+strings.ReplaceAll(what, " ", "_"), 1)
		c.Distinct(vh.Hash(what, raw, full))
	})
}

func contains(l []string, n string) bool {
	for _, s := range l {
		if s == n {
			return true
		}
	}
	return false
}

// sameCRC changes five bytes of b so that its CRC-32 stays.
func sameCRC(c *vh.Case, b []byte, at int) []byte {
	r := append([]byte(nil), b...)
	r[at] ^= 1 + byte(c.R.IntN(255))
	want := crc32.ChecksumIEEE(b)
	// the four bytes behind give every checksum; they act linearly
	var rows [32]uint32
	z := append([]byte(nil), r...)
	base := crc32.ChecksumIEEE(z)
	for i := range rows {
		z[at+1+i/8] ^= 1 << (i % 8)
		rows[i] = crc32.ChecksumIEEE(z) ^ base
		z[at+1+i/8] ^= 1 << (i % 8)
	}
	// Gauss: pick the rows whose sum is base^want
	left := base ^ want
	var val, comb [32]uint32 // by leading bit
	for i, v := range rows {
		m := uint32(1) << i
		for v != 0 {
			h := bits.Len32(v) - 1
			if val[h] == 0 {
				val[h], comb[h] = v, m
				break
			}
			v ^= val[h]
			m ^= comb[h]
		}
	}
	pick := uint32(0)
	for left != 0 {
		h := bits.Len32(left) - 1
		if val[h] == 0 {
			break
		}
		left ^= val[h]
		pick ^= comb[h]
	}
	for i := 0; i < 32; i++ {
		if pick>>i&1 == 1 {
			r[at+1+i/8] ^= 1 << (i % 8)
		}
	}
	if crc32.ChecksumIEEE(r) != want {
		c.Violate("harness", "no content of the same CRC-32 found")
	}
	return r
}

// md5Pair gives two contents of the same MD5 (Wang and Yu, 2004).
func md5Pair() (a, b []byte) {
	a, _ = hex.DecodeString("d131dd02c5e6eec4693d9a0698aff95c2fcab58712467eab4004583eb8fb7f8955ad340609f4b30283e488832571415a085125e8f7cdc99fd91dbdf280373c5bd8823e3156348f5bae6dacd436c919c6dd53e2b487da03fd02396306d248cda0e99f33420f577ee8ce54b67080a80d1ec69821bcb6a8839396f9652b6ff72a70")
	b, _ = hex.DecodeString("d131dd02c5e6eec4693d9a0698aff95c2fcab50712467eab4004583eb8fb7f8955ad340609f4b30283e4888325f1415a085125e8f7cdc99fd91dbd7280373c5bd8823e3156348f5bae6dacd436c919c6dd53e23487da03fd02396306d248cda0e99f33420f577ee8ce54b67080280d1ec69821bcb6a8839396f965ab6ff72a70")
	return
}
