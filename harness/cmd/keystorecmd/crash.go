package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/keystore"
	"verifharness/vh"
)

const (
	mBegin = iota + 1
	mEnd
)

// newContent is what the traced process writes.
func newContent(salt uint64, n int) []byte { return content(salt, int(salt%3), n) }

func ksHelper(a []string) {
	salt, _ := strconv.ParseUint(a[2], 10, 64)
	n, _ := strconv.Atoi(a[3])
	ks, err := keystore.LoadKeyStore(a[1], "store")
	if err != nil {
		panic(err)
	}
	switch a[0] {
	case "raw":
		b := newContent(salt, n)
		vh.Mark(mBegin, 0)
		err = ks.Write(b)
	case "admin":
		keystore.KeyStore = ks
		s := keystore.NewStoreAdmin()
		s.Load()
		vh.Mark(mBegin, 0)
		s.PutOther("key", string(newContent(salt, n)))
	}
	v := int64(0)
	if err != nil {
		v = 1
	}
	vh.Mark(mEnd, v)
	os.Exit(0)
}

// calls that touch files; the rest (memory, scheduling) cannot be made to lose data
var fileCalls = map[int]bool{
	syscall.SYS_OPEN: true, syscall.SYS_OPENAT: true, syscall.SYS_WRITE: true, syscall.SYS_PWRITE64: true, syscall.SYS_WRITEV: true,
	syscall.SYS_TRUNCATE: true, syscall.SYS_FTRUNCATE: true, syscall.SYS_LSEEK: true, syscall.SYS_RENAME: true, syscall.SYS_RENAMEAT: true,
	316 /* renameat2 */ : true, syscall.SYS_FSYNC: true, syscall.SYS_FDATASYNC: true, syscall.SYS_CLOSE: true, syscall.SYS_UNLINK: true,
	syscall.SYS_UNLINKAT: true, syscall.SYS_FCHMOD: true, syscall.SYS_CHMOD: true, syscall.SYS_FCHMODAT: true, syscall.SYS_LINK: true,
	syscall.SYS_LINKAT: true, syscall.SYS_FALLOCATE: true, syscall.SYS_FSTAT: true, syscall.SYS_STAT: true, syscall.SYS_MSYNC: true, 262: true, /* newfstatat */
	syscall.SYS_MMAP: true, syscall.SYS_SENDFILE: true, 326 /* copy_file_range */ : true, syscall.SYS_SYMLINK: true, syscall.SYS_MKDIR: true, syscall.SYS_MKDIRAT: true,
}

var canFail = map[int][]syscall.Errno{
	syscall.SYS_OPEN: {syscall.EACCES, syscall.EMFILE}, syscall.SYS_OPENAT: {syscall.EACCES, syscall.EMFILE, syscall.ENOSPC},
	syscall.SYS_WRITE: {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}, syscall.SYS_PWRITE64: {syscall.ENOSPC, syscall.EIO}, syscall.SYS_WRITEV: {syscall.ENOSPC},
	syscall.SYS_FTRUNCATE: {syscall.EIO}, syscall.SYS_TRUNCATE: {syscall.EIO}, syscall.SYS_RENAME: {syscall.EIO, syscall.ENOSPC}, syscall.SYS_RENAMEAT: {syscall.EIO, syscall.ENOSPC},
	316: {syscall.EIO, syscall.ENOSPC}, syscall.SYS_FSYNC: {syscall.EIO}, syscall.SYS_FDATASYNC: {syscall.EIO}, syscall.SYS_FCHMOD: {syscall.EPERM},
	syscall.SYS_FALLOCATE: {syscall.ENOSPC}, syscall.SYS_LINK: {syscall.EIO}, syscall.SYS_LINKAT: {syscall.EIO},
}

type fault struct {
	at    int // index of the file call within the write
	kind  string
	errno syscall.Errno
}

// run executes one write in a traced process with the fault; it returns the observed file calls, whether the
// write returned and with which result.
func traced(c *vh.Case, d, mode string, salt uint64, n int, f fault) (calls []int, returned, failed bool, ok bool) {
	in := false
	k := -1
	short := 0
	cur := map[int]int{}
	ws, out, err := c.Trace(d, []string{"ks", mode, d, strconv.FormatUint(salt, 10), strconv.Itoa(n)}, 60*time.Second, func(s *vh.Stop) {
		if m, v, isMark := s.Marker(); isMark {
			switch m {
			case mBegin:
				in = true
			case mEnd:
				in, returned, failed = false, true, v == 1
			}
			return
		}
		if !in || !fileCalls[s.Nr] || s.Nr == syscall.SYS_MMAP && int32(s.Args[4]) < 0 {
			return
		}
		if s.Entry {
			k++
			calls = append(calls, s.Nr)
			cur[s.Tid] = k
			if short == 1 && (s.Nr == syscall.SYS_WRITE || s.Nr == syscall.SYS_PWRITE64) {
				s.Fail(syscall.ENOSPC) // the device filled up in the middle of the previous call
			}
			if f.kind == "fail-on" && f.at <= k && s.Nr == calls[f.at] {
				s.Fail(f.errno) // and so does every later call of this kind
				return
			}
			if k == f.at {
				switch f.kind {
				case "kill-before":
					s.Kill()
				case "fail":
					if _, can := canFail[s.Nr]; can {
						s.Fail(f.errno)
					}
				case "short", "short-kill":
					if s.Nr != syscall.SYS_WRITE && s.Nr != syscall.SYS_PWRITE64 {
						break
					}
					s.Shorten(s.Args[2] / 2)
					short = 1
				}
			}
		} else if cur[s.Tid] == f.at && (f.kind == "kill-after" || f.kind == "short-kill") && k == f.at {
			s.Kill()
		}
	})
	if err != nil {
		c.Inconclusive("trace: %v\n%.500s", err, out)
		return
	}
	if !returned && !ws.Signaled() {
		c.Violate("helper", "writing process ended with %v\n%.3000s", ws, out)
		return
	}
	return calls, returned, failed, true
}

func k03(r *vh.Run) {
	r.Rule("each case runs one write of the key store (raw or through the admin store, over older content or none) in a traced process: an undisturbed run lists its file system calls, then one run per call kills the process before and after it, makes it (or it and every later one like it) fail, or cuts a write short; afterwards the store is loaded again; non-trivial when the fault was delivered")
	r.SeqCases("raw", r.N(6, 75), 4, func(c *vh.Case) { k03case(c, "raw") })
	r.SeqCases("admin", r.N(6, 75), 1, func(c *vh.Case) { k03case(c, "admin") }) // uses the package's one global store
}

func k03case(c *vh.Case, mode string) {
	{
		haveOld := c.I%3 < 2
		salt := c.R.Uint64()
		n := []int{1, 60, 3000, 20000, 70000, 300000}[c.R.IntN(6)]
		oldN := []int{1, 60, 3000, 20000, 70000}[c.R.IntN(5)]
		d := scratch(c)
		defer os.RemoveAll(d)
		old := content(salt+1, c.R.IntN(3), oldN)
		newer := newContent(salt, n)
		key := "old"
		reset := func() {
			fs, _ := filepath.Glob(d + "/*")
			for _, f := range fs {
				os.Remove(f)
			}
			if !haveOld {
				return
			}
			ks, err := keystore.LoadKeyStore(d, "store")
			if err != nil {
				panic(err)
			}
			if mode == "raw" {
				ks.Write(old)
			} else {
				keystore.KeyStore = ks
				s := keystore.NewStoreAdmin()
				s.Load()
				s.PutOther(key, string(old))
				s.PutAdmin("root", "pw", 1)
			}
		}
		// state of the store as a fresh object sees it: "old", "new", "none" or a description
		load := func() string {
			ks, err := keystore.LoadKeyStore(d, "store")
			if err != nil {
				return "unloadable: " + err.Error()
			}
			if mode == "raw" {
				b, err := ks.Read()
				switch {
				case err != nil:
					if !haveOld {
						return "none"
					}
					return "error: " + err.Error()
				case bytes.Equal(b, newer):
					return "new"
				case haveOld && bytes.Equal(b, old):
					return "old"
				}
				return fmt.Sprintf("neither (%d bytes; old %d, new %d)", len(b), len(old), len(newer))
			}
			keystore.KeyStore = ks
			s := keystore.NewStoreAdmin()
			s.Load()
			o, hasOld := s.GetOther(key)
			v, hasNew := s.GetOther("key")
			u, hasRoot := s.GetAdmin("root")
			rootOK := hasRoot && u.Pwd == md5hex("pw") && u.Type == 1
			switch {
			case haveOld && (!hasOld || o != string(old) || !rootOK):
				return fmt.Sprintf("old entries lost (key %v, admin %v)", hasOld, hasRoot)
			case hasNew && v == string(newer):
				return "new"
			case hasNew:
				return "new entry damaged"
			case haveOld:
				return "old"
			}
			return "none"
		}
		one := func(f fault) []int {
			reset()
			calls, returned, failed, ok := traced(c, d, mode, salt, n, f)
			if !ok {
				return nil
			}
			got := load()
			nr := -1
			if f.at >= 0 && f.at < len(calls) {
				nr = calls[f.at]
			}
			desc := fmt.Sprintf("%s write of %d bytes over %v, %s at file call %d (number %d, errno %v)", mode, n, haveOld, f.kind, f.at, nr, f.errno)
			allowed := got == "new" || got == "old" && haveOld || got == "none" && !haveOld
			if !allowed {
				c.Violate("content-lost", "%s: the store now holds: %s", desc, got)
			} else if returned && !failed && mode == "raw" && got != "new" {
				c.Violate("failure-not-reported", "%s: Write reported success but the store holds the %s content", desc, got)
			}
			// the store still works
			if ks, err := keystore.LoadKeyStore(d, "store"); err == nil {
				if err := ks.Write([]byte("again")); err != nil {
					c.Violate("unusable", "%s: a later write fails: %v", desc, err)
				} else if b, err := ks.Read(); err != nil || string(b) != "again" {
					c.Violate("unusable", "%s: a later write is read back as %q, %v", desc, b, err)
				}
			}
			c.Eval(1)
			c.Observe("fault_"+f.kind, 1)
			c.Observe("left_"+got, 1)
			if f.at >= 0 {
				c.Distinct(vh.Hash(mode, haveOld, n, oldN, f.at, f.kind, int(f.errno), nr))
			}
			return calls
		}
		calls := one(fault{at: -1, kind: "none"})
		c.Observe("file_calls_in_undisturbed_writes", len(calls))
		if len(calls) == 0 && !c.Failed() {
			c.Violate("helper", "no file system call was observed during a write")
		}
		for k, nr := range calls {
			one(fault{at: k, kind: "kill-before"})
			one(fault{at: k, kind: "kill-after"})
			for i, e := range canFail[nr] {
				one(fault{at: k, kind: "fail", errno: e})
				if i == 0 {
					one(fault{at: k, kind: "fail-on", errno: e})
				}
			}
			if nr == syscall.SYS_WRITE || nr == syscall.SYS_PWRITE64 {
				one(fault{at: k, kind: "short"})
				one(fault{at: k, kind: "short-kill"})
			}
			if c.Failed() {
				return
			}
		}
		if c.I < 2 {
			c.Sample(map[string]any{"mode": mode, "older_content": haveOld, "new_bytes": n, "file_calls": calls})
		}
	}
}
