package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/util"
	"verifharness/vh"
)

// civil converts a calendar date to days since 1970-01-01 (proleptic Gregorian), independent of package time.
func civil(y, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

func mdays(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// strToTime calls the function under test and turns a panic into an error text.
func strToTime(s string) (t time.Time, err error, crash any) {
	defer func() { crash = recover() }()
	t, err = util.StrToTimeFormat(s)
	return
}

// tzHelper prints what StrToTimeFormat makes of each argument; its parent hides the time zone database.
func tzHelper(a []string) {
	for _, s := range a {
		t, err, crash := strToTime(s)
		off := 0
		if crash == nil && err == nil {
			_, off = t.Zone()
		}
		fmt.Println(t.Unix(), off, err != nil, crash)
	}
}

func u08(r *vh.Run) {
	r.Rule("date-times of all years outside Shanghai's daylight-saving period compared with an independent calendar, through every field's bounds, and texts with one field out of range, missing, swapped or followed by rubbish; the same in a process whose every access to the time zone database fails (ptrace); generated patterns with and without metacharacters matched against generated texts compared with a backtracking matcher, plus malformed patterns; non-trivial cases counted by distinct inputs")
	r.Cases("times", r.N(2000, 60000), 4, func(c *vh.Case) {
		y := 1992 + c.R.IntN(8000)
		if c.I%4 == 0 {
			y = 1970 + c.R.IntN(16)
		}
		m := 1 + c.R.IntN(12)
		d := 1 + c.R.IntN(mdays(y, m))
		if c.R.IntN(3) == 0 {
			d = mdays(y, m)
		}
		if y > 9999 {
			y = 9999
		}
		if d > mdays(y, m) {
			d = mdays(y, m)
		}
		h, mi, s := c.R.IntN(24), c.R.IntN(60), c.R.IntN(60)
		switch c.R.IntN(4) {
		case 0:
			h, mi, s = 0, 0, 0
		case 1:
			h, mi, s = 23, 59, 59
		}
		txt := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, mi, s)
		want := civil(y, m, d)*86400 + int64(h)*3600 + int64(mi)*60 + int64(s) - 8*3600
		t, err, crash := strToTime(txt)
		if c.Check(crash == nil && err == nil && t.Unix() == want && t.Nanosecond() == 0, "instant", "StrToTimeFormat(%q) = %v (unix %d), %v, panic %v; want unix %d", txt, t, t.Unix(), err, crash, want) {
			c.Check(t.Format("2006-01-02 15:04:05") == txt, "instant", "StrToTimeFormat(%q) shows as %s", txt, t.Format("2006-01-02 15:04:05"))
		}
		// damage
		bad := []string{
			fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, 13+c.R.IntN(80), d, h, mi, s),
			fmt.Sprintf("%04d-00-%02d %02d:%02d:%02d", y, d, h, mi, s),
			fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, mdays(y, m)+1, h, mi, s),
			fmt.Sprintf("%04d-%02d-00 %02d:%02d:%02d", y, m, h, mi, s),
			fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, 24+c.R.IntN(70), mi, s),
			fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, 60+c.R.IntN(40), s),
			fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, mi, 60+c.R.IntN(40)),
			txt[:10], txt[:16], txt[11:], "", " ", txt + "Z", txt + " +0000", txt + "x", "x" + txt,
			txt + " ", " " + txt, txt + "\n", "\t" + txt, txt + ".", txt + " CST", txt + "+08:00", txt[2:], txt[:17] + txt[18:], txt[:14] + txt[15:],
			fmt.Sprintf("%04d-%d-%02d %02d:%02d:%02d", y, 1+c.R.IntN(9), d, h, mi, s),
			fmt.Sprintf("%04d-%02d-%d %02d:%02d:%02d", y, m, 1+c.R.IntN(9), h, mi, s),
			fmt.Sprintf("%04d-%02d-%02d %02d:%d:%02d", y, m, d, h, c.R.IntN(10), s),
			fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%d", y, m, d, h, mi, c.R.IntN(10)),
			fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", y%100, m, d, h, mi, s), fmt.Sprintf("%04d%02d%02d %02d%02d%02d", y, m, d, h, mi, s),
			txt + txt, txt + "\x00", "-" + txt, "0" + txt, `"` + txt + `"`,
			strings.Replace(txt, " ", "T", 1), strings.ReplaceAll(txt, "-", "/"), strings.ReplaceAll(txt, ":", "-"),
			fmt.Sprintf("%02d/%02d/%04d %02d:%02d:%02d", m, d, y, h, mi, s), fmt.Sprint(want),
			strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return r - '0' + '０'
				}
				return r
			}, txt),
		}
		for k := 0; k < 4; k++ {
			b := bad[c.R.IntN(len(bad))]
			t, err, crash := strToTime(b)
			c.Check(crash == nil && err != nil, "accepts", "StrToTimeFormat(%q) = %v, %v, panic %v; it is not a date-time of the form 2006-01-02 15:04:05", b, t, err, crash)
			c.Observe("malformed_texts", 1)
		}
		// before 1992 Shanghai had summer times and, before 1901, its own mean time: what the machine's database says
		if l, err := time.LoadLocation("Asia/Shanghai"); err == nil {
			day := civil(1880, 1, 1) + c.R.Int64N(civil(1993, 1, 1)-civil(1880, 1, 1))
			if c.R.IntN(2) == 0 {
				day = civil(1986, 1, 1) + c.R.Int64N(civil(1992, 1, 1)-civil(1986, 1, 1))
			}
			at := time.Unix(day*86400+c.R.Int64N(86400), 0).In(l)
			old := at.Format("2006-01-02 15:04:05")
			t, err, crash := strToTime(old)
			// an hour that the clock showed twice has two instants
			ok := crash == nil && err == nil && (t.Unix() == at.Unix() || t.In(l).Format("2006-01-02 15:04:05") == old)
			c.Check(ok, "instant", "StrToTimeFormat(%q) = %v, %v, panic %v; Shanghai's clock showed that at unix %d", old, t, err, crash, at.Unix())
			c.Observe("historic_instants_compared", 1)
		}
		// these may be accepted, but not as another instant
		for _, lax := range []string{txt + ".25", txt + ",25", strings.Replace(txt, " 0", " ", 1), strings.Replace(txt, " ", "  ", 1)} {
			if t, err, crash := strToTime(lax); crash != nil || err == nil && t.Unix() != want {
				c.Violate("instant", "StrToTimeFormat(%q) = %v, panic %v; want an error or unix %d", lax, t, crash, want)
			}
		}
		c.Eval(1)
		c.Observe("instants_compared", 1)
		c.Distinct(vh.Hash(txt))
		if c.I < 3 {
			c.Sample(map[string]any{"text": txt, "unix": want})
		}
	})
	r.Cases("no-database", r.N(2, 10), 1, func(c *vh.Case) {
		y, m := 1992+c.R.IntN(100), 1+c.R.IntN(12)
		d, h := 1+c.R.IntN(28), c.R.IntN(24)
		txt := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, 3, 4)
		want := civil(y, m, d)*86400 + int64(h)*3600 + 184 - 8*3600
		dir, err := os.MkdirTemp(r.Tmp, "tz")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		hidden := 0
		ws, out, err := c.Trace(dir, []string{"tz", txt, "rubbish"}, 60*time.Second, func(s *vh.Stop) {
			if !s.Entry || s.Nr != syscall.SYS_OPENAT {
				return
			}
			b := make([]byte, 256)
			n, _ := syscall.PtracePeekData(s.Tid, uintptr(s.Args[1]), b)
			p := string(b[:n])
			if i := strings.IndexByte(p, 0); i >= 0 {
				p = p[:i]
			}
			if strings.Contains(p, "zoneinfo") || strings.Contains(p, "/TZ/") {
				hidden++
				s.Fail(syscall.ENOENT)
			}
		})
		if err != nil || !ws.Exited() || ws.ExitStatus() != 0 {
			c.Inconclusive("time zone helper: %v %v %.500s", err, ws, out)
			return
		}
		c.Eval(1)
		c.Observe("database_lookups_failed", hidden)
		w := fmt.Sprintf("%d %d false <nil>\n", want, 8*3600)
		l := strings.SplitAfter(out, "\n")
		if c.Check(len(l) >= 2 && l[0] == w, "instant", "without a time zone database StrToTimeFormat(%q) gives (unix, offset, error, panic) %q want %q", txt, l[0], w) {
			c.Check(strings.HasSuffix(l[1], "true <nil>\n"), "accepts", "without a time zone database StrToTimeFormat(\"rubbish\") gives %q", l[1])
		}
		c.Distinct(vh.Hash(txt, hidden > 0))
	})
	r.Cases("match", r.N(2000, 60000), 4, func(c *vh.Case) {
		p := newPat(c, 3)
		src := p.src()
		if c.R.IntN(6) == 0 { // white space counts
			sp := &pat{kind: 'l', b: " \n"[c.R.IntN(2)]}
			if c.R.IntN(2) == 0 {
				src, p = sp.src()+src, &pat{kind: 'c', subs: []*pat{sp, p}}
			} else {
				src, p = src+sp.src(), &pat{kind: 'c', subs: []*pat{p, sp}}
			}
		}
		if c.R.IntN(3) == 0 {
			src, p = "^"+src, &pat{kind: 'c', subs: []*pat{{kind: '^'}, p}}
		}
		if c.R.IntN(3) == 0 {
			src, p = "(?:"+src+")$", &pat{kind: 'c', subs: []*pat{p, {kind: '$'}}}
		}
		for k := 0; k < 8; k++ {
			n := c.R.IntN(9)
			b := make([]byte, n)
			for i := range b {
				b[i] = "aabbc.*(aabbc.*( \n"[c.R.IntN(18)]
			}
			s := string(b)
			want := false
			for i := 0; i <= len(s) && !want; i++ {
				want = p.match(s, i, func(int) bool { return true })
			}
			got := util.MatchString(src, s)
			c.Check(got == want, "match", "MatchString(%q, %q) = %v", src, s, got)
			if want {
				c.Observe("matches", 1)
			} else {
				c.Observe("non_matches", 1)
			}
		}
		c.Eval(1)
		c.Distinct(vh.Hash(src))
		if c.I < 3 {
			c.Sample(map[string]any{"pattern": src})
		}
	})
	r.Cases("bad-patterns", r.N(40, 400), 4, func(c *vh.Case) {
		list := []string{"(", ")", "[", "a**", "+", "*a", "?", "a{2,1}", "\\", "[z-a]", "(?P<n>", "(?<", "\\8", "a{1001}", "(?=a)", "\xff", "[[:none:]]", "\\p{None}"}
		p := list[c.I%len(list)]
		p = strings.Repeat("a", c.R.IntN(3)) + p
		if _, err := regexp.Compile(p); err == nil {
			return
		}
		for _, s := range []string{"", "a", p, "aaaa", "(", strings.Repeat("a", 100)} {
			c.Check(!util.MatchString(p, s), "bad-pattern", "MatchString(%q, %q) is true, the pattern is malformed", p, s)
		}
		c.Eval(1)
		c.Observe("malformed_patterns", 1)
		c.Distinct(vh.Hash(p))
	})
	r.Cases("concurrent", r.N(60, 600), 2, func(c *vh.Case) {
		seed := c.R.Uint64()
		c.Par(4, func(g int) {
			rg := vh.NewRand(seed + uint64(g))
			for k := 0; k < 20; k++ {
				n := rg.IntN(5)
				c.Check(util.MatchString(fmt.Sprintf("^a{%d}$", n), strings.Repeat("a", n)) && !util.MatchString(fmt.Sprintf("^a{%d}$", n), strings.Repeat("a", n+1)), "match", "concurrent MatchString answers another call's question")
				y := 1992 + rg.IntN(100)
				t, err, crash := strToTime(fmt.Sprintf("%d-03-01 00:00:00", y))
				c.Check(crash == nil && err == nil && t.Unix() == civil(y, 3, 1)*86400-8*3600, "instant", "concurrent StrToTimeFormat of year %d: %v %v %v", y, t, err, crash)
			}
		})
		c.Eval(1)
		c.Observe("concurrent_calls", 4*60)
	})
}

// pat is a small regular expression with its own matcher.
type pat struct {
	kind byte // l literal, . any, s set, n negated set, * + ? repeats, c concatenation, | alternation, ^ $
	b    byte
	set  string
	subs []*pat
}

func newPat(c *vh.Case, depth int) *pat {
	k := c.R.IntN(9)
	if depth == 0 {
		k = c.R.IntN(4)
	}
	sub := func() *pat { return newPat(c, depth-1) }
	switch k {
	case 0, 1:
		return &pat{kind: 'l', b: "aabc.*(aabc.*( \n"[c.R.IntN(16)]}
	case 2:
		return &pat{kind: '.'}
	case 3:
		return &pat{kind: []byte{'s', 'n'}[c.R.IntN(2)], set: []string{"a", "ab", "bc", ".a"}[c.R.IntN(4)]}
	case 4, 5:
		return &pat{kind: []byte{'*', '+', '?'}[c.R.IntN(3)], subs: []*pat{sub()}}
	case 6, 7:
		return &pat{kind: 'c', subs: []*pat{sub(), sub(), sub()}[:2+c.R.IntN(2)]}
	}
	return &pat{kind: '|', subs: []*pat{sub(), sub()}}
}

func (p *pat) src() string {
	switch p.kind {
	case 'l':
		return regexp.QuoteMeta(string(p.b))
	case '.':
		return "."
	case 's':
		return "[" + p.set + "]"
	case 'n':
		return "[^" + p.set + "]"
	case '*', '+', '?':
		return "(?:" + p.subs[0].src() + ")" + string(p.kind)
	case '|':
		return "(" + p.subs[0].src() + "|" + p.subs[1].src() + ")"
	}
	s := ""
	for _, q := range p.subs {
		s += q.src()
	}
	return s
}

func (p *pat) match(s string, i int, k func(int) bool) bool {
	switch p.kind {
	case 'l':
		return i < len(s) && s[i] == p.b && k(i+1)
	case '.':
		return i < len(s) && s[i] != '\n' && k(i+1)
	case 's':
		return i < len(s) && strings.IndexByte(p.set, s[i]) >= 0 && k(i+1)
	case 'n':
		return i < len(s) && strings.IndexByte(p.set, s[i]) < 0 && k(i+1)
	case '^':
		return i == 0 && k(i)
	case '$':
		return i == len(s) && k(i)
	case '?':
		return p.subs[0].match(s, i, k) || k(i)
	case '*':
		return p.subs[0].match(s, i, func(j int) bool { return j > i && p.match(s, j, k) }) || k(i)
	case '+':
		star := &pat{kind: '*', subs: p.subs}
		return p.subs[0].match(s, i, func(j int) bool { return star.match(s, j, k) })
	case '|':
		return p.subs[0].match(s, i, k) || p.subs[1].match(s, i, k)
	}
	return matchSeq(p.subs, s, i, k)
}

func matchSeq(ps []*pat, s string, i int, k func(int) bool) bool {
	if len(ps) == 0 {
		return k(i)
	}
	return ps[0].match(s, i, func(j int) bool { return matchSeq(ps[1:], s, j, k) })
}
