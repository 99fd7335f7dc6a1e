// perturbgen copies gofer sources with a perturbation point before every statement and writes a
// go build overlay. Usage: perturbgen REPO OUTDIR pkgdir...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const runtimeSrc = `// Package verifperturb is injected by the harness through a build overlay; it is not part of the repository.
package verifperturb

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

var Level atomic.Int32
var Hits atomic.Int64

// P is a perturbation point: it may yield or sleep, never anything else.
func P() {
	l := Level.Load()
	if l == 0 {
		return
	}
	x := rand.Uint32()
	switch {
	case x&3 == 0:
		runtime.Gosched()
	case l >= 2 && x&0x7f == 1:
		time.Sleep(time.Duration(x>>20&31) * time.Microsecond)
	case l >= 3 && x&0x1ff == 2:
		time.Sleep(time.Duration(200+x>>20&1023) * time.Microsecond)
	}
	if x&0xff == 3 && count {
		Hits.Add(256)
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	repl := map[string]string{}
	if err := os.MkdirAll(out, 0o755); err != nil {
		panic(err)
	}
	rt := filepath.Join(out, "verifperturb.go")
	os.WriteFile(rt, []byte(runtimeSrc), 0o644)
	repl[filepath.Join(repo, "verifperturb", "verifperturb.go")] = rt
	// counting would order the goroutines for the race detector, so race builds do not count
	for name, src := range map[string]string{
		"count.go":   "//go:build !race\n\npackage verifperturb\n\nconst count = true\n",
		"nocount.go": "//go:build race\n\npackage verifperturb\n\nconst count = false\n",
	} {
		f := filepath.Join(out, "vp_"+name)
		os.WriteFile(f, []byte(src), 0o644)
		repl[filepath.Join(repo, "verifperturb", name)] = f
	}
	points := 0
	for _, dir := range os.Args[3:] {
		files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "perturbgen: skip", f, err)
				continue
			}
			var offs []int
			add := func(l []ast.Stmt) {
				for _, s := range l {
					offs = append(offs, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					// the body of a switch/select holds clauses, not statements
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(x.List)
				case *ast.CaseClause:
					add(x.Body)
				case *ast.CommClause:
					add(x.Body)
				}
				return true
			})
			if len(offs) == 0 {
				continue
			}
			points += len(offs)
			sort.Ints(offs)
			var b strings.Builder
			nameEnd := fset.Position(af.Name.End()).Offset
			b.Write(src[:nameEnd])
			b.WriteString(`; import vprt__ "github.com/donnie4w/gofer/verifperturb"`)
			prev := nameEnd
			for _, o := range offs {
				b.Write(src[prev:o])
				b.WriteString("vprt__.P(); ")
				prev = o
			}
			b.Write(src[prev:])
			dst := filepath.Join(out, strings.ReplaceAll(dir, "/", "_")+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				panic(err)
			}
			repl[f] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
	fmt.Println(points, "perturbation points")
}
