// Command overlay writes, into a build directory, the -overlay file and -modfile with which the simulator binary is
// built from the current working tree of /repo:
//
//   - every non-test source file of the repository is replaced by a copy in which the imports of packages that reach
//     the outside world are redirected to their simulated counterparts, and, in packages that start goroutines, a
//     goroutine may be descheduled between any two statements,
//   - the file lock and grpcurl modules are replaced by copies treated the same way,
//   - a handful of files of the Go runtime are replaced by copies whose random choices (map iteration, select,
//     run-queue order, math/rand) come from a seeded stream and which never preempt asynchronously,
//   - internal/verifsim/main.go is added: the main package of the simulator.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const simMod = "verif.local/sim"

var redirect = map[string]string{
	"os":                    "sos",
	"io/ioutil":             "sioutil",
	"os/exec":               "sexec",
	"os/signal":             "ssignal",
	"path/filepath":         "sfilepath",
	"net":                   "snet",
	"net/http":              "shttp",
	"archive/zip":           "szip",
	"syscall":               "ssyscall",
	"runtime":               "sruntime",
	"crypto/rand":           "scrand",
	"os/user":               "suser",
	"crypto/tls":            "stls",
	"golang.org/x/sys/unix": "ssyscall",
}

var baseName = map[string]string{"io/ioutil": "ioutil", "os/exec": "exec", "os/signal": "signal", "path/filepath": "filepath",
	"net/http": "http", "archive/zip": "zip", "crypto/rand": "rand", "os/user": "user", "crypto/tls": "tls", "golang.org/x/sys/unix": "unix"}

type edit struct {
	off, end int
	text     string
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	pos := 0
	for _, e := range edits {
		out = append(out, src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, src[pos:]...)
}

// concurrent tells whether a source file starts goroutines or guards data against them.
func concurrent(src []byte) bool {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		return false
	}
	found := false
	for _, imp := range f.Imports {
		switch imp.Path.Value {
		case `"sync"`, `"sync/atomic"`, `"golang.org/x/sync/errgroup"`:
			found = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if _, ok := n.(*ast.GoStmt); ok {
			found = true
		}
		return !found
	})
	return found
}

// points inserts a call between the statements of every function, where the goroutine may be descheduled, and between
// the read and the write of assignments that do both.
func points(fset *token.FileSet, f *ast.File, src []byte) []edit {
	var out []edit
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
	var simple func(e ast.Expr) bool
	simple = func(e ast.Expr) bool {
		switch e := e.(type) {
		case *ast.Ident:
			return e.Name != "_"
		case *ast.BasicLit:
			return true
		case *ast.ParenExpr:
			return simple(e.X)
		case *ast.StarExpr:
			return simple(e.X)
		case *ast.SelectorExpr:
			return simple(e.X)
		case *ast.IndexExpr:
			return simple(e.X) && simple(e.Index)
		}
		return false
	}
	insert := func(off int, s string) { out = append(out, edit{off, off, s}) }
	stmt := func(s ast.Stmt) {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			return
		}
		site := strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(fset.Position(s.Pos()).Filename), fset.Position(s.Pos()).Line))
		call := "verifYield.Point(" + site + "); "
		if d, ok := s.(*ast.DeclStmt); ok {
			if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				return
			}
		}
		switch s := s.(type) {
		case *ast.IncDecStmt:
			if simple(s.X) {
				x := text(s.X)
				out = append(out, edit{at(s.Pos()), at(s.End()), call + "{ verifT := " + x + "; " + call + "; " + x + " = verifT " + s.Tok.String()[:1] + " 1 }"})
				return
			}
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok && simple(ix.X) && s.Tok != token.DEFINE {
					insert(at(s.Pos()), "verifYield.Map("+text(ix.X)+", "+site+"); ")
				}
			}
			if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !simple(s.Lhs[0]) || s.Tok == token.DEFINE {
				break
			}
			if s.Tok != token.ASSIGN {
				x := text(s.Lhs[0])
				insert(at(s.Pos()), call+"{ verifT := "+x+"; "+call)
				out = append(out, edit{at(s.TokPos), at(s.Rhs[0].Pos()), "= verifT " + strings.TrimSuffix(s.Tok.String(), "=") + " ("})
				insert(at(s.End()), ") }")
				return
			}
			if c, ok := s.Rhs[0].(*ast.CallExpr); ok && len(c.Args) > 1 {
				if fn, ok := c.Fun.(*ast.Ident); ok && fn.Name == "append" && simple(c.Args[0]) && text(c.Args[0]) == text(s.Lhs[0]) {
					insert(at(s.Pos()), call+"{ verifT := "+text(s.Lhs[0])+"; "+call)
					out = append(out, edit{at(c.Args[0].Pos()), at(c.Args[0].End()), "verifT"})
					insert(at(s.End()), " }")
					return
				}
			}
		}
		insert(at(s.Pos()), call)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			for _, s := range n.List {
				stmt(s)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				stmt(s)
			}
		case *ast.CommClause:
			for _, s := range n.Body {
				stmt(s)
			}
		}
		return true
	})
	return out
}

// rewrite redirects the imports of one file. It reports whether anything changed.
func rewrite(path string, src []byte, yields bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	var edits []edit
	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		to, ok := redirect[p]
		if !ok {
			continue
		}
		name := baseName[p]
		if name == "" {
			name = p
		}
		text := strconv.Quote(simMod + "/" + to)
		if imp.Name == nil {
			text = name + " " + text
		}
		edits = append(edits, edit{fset.Position(imp.Path.Pos()).Offset, fset.Position(imp.Path.End()).Offset, text})
	}
	if yields {
		if y := points(fset, f, src); len(y) > 0 {
			end := fset.Position(f.Name.End()).Offset
			edits = append(edits, edit{end, end, "; import verifYield " + strconv.Quote(simMod+"/syield")})
			edits = append(edits, y...)
		}
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	return apply(src, edits), true, nil
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		os.Exit(2)
	}
}

func goenv(name string) string {
	out, err := exec.Command("go", "env", name).Output()
	must(err)
	return strings.TrimSpace(string(out))
}

type sub struct {
	old, new string
	count    int
}

func patch(name string, src string, subs ...sub) string {
	for _, s := range subs {
		if n := strings.Count(src, s.old); n != s.count {
			must(fmt.Errorf("runtime/%s: expected %d occurrences of %q, found %d", name, s.count, s.old, n))
		}
		src = strings.ReplaceAll(src, s.old, s.new)
	}
	return src
}

const verifRT = `package runtime

import "unsafe"

// Per-goroutine identity and random stream, derived from the lineage of the goroutine and one global seed.
var (
	verifSeed  uint64
	verifSched uint64 // state of the run-queue stream, 0 = natural order
)

//go:nosplit
func verifMix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func verifRand() uint64 {
	gp := getg()
	if gp.m != nil && gp.m.curg != nil {
		gp = gp.m.curg
	}
	gp.verifRand += 0x9e3779b97f4a7c15
	return verifMix(gp.verifRand)
}

//go:nosplit
func verifRandn(n uint32) uint32 {
	return uint32((uint64(uint32(verifRand())) * uint64(n)) >> 32)
}

func verifInherit(newg, callergp *g) {
	callergp.verifKids++
	newg.verifID = verifMix(callergp.verifID*3 + callergp.verifKids*0x9e3779b97f4a7c15)
	newg.verifKids = 0
	newg.verifRand = verifMix(newg.verifID ^ verifSeed)
	newg.verifCtx = callergp.verifCtx
}

// verifToQueue decides whether a woken goroutine of a bubble goes to the end of the queue instead of next.
func verifToQueue(gp *g) bool {
	if verifSched == 0 || gp.bubble == nil {
		return false
	}
	verifSched += 0x9e3779b97f4a7c15
	return verifMix(verifSched)&1 == 0
}

//go:linkname verif_SetCtx verif.local/sim/rt.SetCtx
func verif_SetCtx(p unsafe.Pointer) { getg().verifCtx = p }

//go:linkname verif_Ctx verif.local/sim/rt.Ctx
func verif_Ctx() unsafe.Pointer { return getg().verifCtx }

//go:linkname verif_ID verif.local/sim/rt.ID
func verif_ID() uint64 { return getg().verifID }

//go:linkname verif_SetID verif.local/sim/rt.SetID
func verif_SetID(id uint64) {
	gp := getg()
	gp.verifID = id
	gp.verifKids = 0
	gp.verifRand = verifMix(id ^ verifSeed)
}

//go:linkname verif_Seed verif.local/sim/rt.Seed
func verif_Seed(seed, sched uint64) {
	verifSeed = seed
	verifSched = sched
}
`

func main() {
	if len(os.Args) != 5 {
		fmt.Fprintln(os.Stderr, "usage: overlay REPO VERIF BUILDDIR yields|noyields")
		os.Exit(2)
	}
	repo, verif, build := os.Args[1], os.Args[2], os.Args[3]
	must(os.MkdirAll(build, 0755))
	replace := map[string]string{}
	write := func(rel string, data []byte) string {
		p := filepath.Join(build, rel)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, data, 0644))
		return p
	}

	// the Go runtime
	goroot := goenv("GOROOT")
	rtdir := filepath.Join(goroot, "src", "runtime")
	rd := func(n string) string {
		b, err := os.ReadFile(filepath.Join(rtdir, n))
		must(err)
		return string(b)
	}
	rtFiles := map[string]string{
		"verif_sim.go": verifRT,
		"rand.go": patch("rand.go", rd("rand.go"),
			sub{"func rand() uint64 {\n", "func rand() uint64 {\n\tif true {\n\t\treturn verifRand()\n\t}\n", 1},
			sub{"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i)\n\t}\n\tglobalRand.state.Init(*seed)\n", 1},
		),
		"select.go": patch("select.go", rd("select.go"), sub{"cheaprandn(uint32(norder + 1))", "verifRandn(uint32(norder + 1))", 1}),
		"time.go":   patch("time.go", rd("time.go"), sub{"t.rand = cheaprand()", "t.rand = uint32(verifRand())", 1}),
		"proc.go": patch("proc.go", rd("proc.go"),
			sub{"\tnewg.startpc = fn.fn\n", "\tnewg.startpc = fn.fn\n\tverifInherit(newg, callergp)\n", 1},
			sub{"\tif randomizeScheduler && next && randn(2) == 0 {\n", "\tif next && verifToQueue(gp) {\n\t\tnext = false\n\t}\n\tif randomizeScheduler && next && randn(2) == 0 {\n", 1},
			sub{"\t\t\tpreemptone(pp)\n\t\t\t// If pp is in a syscall", "\t\t\t// If pp is in a syscall", 1},
		),
		"runtime2.go": patch("runtime2.go", rd("runtime2.go"),
			sub{"\tparentGoid      uint64          // goid", "\tverifID, verifKids, verifRand uint64\n\tverifCtx unsafe.Pointer\n\tparentGoid      uint64          // goid", 1},
			sub{"\twaitReasonSyncCondWait:          true,\n", "\twaitReasonSyncCondWait:          true,\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSyncWaitGroupWait: true,\n", 1},
		),
	}
	for n, s := range rtFiles {
		replace[filepath.Join(rtdir, n)] = write("runtime/"+n, []byte(s))
	}

	// the repository
	dirs := map[string]bool{}
	yields := func(dir string) bool {
		y, ok := dirs[dir]
		if !ok && os.Args[4] == "yields" {
			names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
			for _, n := range names {
				if b, err := os.ReadFile(n); err == nil && !strings.HasSuffix(n, "_test.go") && concurrent(b) {
					y = true
				}
			}
			dirs[dir] = y
		}
		return y
	}
	must(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && rel != "." || d.Name() == "testdata" || d.Name() == "node_modules" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || !(strings.HasPrefix(rel, "internal/") || strings.HasPrefix(rel, "cmd/")) {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, changed, err := rewrite(p, src, yields(filepath.Dir(p)))
		if err != nil {
			return err
		}
		if changed {
			replace[p] = write("repo/"+rel, out)
		}
		return nil
	}))
	replace[filepath.Join(repo, "internal/verifsim/main.go")] = filepath.Join(verif, "sim/simmain/main.go.txt")

	// modules with system calls of their own
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	gosum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	must(err)
	modcache := goenv("GOMODCACHE")
	extra := "\nrequire verif.local/sim v0.0.0\nreplace verif.local/sim => " + filepath.Join(verif, "sim") + "\n"
	moduleVersion := func(m string) string {
		for _, line := range strings.Split(string(gomod), "\n") {
			f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(line), "require "))
			if len(f) >= 2 && f[0] == m {
				return f[1]
			}
		}
		return ""
	}
	for _, m := range []string{"github.com/gofrs/flock", "github.com/fullstorydev/grpcurl"} {
		version := moduleVersion(m)
		if version == "" {
			continue // no longer used
		}
		src := filepath.Join(modcache, m+"@"+version)
		ents, err := os.ReadDir(src)
		must(err)
		for _, e := range ents {
			if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") || !(strings.HasSuffix(e.Name(), ".go") || e.Name() == "go.mod") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, e.Name()))
			must(err)
			if strings.HasSuffix(e.Name(), ".go") {
				b, _, err = rewrite(e.Name(), b, false)
				must(err)
			}
			write("mod/"+m+"/"+e.Name(), b)
		}
		if _, err := os.Stat(filepath.Join(src, "go.mod")); err != nil {
			write("mod/"+m+"/go.mod", []byte("module "+m+"\n"))
		}
		extra += "replace " + m + " => " + filepath.Join(build, "mod", m) + "\n"
	}
	write("go.mod", append(gomod, extra...))
	write("go.sum", gosum)
	data, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(err)
	write("overlay.json", data)
}
