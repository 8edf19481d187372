// mkoverlay writes the build overlay of the deterministic simulator:
//
//   - patched Go runtime files and the simulator's scheduler (runtime/zz_sim.go);
//   - every non-test Go file of /repo (and of the few dependencies whose
//     interleavings matter) with a scheduling point before each statement;
//   - a simulated-clock replacement of github.com/kpango/fastime;
//   - the harness, placed inside /repo's module as internal/verifsim.
//
// Nothing is written below /repo. Usage:
//
//	mkoverlay -repo /repo -verif /verif -out DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(2)
}

type site struct {
	ID   uint32 `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

var sites []site

// instrument inserts a scheduling point before every statement of src. Line
// numbers are preserved. label is the name used in the site table.
func instrument(label string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, label, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	tf := fset.File(f.Pos())
	type ins struct {
		off  int
		del  int // bytes replaced
		text string
	}
	var is []ins
	fn := ""
	mark := func(pos token.Pos) uint32 {
		id := uint32(len(sites) + 1)
		sites = append(sites, site{id, label, tf.Line(pos), fn})
		return id
	}
	text := func(n ast.Node) string { return string(src[tf.Offset(n.Pos()):tf.Offset(n.End())]) }
	// inside adds a scheduling point to a statement that reads and then writes
	// the same variable, or writes an element that may be of a map: others may
	// come in between.
	inside := func(s ast.Stmt) (yield string) {
		yield = "SimYield"
		switch x := s.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				return
			}
			if _, ok := x.Lhs[0].(*ast.IndexExpr); ok && x.Tok != token.DEFINE && plain(x.Rhs[0]) && plain(x.Lhs[0]) {
				return "SimYieldMap"
			}
			if !plain(x.Lhs[0]) {
				return
			}
			switch x.Tok {
			case token.ASSIGN:
				c, ok := x.Rhs[0].(*ast.CallExpr)
				if !ok || len(c.Args) == 0 {
					return
				}
				if f, ok := c.Fun.(*ast.Ident); !ok || f.Name != "append" || text(c.Args[0]) != text(x.Lhs[0]) {
					return
				}
				is = append(is, ins{tf.Offset(c.Pos()), 0, fmt.Sprintf("_simrt.SimVal(%d, ", mark(c.Pos()))}, ins{tf.Offset(c.End()), 0, ")"})
			case token.ADD_ASSIGN:
				l := text(x.Lhs[0])
				is = append(is, ins{tf.Offset(x.TokPos), 2, fmt.Sprintf("= _simrt.SimVal(%d, %s + (", mark(x.Pos()), l)}, ins{tf.Offset(x.End()), 0, "))"})
			}
		case *ast.IncDecStmt:
			if !plain(x.X) {
				return
			}
			if _, ok := x.X.(*ast.IndexExpr); ok {
				return "SimYieldMap"
			}
			is = append(is, ins{tf.Offset(x.TokPos), 2, fmt.Sprintf("= _simrt.SimVal(%d, %s %s 1)", mark(x.Pos()), text(x.X), x.Tok.String()[:1])})
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) == 2 {
				if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "delete" && plain(c.Args[0]) && plain(c.Args[1]) {
					return "SimYieldMap"
				}
			}
		}
		return
	}
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			id := mark(s.Pos())
			is = append(is, ins{tf.Offset(s.Pos()), 0, ""})
			k := len(is) - 1
			y := inside(s)
			is[k].text = fmt.Sprintf("_simrt.%s(%d);", y, id)
			if y == "SimYieldMap" {
				is = append(is, ins{tf.Offset(s.End()), 0, "; _simrt.SimMapEnd()"})
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok {
			fn = fd.Name.Name
		} else {
			fn = ""
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(x.List)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 { // a busy loop must reach the scheduler
					is = append(is, ins{tf.Offset(x.Body.Lbrace) + 1, 0, fmt.Sprintf("_simrt.SimYield(%d);", mark(x.Pos()))})
				}
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	if len(is) == 0 {
		return src, nil
	}
	sort.SliceStable(is, func(i, j int) bool { return is[i].off < is[j].off })
	var out []byte
	p := tf.Offset(f.Name.End())
	out = append(out, src[:p]...)
	out = append(out, "; import _simrt \"runtime\""...)
	last := p
	for _, i := range is {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off + i.del
	}
	out = append(out, src[last:]...)
	return out, nil
}

// plain: evaluating x runs no other code and has no effect.
func plain(x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.CallExpr:
			f, id := y.Fun.(*ast.Ident)
			if !id || (f.Name != "append" && f.Name != "len" && f.Name != "string" && f.Name != "make") {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	out := flag.String("out", "", "")
	goroot := flag.String("goroot", os.Getenv("GOROOT"), "")
	noinst := flag.Bool("noinst", false, "do not instrument")
	flag.Parse()
	if *out == "" {
		die("-out needed")
	}
	gen := filepath.Join(*out, "gen")
	if err := os.RemoveAll(gen); err != nil {
		die("%v", err)
	}
	if err := os.MkdirAll(gen, 0o755); err != nil {
		die("%v", err)
	}
	rep := map[string]string{}
	n := 0
	put := func(target string, b []byte) {
		n++
		p := filepath.Join(gen, fmt.Sprintf("%04d_%s", n, filepath.Base(target)))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			die("%v", err)
		}
		rep[target] = p
	}

	// 1. runtime
	rtdir := filepath.Join(*goroot, "src", "runtime")
	files := map[string]string{}
	for _, p := range runtimePatches {
		s, ok := files[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(rtdir, p.file))
			if err != nil {
				die("%v", err)
			}
			s = string(b)
		}
		if p.n == 0 {
			p.n = 1
		}
		if c := strings.Count(s, p.old); c != p.n {
			die("runtime patch target occurs %d times in %s: %q", c, p.file, p.old)
		}
		files[p.file] = strings.ReplaceAll(s, p.old, p.new)
	}
	for f, s := range files {
		put(filepath.Join(rtdir, f), []byte(s))
	}
	zz, err := os.ReadFile(filepath.Join(*verif, "sim", "rt", "zz_sim.go"))
	if err != nil {
		die("%v", err)
	}
	put(filepath.Join(rtdir, "zz_sim.go"), zz)

	// 2. code under test
	inst := func(path, label string) {
		b, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		if *noinst {
			return
		}
		o, err := instrument(label, b)
		if err != nil {
			die("%v", err)
		}
		put(path, o)
	}
	var repoFiles []string
	err = filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "verifsim") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			repoFiles = append(repoFiles, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(repoFiles)
	for _, p := range repoFiles {
		l, _ := filepath.Rel(*repo, p)
		inst(p, l)
	}
	mod := func(m string) string {
		cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", m)
		cmd.Dir = *repo
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		if err != nil {
			die("go list -m %s: %v", m, err)
		}
		return strings.TrimSpace(string(b))
	}
	// copies of the dependencies whose code or clock the simulator controls
	var repl []string
	copyMod := func(m string, edit func(rel string, b []byte) []byte) {
		dir := mod(m)
		dst := filepath.Join(gen, "mods", strings.ReplaceAll(m, "/", "_"))
		err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			if fi.IsDir() {
				if fi.Name() == "example" || fi.Name() == "assets" {
					return filepath.SkipDir
				}
				return os.MkdirAll(filepath.Join(dst, rel), 0o755)
			}
			if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || fi.Name() == "go.mod" || fi.Name() == "go.sum") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if b = edit(rel, b); b == nil {
				return nil
			}
			return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
		})
		if err != nil {
			die("%v", err)
		}
		repl = append(repl, fmt.Sprintf("replace %s => %s", m, dst))
	}
	doInst := func(label string, b []byte) []byte {
		if *noinst {
			return b
		}
		o, err := instrument(label, b)
		if err != nil {
			die("%v", err)
		}
		return o
	}
	copyMod("github.com/kpango/gache", func(rel string, b []byte) []byte {
		if rel == "gache.go" {
			// fewer shards: a purge starts one goroutine per shard, 512 of which
			// are empty; the queue of expired keys keeps its size
			s := string(b)
			for _, e := range [][2]string{{"\tslen = 512\n", "\tslen = 16\n"}, {"\tmask = 0x1FF\n", "\tmask = 0xF\n"}, {"make(chan string, len(g.shards)*10)", "make(chan string, 5120)"}} {
				if strings.Count(s, e[0]) != 1 {
					die("gache.go: %q not found once", e[0])
				}
				s = strings.Replace(s, e[0], e[1], 1)
			}
			return doInst("dep/gache/gache.go", []byte(s))
		}
		return b
	})
	copyMod("golang.org/x/sync", func(rel string, b []byte) []byte {
		if rel == "errgroup/errgroup.go" {
			return doInst("dep/errgroup/errgroup.go", b)
		}
		return b
	})

	// 3. clock
	fb, err := os.ReadFile(filepath.Join(*verif, "sim", "fastime", "fastime.go"))
	if err != nil {
		die("%v", err)
	}
	copyMod("github.com/kpango/fastime", func(rel string, b []byte) []byte {
		switch {
		case rel == "fastime.go":
			return fb
		case strings.HasSuffix(rel, ".go"):
			return nil
		}
		return b
	})
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gm = append(gm, ("\n" + strings.Join(repl, "\n") + "\n")...)
	gs, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	if os.WriteFile(filepath.Join(*out, "go.mod"), gm, 0o644) != nil || os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0o644) != nil {
		die("cannot write go.mod")
	}

	// 4. harness
	err = filepath.Walk(filepath.Join(*verif, "sim", "harness"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		l, _ := filepath.Rel(filepath.Join(*verif, "sim", "harness"), p)
		rep[filepath.Join(*repo, "internal", "verifsim", l)] = p
		return nil
	})
	if err != nil {
		die("%v", err)
	}

	write := func(name string, v interface{}) {
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(filepath.Join(*out, name), b, 0o644); err != nil {
			die("%v", err)
		}
	}
	write("overlay.json", map[string]interface{}{"Replace": rep})
	write("sites.json", sites)
}
