// instr builds an overlay for `go build -overlay` that instruments the
// current working tree of the repository, without touching it.
//
//	instr -repo /repo -out SCRATCH -sim /verif/sim -hook /verif/hook
//
// Every statement of every non-test file of the repository gets a call to
// verifhook.S(id) in front of it (same line, so positions stay readable): it
// is the simulator's step counter, preemption point and coverage probe.
// Loops and function entries of the three dependencies that do the wire and
// box work get the same hook, so that a livelock inside them is a
// deterministic event (step budget) and not a matter of wall-clock time.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	del  int
	text string
}

var nextID = 1

const hookAlias = "vh__"

// globals gives the package-level variables of a directory that functions may change:
// those that are assigned to, whose address is taken or whose methods are called.
func globals(dir string) map[string]bool {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	must(err)
	vars := map[string]bool{}
	var files []*ast.File
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		files = append(files, f)
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						vars[n.Name] = n.Name != "_"
					}
				}
			}
		}
	}
	used := map[string]bool{}
	mark := func(x ast.Expr) {
		for {
			switch t := x.(type) {
			case *ast.SelectorExpr:
				x = t.X
			case *ast.IndexExpr:
				x = t.X
			case *ast.SliceExpr:
				x = t.X
			case *ast.StarExpr:
				x = t.X
			case *ast.ParenExpr:
				x = t.X
			case *ast.Ident:
				if vars[t.Name] {
					used[t.Name] = true
				}
				return
			default:
				return
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.AssignStmt:
					if t.Tok != token.DEFINE {
						for _, l := range t.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(t.X)
				case *ast.UnaryExpr:
					if t.Op == token.AND {
						mark(t.X)
					}
				case *ast.SliceExpr:
					mark(t.X)
				case *ast.CallExpr:
					if sel, ok := t.Fun.(*ast.SelectorExpr); ok {
						mark(sel.X)
					}
					if id, ok := t.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete" || id.Name == "clear") && len(t.Args) > 0 {
						mark(t.Args[0])
					}
				}
				return true
			})
		}
	}
	return used
}

func mentions(s ast.Stmt, names map[string]bool) bool {
	if len(names) == 0 {
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.CaseClause:
			return false
		case *ast.Ident:
			found = found || names[t.Name]
		}
		return true
	})
	return found
}

func instrument(path string, src []byte, hookPath string, full bool, shared map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, nil
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	imports := map[string]bool{}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = true
	}

	var list []ins
	add := func(p token.Pos) {
		list = append(list, ins{off: off(p), text: fmt.Sprintf("%s.S(%d);", hookAlias, nextID)})
		nextID++
	}
	// sync.Mutex.Lock() as a statement: make it a cooperative acquire, so that
	// a simulated thread never blocks the one real thread that runs.
	lockStmt := func(s ast.Stmt) {
		es, ok := s.(*ast.ExprStmt)
		if !ok {
			return
		}
		c, ok := es.X.(*ast.CallExpr)
		if !ok {
			return
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return
		}
		switch {
		case len(c.Args) == 0 && (sel.Sel.Name == "Lock" || sel.Sel.Name == "RLock"):
		case len(c.Args) == 1 && sel.Sel.Name == "Do" && c.Ellipsis == token.NoPos: // sync.Once
			switch c.Args[0].(type) {
			case *ast.FuncLit, *ast.Ident, *ast.SelectorExpr:
			default:
				return
			}
		default:
			return
		}
		x := sel.X
		for {
			if s2, ok2 := x.(*ast.SelectorExpr); ok2 {
				x = s2.X
				continue
			}
			break
		}
		id, ok := x.(*ast.Ident)
		if !ok || imports[id.Name] && sel.X == ast.Expr(id) {
			return
		}
		if len(c.Args) == 1 {
			list = append(list, ins{
				off: off(s.Pos()), text: fmt.Sprintf("%s.Do(&%s,", hookAlias, string(src[off(sel.X.Pos()):off(sel.X.End())])),
				del: off(c.Lparen) + 1 - off(s.Pos()),
			})
			return
		}
		list = append(list, ins{
			off: off(s.Pos()), text: fmt.Sprintf("%s.%s(&%s);", hookAlias, sel.Sel.Name,
				string(src[off(sel.X.Pos()):off(sel.X.End())])),
			del: off(s.End()) - off(s.Pos()),
		})
	}

	stmts := func(l []ast.Stmt) {
		if !full {
			return
		}
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			if mentions(s, shared) {
				list = append(list, ins{off: off(s.Pos()), text: fmt.Sprintf("%s.G(%d);", hookAlias, nextID)})
				nextID++
			} else {
				add(s.Pos())
			}
			lockStmt(s)
		}
	}
	usesOnce := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.SelectorExpr:
			id, ok := t.X.(*ast.Ident)
			if full && ok && id.Name == "sync" && imports["sync"] && strings.HasPrefix(t.Sel.Name, "Once") && t.Sel.Name != "Once" {
				list = append(list, ins{off: off(id.Pos()), text: hookAlias, del: len("sync")})
				usesOnce = true
			}
		case *ast.BlockStmt:
			stmts(t.List)
		case *ast.CaseClause:
			stmts(t.Body)
		case *ast.CommClause:
			stmts(t.Body)
		case *ast.ForStmt:
			add(t.Body.Lbrace + 1)
		case *ast.RangeStmt:
			add(t.Body.Lbrace + 1)
		case *ast.FuncDecl:
			if t.Body != nil && !full {
				add(t.Body.Lbrace + 1)
			}
		}
		return true
	})
	if len(list) == 0 {
		return nil, nil
	}
	list = append(list, ins{off: off(f.Name.End()), text: fmt.Sprintf("; import %s %q", hookAlias, hookPath)})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })

	var out []byte
	pos := 0
	for _, in := range list {
		if in.off < pos {
			return nil, fmt.Errorf("overlapping insertion in %s", path)
		}
		out = append(out, src[pos:in.off]...)
		out = append(out, in.text...)
		pos = in.off + in.del
	}
	out = append(out, src[pos:]...)
	if usesOnce {
		out = append(out, "\nvar _ sync.Locker\n"...)
	}
	return out, nil
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sim := flag.String("sim", "", "")
	hook := flag.String("hook", "", "")
	flag.Parse()

	var err error
	*repo, err = filepath.Abs(*repo)
	must(err)
	*out, err = filepath.Abs(*out)
	must(err)

	modb, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	mod := ""
	for _, l := range strings.Split(string(modb), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	hookPath := mod + "/verifhook"

	replace := map[string]string{}
	n := 0
	emit := func(orig string, data []byte) {
		p := filepath.Join(*out, "ov", fmt.Sprintf("%04d_%s", n, filepath.Base(orig)))
		n++
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, data, 0o644))
		replace[orig] = p
	}

	perDir := map[string]map[string]bool{}
	nShared := 0
	tree := func(root string, full bool) {
		must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			base := filepath.Base(p)
			if fi.IsDir() {
				if base == "testdata" || (strings.HasPrefix(base, ".") && p != root) {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			shared, ok := perDir[filepath.Dir(p)]
			if !ok {
				shared = globals(filepath.Dir(p))
				perDir[filepath.Dir(p)] = shared
				if len(shared) != 0 {
					nShared += len(shared)
				}
			}
			b, err := instrument(p, src, hookPath, full, shared)
			if err != nil {
				return err
			}
			if b != nil {
				emit(p, b)
			}
			return nil
		}))
	}

	tree(*repo, true)
	repoIDs := nextID

	// dependencies
	replaces := ""
	for _, dep := range []string{"github.com/asticode/go-astits", "github.com/abema/go-mp4", "github.com/asticode/go-astikit"} {
		c := exec.Command("go", "list", "-mod=readonly", "-m", "-f", "{{.Dir}}", dep)
		c.Dir = *repo
		o, err := c.Output()
		if err != nil {
			continue // the repository may stop using a dependency
		}
		dir := strings.TrimSpace(string(o))
		if dir == "" {
			continue
		}
		// files below GOMODCACHE cannot be overlaid: build against an
		// instrumented copy through a replace directive in a private modfile
		cp := filepath.Join(*out, "deps", filepath.Base(dep))
		must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			if fi.IsDir() {
				if fi.Name() == "testdata" {
					return filepath.SkipDir
				}
				return os.MkdirAll(filepath.Join(cp, rel), 0o755)
			}
			if (!strings.HasSuffix(rel, ".go") && rel != "go.mod") || strings.HasSuffix(rel, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			hooked := filepath.Dir(rel) == "." && strings.HasSuffix(rel, ".go")
			// astikit is a grab bag: only the files that the muxer/demuxer use
			if strings.HasSuffix(dep, "astikit") && rel != "bytes.go" && rel != "binary.go" {
				hooked = false
			}
			if hooked {
				b, err := instrument(p, src, hookPath, false, nil)
				if err != nil {
					return err
				}
				if b != nil {
					src = b
				}
			}
			return os.WriteFile(filepath.Join(cp, rel), src, 0o644)
		}))
		replaces += fmt.Sprintf("\nreplace %s => %s\n", dep, cp)
	}
	must(os.WriteFile(filepath.Join(*out, "go.mod"), append(modb, replaces...), 0o644))
	sumb, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(*out, "go.sum"), sumb, 0o644))

	// harness and hook
	for _, d := range []struct{ from, to string }{
		{*sim, filepath.Join(*repo, "verifsim")},
		{*hook, filepath.Join(*repo, "verifhook")},
	} {
		ents, err := os.ReadDir(d.from)
		must(err)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				replace[filepath.Join(d.to, e.Name())] = filepath.Join(d.from, e.Name())
			}
		}
	}
	ids := fmt.Sprintf("package verifhook\n\nconst RepoIDs = %d\nconst AllIDs = %d\n\n// Shared is the number of package-level variables that functions may change.\nconst Shared = %d\n", repoIDs, nextID, nShared)
	p := filepath.Join(*out, "ids.go")
	must(os.WriteFile(p, []byte(ids), 0o644))
	replace[filepath.Join(*repo, "verifhook", "ids.go")] = p

	j, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	fmt.Fprintf(os.Stderr, "instr: %d statements in the repository, %d hooks in dependencies, %d files\n",
		repoIDs-1, nextID-repoIDs, n)
}
