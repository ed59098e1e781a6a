// instr writes an instrumented copy of the library's sources and the overlay
// file that puts it in the place of the originals:
//
//	instr -repo /repo -hook hook.go.txt -out DIR
//
// Inserted are scheduling points before statements (verifhook.Y), a controlled
// order for iterations over maps, and a function per package that gives all
// package variables their initial values again.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listed struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path string }
	Standard   bool
}

type pkg struct {
	listed
	files []*ast.File
	names []string
	src   [][]byte
	info  *types.Info
	tpkg  *types.Package
}

var fset = token.NewFileSet()

func die(a ...any) { fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...); os.Exit(3) }

func main() {
	repo := flag.String("repo", "/repo", "")
	hook := flag.String("hook", "", "")
	out := flag.String("out", "", "")
	skip := flag.String("skip", "", "names of files in DIR that get no edits of statements (they did not build with them)")
	flag.Parse()
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Module,Standard", ".")
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die(err, eb.String())
	}
	exports := map[string]string{}
	var mod []*pkg
	dec := json.NewDecoder(bytes.NewReader(b))
	root := ""
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[l.ImportPath] = l.Export
		if !l.Standard && strings.HasPrefix(l.Dir, *repo) {
			mod = append(mod, &pkg{listed: l})
			root = l.ImportPath // the last one is the root
		}
	}
	done := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	for _, p := range mod {
		for _, n := range p.GoFiles {
			path := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(path)
			if err != nil {
				die(err)
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				die(err)
			}
			p.files, p.names, p.src = append(p.files, f), append(p.names, path), append(p.src, src)
		}
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp{done, gc}, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: types:", err) }}
		p.tpkg, _ = conf.Check(p.ImportPath, fset, p.files, p.info)
		done[p.ImportPath] = p.tpkg
	}
	mut := map[types.Object]bool{}
	for _, p := range mod {
		findMutable(p, mut)
	}
	repl := map[string]string{}
	hookPath := root + "/verifhook"
	repl[filepath.Join(*repo, "verifhook", "hook.go")] = *hook
	for _, p := range mod {
		in := &inst{p: p, mut: mut, root: root}
		for i := range p.files {
			rel, _ := filepath.Rel(*repo, p.names[i])
			o := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			in.skip = strings.Contains(","+*skip+",", ","+filepath.Base(o)+",")
			s := in.file(i, hookPath)
			if err := os.WriteFile(o, s, 0o644); err != nil {
				die(err)
			}
			repl[p.names[i]] = o
		}
		rp := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, root), "/", "__")+"__verif_reset.go")
		if err := os.WriteFile(rp, in.resetFile(hookPath), 0o644); err != nil {
			die(err)
		}
		repl[filepath.Join(p.Dir, "zz_verif_reset.go")] = rp
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die(err)
	}
}

type imp struct {
	done map[string]*types.Package
	gc   types.Importer
}

func (i imp) Import(path string) (*types.Package, error) {
	if p := i.done[path]; p != nil {
		return p, nil
	}
	return i.gc.Import(path)
}

// pkgVar tells whether an identifier is a package level variable of the library
func pkgVar(info *types.Info, id *ast.Ident) types.Object {
	o := info.Uses[id]
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	return v
}

// findMutable marks the package variables with a use other than a plain read
// of a table (indexing, ranging, len, comparing)
func findMutable(p *pkg, mut map[types.Object]bool) {
	for _, f := range p.files {
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			v := pkgVar(p.info, id)
			if v == nil {
				return true
			}
			i := len(stack) - 2
			var child ast.Node = id
			// pkg.Var
			if s, ok := stack[i].(*ast.SelectorExpr); ok && s.Sel == id {
				child = s
				i--
			}
			if readOnly(p.info, v, stack[:i+1], child) {
				return true
			}
			mut[v] = true
			return true
		})
	}
}

func readOnly(info *types.Info, v types.Object, stack []ast.Node, child ast.Node) bool {
	parent := stack[len(stack)-1]
	switch t := v.Type().Underlying().(type) {
	case *types.Basic:
		_ = t
		switch x := parent.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if l == child {
					return false
				}
			}
			return true
		case *ast.IncDecStmt, *ast.UnaryExpr:
			if u, ok := parent.(*ast.UnaryExpr); ok && u.Op != token.AND {
				return true
			}
			return false
		}
		return true
	}
	// a function or method is no variable; errors and the like are read
	switch x := parent.(type) {
	case *ast.IndexExpr:
		if x.X != child {
			return true
		}
		if len(stack) >= 2 {
			switch g := stack[len(stack)-2].(type) {
			case *ast.AssignStmt:
				for _, l := range g.Lhs {
					if l == x {
						return false
					}
				}
			case *ast.IncDecStmt:
				return false
			case *ast.UnaryExpr:
				return g.Op != token.AND
			case *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.RangeStmt, *ast.BinaryExpr, *ast.ReturnStmt, *ast.IfStmt:
				return true
			}
		}
		return true
	case *ast.RangeStmt:
		return x.X == child
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.Ident); ok && f.Name == "len" {
			return true
		}
		return false
	case *ast.BinaryExpr:
		return true
	}
	return false
}

type edit struct {
	off, del int
	text     string
}

type inst struct {
	p     *pkg
	mut   map[types.Object]bool
	root  string
	inits []string
	sets  map[types.Object]string // variable -> function that sets it again
	zeros []string
	n     int
	edits []edit
	tail  []string
	cur   int
	skip  bool
}

func (in *inst) off(p token.Pos) int { return fset.Position(p).Offset }

func (in *inst) ins(p token.Pos, s string) { in.edits = append(in.edits, edit{in.off(p), 0, s}) }

func (in *inst) text(a, b token.Pos) string { return string(in.p.src[in.cur][in.off(a):in.off(b)]) }

func (in *inst) file(i int, hookPath string) []byte {
	in.edits, in.tail, in.cur = nil, nil, i
	if in.sets == nil {
		in.sets = map[types.Object]string{}
	}
	f := in.p.files[i]
	in.ins(f.Name.End(), fmt.Sprintf("; import verifhook %q", hookPath))
	var tail bytes.Buffer
	tail.WriteString("\nvar _ = verifhook.Y\n")
	short := strings.TrimPrefix(in.p.ImportPath, in.root)
	quiet := short == "/lexer" || short == "/parser" || short == "/token"
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				in.n++
				name := fmt.Sprintf("verifInit_%d", in.n)
				in.ins(d.Name.End(), fmt.Sprintf("() { %s() }; func %s", name, name))
				in.inits = append(in.inits, name)
			}
			if d.Body != nil && !in.skip {
				in.body(d.Body, quiet)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				vs := s.(*ast.ValueSpec)
				if embedded(d.Doc) || embedded(vs.Doc) {
					continue
				}
				var names []string
				blank := true
				for _, n := range vs.Names {
					names = append(names, n.Name)
					if n.Name != "_" {
						blank = false
					}
				}
				if blank {
					continue
				}
				if len(vs.Values) == 0 {
					in.n++
					fn := fmt.Sprintf("verifZero_%d", in.n)
					fmt.Fprintf(&tail, "func %s() {\n\tvar z %s\n", fn, in.text(vs.Type.Pos(), vs.Type.End()))
					for _, n := range names {
						if n != "_" {
							fmt.Fprintf(&tail, "\t%s = z\n", n)
						}
					}
					tail.WriteString("}\n")
					in.zeros = append(in.zeros, fn)
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					for k, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						in.n++
						fn := fmt.Sprintf("verifSet_%d", in.n)
						typ := ""
						if vs.Type != nil {
							typ = " " + in.text(vs.Type.Pos(), vs.Type.End())
						}
						fmt.Fprintf(&tail, "func %s() {\n\tvar z%s = %s\n\t%s = z\n}\n", fn, typ, in.text(vs.Values[k].Pos(), vs.Values[k].End()), n.Name)
						in.sets[in.p.info.Defs[n]] = fn
					}
				} else {
					in.n++
					fn := fmt.Sprintf("verifSet_%d", in.n)
					fmt.Fprintf(&tail, "func %s() {\n\t%s = %s\n}\n", fn, strings.Join(names, ", "), in.text(vs.Values[0].Pos(), vs.Values[len(vs.Values)-1].End()))
					in.sets[in.p.info.Defs[vs.Names[0]]] = fn
				}
				for _, v := range vs.Values {
					if !in.skip {
						in.exprs(v, quiet)
					}
				}
			}
		}
	}
	for _, t := range in.tail {
		tail.WriteString(t + "\n")
	}
	// apply
	sort.SliceStable(in.edits, func(a, b int) bool { return in.edits[a].off < in.edits[b].off })
	var o bytes.Buffer
	src, pos := in.p.src[i], 0
	for _, e := range in.edits {
		if e.off < pos {
			// overlapping edits: the later one is dropped
			continue
		}
		o.Write(src[pos:e.off])
		o.WriteString(e.text)
		pos = e.off + e.del
	}
	o.Write(src[pos:])
	o.Write(tail.Bytes())
	return o.Bytes()
}

func embedded(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func (in *inst) resetFile(hookPath string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport verifhook %q\n\nvar _ = verifhook.OnReset(func() {\n", in.p.files[0].Name.Name, hookPath)
	for _, z := range in.zeros {
		fmt.Fprintf(&b, "\t%s()\n", z)
	}
	done := map[string]bool{}
	for _, it := range in.p.info.InitOrder {
		for _, v := range it.Lhs {
			if fn := in.sets[v]; fn != "" && !done[fn] {
				done[fn] = true
				fmt.Fprintf(&b, "\t%s()\n", fn)
			}
		}
	}
	for _, i := range in.inits {
		fmt.Fprintf(&b, "\t%s()\n", i)
	}
	b.WriteString("})\n")
	return b.Bytes()
}

func (in *inst) body(b *ast.BlockStmt, quiet bool) {
	in.list(b.List, quiet)
	in.exprs(b, quiet)
}

// exprs finds everything else below a node: map iterations, calls, function
// literals and nested statement lists
func (in *inst) exprs(n ast.Node, quiet bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			if x != n {
				in.list(x.List, quiet)
			}
		case *ast.CaseClause:
			in.list(x.Body, quiet)
		case *ast.CommClause:
			in.list(x.Body, quiet)
		case *ast.RangeStmt:
			in.rangeStmt(x)
		case *ast.CallExpr:
			in.call(x)
		case *ast.GoStmt:
			in.goStmt(x)
		}
		return true
	})
}

// goStmt puts the order in which goroutines begin under control
func (in *inst) goStmt(x *ast.GoStmt) {
	if f, ok := x.Call.Fun.(*ast.FuncLit); ok {
		in.n++
		t := fmt.Sprintf("verifT%d", in.n)
		in.tickets(x, t)
		in.ins(f.Body.Lbrace+1, " verifhook.Begun("+t+"); ")
		return
	}
	for _, a := range x.Call.Args {
		switch a.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.BasicLit:
		default:
			return
		}
	}
	in.n++
	t := fmt.Sprintf("verifT%d", in.n)
	in.tickets(x, t)
	in.ins(x.Call.Pos(), "func() { verifhook.Begun("+t+"); ")
	in.ins(x.Call.End(), " }()")
}

func (in *inst) tickets(x *ast.GoStmt, t string) {
	in.ins(x.Pos(), t+" := verifhook.Ticket(); ")
}

func (in *inst) call(x *ast.CallExpr) {
	fun := x.Fun
	switch i := fun.(type) {
	case *ast.IndexExpr:
		fun = i.X
	case *ast.IndexListExpr:
		fun = i.X
	}
	s, ok := fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	if id, ok := s.X.(*ast.Ident); ok && fun == x.Fun {
		if pn, ok := in.p.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" {
			switch s.Sel.Name {
			case "Keys", "Values", "All":
				in.tail = append(in.tail, "var _ = "+id.Name+".Keys[map[string]int]")
				in.edits = append(in.edits, edit{in.off(s.Pos()), in.off(s.End()) - in.off(s.Pos()), "verifhook." + s.Sel.Name})
			}
		}
	}
	if s.Sel.Name == "MapRange" && len(x.Args) == 0 {
		if sel := in.p.info.Selections[s]; sel != nil && strings.Contains(sel.Recv().String(), "reflect.Value") {
			recv := in.text(s.X.Pos(), s.X.End())
			in.edits = append(in.edits, edit{in.off(x.Pos()), in.off(x.End()) - in.off(x.Pos()), "verifhook.MapRange(" + recv + ")"})
		}
	}
	if s.Sel.Name == "MapKeys" && len(x.Args) == 0 {
		if sel := in.p.info.Selections[s]; sel != nil && strings.Contains(sel.Recv().String(), "reflect.Value") {
			in.ins(x.Pos(), "verifhook.MapKeys(")
			in.ins(x.End(), ")")
		}
	}
}

func (in *inst) method(e ast.Expr) string {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return ""
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	sel := in.p.info.Selections[s]
	if sel == nil {
		return ""
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return ""
	}
	return f.FullName()
}

func (in *inst) rangeStmt(x *ast.RangeStmt) {
	tv, ok := in.p.info.Types[x.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	m := in.text(x.X.Pos(), x.X.End())
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return in.text(e.Pos(), e.End())
	}
	k, v := name(x.Key), name(x.Value)
	if x.Key == nil {
		in.edits = append(in.edits, edit{in.off(x.X.Pos()), len(m), "verifhook.Entries(" + m + ")"})
		return
	}
	in.edits = append(in.edits, edit{in.off(x.Key.Pos()), in.off(x.X.End()) - in.off(x.Key.Pos()), "_, verifE := range verifhook.Entries(" + m + ")"})
	op := " " + x.Tok.String() + " "
	s := ""
	switch {
	case k != "_" && v != "_":
		s = k + ", " + v + op + "verifE.K, verifE.V;"
	case k != "_":
		s = k + op + "verifE.K;"
	case v != "_":
		s = v + op + "verifE.V;"
	default:
		s = "_ = verifE;"
	}
	// the body stays a block of its own: it may declare the same names again
	in.ins(x.Body.Lbrace+1, " "+s+" {")
	in.ins(x.Body.Rbrace, "}; ")
}

func (in *inst) list(l []ast.Stmt, quiet bool) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		coarse := in.shared(s, quiet)
		if quiet && !coarse {
			continue
		}
		in.ins(s.Pos(), fmt.Sprintf("verifhook.Y(%d); ", b2i(coarse)))
		if e, ok := s.(*ast.ExprStmt); ok {
			switch m := in.method(e.X); m {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
				c := e.X.(*ast.CallExpr)
				sel := c.Fun.(*ast.SelectorExpr)
				try := "TryLock"
				if strings.HasSuffix(m, "RLock") {
					try = "TryRLock"
				}
				in.edits = append(in.edits, edit{in.off(e.Pos()), in.off(e.End()) - in.off(e.Pos()), "verifhook.Lock(" + in.text(sel.X.Pos(), sel.X.End()) + "." + try + ")"})
				continue
			case "(*sync.Once).Do":
				in.ins(s.Pos(), "verifhook.Hold(); ")
				in.ins(s.End(), "; verifhook.Release()")
				continue
			}
		}
		if coarse {
			switch s.(type) {
			case *ast.AssignStmt, *ast.IncDecStmt, *ast.ExprStmt:
				in.ins(s.End(), "; verifhook.Y(1)")
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// shared tells whether a statement itself (not the statements below it) can
// touch memory that other threads can reach
func (in *inst) shared(s ast.Stmt, quiet bool) bool {
	var parts []ast.Node
	add := func(n ast.Node) {
		if n != nil {
			parts = append(parts, n)
		}
	}
	switch s := s.(type) {
	case *ast.IfStmt:
		if s.Init != nil {
			add(s.Init)
		}
		add(s.Cond)
	case *ast.ForStmt:
		if s.Init != nil {
			add(s.Init)
		}
		if s.Cond != nil {
			add(s.Cond)
		}
		if s.Post != nil {
			add(s.Post)
		}
	case *ast.RangeStmt:
		add(s.X)
	case *ast.SwitchStmt:
		if s.Init != nil {
			add(s.Init)
		}
		if s.Tag != nil {
			add(s.Tag)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			add(s.Init)
		}
		add(s.Assign)
	case *ast.BlockStmt, *ast.SelectStmt:
	case *ast.LabeledStmt:
		return in.shared(s.Stmt, quiet)
	default:
		add(s)
	}
	found := false
	for _, p := range parts {
		ast.Inspect(p, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.Ident:
				if v := pkgVar(in.p.info, n); v != nil && in.mut[v] {
					found = true
				}
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if !quiet && in.heap(l) {
						found = true
					}
				}
			case *ast.IncDecStmt:
				if !quiet && in.heap(n.X) {
					found = true
				}
			case *ast.CallExpr:
				if quiet {
					break
				}
				switch f := n.Fun.(type) {
				case *ast.Ident:
					switch f.Name {
					case "delete", "copy", "clear":
						found = true
					case "append":
						if _, local := n.Args[0].(*ast.Ident); !local {
							found = true
						}
					}
				case *ast.SelectorExpr:
					// sort.Strings(x), slices.Reverse(x) and the like write into x
					if id, ok := f.X.(*ast.Ident); ok {
						if pn, ok := in.p.info.Uses[id].(*types.PkgName); ok && (pn.Imported().Path() == "sort" || pn.Imported().Path() == "slices") {
							found = true
						}
					}
				}
			}
			return !found
		})
	}
	return found
}

// heap tells whether an assignment to e writes through a pointer, map or slice
func (in *inst) heap(e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			return true
		case *ast.IndexExpr:
			tv, ok := in.p.info.Types[x.X]
			if !ok {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Array); !ok {
				return true
			}
			e = x.X
		case *ast.SelectorExpr:
			tv, ok := in.p.info.Types[x.X]
			if !ok {
				return false // package qualified: found as a variable
			}
			if _, ok := tv.Type.Underlying().(*types.Pointer); ok {
				return true
			}
			e = x.X
		default:
			return false
		}
	}
}
