package main

// gen REPO OUT: writes OUT/NNNN.json {file, off, del, text, desc} per mutant
import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type M struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Del  int    `json:"del"`
	Text string `json:"text"`
	Desc string `json:"desc"`
	Line int    `json:"line"`
}

func main() {
	repo := os.Args[1]
	var all []M
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			switch rel {
			case "repl", "textwire", "lsp", ".git", "testdata":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(n ast.Node, text, desc string) {
			all = append(all, M{rel, off(n.Pos()), off(n.End()) - off(n.Pos()), text, desc, fs.Position(n.Pos()).Line})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if strings.HasPrefix(rel, "ast/") && (fd.Name.Name == "String" || fd.Name.Name == "Tok") {
				continue
			}
			name := fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					ops := map[token.Token][]string{
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
					}[n.Op]
					for _, o := range ops {
						add(n, txt(n.X)+" "+o+" "+txt(n.Y), name+": "+n.Op.String()+" -> "+o)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						add(n, txt(n.X), name+": right operand dropped")
						add(n, txt(n.Y), name+": left operand dropped")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						add(n, txt(n.X), name+": ! dropped")
					}
					if n.Op == token.SUB {
						add(n, txt(n.X), name+": - dropped")
					}
				case *ast.IfStmt:
					if n.Init == nil {
						add(n.Cond, "("+txt(n.Cond)+") && false", name+": if never")
						add(n.Cond, "("+txt(n.Cond)+") || true", name+": if always")
					} else {
						add(n.Cond, "("+txt(n.Cond)+") && false", name+": if never (init kept)")
						add(n.Cond, "("+txt(n.Cond)+") || true", name+": if always (init kept)")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						switch n.Value {
						case "0":
							add(n, "1", name+": 0 -> 1")
						case "1":
							add(n, "0", name+": 1 -> 0")
							add(n, "2", name+": 1 -> 2")
						default:
							add(n, "("+n.Value+"+1)", name+": "+n.Value+"+1")
							add(n, "("+n.Value+"-1)", name+": "+n.Value+"-1")
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						add(n, "false", name+": true -> false")
					}
					if n.Name == "false" {
						add(n, "true", name+": false -> true")
					}
				case *ast.ExprStmt:
					add(n, "", name+": call dropped "+txt(n))
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN {
						var l []string
						for range n.Lhs {
							l = append(l, "_")
						}
						if n.Tok == token.ASSIGN {
							add(n, strings.Join(l, ", ")+" = "+string(src[off(n.Rhs[0].Pos()):off(n.Rhs[len(n.Rhs)-1].End())]), name+": assignment dropped "+txt(n))
						} else {
							add(n, "", name+": assignment dropped "+txt(n))
							add(n, txt(n.Lhs[0])+" = "+txt(n.Rhs[0]), name+": += -> =")
						}
					}
				case *ast.IncDecStmt:
					add(n, "", name+": ++/-- dropped")
				case *ast.DeferStmt:
					add(n, "", name+": defer dropped")
				case *ast.BranchStmt:
					if n.Label == nil {
						switch n.Tok {
						case token.BREAK:
							add(n, "continue", name+": break -> continue")
							add(n, "", name+": break dropped")
						case token.CONTINUE:
							add(n, "break", name+": continue -> break")
							add(n, "", name+": continue dropped")
						}
					}
				case *ast.CaseClause:
					if len(n.List) > 1 {
						for i := range n.List {
							var l []string
							for j, e := range n.List {
								if j != i {
									l = append(l, txt(e))
								}
							}
							a, b := n.List[0], n.List[len(n.List)-1]
							all = append(all, M{rel, off(a.Pos()), off(b.End()) - off(a.Pos()), strings.Join(l, ", "), name + ": case value dropped " + txt(n.List[i]), fs.Position(n.Pos()).Line})
						}
					}
					all = append(all, M{rel, off(n.Pos()), off(n.End()) - off(n.Pos()), "", name + ": case dropped", fs.Position(n.Pos()).Line})
				case *ast.ReturnStmt:
					// error results
					for i, r := range n.Results {
						_ = i
						if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "nil" || id.Name == "true" || id.Name == "false") {
							if id.Name == "err" {
								add(r, "nil", name+": err -> nil")
							}
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						add(n.Low, "("+txt(n.Low)+")+1", name+": low+1")
					}
					if n.High != nil {
						add(n.High, "("+txt(n.High)+")-1", name+": high-1")
					}
				case *ast.CompositeLit:
					for _, e := range n.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							if _, ok := kv.Key.(*ast.Ident); ok && len(n.Elts) > 1 {
								end := off(kv.End())
								if end < len(src) && src[end] == ',' {
									end++
								}
								all = append(all, M{rel, off(kv.Pos()), end - off(kv.Pos()), "", name + ": field dropped " + txt(kv), fs.Position(kv.Pos()).Line})
							}
						}
					}
				}
				return true
			})
		}
		return nil
	})
	for i, m := range all {
		b, _ := json.Marshal(m)
		os.WriteFile(fmt.Sprintf("%s/%04d.json", os.Args[2], i), b, 0o644)
	}
	fmt.Println(len(all))
}
