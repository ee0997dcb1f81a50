// Command mutate lists small changes to Go files, one per line: file, offset, end, replacement (JSON).
// It is an aid for finding gaps in the checks; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Op   string `json:"op"`
	New  string `json:"new"`
	Old  string `json:"old"`
}

func main() {
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(op string, from, to token.Pos, repl string) {
			m := mutant{name, fset.Position(from).Line, off(from), off(to), op, repl, string(src[off(from):off(to)])}
			b, _ := json.Marshal(m)
			fmt.Println(string(b))
		}
		var lastErr func(t *ast.FuncType) bool
		lastErr = func(t *ast.FuncType) bool {
			if t.Results == nil || len(t.Results.List) == 0 {
				return false
			}
			id, ok := t.Results.List[len(t.Results.List)-1].Type.(*ast.Ident)
			return ok && id.Name == "error"
		}
		var walk func(n ast.Node, ft *ast.FuncType)
		walk = func(n ast.Node, ft *ast.FuncType) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch v := x.(type) {
				case *ast.FuncDecl:
					if v.Body != nil {
						walk(v.Body, v.Type)
					}
					return false
				case *ast.FuncLit:
					walk(v.Body, v.Type)
					return false
				case *ast.IfStmt:
					c := text(v.Cond)
					if strings.Contains(c, "logger") {
						return true
					}
					emit("never", v.Cond.Pos(), v.Cond.End(), "(false && ("+c+"))")
					if v.Else != nil || !strings.HasSuffix(c, "err != nil") {
						emit("always", v.Cond.Pos(), v.Cond.End(), "(true || ("+c+"))")
					}
				case *ast.BinaryExpr:
					switch v.Op {
					case token.LAND, token.LOR:
						emit("left", v.Pos(), v.End(), text(v.X))
						emit("right", v.Pos(), v.End(), text(v.Y))
					case token.LSS:
						emit("bound", v.OpPos, v.OpPos+1, "<=")
					case token.GTR:
						emit("bound", v.OpPos, v.OpPos+1, ">=")
					case token.LEQ:
						emit("bound", v.OpPos, v.OpPos+2, "<")
					case token.GEQ:
						emit("bound", v.OpPos, v.OpPos+2, ">")
					}
				case *ast.ExprStmt:
					if _, ok := v.X.(*ast.CallExpr); ok && !strings.Contains(text(v), "logger.") {
						emit("drop", v.Pos(), v.End(), "")
					}
				case *ast.DeferStmt:
					emit("drop", v.Pos(), v.End(), "")
				case *ast.GoStmt:
					emit("sync", v.Pos(), v.End(), text(v.Call))
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						l := text(v.Lhs[0])
						if len(v.Lhs) == 1 && l != "_" {
							emit("drop", v.Pos(), v.End(), "_ = "+text(v.Rhs[0]))
						}
					}
				case *ast.IncDecStmt:
					emit("drop", v.Pos(), v.End(), "")
				case *ast.BranchStmt:
					if v.Label == nil && v.Tok == token.CONTINUE {
						emit("break", v.Pos(), v.End(), "break")
					}
					if v.Label == nil && v.Tok == token.BREAK {
						emit("continue", v.Pos(), v.End(), "continue")
					}
				case *ast.ReturnStmt:
					if ft != nil && lastErr(ft) && len(v.Results) > 0 {
						l := v.Results[len(v.Results)-1]
						if text(l) != "nil" && len(v.Results) == len(flat(ft.Results)) {
							emit("noerr", l.Pos(), l.End(), "nil")
						}
					}
				case *ast.CaseClause, *ast.CommClause:
				}
				return true
			})
		}
		walk(f, nil)
	}
}

func flat(fl *ast.FieldList) []int {
	var out []int
	for _, f := range fl.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
	}
	return out
}
