// mutate lists small changes to Go files, one JSON object a line (development tool):
//
//	mutate ROOT FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type change struct {
	File, Kind, Old, New string
	Line, From, To       int
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, name))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(kind string, from, to token.Pos, repl string) {
			enc.Encode(change{name, kind, string(src[off(from):off(to)]), repl, fs.Position(from).Line, off(from), off(to)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		isLog := func(n ast.Node) bool {
			found := false
			ast.Inspect(n, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if x, ok := s.X.(*ast.Ident); ok && (x.Name == "log" || x.Name == "fmt" && (s.Sel.Name == "Printf" || s.Sel.Name == "Println" || s.Sel.Name == "Fprintln" || s.Sel.Name == "Fprintf")) {
						found = true
					}
				}
				return true
			})
			return found
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IfStmt:
				put("if-not", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
				put("if-true", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true")
				put("if-false", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false")
			case *ast.BinaryExpr:
				swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
				if s, ok := swap[n.Op]; ok {
					put("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put("left", n.Pos(), n.End(), text(n.X))
					put("right", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.Atoi(n.Value); err == nil {
						put("int+1", n.Pos(), n.End(), strconv.Itoa(v+1))
						if v > 0 {
							put("int-1", n.Pos(), n.End(), strconv.Itoa(v-1))
						}
					}
				}
			case *ast.CaseClause:
				if n.List != nil && len(n.Body) > 0 {
					for i, e := range n.List {
						if len(n.List) > 1 {
							if i > 0 {
								put("case", n.List[i-1].End(), e.End(), "")
							} else {
								put("case", e.Pos(), n.List[1].Pos(), "")
							}
						}
					}
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
						if !isLog(s) {
							put("drop", s.Pos(), s.End(), "")
						}
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							put("drop", s.Pos(), s.End(), "")
						}
					case *ast.BranchStmt:
						put("drop", s.Pos(), s.End(), "")
						if x.Label == nil && x.Tok == token.CONTINUE {
							put("branch", s.Pos(), s.End(), "break")
						}
						if x.Label == nil && x.Tok == token.BREAK {
							put("branch", s.Pos(), s.End(), "continue")
						}
					case *ast.ReturnStmt:
						put("drop", s.Pos(), s.End(), "")
						if k := len(x.Results); k > 0 {
							if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
								put("err", id.Pos(), id.End(), "nil")
							}
							if c, ok := x.Results[k-1].(*ast.CallExpr); ok {
								if s, ok := c.Fun.(*ast.SelectorExpr); ok {
									if p, ok := s.X.(*ast.Ident); ok && (p.Name == "errors" || p.Name == "fmt" && s.Sel.Name == "Errorf") {
										put("err", c.Pos(), c.End(), "nil")
									}
								}
							}
						}
					case *ast.IfStmt:
						if x.Else == nil && x.Init == nil {
							put("drop", s.Pos(), s.End(), "")
						}
					}
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						end := kv.End()
						if src[off(end)] == ',' {
							end++
						}
						put("key", kv.Pos(), end, "")
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					put("bool", n.Pos(), n.End(), "false")
				}
				if n.Name == "false" {
					put("bool", n.Pos(), n.End(), "true")
				}
			}
			return true
		})
	}
}
