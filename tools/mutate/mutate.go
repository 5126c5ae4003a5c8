// Command mutate lists small source changes: one JSON object per line with
// file, offset range, replacement, function and description.
// usage: go run mutate.go DIR FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	File, Func, Desc, New string
	From, To, Line        int
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		fs := token.NewFileSet()
		path := filepath.Join(os.Args[1], f)
		src, _ := os.ReadFile(path)
		tree, err := parser.ParseFile(fs, path, nil, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range tree.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(from, to token.Pos, repl, desc string) {
				a, b := off(from), off(to)
				if string(src[a:b]) == repl {
					return
				}
				enc.Encode(mut{f, fd.Name.Name, desc + ": " + clip(string(src[a:b])) + " -> " + clip(repl), repl, a, b, fs.Position(from).Line})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var vars []string
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.RangeStmt:
					if k, ok := x.Key.(*ast.Ident); ok && k.Name != "_" {
						if v, ok := x.Value.(*ast.Ident); ok && v.Name != "_" {
							vars = append(vars, k.Name, v.Name)
						}
					}
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator in "+clip(text(x)))
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "delete statement")
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "delete statement")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE && len(x.Lhs) == 1 {
						emit(x.Pos(), x.End(), "_ = "+text(x.Rhs[0]), "delete assignment to "+text(x.Lhs[0]))
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "condition false")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "condition true")
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, _ := strconv.Atoi(x.Value)
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "constant")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "constant")
						}
					}
					if x.Kind == token.FLOAT {
						emit(x.Pos(), x.End(), x.Value+"+0.5", "constant")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "constant")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "constant")
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "branch")
					} else if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "branch")
					}
				case *ast.IndexExpr:
					if id, ok := x.Index.(*ast.Ident); ok {
						for _, v := range uniq(vars) {
							if v != id.Name && in(id.Name, vars) {
								emit(id.Pos(), id.End(), v, "index variable")
							}
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "", "slice from the start")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "", "slice to the end")
					}
				case *ast.DeferStmt:
					emit(x.Pos(), x.Pos()+5, "", "not deferred")
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) <= 1 {
						switch s.Sel.Name {
						case "View", "Copy", "ShallowCopy", "DetachedView", "ResetIndexView", "ShuffleView", "ReverseView":
							emit(x.Pos(), x.End(), text(s.X), "drop call")
						}
					}
				}
				return true
			})
		}
	}
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func uniq(l []string) (r []string) {
	for _, x := range l {
		if !in(x, r) {
			r = append(r, x)
		}
	}
	return
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}
