// mutate lists small changes of Go files (development aid, no part of a check).
// usage: mutate FILE...   prints JSON lines {file, from, to, text, what}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	Text     string
	What     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, text, what string) {
			a, b := off(from), off(to)
			old := string(src[a:b])
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			enc.Encode(mutant{path, a, b, text, fmt.Sprintf("%s:%d %s: %q -> %q", path, fset.Position(from).Line, what, old, text)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			switch x := n.(type) {
			case *ast.ImportSpec, *ast.GenDecl:
				if g, ok := n.(*ast.GenDecl); ok && g.Tok != token.IMPORT {
					return true
				}
				stack = stack[:len(stack)-1]
				return false
			case *ast.BinaryExpr:
				for _, op := range map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
					token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}, token.AND: {"|"},
				}[x.Op] {
					if x.Op == token.NEQ && text(x.Y) == "nil" {
						continue // handled by dropping the error
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), op, "operator")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "literal")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "literal")
						}
					}
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "drop call")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					if _, in := stack[len(stack)-2].(*ast.BlockStmt); in {
						emit(x.Pos(), x.End(), "", "drop assignment")
					}
					if x.Tok == token.ADD_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "-=", "operator")
						emit(x.TokPos, x.TokPos+2, "=", "operator")
					}
				}
			case *ast.IncDecStmt:
				if _, in := stack[len(stack)-2].(*ast.BlockStmt); in {
					emit(x.Pos(), x.End(), "", "drop increment")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				if c == "err != nil" {
					if x.Init != nil {
						if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 {
							// the error is ignored
							emit(x.Cond.Pos(), x.Cond.End(), "err != nil && false", "ignore error")
							emit(x.Pos(), x.End(), "", "drop step")
						}
					} else {
						emit(x.Cond.Pos(), x.Cond.End(), "err != nil && false", "ignore error")
					}
				} else {
					emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "condition")
					emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "condition")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := text(x.Args[i]), text(x.Args[i+1])
					if a != b {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a, "swap arguments")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "", "slice")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "", "slice")
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), text(x.Cond)+" && false", "no loop")
				}
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "", "drop branch")
			case *ast.SelectorExpr:
				swap := map[string]string{"TauG1": "AlphaTauG1", "AlphaTauG1": "BetaTauG1", "BetaTauG1": "AlphaTauG1", "Alpha": "Beta", "Beta": "Alpha", "Tau": "Beta", "S": "SX", "SX": "S", "AlphaG1": "BetaG1", "BetaG1": "AlphaG1", "Delta": "Beta", "L": "R", "R": "O", "O": "L", "A": "B", "B": "A"}
				if t, ok := swap[x.Sel.Name]; ok {
					emit(x.Sel.Pos(), x.Sel.End(), t, "field")
				}
			case *ast.DeferStmt, *ast.GoStmt:
				emit(n.Pos(), n.End(), "", "drop statement")
			}
			return true
		})
	}
}
