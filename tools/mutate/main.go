// Command mutate lists small mechanical changes to the Go files given, as JSON
// lines {file, off, end, new, kind, line}. It is a source of trial changes for
// tools/mutants.py; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
	Old  string `json:"old"`
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(from, to token.Pos, s, kind string) {
			o := string(src[off(from):off(to)])
			if o == s {
				return
			}
			out.Encode(mut{name, off(from), off(to), s, kind, fset.Position(from).Line, fn, o})
		}
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"}, token.XOR: {"|"},
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "op")
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), text(n.X), "left-only")
						emit(n.Pos(), n.End(), text(n.Y), "right-only")
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if-false")
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if-true")
				case *ast.BasicLit:
					if n.Kind == token.INT {
						emit(n.Pos(), n.End(), "("+n.Value+"+1)", "plus-one")
						if n.Value != "0" {
							emit(n.Pos(), n.End(), "("+n.Value+"-1)", "minus-one")
						}
					}
				case *ast.Ident:
					switch n.Name {
					case "true":
						emit(n.Pos(), n.End(), "false", "bool")
					case "false":
						emit(n.Pos(), n.End(), "true", "bool")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit(n.Pos(), n.End(), text(n.X), "not")
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap-args")
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
						emit(n.Pos(), n.End(), text(s.X), "receiver-for-call")
						emit(n.Pos(), n.End(), text(n.Args[0]), "arg-for-call")
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt:
							emit(s.Pos(), s.End(), "", "delete")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						switch text(r) {
						case "me":
							emit(r.Pos(), r.End(), "nil", "return-nil")
							emit(r.Pos(), r.End(), "other", "return-other")
						case "other":
							emit(r.Pos(), r.End(), "me", "return-me")
						case "nil":
							emit(r.Pos(), r.End(), "me", "return-me")
						}
					}
					if len(n.Results) == 1 {
						emit(n.Results[0].Pos(), n.Results[0].End(), "nil", "return-nil")
					}
				case *ast.CaseClause:
					if len(n.List) > 1 {
						for i, c := range n.List {
							if i > 0 {
								emit(n.List[i-1].End(), c.End(), "", "drop-case")
							} else {
								emit(c.Pos(), n.List[1].Pos(), "", "drop-case")
							}
						}
					}
				case *ast.KeyValueExpr:
					emit(n.Pos(), n.End(), "", "drop-field")
				}
				return true
			})
		}
	}
	_ = fmt.Sprint
}
