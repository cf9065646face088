package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type Mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	Old  string `json:"old"`
	New  string `json:"new"`
	S, E int
}

func main() {
	var out []Mut
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(os.Args[1] + "/" + f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(op string, s, e token.Pos, repl string) {
			out = append(out, Mut{f, fset.Position(s).Line, op, string(src[off(s):off(e)]), repl, off(s), off(e)})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		isLog := func(n ast.Node) bool {
			t := txt(n)
			return strings.Contains(t, "external.") || strings.Contains(t, "hook(")
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.IfStmt:
				add("neg-if", n.Cond.Pos(), n.Cond.End(), "!("+txt(n.Cond)+")")
				add("if-true", n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") || true")
				add("if-false", n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") && false")
			case *ast.BinaryExpr:
				m := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
				}
				for _, r := range m[n.Op] {
					add("binop", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					add("const+1", n.Pos(), n.End(), "("+n.Value+"+1)")
					if n.Value != "0" {
						add("const-1", n.Pos(), n.End(), "("+n.Value+"-1)")
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					add("bool", n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					add("bool", n.Pos(), n.End(), "true")
				}
			case *ast.DeferStmt:
				if !isLog(n) {
					add("del-defer", n.Pos(), n.End(), "")
				}
			case *ast.ExprStmt:
				if !isLog(n) {
					add("del-expr", n.Pos(), n.End(), "")
				}
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE && len(n.Lhs) == 1 {
					add("del-assign", n.Pos(), n.End(), "_ = "+txt(n.Rhs[0]))
				}
			case *ast.IncDecStmt:
				add("del-inc", n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				if n.Label == nil {
					if n.Tok == token.CONTINUE {
						add("branch", n.Pos(), n.End(), "break")
					} else if n.Tok == token.BREAK {
						add("branch", n.Pos(), n.End(), "continue")
					}
				} else {
					add("branch", n.Pos(), n.End(), n.Tok.String())
				}
			case *ast.GoStmt:
			case *ast.SliceExpr:
				if n.Low == nil && n.High != nil {
					add("slice", n.Pos(), n.End(), txt(n.X)+"[:]")
				}
			}
			return true
		})
	}
	json.NewEncoder(os.Stdout).Encode(out)
	fmt.Fprintln(os.Stderr, len(out))
}
