// Command mutate lists or applies small changes to Go source files, to find out
// what the checks do not notice. It is a development tool; no check uses it.
//
//	mutate list FILE...        one line per mutant: index file:line description
//	mutate apply N FILE...     rewrite the file of mutant N in place
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	file     string
	line     int
	off, end int
	text     string
	what     string
}

func main() {
	mode := os.Args[1]
	files := os.Args[2:]
	want := -1
	if mode == "apply" {
		want, _ = strconv.Atoi(os.Args[2])
		files = os.Args[3:]
	}
	n := 0
	for _, f := range files {
		src, ms := mutants(f)
		for _, m := range ms {
			if mode == "list" {
				old := strings.ReplaceAll(string(src[m.off:m.end]), "\n", " ")
				if len(old) > 60 {
					old = old[:60] + "..."
				}
				fmt.Printf("%d %s:%d %s: %s -> %s\n", n, f, m.line, m.what, old, m.text)
			} else if n == want {
				out := string(src[:m.off]) + m.text + string(src[m.end:])
				if err := os.WriteFile(f, []byte(out), 0o644); err != nil {
					panic(err)
				}
			}
			n++
		}
	}
}

func mutants(file string) ([]byte, []mutant) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(a, b token.Pos, text, what string) {
		ms = append(ms, mutant{file, fset.Position(a).Line, off(a), off(b), text, what})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
	}
	del := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s.Pos(), s.End(), "", "delete statement")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "delete statement")
				}
			case *ast.BranchStmt:
				add(s.Pos(), s.End(), "", "delete statement")
				if x.Tok == token.BREAK && x.Label == nil {
					add(s.Pos(), s.End(), "continue", "branch")
				}
				if x.Tok == token.CONTINUE && x.Label == nil {
					add(s.Pos(), s.End(), "break", "branch")
				}
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(s.Pos(), s.End(), "", "delete if")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			del(x.List)
		case *ast.CaseClause:
			del(x.Body)
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
			if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				add(x.Cond.Pos(), x.Cond.End(), text(b.X), "left operand only")
				add(x.Cond.Pos(), x.Cond.End(), text(b.Y), "right operand only")
			}
		case *ast.BinaryExpr:
			for _, r := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "operator")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.Atoi(x.Value); err == nil {
					add(x.Pos(), x.End(), strconv.Itoa(v+1), "constant")
					if v > 0 {
						add(x.Pos(), x.End(), strconv.Itoa(v-1), "constant")
					}
				}
			case token.STRING:
				if v, err := strconv.Unquote(x.Value); err == nil && len(v) > 0 {
					add(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), "string")
					add(x.Pos(), x.End(), strconv.Quote(v+" "), "string")
				}
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				r := x.Results[k-1]
				if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
					break
				}
				add(r.Pos(), r.End(), "nil", "return nil")
			}
		}
		return true
	})
	return src, ms
}
