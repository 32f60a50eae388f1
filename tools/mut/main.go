// mut FILE        lists the mutants of a Go file (index, line, kind, old -> new)
// mut FILE N      prints the file with mutant N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	from, to int
	text     string
	kind     string
}

func main() {
	name := os.Args[1]
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var all []mutant
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(from, to token.Pos, t, kind string) {
		all = append(all, mutant{off(from), off(to), t, kind})
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"},
		token.GTR: {">="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				if n.Op == token.LAND || n.Op == token.LOR {
					add(n.Pos(), n.End(), "("+text(n.X)+")", "drop-right")
					add(n.Pos(), n.End(), "("+text(n.Y)+")", "drop-left")
				}
				for _, s := range swap[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "op")
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if-false")
				if n.Else != nil {
					add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "if-true")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.Atoi(n.Value); err == nil {
						add(n.Pos(), n.End(), strconv.Itoa(v+1), "int")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n.Pos(), n.End(), text(n.X), "not")
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "false", "bool")
				} else if n.Name == "false" {
					add(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i, e := range n.List {
						from, to := e.Pos(), e.End()
						if i+1 < len(n.List) {
							to = n.List[i+1].Pos()
						} else {
							from = n.List[i-1].End()
						}
						add(from, to, "", "case")
					}
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt:
						add(s.Pos(), s.End(), "", "delete")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "delete")
						}
					case *ast.IncDecStmt:
						add(s.Pos(), s.End(), "", "delete")
					case *ast.BranchStmt:
						if s.Label == nil && s.Tok == token.CONTINUE {
							add(s.Pos(), s.End(), "", "delete")
							add(s.Pos(), s.End(), "break", "branch")
						}
					}
				}
			}
			return true
		})
	}
	if len(os.Args) == 2 {
		for i, m := range all {
			fmt.Printf("%d\t%d\t%s\t%q -> %q\n", i, 1+strings.Count(string(src[:m.from]), "\n"), m.kind, string(src[m.from:m.to]), m.text)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := all[n]
	fmt.Print(string(src[:m.from]) + m.text + string(src[m.to:]))
}
