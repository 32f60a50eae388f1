// Package pfmt holds the checks of the parser and the formatter.
package pfmt

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// sgText writes a tree as Starlark with parentheses around every compound
// operand, so its grouping does not depend on any precedence rule.
func sgText(e build.Expr) string {
	var x func(e build.Expr) string
	p := func(e build.Expr) string {
		switch e.(type) {
		case *build.Ident, *build.ListExpr, *build.DictExpr, *build.Comprehension, *build.StringExpr, *build.ParenExpr:
			return x(e)
		}
		return "(" + x(e) + ")"
	}
	list := func(l []build.Expr) string {
		var r []string
		for _, a := range l {
			r = append(r, x(a))
		}
		return strings.Join(r, ", ")
	}
	body := func(l []build.Expr, ind string) string {
		var r string
		for _, s := range l {
			for _, line := range strings.Split(x(s), "\n") {
				r += "\n" + ind + line
			}
		}
		return r
	}
	x = func(e build.Expr) string {
		switch e := e.(type) {
		case nil:
			return ""
		case *build.Ident:
			return e.Name
		case *build.BranchStmt:
			return e.Token
		case *build.LiteralExpr:
			return e.Token
		case *build.StringExpr:
			return strconv.QuoteToASCII(e.Value)
		case *build.ParenExpr:
			return "(" + x(e.X) + ")"
		case *build.ListExpr:
			return "[" + list(wrap(e.List)) + "]"
		case *build.TupleExpr:
			if len(e.List) == 1 {
				return "(" + p(e.List[0]) + ",)"
			}
			return "(" + list(wrap(e.List)) + ")"
		case *build.SetExpr:
			return "{" + list(wrap(e.List)) + "}"
		case *build.DictExpr:
			var r []string
			for _, kv := range e.List {
				r = append(r, x(kv))
			}
			return "{" + strings.Join(r, ", ") + "}"
		case *build.KeyValueExpr:
			return p(e.Key) + ": " + p(e.Value)
		case *build.CallExpr:
			var r []string
			for _, a := range e.List {
				switch y := a.(type) {
				case *build.AssignExpr:
					r = append(r, x(y.LHS)+" = "+p(y.RHS))
				case *build.UnaryExpr:
					if y.Op == "*" || y.Op == "**" {
						r = append(r, y.Op+p(y.X))
						continue
					}
					r = append(r, p(a))
				default:
					r = append(r, p(a))
				}
			}
			return p(e.X) + "(" + strings.Join(r, ", ") + ")"
		case *build.DotExpr:
			return p(e.X) + "." + e.Name
		case *build.IndexExpr:
			return p(e.X) + "[" + p(e.Y) + "]"
		case *build.SliceExpr:
			o := func(y build.Expr) string {
				if y == nil {
					return ""
				}
				return p(y)
			}
			s := p(e.X) + "[" + o(e.From) + ":" + o(e.To)
			if e.SecondColon.Byte != 0 || e.Step != nil {
				s += ":" + o(e.Step)
			}
			return s + "]"
		case *build.UnaryExpr:
			if e.X == nil {
				return e.Op
			}
			return e.Op + " " + p(e.X)
		case *build.BinaryExpr:
			return p(e.X) + " " + e.Op + " " + p(e.Y)
		case *build.ConditionalExpr:
			return p(e.Then) + " if " + p(e.Test) + " else " + p(e.Else)
		case *build.LambdaExpr:
			var r []string
			for _, a := range e.Params {
				if y, ok := a.(*build.AssignExpr); ok {
					r = append(r, x(y.LHS)+" = "+p(y.RHS))
				} else {
					r = append(r, x(a))
				}
			}
			return "lambda " + strings.Join(r, ", ") + ": " + p(e.Body[0])
		case *build.Comprehension:
			o, c := "[", "]"
			if e.Curly {
				o, c = "{", "}"
			}
			s := o
			if kv, ok := e.Body.(*build.KeyValueExpr); ok {
				s += x(kv)
			} else {
				s += p(e.Body)
			}
			for _, cl := range e.Clauses {
				switch y := cl.(type) {
				case *build.ForClause:
					s += " for " + loopText(y.Vars, x) + " in " + p(y.X)
				case *build.IfClause:
					s += " if " + p(y.Cond)
				}
			}
			return s + c
		case *build.AssignExpr:
			return x(e.LHS) + " " + e.Op + " " + p(e.RHS)
		case *build.ReturnStmt:
			if e.Result == nil {
				return "return"
			}
			return "return " + p(e.Result)
		case *build.DefStmt:
			var r []string
			for _, a := range e.Params {
				if y, ok := a.(*build.AssignExpr); ok {
					r = append(r, x(y.LHS)+" = "+p(y.RHS))
				} else {
					r = append(r, x(a))
				}
			}
			return "def " + e.Name + "(" + strings.Join(r, ", ") + "):" + body(e.Body, "    ")
		case *build.IfStmt:
			s := "if " + p(e.Cond) + ":" + body(e.True, "    ")
			if len(e.False) > 0 {
				s += "\nelse:" + body(e.False, "    ")
			}
			return s
		case *build.ForStmt:
			return "for " + loopText(e.Vars, x) + " in " + p(e.X) + ":" + body(e.Body, "    ")
		}
		panic("sgText: unknown node")
	}
	return x(e) + "\n"
}

func wrap(l []build.Expr) []build.Expr {
	var r []build.Expr
	for _, e := range l {
		r = append(r, &build.ParenExpr{X: e})
	}
	return r
}

func loopText(e build.Expr, x func(build.Expr) string) string {
	if t, ok := e.(*build.TupleExpr); ok && t.NoBrackets {
		var r []string
		for _, a := range t.List {
			r = append(r, x(a))
		}
		return strings.Join(r, ", ")
	}
	return x(e)
}
