package astx

import (
	"fmt"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// N is a plain copy of a syntax tree without parentheses, comments and positions,
// on which reference models work.
type N struct {
	K    string // kind
	V    string // name, operator, token or string value
	C    []*N
	Line int // 1-based line of the node's start
	Col  int // 1-based column
	T    bool
	Tok  string // string literals: the token
	P    bool   // written in parentheses
	PM   bool   // ... that are not trivial
}

func (n *N) String() string {
	if n == nil {
		return "nil"
	}
	var b strings.Builder
	b.WriteString("(" + n.K)
	if n.V != "" || n.K == "str" {
		fmt.Fprintf(&b, " %q", n.V)
	}
	for _, c := range n.C {
		if n.K == "file" || n.K == "body" {
			b.WriteString("\n")
		} else {
			b.WriteString(" ")
		}
		b.WriteString(c.String())
	}
	return b.String() + ")"
}

// Copy copies the tree.
func (n *N) Copy() *N {
	if n == nil {
		return nil
	}
	m := *n
	m.C = nil
	for _, c := range n.C {
		m.C = append(m.C, c.Copy())
	}
	return &m
}

// Each visits n and everything below, parents first.
func (n *N) Each(f func(*N)) {
	if n == nil {
		return
	}
	f(n)
	for _, c := range n.C {
		c.Each(f)
	}
}

// FromAST converts a tree. Comment blocks and nil statements are left out;
// call arguments are "arg" (positional), "kw", "*" and "**" nodes.
func FromAST(e build.Expr) *N {
	if IsNil(e) {
		return nil
	}
	list := func(xs []build.Expr) []*N {
		var r []*N
		for _, x := range xs {
			if IsNil(x) {
				continue
			}
			if _, ok := x.(*build.CommentBlock); ok {
				continue
			}
			r = append(r, FromAST(x))
		}
		return r
	}
	n := &N{}
	s, _ := e.Span()
	n.Line, n.Col = s.Line, s.LineRune
	switch x := e.(type) {
	case *build.File:
		n.K, n.C = "file", list(x.Stmt)
	case *build.Ident:
		n.K, n.V = "id", x.Name
	case *build.TypedIdent:
		n.K, n.C = "typed", []*N{FromAST(x.Ident), FromAST(x.Type)}
	case *build.BranchStmt:
		n.K, n.V = "branch", x.Token
	case *build.LiteralExpr:
		n.K, n.V = "num", x.Token
	case *build.StringExpr:
		n.K, n.V, n.T, n.Tok = "str", x.Value, x.TripleQuote, x.Token
	case *build.CallExpr:
		n.K = "call"
		n.C = []*N{FromAST(x.X)}
		for _, a := range x.List {
			if IsNil(a) {
				continue
			}
			y := FromAST(a)
			switch {
			case y.K == "assign" && y.V == "=":
				m := &N{K: "kw", C: []*N{y.C[1]}, Line: y.Line, Col: y.Col}
				if y.C[0].K == "id" {
					m.V = y.C[0].V
				} else {
					m.V = y.C[0].String()
				}
				y = m
			case y.K == "un" && (y.V == "*" || y.V == "**"):
				y = &N{K: y.V, C: y.C, Line: y.Line, Col: y.Col}
			default:
				y = &N{K: "arg", C: []*N{y}, Line: y.Line, Col: y.Col}
			}
			n.C = append(n.C, y)
		}
	case *build.DotExpr:
		n.K, n.V, n.C = "dot", x.Name, []*N{FromAST(x.X)}
	case *build.Comprehension:
		n.K = "listcomp"
		if x.Curly {
			n.K = "dictcomp"
		}
		n.C = append([]*N{FromAST(x.Body)}, list(x.Clauses)...)
	case *build.ForClause:
		n.K, n.C = "forc", []*N{FromAST(x.Vars), FromAST(x.X)}
	case *build.IfClause:
		n.K, n.C = "ifc", []*N{FromAST(x.Cond)}
	case *build.KeyValueExpr:
		n.K, n.C = "kv", []*N{FromAST(x.Key), FromAST(x.Value)}
	case *build.DictExpr:
		n.K = "dict"
		for _, kv := range x.List {
			n.C = append(n.C, FromAST(kv))
		}
	case *build.ListExpr:
		n.K, n.C = "list", list(x.List)
	case *build.SetExpr:
		n.K, n.C = "set", list(x.List)
	case *build.TupleExpr:
		n.K, n.C = "tuple", list(x.List)
	case *build.UnaryExpr:
		n.K, n.V = "un", x.Op
		if x.X != nil {
			n.C = []*N{FromAST(x.X)}
		}
	case *build.BinaryExpr:
		n.K, n.V, n.C = "bin", x.Op, []*N{FromAST(x.X), FromAST(x.Y)}
	case *build.AssignExpr:
		n.K, n.V, n.C = "assign", x.Op, []*N{FromAST(x.LHS), FromAST(x.RHS)}
	case *build.ParenExpr:
		y := FromAST(x.X)
		y.P = true
		switch z := x.X.(type) {
		case *build.ParenExpr, *build.Ident, *build.LiteralExpr, *build.StringExpr, *build.ListExpr, *build.DictExpr, *build.SetExpr, *build.Comprehension:
			y.PM = y.PM || x.ForceMultiLine
		case *build.CallExpr:
			a, b := z.X.Span()
			y.PM = x.ForceMultiLine || a.Line != b.Line
		default:
			y.PM = true
		}
		return y
	case *build.SliceExpr:
		n.K = "slice"
		for _, y := range []build.Expr{x.X, x.From, x.To, x.Step} {
			if IsNil(y) {
				n.C = append(n.C, &N{K: "none"})
			} else {
				n.C = append(n.C, FromAST(y))
			}
		}
	case *build.IndexExpr:
		n.K, n.C = "index", []*N{FromAST(x.X), FromAST(x.Y)}
	case *build.LambdaExpr:
		n.K = "lambda"
		n.C = []*N{{K: "params", C: list(x.Params)}, FromAST(x.Body[0])}
	case *build.ConditionalExpr:
		n.K, n.C = "cond", []*N{FromAST(x.Then), FromAST(x.Test), FromAST(x.Else)}
	case *build.LoadStmt:
		n.K, n.V = "load", x.Module.Value
		for i := range x.From {
			n.C = append(n.C, &N{K: "sym", V: x.To[i].Name, C: []*N{{K: "from", V: x.From[i].Name}}})
		}
	case *build.DefStmt:
		n.K, n.V = "def", x.Name
		n.C = []*N{{K: "params", C: list(x.Params)}}
		if x.Type != nil {
			n.C = append(n.C, FromAST(x.Type))
		} else {
			n.C = append(n.C, &N{K: "none"})
		}
		n.C = append(n.C, &N{K: "body", C: list(x.Body)})
	case *build.ReturnStmt:
		n.K = "return"
		if x.Result != nil {
			n.C = []*N{FromAST(x.Result)}
		}
	case *build.ForStmt:
		n.K, n.C = "for", []*N{FromAST(x.Vars), FromAST(x.X), {K: "body", C: list(x.Body)}}
	case *build.IfStmt:
		n.K, n.C = "if", []*N{FromAST(x.Cond), {K: "body", C: list(x.True)}, {K: "body", C: list(x.False)}}
	default:
		panic(fmt.Sprintf("astx: node %T", e))
	}
	return n
}
