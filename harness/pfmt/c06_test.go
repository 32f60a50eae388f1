package pfmt

import (
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// tb builds expression trees from syntax nodes only (no ParenExpr).
type tb struct {
	rt    *rapid.T
	sg    bool // only constructs every Starlark parser has
	n     int
	feat  map[string]bool
	graft []build.Expr // subtrees that come from parsed text
}

func (b *tb) id() *build.Ident {
	return &build.Ident{Name: gen.Pick(b.rt, "a", "b", "c", "foo", "x1")}
}

func (b *tb) str() *build.StringExpr {
	return &build.StringExpr{Value: gen.Pick(b.rt, "", "a", "//b:c", "x y", "\"", "a\nb"), TripleQuote: gen.Pct(b.rt, 10)}
}

func (b *tb) atom() build.Expr {
	switch gen.Int(b.rt, 6) {
	case 0:
		return &build.LiteralExpr{Token: gen.Pick(b.rt, "0", "1", "42", "0x1f", "1.5", "1e5", "2.", ".5")}
	case 1:
		return b.str()
	}
	return b.id()
}

func (b *tb) exprs(min, max, d int) []build.Expr {
	var r []build.Expr
	for n := min + gen.Int(b.rt, max-min+1); n > 0; n-- {
		r = append(r, b.expr(d))
	}
	return r
}

func (b *tb) loopVars() build.Expr {
	if gen.Pct(b.rt, 70) {
		return b.id()
	}
	return &build.TupleExpr{List: []build.Expr{b.id(), b.id()}, NoBrackets: gen.Pct(b.rt, 60)}
}

func (b *tb) ml() bool { return gen.Pct(b.rt, 10) }

var binOps = []string{"+", "-", "*", "/", "//", "%", "|", "&", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "in", "not in", "and", "or"}

func isCmp(op string) bool {
	return strings.Contains(" == != < > <= >= in not in ", " "+op+" ")
}

func (b *tb) args(d int) []build.Expr {
	var r []build.Expr
	for n := gen.Int(b.rt, 3); n > 0; n-- {
		r = append(r, b.expr(d))
	}
	names := []string{"p", "q", "r"}
	for i := gen.Int(b.rt, 3); i > 0; i-- {
		r = append(r, &build.AssignExpr{LHS: &build.Ident{Name: names[i]}, Op: "=", RHS: b.expr(d)})
	}
	if gen.Pct(b.rt, 15) {
		r = append(r, &build.UnaryExpr{Op: "*", X: b.expr(d)})
	}
	if gen.Pct(b.rt, 15) {
		r = append(r, &build.UnaryExpr{Op: "**", X: b.expr(d)})
	}
	return r
}

func (b *tb) expr(d int) build.Expr {
	b.n++
	if d <= 0 || b.n > 60 {
		return b.atom()
	}
	d--
	k := gen.Int(b.rt, 24)
	mark := func(s string) { b.feat[s] = true }
	switch k {
	default:
		return b.atom()
	case 4:
		mark("list")
		return &build.ListExpr{List: b.exprs(0, 3, d), ForceMultiLine: b.ml()}
	case 5:
		mark("tuple")
		return &build.TupleExpr{List: b.exprs(0, 3, d), ForceMultiLine: b.ml()}
	case 6:
		mark("dict")
		x := &build.DictExpr{ForceMultiLine: b.ml()}
		for n := gen.Int(b.rt, 3); n > 0; n-- {
			x.List = append(x.List, &build.KeyValueExpr{Key: b.expr(d), Value: b.expr(d)})
		}
		return x
	case 7:
		if b.sg {
			return b.atom()
		}
		mark("set")
		return &build.SetExpr{List: b.exprs(1, 3, d), ForceMultiLine: b.ml()}
	case 8, 9:
		mark("call")
		return &build.CallExpr{X: b.expr(d), List: b.args(d), ForceMultiLine: b.ml(), ForceCompact: b.ml()}
	case 10:
		mark("dot")
		return &build.DotExpr{X: b.expr(d), Name: gen.Pick(b.rt, "foo", "bar", "e5")}
	case 11:
		mark("index")
		return &build.IndexExpr{X: b.expr(d), Y: b.expr(d)}
	case 12:
		mark("slice")
		s := &build.SliceExpr{X: b.expr(d)}
		if gen.Pct(b.rt, 50) {
			s.From = b.expr(d)
		}
		if gen.Pct(b.rt, 50) {
			s.To = b.expr(d)
		}
		if gen.Pct(b.rt, 30) {
			s.SecondColon.Byte = 1
			s.SecondColon.Line = 1
			if gen.Pct(b.rt, 60) {
				s.Step = b.expr(d)
				if gen.Pct(b.rt, 50) { // built by a tool
					s.SecondColon = build.Position{}
				}
			}
		}
		return s
	case 13:
		op := gen.Pick(b.rt, "-", "+", "~")
		mark("unary")
		return &build.UnaryExpr{Op: op, X: b.expr(d)}
	case 14:
		mark("not")
		return &build.UnaryExpr{Op: "not", X: b.expr(d)}
	case 15, 16, 17, 18:
		op := binOps[gen.Int(b.rt, len(binOps))]
		x, y := b.expr(d), b.expr(d)
		if bx, ok := x.(*build.BinaryExpr); ok && b.sg && isCmp(op) && isCmp(bx.Op) {
			x = b.atom() // a < b < c is not Starlark
		}
		mark("binary")
		return &build.BinaryExpr{X: x, Op: op, Y: y, LineBreak: b.ml()}
	case 19, 20:
		mark("cond")
		return &build.ConditionalExpr{Then: b.expr(d), Test: b.expr(d), Else: b.expr(d)}
	case 21:
		mark("lambda")
		l := &build.LambdaExpr{Function: build.Function{Body: []build.Expr{b.expr(d)}}}
		ns := []string{"p", "q", "r", "s"}
		n := gen.Int(b.rt, 4)
		def := false
		for i := 0; i < n; i++ {
			id := &build.Ident{Name: ns[i]}
			if def || gen.Pct(b.rt, 30) {
				def = true
				l.Params = append(l.Params, &build.AssignExpr{LHS: id, Op: "=", RHS: b.expr(d)})
			} else {
				l.Params = append(l.Params, id)
			}
		}
		return l
	case 22:
		mark("comp")
		c := &build.Comprehension{Body: b.expr(d), ForceMultiLine: b.ml()}
		if gen.Pct(b.rt, 40) {
			c.Curly = true
			c.Body = &build.KeyValueExpr{Key: b.expr(d), Value: b.expr(d)}
		}
		for n := 1 + gen.Int(b.rt, 2); n > 0; n-- {
			c.Clauses = append(c.Clauses, &build.ForClause{Vars: b.loopVars(), X: b.expr(d)})
			if gen.Pct(b.rt, 40) {
				c.Clauses = append(c.Clauses, &build.IfClause{Cond: b.expr(d)})
			}
		}
		return c
	case 23:
		if len(b.graft) > 0 {
			mark("graft")
			i := gen.Int(b.rt, len(b.graft))
			g := b.graft[i]
			b.graft = append(b.graft[:i:i], b.graft[i+1:]...)
			return g
		}
		return b.atom()
	}
}

// normalise drops what text cannot distinguish: the bare tuple of a loop header
// or an index equals a bracketed one.
func TestC06_Trees(t *testing.T) {
	vk.Check(t, "expression trees over all node kinds built without parentheses nodes (with subtrees taken from parsed text), placed in every kind of statement; non-trivial: a node that needs an operator context (binary, unary, conditional, lambda, call, attribute) and at least 5 nodes", 300000, 12000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		b := &tb{rt: rt, feat: map[string]bool{}, sg: gen.Pct(rt, 60)}
		var srcText string
		if gen.Pct(rt, 40) {
			src := gen.File(rt, gen.Cfg{StarlarkGo: b.sg, NoComments: true, MaxStmts: 2})
			srcText = src.Text
			if f, err := build.ParseBzl("y.bzl", []byte(src.Text)); err == nil {
				for _, s := range f.Stmt {
					switch s := s.(type) {
					case *build.AssignExpr:
						if s.Op == "=" {
							b.graft = append(b.graft, s.RHS)
						}
					case *build.CallExpr:
						b.graft = append(b.graft, s)
					}
				}
			}
			var keep []build.Expr
			for _, g := range b.graft {
				if tp, ok := g.(*build.TupleExpr); ok && tp.NoBrackets {
					continue // a bare tuple is text-level syntax of its statement
				}
				keep = append(keep, g)
			}
			b.graft = keep
		}
		e := b.expr(4)
		var stmt build.Expr
		typ := fileTypes[1]
		switch gen.Int(rt, 9) {
		default:
			stmt = &build.AssignExpr{LHS: &build.Ident{Name: "v"}, Op: "=", RHS: e, LineBreak: b.ml()}
			typ = drawType(rt)
		case 4:
			stmt = &build.CallExpr{X: &build.Ident{Name: "f"}, List: []build.Expr{e}}
			typ = drawType(rt)
		case 5:
			stmt = &build.DefStmt{Name: "f", Function: build.Function{Params: []build.Expr{&build.AssignExpr{LHS: &build.Ident{Name: "p"}, Op: "=", RHS: e}}, Body: []build.Expr{&build.ReturnStmt{Result: b.expr(3)}}}}
		case 6:
			stmt = &build.DefStmt{Name: "f", Function: build.Function{Body: []build.Expr{&build.IfStmt{Cond: e, True: []build.Expr{&build.BranchStmt{Token: "pass"}}, False: []build.Expr{&build.ReturnStmt{Result: b.expr(3)}}}}}}
		case 7:
			stmt = &build.DefStmt{Name: "f", Function: build.Function{Body: []build.Expr{&build.ForStmt{Vars: b.loopVars(), X: e, Body: []build.Expr{b.expr(3)}}}}}
		case 8:
			stmt = e
		}
		want := astx.Dump(stmt, astx.Opt{})
		c.Input(want)
		c.Part("type %s\nsource of parsed subtrees:\n%s", typ.name, srcText)
		c.NonTrivial(b.n >= 5 && (b.feat["binary"] || b.feat["unary"] || b.feat["cond"] || b.feat["lambda"] || b.feat["call"] || b.feat["dot"] || b.feat["not"]))
		for f := range b.feat {
			c.Label(f)
		}
		f := &build.File{Path: typ.name, Type: typ.typ, Stmt: []build.Expr{stmt}}
		out := string(build.FormatWithoutRewriting(f))
		c.Part("printed:\n%s", out)
		if after := astx.Dump(stmt, astx.Opt{}); after != want {
			c.Fail("printing changed the tree: %s", after)
		}
		f2, err := typ.parse(typ.name, []byte(out))
		if err != nil {
			c.Fail("printed text does not parse: %v", err)
		}
		if got := astx.Dump(f2, astx.Opt{}); got != want {
			c.Fail("printed text means another tree:\n%s\nwant\n%s", got, want)
		}
		if stmt == e {
			if f3, err := build.ParseDefault("x", []byte(build.FormatString(e)+"\n")); err != nil || astx.Dump(f3, astx.Opt{}) != want {
				c.Fail("FormatString gives %q (%v)", build.FormatString(e), err)
			}
		}
		if b.sg {
			// a second parser must read the same tree: print it fully parenthesised
			full := sgText(stmt)
			s1, e1 := astx.ParseSG(full)
			s2, e2 := astx.ParseSG(out)
			if e1 != nil {
				c.Label("not starlark-go")
				return
			}
			c.Label("starlark-go")
			if e2 != nil {
				c.Fail("Starlark-Go rejects the printed text: %v\nbut reads\n%s", e2, full)
			}
			if d1, d2 := astx.DumpSG(s1), astx.DumpSG(s2); d1 != d2 {
				c.Fail("Starlark-Go reads another tree:\n%s\nwant\n%s", d2, d1)
			}
		}
	})
}
