package psyn

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

type posFile struct {
	src   string
	c     *vk.Case
	nodes int
}

func (p *posFile) at(e build.Expr, what string, x build.Position) int {
	if x.Byte < 0 || x.Byte > len(p.src) {
		p.c.Fail("%s of %T is at byte %d of %d", what, e, x.Byte, len(p.src))
	}
	pre := p.src[:x.Byte]
	line := 1 + strings.Count(pre, "\n")
	col := 1 + utf8.RuneCountInString(pre[strings.LastIndexByte(pre, '\n')+1:])
	if x.Line != line || x.LineRune != col {
		p.c.Fail("%s of %T says line %d column %d, but byte %d is line %d column %d\n%s", what, e, x.Line, x.LineRune, x.Byte, line, col, build.FormatString(e))
	}
	return x.Byte
}

func kindOf(e build.Expr) string { return strings.TrimPrefix(fmt.Sprintf("%T", e), "*build.") }

func (p *posFile) check(e build.Expr, lo, hi int) {
	p.nodes++
	s, z := e.Span()
	a := p.at(e, "the start", s)
	b := p.at(e, "the end", z)
	if a < lo || b > hi || a > b {
		p.c.Fail("%s spans bytes %d-%d, outside of its parent's %d-%d\n%q in %q", kindOf(e), a, b, lo, hi, p.src[min(a, b):max(a, b)], p.src[lo:hi])
	}
	p.text(e, p.src[a:b])
	p.tokens(e, a, b)
	last := a
	var prev build.Expr
	for _, ch := range astx.Children(e) {
		if astx.IsNil(ch) {
			continue
		}
		if _, ok := e.(*build.LoadStmt); ok {
			if id, ok := ch.(*build.Ident); ok {
				// from and to may share a place
				p.load(id, a, b)
				continue
			}
		}
		cs, ce := ch.Span()
		if cs.Byte < last {
			p.c.Fail("%s at byte %d of %s starts before the end of its sibling %s\n%q", kindOf(ch), cs.Byte, kindOf(e), kindOf(prev), p.src[a:b])
		}
		p.check(ch, a, b)
		last, prev = ce.Byte, ch
	}
}

// tokens checks the positions of operators, keywords and brackets.
func (p *posFile) tokens(e build.Expr, lo, hi int) {
	tok := func(x build.Position, s string) {
		if s == "" {
			return
		}
		a := p.at(e, "the token "+s, x)
		if a < lo || a+len(s) > hi || p.src[a:a+len(s)] != s {
			p.c.Fail("token %q of %s is said to be at byte %d of %q", s, kindOf(e), a, p.src[lo:hi])
		}
	}
	switch x := e.(type) {
	case *build.BinaryExpr:
		tok(x.OpStart, strings.Fields(x.Op)[0])
	case *build.AssignExpr:
		tok(x.OpPos, x.Op)
	case *build.UnaryExpr:
		tok(x.OpStart, x.Op)
	case *build.DotExpr:
		tok(x.Dot, ".")
		tok(x.NamePos, x.Name)
	case *build.KeyValueExpr:
		tok(x.Colon, ":")
	case *build.CallExpr:
		tok(x.ListStart, "(")
		tok(x.End.Pos, ")")
	case *build.ListExpr:
		tok(x.Start, "[")
		tok(x.End.Pos, "]")
	case *build.DictExpr:
		tok(x.Start, "{")
		tok(x.End.Pos, "}")
	case *build.SetExpr:
		tok(x.Start, "{")
		tok(x.End.Pos, "}")
	case *build.TupleExpr:
		if !x.NoBrackets {
			tok(x.Start, "(")
			tok(x.End.Pos, ")")
		}
	case *build.ParenExpr:
		tok(x.Start, "(")
		tok(x.End.Pos, ")")
	case *build.Comprehension:
		if x.Curly {
			tok(x.Lbrack, "{")
			tok(x.End.Pos, "}")
		} else {
			tok(x.Lbrack, "[")
			tok(x.End.Pos, "]")
		}
	case *build.ForClause:
		tok(x.For, "for")
		tok(x.In, "in")
	case *build.IfClause:
		tok(x.If, "if")
	case *build.ConditionalExpr:
		tok(x.IfStart, "if")
		tok(x.ElseStart, "else")
	case *build.LambdaExpr:
		tok(x.StartPos, "lambda")
	case *build.IndexExpr:
		tok(x.IndexStart, "[")
		tok(x.End, "]")
	case *build.SliceExpr:
		tok(x.SliceStart, "[")
		tok(x.FirstColon, ":")
		if x.Step != nil {
			tok(x.SecondColon, ":")
		}
		tok(x.End, "]")
	case *build.DefStmt:
		tok(x.StartPos, "def")
		tok(x.ColonPos, ":")
	case *build.ForStmt:
		tok(x.For, "for")
	case *build.IfStmt:
		if strings.HasPrefix(p.src[lo:], "elif") {
			tok(x.If, "elif")
		} else {
			tok(x.If, "if")
		}
		if len(x.False) > 0 && !strings.HasPrefix(p.src[x.ElsePos.Pos.Byte:], "elif") {
			tok(x.ElsePos.Pos, "else")
		}
	case *build.ReturnStmt:
		tok(x.Return, "return")
	case *build.BranchStmt:
		tok(x.TokenPos, x.Token)
	case *build.LoadStmt:
		tok(x.Load, "load")
		tok(x.Rparen.Pos, ")")
	}
}

func (p *posFile) load(id *build.Ident, lo, hi int) {
	s, _ := id.Span()
	a := p.at(id, "the start", s)
	if a < lo || a >= hi || !strings.HasPrefix(p.src[a:], id.Name) && !(len(p.src) > a+1 && strings.HasPrefix(p.src[a+1:], id.Name)) {
		p.c.Fail("loaded symbol %s is said to be at byte %d: %q", id.Name, a, p.src[lo:hi])
	}
}

// text checks that the covered text is the construct.
func (p *posFile) text(e build.Expr, txt string) {
	switch e.(type) {
	case *build.File, *build.CommentBlock, *build.KeyValueExpr, *build.ForClause, *build.IfClause, *build.TypedIdent:
		return
	}
	want := astx.FromAST(e).String()
	var got string
	switch x := e.(type) {
	case *build.DefStmt, *build.IfStmt, *build.ForStmt, *build.LoadStmt, *build.ReturnStmt, *build.BranchStmt, *build.AssignExpr:
		// statements: indent the first line as in the file
		if _, ok := e.(*build.AssignExpr); ok && x != nil {
			src := "f(" + txt + ")\n"
			f, err := build.ParseDefault("t", []byte(src))
			if err == nil {
				if call, ok := f.Stmt[0].(*build.CallExpr); ok && len(call.List) == 1 && astx.FromAST(call.List[0]).String() == want {
					return
				}
			}
			f, err = build.ParseDefault("t", []byte("def f("+txt+"):\n  pass\n"))
			if err == nil {
				if def, ok := f.Stmt[0].(*build.DefStmt); ok && len(def.Params) == 1 && astx.FromAST(def.Params[0]).String() == want {
					return
				}
			}
		}
		s, _ := e.Span()
		pre := p.src[:s.Byte]
		ind := pre[strings.LastIndexByte(pre, '\n')+1:]
		if strings.Trim(ind, " \t") != "" {
			ind = ""
		}
		if _, ok := e.(*build.IfStmt); ok && strings.HasPrefix(txt, "elif") {
			txt = txt[2:]
		}
		src := txt + "\n"
		if ind != "" {
			src = "if x:\n" + ind + txt + "\n"
		}
		f, err := build.ParseDefault("t", []byte(src))
		if err != nil {
			p.c.Fail("the text of a %s does not parse: %v\n%q", kindOf(e), err, src)
		}
		st := f.Stmt[0]
		if ind != "" {
			st = st.(*build.IfStmt).True[0]
		}
		got = astx.FromAST(st).String()
	case *build.UnaryExpr:
		if x.Op == "*" || x.Op == "**" {
			if !strings.HasPrefix(txt, x.Op) {
				p.c.Fail("the text of an argument is %q", txt)
			}
			return
		}
		got = p.reparse(e, txt)
	default:
		got = p.reparse(e, txt)
	}
	if got != want {
		p.c.Fail("%s %s covers the text %q, which is %s", kindOf(e), want, txt, got)
	}
}

func (p *posFile) reparse(e build.Expr, txt string) string {
	src := "(" + txt + "\n)\n"
	f, err := build.ParseDefault("t", []byte(src))
	if err != nil {
		p.c.Fail("the text of a %s does not parse: %v\n%q", kindOf(e), err, txt)
	}
	if len(f.Stmt) != 1 {
		return "several statements"
	}
	st := f.Stmt[0]
	if par, ok := st.(*build.ParenExpr); ok {
		return astx.FromAST(par.X).String()
	}
	return astx.FromAST(st).String()
}

var parsers = []struct {
	name  string
	parse func(string, []byte) (*build.File, error)
}{{"BUILD", build.ParseBuild}, {"WORKSPACE", build.ParseWorkspace}, {"MODULE.bazel", build.ParseModule}, {"x.bzl", build.ParseBzl}, {"x.star", build.ParseDefault}}

// TestC14_Positions: positions and spans of all constructs.
func TestC14_Positions(t *testing.T) {
	vk.Check(t, "grammar-generated files with comments, odd layout, non-ASCII text, multi-line strings and continuation lines; every construct of every file is checked; non-trivial: at least 10 constructs", 50000, 3000000, func(rt *rapid.T, c *vk.Case) {
		src := gen.File(rt, gen.Cfg{WildComment: gen.Pct(rt, 30), NoComments: gen.Pct(rt, 20), BuildLike: gen.Pct(rt, 30)})
		if gen.Pct(rt, 8) {
			src.Text = snippets[gen.Int(rt, len(snippets))] + src.Text
		}
		pr := parsers[gen.Int(rt, len(parsers))]
		c.Input(src.Text)
		f, err := pr.parse(pr.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		p := &posFile{src: src.Text, c: c}
		last := 0
		for _, s := range f.Stmt {
			if astx.IsNil(s) {
				continue
			}
			a, z := s.Span()
			if a.Byte < last {
				c.Fail("%s starts at byte %d, inside of the statement before it", kindOf(s), a.Byte)
			}
			p.check(s, 0, len(src.Text))
			last = z.Byte
		}
		// comments
		build.Walk(f, func(e build.Expr, _ []build.Expr) {
			cm := e.Comment()
			for _, l := range [][]build.Comment{cm.Before, cm.Suffix, cm.After} {
				for _, x := range l {
					if x.Token == "" {
						continue
					}
					a := p.at(e, "a comment", x.Start)
					if !strings.HasPrefix(src.Text[a:], strings.TrimSpace(x.Token)) {
						c.Fail("comment %q is said to be at byte %d: %q", x.Token, a, src.Text[a:min(len(src.Text), a+20)])
					}
				}
			}
		})
		c.Evals(p.nodes)
		c.NonTrivial(p.nodes >= 10)
	})
}
