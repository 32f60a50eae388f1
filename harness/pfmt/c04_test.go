package pfmt

import (
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// drawInput draws an input of any kind.
func drawInput(rt *rapid.T) (string, string) {
	switch gen.Int(rt, 13) {
	case 10:
		return gen.Odd(rt), "odd"
	case 11:
		return gen.Mutate(rt, gen.Odd(rt)), "odd, mutated"
	case 0, 1:
		return gen.Soup(rt), "token soup"
	case 2:
		n := gen.Int(rt, 30)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(gen.Int(rt, 256))
		}
		return string(b), "random bytes"
	case 3:
		return gen.File(rt, gen.Cfg{WildComment: true}).Text, "valid"
	default:
		return gen.Mutate(rt, gen.File(rt, gen.Cfg{WildComment: gen.Pct(rt, 50), BuildLike: gen.Pct(rt, 50), MaxStmts: 4}).Text), "mutated"
	}
}

// TestC04_Total: the parser returns a file or a located error for every input.
func TestC04_Total(t *testing.T) {
	vk.Check(t, "token soups, random bytes, valid programs, calls with the names the formatter knows and arguments of every shape, and mutated programs; non-trivial: longer than 10 bytes and not a pristine program", 300000, 12000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		src, kind := drawInput(rt)
		c.Input(src)
		c.Part("type %s", typ.name)
		orig := append(make([]byte, 0, len(src)+8), src...)
		backing := append(orig, "KEEP"...)
		f, err := typ.parse(typ.name, orig)
		if string(backing) != src+"KEEP" {
			c.Fail("the parser overwrote the caller's buffer: %q", backing)
		}
		c.NonTrivial(len(src) > 10 && kind != "valid")
		c.Label(kind)
		if (f == nil) == (err == nil) {
			c.Fail("file %v and error %v", f, err)
		}
		if err != nil {
			c.Label(kind + ": rejected")
			pe, ok := err.(build.ParseError)
			if !ok {
				c.Fail("error is not a ParseError: %T %v", err, err)
			}
			if pe.Filename != typ.name || !strings.HasPrefix(err.Error(), typ.name+":") {
				c.Fail("error does not name the file: %v", err)
			}
			if pe.Message == "" || strings.Contains(pe.Message, "internal error") {
				c.Fail("internal error reported: %v", err)
			}
			checkPos(c, src+"\n", pe.Pos)
			return
		}
		c.Label(kind + ": accepted")
		n := 0
		build.Walk(f, func(e build.Expr, stk []build.Expr) {
			n++
			e.Span()
		})
		build.WalkStatements(f, func(e build.Expr, stk []build.Expr) error { return nil })
		dump := astx.Dump(f, astx.Opt{})
		out := build.FormatWithoutRewriting(f)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		if d2 := astx.Dump(f2, astx.Opt{}); dump != d2 {
			c.Fail("program changed\nbefore: %s\nafter:  %s", dump, d2)
		}
		full := build.Format(f2)
		c.Part("full output:\n%s", full)
		if _, err := typ.parse(typ.name, full); err != nil {
			c.Fail("fully formatted output does not parse: %v", err)
		}
	})
}

// checkPos: the position lies inside the text and its parts agree.
func checkPos(c *vk.Case, text string, p build.Position) {
	if p.Byte < 0 || p.Byte > len(text) {
		c.Fail("position %+v: byte offset outside the text of %d bytes", p, len(text))
	}
	pre := text[:p.Byte]
	line := 1 + strings.Count(pre, "\n")
	col := 1 + utf8.RuneCountInString(pre[strings.LastIndexByte(pre, '\n')+1:])
	if p.Line != line || p.LineRune != col {
		c.Fail("position %+v: byte %d is line %d column %d", p, p.Byte, line, col)
	}
}

// TestC04_Deep: deeply nested and long inputs are handled without blow-up.
func TestC04_Deep(t *testing.T) {
	vk.Check(t, "one or two constructs nested in each other 20 to 400 levels deep, or chained; non-trivial: all (a case running longer than the watchdog limit is reported as a hang)", 400, 8000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		type wrap struct{ pre, post string }
		wraps := []wrap{{"(", ")"}, {"[", "]"}, {"{1: ", "}"}, {"f(", ")"}, {"f(a = ", ")"}, {"-(", ")"}, {"not (", ")"}, {"a[", "]"}, {"(", ").b"},
			{"(1 + ", ")"}, {"1 + ", ""}, {"", " + 1"}, {"lambda: ", ""}, {"(x if y else ", ")"}, {"x if y else ", ""}, {"[x for x in ", "]"}, {"(", ",)"}, {"", ".b"}, {"", "()"}, {"", "[0]"}, {"\"a\" + ", ""}, {"select({\"x\": ", "})"}, {"[\n", "\n]"}, {"(\n", "\n)"}, {"f(\n", ",\n)"}, {"[], ", ""}}
		n := 20 + gen.Int(rt, 200)
		w1, w2 := wraps[gen.Int(rt, len(wraps))], wraps[gen.Int(rt, len(wraps))]
		s := gen.Pick(rt, "1", "a", `"s"`, "")
		for i := 0; i < n; i++ {
			s = w1.pre + w2.pre + s + w2.post + w1.post
		}
		if gen.Pct(rt, 20) {
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(strings.Repeat(" ", i) + gen.Pick(rt, "if a:", "for a in b:", "def f():") + "\n")
			}
			s = b.String() + strings.Repeat(" ", n) + "pass"
		}
		s = gen.Pick(rt, "", "x = ", "cc_library(deps = ") + s
		if strings.HasPrefix(s, "cc_library(") {
			s += ")"
		}
		c.Input(s)
		c.Part("type %s", typ.name)
		c.NonTrivial(true)
		f, err := typ.parse(typ.name, []byte(s))
		if err != nil {
			c.Label("rejected")
			if strings.Contains(err.Error(), "internal error") {
				c.Fail("internal error reported: %v", err)
			}
			return
		}
		c.Label("accepted")
		dump := astx.Dump(f, astx.Opt{})
		out := build.FormatWithoutRewriting(f)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		if astx.Dump(f2, astx.Opt{}) != dump {
			c.Fail("program changed; output:\n%s", out)
		}
		build.Format(f)
	})
}
