package pfmt

import (
	"regexp"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

func digits(rt *rapid.T, set string, min, max int) string {
	var b strings.Builder
	for i := min + gen.Int(rt, max-min+1); i > 0; i-- {
		b.WriteByte(set[gen.Int(rt, len(set))])
	}
	return b.String()
}

func drawNumber(rt *rapid.T) (string, string) {
	exp := func() string {
		return gen.Pick(rt, "e", "e", "E") + gen.Pick(rt, "", "", "+", "-") + gen.Pick(rt, "", "", "0", "00") + digits(rt, "0123456789", 1, 3)
	}
	switch gen.Int(rt, 10) {
	case 0:
		return "0", "int"
	case 1:
		return digits(rt, "123456789", 1, 1) + digits(rt, "0123456789", 0, 25), "int"
	case 2:
		return gen.Pick(rt, "0x", "0X") + digits(rt, "0123456789abcdefABCDEF", 1, 9), "hex"
	case 3:
		return gen.Pick(rt, "0x", "0X") + digits(rt, "0123456789abcdef", 0, 3) + gen.Pick(rt, "e", "E", "0e", "e0"), "hex"
	case 4:
		return gen.Pick(rt, "0o", "0O") + digits(rt, "01234567", 1, 9), "octal"
	case 5:
		return "0" + digits(rt, "01234567", 1, 9), "old octal"
	case 6:
		return digits(rt, "0123456789", 0, 3) + "." + digits(rt, "0123456789", 1, 4), "float"
	case 7:
		return digits(rt, "0123456789", 1, 3) + exp(), "float"
	case 8:
		return digits(rt, "0123456789", 1, 3) + ".", "float"
	default:
		return digits(rt, "0123456789", 0, 3) + "." + digits(rt, "0123456789", 1, 4) + exp(), "float"
	}
}

// refNum is kind and exact value of a literal by the language's rules.
func refNum(tok string) string {
	t := strings.ToLower(tok)
	if strings.HasPrefix(t, "0x") {
		return numValue(t)
	}
	return numValue(t)
}

var normalInt = regexp.MustCompile(`^(0|[1-9][0-9]*|0[xX][0-9a-fA-F]+|0[oO][0-7]+)$`)
var normalFloat = regexp.MustCompile(`^[0-9]+\.[0-9]*(e-?[0-9]+)?$|^[0-9]+[eE][-+]?[0-9]+$`)

// TestC11_Numbers: number literals keep their kind and value and get the documented form.
func TestC11_Numbers(t *testing.T) {
	vk.Check(t, "numeric literals of every form (decimal, hex, both octals, floats with and without point, exponent and leading zeros) inside expressions; non-trivial: the formatter writes at least one literal differently", 100000, 4000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		var toks []string
		var b strings.Builder
		num := func() {
			tok, kind := drawNumber(rt)
			toks = append(toks, tok)
			c.Label(kind)
			b.WriteString(tok)
		}
		op := func() {
			b.WriteString(gen.Pick(rt, "+", "-", " - ", " + ", "*", " % ", " == ", " < "))
		}
		for i := 1 + gen.Int(rt, 3); i > 0; i-- {
			switch gen.Int(rt, 7) {
			case 0:
				b.WriteString("x = ")
				num()
			case 1:
				b.WriteString("x = ")
				num()
				op()
				num()
			case 2:
				b.WriteString("f(a = ")
				num()
				b.WriteString(", b = -")
				num()
				b.WriteString(")")
			case 3:
				b.WriteString("x = [")
				num()
				b.WriteString(",")
				num()
				b.WriteString("]")
			case 4:
				b.WriteString("x = a[")
				num()
				b.WriteString(":")
				num()
				b.WriteString("]")
			case 5:
				b.WriteString("x = {")
				num()
				b.WriteString(": ")
				num()
				op()
				b.WriteString("y}")
			case 6:
				b.WriteString("x = ")
				num()
				b.WriteString(" if y else (")
				num()
				b.WriteString(")")
			}
			b.WriteString("\n")
		}
		c.Input(b.String())
		c.Part("type %s", typ.name)
		f, err := typ.parse(typ.name, []byte(b.String()))
		if err != nil {
			c.Label("rejected")
			return
		}
		lits := func(f *build.File) (r []string) {
			astx.FromAST(f).Each(func(n *astx.N) {
				if n.K == "num" {
					r = append(r, n.V)
				}
			})
			return
		}
		in := lits(f)
		if strings.Join(in, " ") != strings.Join(toks, " ") {
			c.Fail("the parser reads the numbers %q instead of %q", in, toks)
		}
		out := build.Format(f)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		got := lits(f2)
		if len(got) != len(toks) {
			c.Fail("numbers %q became %q", toks, got)
		}
		for i, s := range got {
			if refNum(s) != refNum(toks[i]) {
				c.Fail("%s (%s) became %s (%s)", toks[i], refNum(toks[i]), s, refNum(s))
			}
			if !normalInt.MatchString(s) && !normalFloat.MatchString(s) {
				c.Fail("%s is written as %s, which is not the normal form", toks[i], s)
			}
		}
		c.NonTrivial(strings.Join(got, " ") != strings.Join(toks, " "))
	})
}

// docLine splits a line into its leading spaces, its words and its trailing spaces.
func docLine(s string) (int, string, int) {
	w := strings.TrimLeft(s, " ")
	lead := len(s) - len(w)
	t := strings.TrimRight(w, " ")
	return lead, t, len(w) - len(t)
}

// docVal decodes the escapes of one line of a docstring token; a backslash at
// the end of the line is kept.
func docVal(line string, raw bool) string {
	if raw {
		return line
	}
	var b strings.Builder
	for i := 0; i < len(line); i++ {
		switch {
		case line[i] == '"' || line[i] == '\'':
			b.WriteString(`\` + line[i:i+1])
		case line[i] == '\\' && i+1 == len(line):
			b.WriteString(`\\<eol>`)
		case line[i] == '\\':
			b.WriteString(line[i : i+2])
			i++
		default:
			b.WriteByte(line[i])
		}
	}
	_, v, _, _, ok := refLit(`"""` + b.String() + `"""`)
	if !ok {
		panic(line)
	}
	return v
}

// TestC11_Docstrings: reindenting a docstring shifts its lines and touches nothing else.
func TestC11_Docstrings(t *testing.T) {
	vk.Check(t, "functions with multi-line docstrings at drawn indentations and nesting (if, elif, else, for, def), with blank, short, over-indented, tab-indented and backslash-terminated lines and both quote styles, raw or not; non-trivial: a docstring changes", 60000, 3000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		pct := func(n int) bool { return gen.Pct(rt, n) }
		var b strings.Builder
		n := 0
		var def func(ind string, depth int)
		def = func(ind string, depth int) {
			n++
			b.WriteString(ind + "def f(x, y = 1):")
			in := ind + strings.Repeat(" ", 1+gen.Int(rt, 8))
			if pct(85) {
				b.WriteString("\n" + in)
			} else {
				b.WriteString(" ")
				depth = 9
			}
			q := gen.Pick(rt, `"""`, `"""`, `"""`, `'''`)
			if pct(15) {
				b.WriteString("r")
			}
			b.WriteString(q + gen.Pick(rt, "Doc.", "Doc.  ", "", "  lead", "é \\\\", "q' \" q"))
			for i := gen.Int(rt, 6); i > 0; i-- {
				b.WriteString("\n" + gen.Pick(rt, in, in, in, in+"  ", in+"    ", "", " ", "\t", in+"\t", strings.Repeat(" ", gen.Int(rt, 14))))
				b.WriteString(gen.Pick(rt, "", "", "word", "Args:", "x: the  x", "é  ü", "*", `\\`, `\\ `, `\`, `\ `, `\   `, `a \\\  `, `a \\\`, "' \" '", "#") + gen.Pick(rt, "", "", " ", "   ", "\t"))
			}
			b.WriteString(gen.Pick(rt, "", "\n", "\n"+in, "\n"+in, "\n"+ind, "\n"+in+"   "))
			b.WriteString(q + gen.Pick(rt, "", "", "  # c") + "\n")
			if depth == 9 {
				return
			}
			switch gen.Int(rt, 6) {
			case 0:
				b.WriteString(in + "pass\n")
			case 1:
				if depth > 0 {
					def(in, depth-1)
				}
			case 2:
				b.WriteString(in + "if x:\n")
				if depth > 0 {
					def(in+" ", depth-1)
				} else {
					b.WriteString(in + "  return\n")
				}
				if depth > 0 && pct(50) {
					b.WriteString(in + "elif y:\n")
					def(in+"   ", depth-1)
				}
				if depth > 0 && pct(50) {
					b.WriteString(in + "else:\n")
					def(in+"      ", depth-1)
				}
			case 3:
				if depth > 0 {
					b.WriteString(in + "for z in x:\n")
					def(in+"     ", depth-1)
				}
			}
		}
		for i := 1 + gen.Int(rt, 2); i > 0; i-- {
			def("", 2)
		}
		c.Input(b.String())
		c.Part("type %s", typ.name)
		f, err := typ.parse(typ.name, []byte(b.String()))
		if err != nil {
			c.Label("rejected")
			return
		}
		type doc struct {
			tok, val string
			col      int
		}
		docs := func(f *build.File) (r []doc) {
			build.Walk(f, func(e build.Expr, _ []build.Expr) {
				if d, ok := e.(*build.DefStmt); ok && len(d.Body) > 0 {
					if s, ok := d.Body[0].(*build.StringExpr); ok {
						r = append(r, doc{s.Token, s.Value, s.Start.LineRune - 1})
					}
				}
			})
			return
		}
		d0 := docs(f)
		if len(d0) != n {
			c.Fail("%d docstrings instead of %d", len(d0), n)
		}
		out := build.Format(f)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		d1 := docs(f2)
		if len(d1) != n {
			c.Fail("%d docstrings became %d", n, len(d1))
		}
		for i := range d0 {
			a, z := d0[i], d1[i]
			if a.tok != z.tok {
				c.NonTrivial(true)
			}
			ra, rz := a.tok[0] == 'r', z.tok[0] == 'r'
			body := func(tok string, raw bool) []string {
				l := strings.Split(strings.Trim(tok, "r")[3:], "\n")
				l[len(l)-1] = strings.TrimSuffix(l[len(l)-1], tok[len(tok)-3:])
				for i := range l {
					l[i] = docVal(l[i], raw)
				}
				return l
			}
			la, lz := body(a.tok, ra), body(z.tok, rz)
			if len(la) != len(lz) && strings.Contains(strings.Join(la, ""), `\<eol>`) {
				// requoting joins continued lines
				c.Label("requoted")
				la = nil
			} else if len(la) != len(lz) {
				c.Fail("docstring %q has %d lines instead of %d", z.tok, len(lz), len(la))
			}
			diff := z.col - a.col
			for k := range la {
				if k == 0 {
					if la[0] != lz[0] {
						c.Fail("first docstring line %q became %q", la[0], lz[0])
					}
					continue
				}
				l0, w0, _ := docLine(la[k])
				l1, w1, t1 := docLine(lz[k])
				if k < len(la)-1 && t1 != 0 {
					c.Fail("docstring line %q keeps trailing spaces", lz[k])
				}
				if w0 != w1 {
					c.Fail("docstring line %q became %q", la[k], lz[k])
				}
				if w0 == "" {
					continue
				}
				want := l0 + diff
				if want < 0 {
					want = 0
				}
				if l1 != want {
					c.Fail("docstring line %q became %q, but the docstring moved by %d", la[k], lz[k], diff)
				}
			}
			sp := func(s string) string { return strings.Join(strings.Split(s, " "), "") }
			if sp(a.val) != sp(z.val) {
				c.Fail("docstring value %q became %q", a.val, z.val)
			}
			c.Label("docstring")
		}
	})
}
