package pfmt

import (
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// refLit is an independent reading of one Starlark string literal at the start
// of s (Bazel's rules, values are byte strings): it returns the literal's
// length, value and form, and ok=false when there is no valid literal.
func refLit(s string) (n int, val string, triple, raw, ok bool) {
	i := 0
	if strings.HasPrefix(s, "r") {
		raw = true
		i = 1
	}
	if i >= len(s) || s[i] != '"' && s[i] != '\'' {
		return
	}
	q := s[i]
	delim := string(q)
	if strings.HasPrefix(s[i:], strings.Repeat(string(q), 3)) {
		delim = strings.Repeat(string(q), 3)
		triple = true
	}
	i += len(delim)
	var b strings.Builder
	hexv := func(t string) (int, bool) {
		v := 0
		for k := 0; k < len(t); k++ {
			d := strings.IndexByte("0123456789abcdef", t[k]|0x20)
			if d < 0 || t[k] < '0' || t[k] > '9' && t[k] < 'A' {
				return 0, false
			}
			v = v*16 + d
		}
		return v, true
	}
	// the bytes of the body, found before any escape is interpreted
	j := i
	for {
		if j >= len(s) {
			return
		}
		if strings.HasPrefix(s[j:], delim) {
			break
		}
		if s[j] == '\n' && !triple {
			return
		}
		if s[j] == '\\' {
			j++
			if j >= len(s) {
				return
			}
			_, w := utf8.DecodeRuneInString(s[j:])
			j += w
			continue
		}
		j++
	}
	body := s[i:j]
	n = j + len(delim)
	if raw {
		return n, body, triple, raw, true
	}
	for k := 0; k < len(body); {
		if body[k] != '\\' {
			b.WriteByte(body[k])
			k++
			continue
		}
		e := body[k+1]
		k += 2
		if p := strings.IndexByte(`abfnrtv\'"`, e); p >= 0 {
			b.WriteByte("\a\b\f\n\r\t\v\\'\""[p])
			continue
		}
		switch {
		case e == '\n':
		case e >= '0' && e <= '7':
			v := int(e - '0')
			for m := 0; m < 2 && k < len(body) && body[k] >= '0' && body[k] <= '7'; m++ {
				v = v*8 + int(body[k]-'0')
				k++
			}
			if v > 255 {
				return
			}
			b.WriteByte(byte(v))
		case e == 'x' || e == 'u' || e == 'U':
			w := map[byte]int{'x': 2, 'u': 4, 'U': 8}[e]
			if k+w > len(body) {
				return
			}
			v, good := hexv(body[k : k+w])
			if !good {
				return
			}
			k += w
			if e == 'x' {
				b.WriteByte(byte(v))
				break
			}
			if v > 0x10FFFF || v >= 0xD800 && v <= 0xDFFF {
				return
			}
			b.WriteRune(rune(v))
		default:
			b.WriteByte('\\')
			b.WriteByte(e)
		}
	}
	return n, b.String(), triple, raw, true
}

var litAtoms = []string{"a", "b", "é", "世", "\"", "'", "\\\"", "\\'", "\\\\", "\\n", "\\t", "\\r", "\\a", "\\b", "\\f", "\\v",
	"\\0", "\\7", "\\12", "\\101", "\\377", "\\400", "\\8", "\\9", "\\x41", "\\xff", "\\x+1", "\\x-1", "\\xg1", "\\x4", "\\u0041", "\\u00e9", "\\u+123", "\\u-123", "\\ud800", "\\u004",
	"\\U00000041", "\\U0001f600", "\\U00110000", "\\U+0000041", "\\U-0000001", "\\Ufffffff", "\\z", "\\q", "\\é", "\\.", "\\ ", "\\#", "\\/", "#", " ", "\t", "\n", "\\\n", "\"\"", "''", "\"\"\"", "'''",
	"{", "%s", "0", "1", "7", "f", "\\N{x}", "\x01", "\x00", "\x7f", "\\u", "\\x", "\\", "r"}

func drawBody(rt *rapid.T, max int) string {
	var b strings.Builder
	for n := gen.Int(rt, max); n > 0; n-- {
		b.WriteString(litAtoms[gen.Int(rt, len(litAtoms))])
	}
	return b.String()
}

func drawLit(rt *rapid.T) string {
	q := gen.Pick(rt, `"`, `'`, `"""`, `'''`)
	return gen.Pick(rt, "", "", "", "r") + q + drawBody(rt, 8) + q
}

// TestC05_Parse: the parser gives literals the value the language gives them
// and printing them keeps it.
func TestC05_Parse(t *testing.T) {
	vk.Check(t, "one literal of any quote form built from plain, escape, quote and control pieces, in one of several contexts; non-trivial: contains a backslash or a quote inside", 400000, 16000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		lit := drawLit(rt)
		pre, post := "x = ", "\n"
		switch gen.Int(rt, 6) {
		case 0:
			pre, post = "f(", ")\n"
		case 1:
			pre, post = "x = [a, ", ", b]\n"
		case 2:
			pre, post = "x = ", " % y\n"
		case 3:
			if typ.typ != build.TypeBuild && typ.typ != build.TypeWorkspace && typ.typ != build.TypeModule {
				pre, post = "def f():\n    pass\n    return ", "\n"
			}
		case 4:
			pre, post = "y = {a: ", "}\n"
		}
		src := pre + lit + post
		c.Input(src)
		c.Part("type %s", typ.name)
		c.NonTrivial(len(lit) > 4 && strings.ContainsAny(lit[2:len(lit)-1], "\\\"'"))
		n, val, triple, raw, ok := refLit(lit)
		if ok && n != len(lit) {
			// the literal ends early: what follows is not part of it
			c.Label("ends early")
			return
		}
		c.LabelIf(triple, "triple")
		c.LabelIf(raw, "raw")
		f, err := typ.parse(typ.name, []byte(src))
		if !ok {
			c.Label("invalid")
			// (the text after an unterminated literal may close it)
			if m, _, _, _, ok2 := refLit(lit + post); !ok2 && err == nil {
				c.Fail("invalid literal %q accepted (%d)", lit, m)
			}
			return
		}
		c.Label("valid")
		if err != nil {
			c.Fail("valid literal rejected: %v", err)
		}
		find := func(f *build.File) *build.StringExpr {
			var r *build.StringExpr
			build.Walk(f, func(e build.Expr, _ []build.Expr) {
				if s, ok := e.(*build.StringExpr); ok && r == nil {
					r = s
				}
			})
			return r
		}
		s := find(f)
		if s == nil {
			c.Fail("no string in the tree")
		}
		if s.Value != val {
			c.Fail("value %q, the language says %q", s.Value, val)
		}
		if s.TripleQuote != triple {
			c.Fail("TripleQuote %v", s.TripleQuote)
		}
		u, tq, err := build.Unquote(lit)
		if err != nil || u != val || tq != triple {
			c.Fail("Unquote = %q %v %v, want %q", u, tq, err, val)
		}
		check := func(what, out string) {
			c.Part("%s: %q", what, out)
			rest := out // the first quote in the output opens the literal
			i := strings.IndexAny(rest, `"'`)
			if i < 0 {
				c.Fail("%s: no literal printed", what)
			}
			if i > 0 && rest[i-1] == 'r' && (i < 2 || !isWord(rest[i-2])) {
				i--
			}
			_, v2, tr2, _, ok := refLit(rest[i:])
			if !ok {
				c.Fail("%s: printed literal is invalid", what)
			}
			if v2 != val || tr2 != triple {
				c.Fail("%s: printed literal denotes %q (triple %v), want %q", what, v2, tr2, val)
			}
			f2, err := typ.parse(typ.name, []byte(out))
			if err != nil {
				c.Fail("%s: does not parse: %v", what, err)
			}
			if s2 := find(f2); s2 == nil || s2.Value != val {
				c.Fail("%s: reparsed value differs", what)
			}
		}
		check("layout", string(build.FormatWithoutRewriting(f)))
		check("full", string(build.Format(f)))
		if n, v, _, _, ok := refLit(build.FormatString(s)); !ok || v != val || n != len(build.FormatString(s)) {
			c.Fail("FormatString(%q) = %q", lit, build.FormatString(s))
		}
	})
}

func isWord(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
}

// TestC05_Construct: strings made by tools print to literals with that value.
func TestC05_Construct(t *testing.T) {
	vk.Check(t, "a string node with a drawn value, triple flag and an absent, matching or stale token, printed in a file of a drawn type; non-trivial: the value has a byte that needs care", 300000, 12000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		var val string
		if gen.Pct(rt, 50) {
			val = drawBody(rt, 8)
		} else {
			n := gen.Int(rt, 8)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(gen.Int(rt, 256))
				if gen.Pct(rt, 60) {
					b[i] = "\"\"\"'\\\n\ra\x00"[gen.Int(rt, 9)]
				}
			}
			val = string(b)
		}
		triple := gen.Pct(rt, 40)
		s := &build.StringExpr{Value: val, TripleQuote: triple}
		switch gen.Int(rt, 4) {
		case 0: // a token of another value, as left behind by tools that set Value
			lit := drawLit(rt)
			if n, _, _, _, ok := refLit(lit); ok && n == len(lit) {
				s.Token = lit
			}
		case 1: // a raw or plain token of this very value
			lit := gen.Pick(rt, "", "r") + gen.Pick(rt, `"`, `'`, `"""`, `'''`)
			lit += val + strings.TrimLeft(lit, "r")
			if n, _, _, _, ok := refLit(lit); ok && n == len(lit) {
				s.Token = lit
			}
		}
		c.Input(val)
		c.Part("%q triple=%v token=%q type %s", val, triple, s.Token, typ.name)
		c.NonTrivial(strings.ContainsAny(val, "\"'\\\n\r\x00") || !utf8.ValidString(val))
		c.LabelIf(triple, "triple")
		c.LabelIf(s.Token != "", "token")
		verify := func(what, lit string) {
			n, v, tr, _, ok := refLit(lit)
			if !ok || n != len(lit) {
				c.Fail("%s: printed %q is not one literal", what, lit)
			}
			if v != val {
				c.Fail("%s: printed %q denotes %q", what, lit, v)
			}
			if tr != triple {
				c.Fail("%s: printed %q has triple=%v", what, lit, tr)
			}
		}
		verify("FormatString", build.FormatString(s))
		f, err := typ.parse(typ.name, []byte("x = 1\n"))
		if err != nil {
			c.Fail("parse: %v", err)
		}
		f.Stmt[0].(*build.AssignExpr).RHS = s
		out := string(build.FormatWithoutRewriting(f))
		verify("file", strings.TrimSuffix(strings.TrimPrefix(out, "x = "), "\n"))
		f2, err := typ.parse(typ.name, []byte(out))
		if err != nil {
			c.Fail("output does not parse: %v\n%q", err, out)
		}
		if got := f2.Stmt[0].(*build.AssignExpr).RHS.(*build.StringExpr).Value; got != val {
			c.Fail("reparsed %q", got)
		}
	})
}
