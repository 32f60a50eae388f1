package pfmt

import (
	"bytes"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// respace writes the same tokens, comments and line breaks with other horizontal whitespace.
func respace(rt *rapid.T, src string, scale int) string {
	var b strings.Builder
	spaces := func(min int) {
		n := min
		if gen.Pct(rt, 40) {
			n = min + gen.Int(rt, 4)
		}
		ch := " "
		if gen.Pct(rt, 5) {
			ch = "\t"
		}
		b.WriteString(strings.Repeat(ch, n))
	}
	wordy := func(ch byte) bool {
		return ch == '_' || ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '"' || ch == '\'' || ch >= 0x80
	}
	depth, start, cont := 0, true, false
	last := byte('\n')
	for i := 0; i < len(src); {
		j := i
		for j < len(src) && (src[j] == ' ' || src[j] == '\t') {
			j++
		}
		run := j - i
		next := byte('\n')
		if j < len(src) {
			next = src[j]
		}
		switch {
		case start && depth == 0 && !cont:
			if next == '\n' {
				spaces(0)
			} else {
				b.WriteString(strings.Repeat(" ", scale*run))
			}
		case start || next == '\n' || next == '#' || next == '\\':
			spaces(0)
		case last == '.' || next == '.':
			// maybe a part of a number
			b.WriteString(src[i:j])
		case strings.IndexByte("()[]{},;", last) >= 0 || strings.IndexByte("()[]{},;", next) >= 0:
			if run > 0 || gen.Pct(rt, 20) {
				spaces(0)
			}
		case run > 0:
			spaces(1)
		}
		start, cont = false, false
		i = j
		if i >= len(src) {
			break
		}
		switch ch := src[i]; {
		case ch == '\n':
			b.WriteByte(ch)
			start, last = true, ch
			i++
		case ch == '\\' && i+1 < len(src) && src[i+1] == '\n':
			b.WriteString("\\\n")
			start, cont, last = true, true, '\n'
			i += 2
		case ch == '#':
			k := i
			for k < len(src) && src[k] != '\n' {
				k++
			}
			b.WriteString(src[i:k])
			if src[k-1] != ' ' && src[k-1] != '\t' && gen.Pct(rt, 10) {
				spaces(1)
			}
			i = k
			if i < len(src) {
				b.WriteByte('\n')
				start, last = true, '\n'
				i++
			}
		case ch == '"' || ch == '\'':
			q := src[i : i+1]
			if strings.HasPrefix(src[i:], q+q+q) {
				q = q + q + q
			}
			k := i + len(q)
			for k < len(src) && !strings.HasPrefix(src[k:], q) {
				if src[k] == '\\' {
					k++
				}
				k++
			}
			k += len(q)
			if k > len(src) {
				k = len(src)
			}
			b.WriteString(src[i:k])
			last = ch
			i = k
		case wordy(ch):
			k := i
			for k < len(src) && wordy(src[k]) && src[k] != '"' && src[k] != '\'' {
				k++
			}
			b.WriteString(src[i:k])
			last = src[k-1]
			i = k
			if k < len(src) && (src[k] == '"' || src[k] == '\'') {
				continue // a prefix of a string, its quote follows immediately
			}
		default:
			switch ch {
			case '(', '[', '{':
				depth++
			case ')', ']', '}':
				depth--
			}
			b.WriteByte(ch)
			last = ch
			i++
		}
	}
	return b.String()
}

// canonical checks the layout of formatted text: what is wrong, or "".
func canonical(f *build.File, out string) string {
	if out == "" {
		return ""
	}
	if !strings.HasSuffix(out, "\n") {
		return "no newline at the end"
	}
	lines := strings.Split(out, "\n")
	inString := make([]bool, len(lines)+2) // the end of the line is in a string (1-based)
	build.Walk(f, func(x build.Expr, _ []build.Expr) {
		if s, ok := x.(*build.StringExpr); ok {
			for l := s.Start.Line; l < s.End.Line; l++ {
				inString[l] = true
			}
		}
	})
	blank := 0
	for i, l := range lines[:len(lines)-1] {
		if inString[i+1] {
			blank = 0
			continue
		}
		if l == "" {
			blank++
			if blank == 3 {
				return "three blank lines before line " + itoa(i+2)
			}
			if i == 0 {
				return "a blank line at the beginning"
			}
			if i == len(lines)-2 {
				return "a blank line at the end"
			}
			continue
		}
		blank = 0
		if strings.TrimRight(l, " \t\r") != l {
			return "trailing whitespace on line " + itoa(i+1)
		}
		if i == 0 || !inString[i] {
			if t := strings.TrimLeft(l, " "); t[0] == '\t' {
				return "a tab in the indentation of line " + itoa(i+1)
			}
		}
	}
	bad := ""
	var block func(l []build.Expr, depth int)
	block = func(l []build.Expr, depth int) {
		for _, s := range l {
			if s == nil {
				continue
			}
			pos, _ := s.Span()
			if _, ok := s.(*build.CommentBlock); !ok && pos.LineRune != 4*depth+1 {
				bad = "the statement on line " + itoa(pos.Line) + " is not indented by " + itoa(4*depth)
			}
			for _, c := range s.Comment().Before {
				if c.Start.LineRune != 4*depth+1 {
					bad = "the comment on line " + itoa(c.Start.Line) + " is not indented by " + itoa(4*depth)
				}
			}
			switch s := s.(type) {
			case *build.DefStmt:
				block(s.Body, depth+1)
			case *build.ForStmt:
				block(s.Body, depth+1)
			case *build.IfStmt:
				for {
					block(s.True, depth+1)
					if len(s.False) == 1 {
						e, ok := s.False[0].(*build.IfStmt)
						if ok && strings.HasPrefix(lines[e.If.Line-1][e.If.LineRune-1:], "elif") {
							s = e
							continue
						}
					}
					break
				}
				block(s.False, depth+1)
			}
		}
	}
	block(f.Stmt, 0)
	return bad
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

// TestC41_Whitespace: horizontal whitespace of the input does not matter, and the output has the canonical layout.
func TestC41_Whitespace(t *testing.T) {
	vk.Check(t, "grammar-generated files of the 5 types, printed a second time with other horizontal whitespace (between tokens, at the ends of lines, inside brackets, other indentation width); non-trivial: the two texts differ by at least 5 bytes and have at least two syntax features", 200000, 8000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		src := gen.File(rt, gen.Cfg{WildComment: gen.Pct(rt, 50), BuildLike: gen.Pct(rt, 40)})
		if gen.Pct(rt, 8) {
			src = &gen.Src{Text: gen.Odd(rt)}
		}
		layout := gen.Pct(rt, 50)
		scale := 1
		if layout && gen.Pct(rt, 50) || !strings.Contains(src.Text, `"""`) && !strings.Contains(src.Text, "'''") {
			scale = 1 + gen.Int(rt, 3)
		}
		other := respace(rt, src.Text, scale)
		c.Input(src.Text)
		c.Part("type %s", typ.name)
		c.Part("other whitespace:\n%s", other)
		format := func(text string) ([]byte, error) {
			f, err := typ.parse(typ.name, []byte(text))
			if err != nil {
				return nil, err
			}
			if layout {
				return build.FormatWithoutRewriting(f), nil
			}
			return build.Format(f), nil
		}
		o1, err1 := format(src.Text)
		o2, err2 := format(other)
		if (err1 == nil) != (err2 == nil) {
			c.Fail("accepted with one whitespace only: %v / %v", err1, err2)
		}
		if err1 != nil {
			c.Label("rejected")
			return
		}
		c.Part("output:\n%s", o1)
		if !bytes.Equal(o1, o2) {
			c.Fail("formatted differently with other whitespace (rewrites: %v):\n%s", !layout, o2)
		}
		f, err := typ.parse(typ.name, o1)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		if bad := canonical(f, string(o1)); bad != "" {
			c.Fail("%s", bad)
		}
		d := 0
		for i := 0; i < len(other) && i < len(src.Text); i++ {
			if other[i] != src.Text[i] {
				d++
			}
		}
		c.NonTrivial(d+len(other)-len(src.Text) >= 5 && len(src.Feats()) >= 2)
	})
}
