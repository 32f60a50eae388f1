package gen

import (
	"strings"

	"pgregory.net/rapid"
)

var tokens = []string{"a", "foo", "b1", "True", "0", "1", "007", "0x1F", "1.5", "1e3", ".5", "1.", "0o17", "08", "1_000",
	`"s"`, `'s'`, `"""t"""`, "'''t'''", `r"\x"`, `b"x"`, `"\n"`, `"\q"`, `"\303\251"`, `"\u00e9"`, `"é"`, `"\é"`, `"`, `'`, `"""`, "'''", `r"`, `\`, "\\\n",
	"(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "//", "%", "|", "&", "^", "~", "<<", ">>", "**", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=", "->", "!",
	"and", "or", "not", "in", "not in", "is", "if", "else", "elif", "for", "while", "lambda", "def", "return", "pass", "break", "continue", "load", "import", "class", "print",
	"\n", "\n", "\n    ", "\n  ", "\n\n", " ", "  ", "\t", "\r\n", "\r", "# c", "# c\n", "#", "$", "@", "?", "`", "\x00", "\x80", "\xff", "\u2028", "é", "世", "\ufeff"}

// Token draws one lexical token (or an invalid one).
func Token(t *rapid.T) string {
	if Pct(t, 4) {
		return escaped(t)
	}
	return Pick(t, tokens...)
}

// escaped draws a string with an escape sequence of any length.
func escaped(t *rapid.T) string {
	q := Pick(t, `"`, `'`, `"""`, "'''")
	s := q + Pick(t, "", "", "a") + `\` + Pick(t, "x", "u", "U", "0", "3", "7", "N")
	for n := Int(t, 10); n > 0; n-- {
		s += Pick(t, "0", "0", "1", "4", "7", "d", "F")
	}
	return s + Pick(t, "", "", "g") + q
}

// Soup draws a sequence of tokens.
func Soup(t *rapid.T) string {
	var b strings.Builder
	n := 1 + Int(t, 25)
	for i := 0; i < n; i++ {
		b.WriteString(Token(t))
		if Pct(t, 60) {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// Mutate changes a text at a few random places.
func Mutate(t *rapid.T, s string) string {
	pos := func() int {
		if len(s) == 0 {
			return 0
		}
		// two draws: positions are needed beyond 256
		return (Int(t, 256)*256 + Int(t, 256)) % (len(s) + 1)
	}
	n := 1 + Int(t, 3)
	for i := 0; i < n; i++ {
		switch Int(t, 8) {
		case 0: // truncate
			s = s[:pos()]
		case 1: // delete a span
			p := pos()
			q := p + 1 + Int(t, 6)
			if q > len(s) {
				q = len(s)
			}
			s = s[:p] + s[q:]
		case 2, 3: // insert a token
			p := pos()
			s = s[:p] + Token(t) + s[p:]
		case 4: // replace a byte
			p := pos()
			if p < len(s) {
				s = s[:p] + string([]byte{byte(Int(t, 256))}) + s[p+1:]
			}
		case 5: // duplicate a span
			p := pos()
			q := p + 1 + Int(t, 40)
			if q > len(s) {
				q = len(s)
			}
			s = s[:q] + s[p:q] + s[q:]
		case 6: // swap two lines
			l := strings.Split(s, "\n")
			a, b := Int(t, len(l)%256+1)%len(l), Int(t, len(l)%256+1)%len(l)
			l[a], l[b] = l[b], l[a]
			s = strings.Join(l, "\n")
		case 7: // delete a line
			l := strings.Split(s, "\n")
			a := Int(t, len(l)%256+1) % len(l)
			l = append(l[:a], l[a+1:]...)
			s = strings.Join(l, "\n")
		}
	}
	return s
}
