// Package gen generates Starlark source text (BUILD, WORKSPACE, MODULE.bazel,
// .bzl) with arbitrary layout and uniquely numbered comments.
package gen

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Cfg restricts what is generated.
type Cfg struct {
	StarlarkGo  bool // only syntax that Starlark-Go (2021) accepts
	NoComments  bool
	SaneComment bool // WildComment only where lists, arguments and operators may be broken
	WildComment bool // comments at any token boundary inside brackets and at odd indentation
	Plain       bool // no odd layout (single spaces, no continuation lines)
	BuildLike   bool // top level is mostly rule calls
	NoLoads     bool
	ASCII       bool // no non-ASCII string contents
	NoDefs      bool
	NoBackslash bool // no backslash-newline continuations
	NoSemi      bool
	MaxStmts    int
	MaxDepth    int
	Idents      []string
	Modules     []string
	StmtHook    func(g *G) bool // may emit a statement itself
}

// Src is a generated file.
type Src struct {
	Text     string
	Comments []string
	Feat     map[string]bool
}

// Feats lists the features, sorted.
func (s *Src) Feats() []string {
	var r []string
	for k := range s.Feat {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// G is the state of a generation.
type G struct {
	T        *rapid.T
	C        Cfg
	b        strings.Builder
	paren    int
	ind      string
	nc       int
	Comments []string
	feat     map[string]bool
	budget   int
	loops    int
	inline   bool // the last block was an inline suite
	defs     int
}

func (g *G) mark(f string) { g.feat[f] = true }

// P is true with probability pct/100 and shrinks to false.
func (g *G) P(pct int) bool { return Pct(g.T, pct) }

var uniform [257]*rapid.Generator[int]

func init() {
	for n := 1; n <= 256; n++ {
		xs := make([]int, n)
		for i := range xs {
			xs[i] = i
		}
		uniform[n] = rapid.SampledFrom(xs)
	}
}

// Int draws uniformly from 0..n-1 (rapid's integer generators are biased to
// small values); shrinks to 0.
func Int(t *rapid.T, n int) int {
	if n >= len(uniform) {
		return (Int(t, 256)*65536 + Int(t, 256)*256 + Int(t, 256)) % n
	}
	if n <= 1 {
		return 0
	}
	return uniform[n].Draw(t, "n")
}

// Pct is true with probability pct/100; shrinks to false.
func Pct(t *rapid.T, pct int) bool { return uniform[100].Draw(t, "p") >= 100-pct }

// Pick draws one of the strings uniformly.
func Pick(t *rapid.T, xs ...string) string { return xs[Int(t, len(xs))] }

// N draws 0..n-1.
func (g *G) N(n int) int {
	return Int(g.T, n)
}

// Pick draws one of the strings.
func (g *G) Pick(xs ...string) string { return xs[g.N(len(xs))] }

// W writes text.
func (g *G) W(s string) { g.b.WriteString(s) }

// Comment draws a new comment text with a unique number.
func (g *G) Comment() string {
	g.nc++
	c := fmt.Sprintf("# c%d", g.nc)
	switch g.N(9) {
	case 1:
		c += " some text"
	case 6:
		if g.P(50) {
			c += " " + g.Pick("keep sorted", "do not sort", "buildifier: leave-alone", "buildifier: disable=load-on-top", "buildifier: disable=same-origin-load", "buildifier: disable=out-of-order-load", "unsafe-sort")
			g.mark("marker-comment")
		}
	case 2:
		c = fmt.Sprintf("#c%d", g.nc)
	case 3:
		c += " 'quote\" \\"
	case 4:
		c += " # more"
	case 5:
		c += " é世"
	}
	g.Comments = append(g.Comments, c)
	return c
}

// ws writes optional whitespace between two tokens.
func (g *G) ws() {
	if g.C.Plain {
		return
	}
	r := g.N(40)
	switch {
	case r < 30:
	case r < 35:
		g.W(" ")
	case r < 36:
		g.W("   ")
	case r == 36 && !g.C.NoBackslash:
		g.W(" \\\n" + strings.Repeat(" ", g.N(9)))
		g.mark("backslash")
	case r >= 37 && g.paren > 0:
		g.nl(g.C.WildComment)
	}
}

// wsn is ws inside a construct that the printer keeps on one line.
func (g *G) wsn() {
	if g.C.SaneComment {
		w := g.C.WildComment
		g.C.WildComment = false
		g.ws()
		g.C.WildComment = w
		return
	}
	g.ws()
}

func (g *G) spn() {
	g.W(" ")
	if !g.C.Plain && g.P(4) {
		g.wsn()
	}
}

// sp writes required whitespace.
func (g *G) sp() {
	g.W(" ")
	if !g.C.Plain && g.P(4) {
		g.ws()
	}
}

// nl writes a line break inside brackets, with optional comments.
func (g *G) nl(comments bool) {
	if comments && !g.C.NoComments && g.P(25) {
		g.W(g.Pick("  ", " ", "", "\t") + g.Comment())
		g.mark("suffix-comment-in-brackets")
	}
	g.W("\n")
	for i := g.N(3); i > 0 && comments && !g.C.NoComments && g.P(40); i-- {
		g.W(strings.Repeat(" ", g.N(6)) + g.Comment() + "\n")
		g.mark("line-comment-in-brackets")
		if g.P(20) {
			g.W("\n")
		}
	}
	g.W(g.ind + strings.Repeat(" ", g.N(9)))
}

// brk writes layout at a natural break inside brackets.
func (g *G) brk(multi bool) {
	if g.C.Plain {
		return
	}
	if multi && g.P(85) || g.P(4) {
		g.nl(true)
		return
	}
	if g.P(10) {
		g.W(" ")
	}
}

var idents = []string{"a", "b", "c", "foo", "bar", "x", "y", "native", "ctx", "deps", "srcs", "name", "glob", "select", "None", "True", "False", "_priv", "len"}
var kwargs = []string{"name", "deps", "srcs", "visibility", "hdrs", "copts", "x", "tags", "data", "size", "testonly", "args", "runtime_deps", "exports", "default", "key"}
var rules = []string{"cc_library", "java_library", "py_binary", "genrule", "filegroup", "package", "test_suite", "my_rule", "exports_files", "sh_test"}
var modules = []string{":a.bzl", "//foo:a.bzl", "//foo:b.bzl", "@repo//x:y.bzl", "//:defs.bzl", "@rules_cc//cc:defs.bzl", "//foo/bar:a.bzl", "b.bzl"}

// Ident draws an identifier.
func (g *G) Ident() string {
	if len(g.C.Idents) > 0 {
		return g.C.Idents[g.N(len(g.C.Idents))]
	}
	return idents[g.N(len(idents))]
}

// plain identifiers usable as assignment targets / parameters
func (g *G) target() string { return g.Pick("a", "b", "c", "foo", "bar", "x", "y", "_priv") }

// LabelText draws a label-like string.
func (g *G) LabelText() string {
	repo := g.Pick("", "", "", "@r", "@foo", "@@foo", "@")
	pkg := g.Pick("foo", "foo/bar", "", "pkg", "a/b/c", "third_party/m4", "r")
	tgt := g.Pick("foo", "bar", "m4", "c", "x.txt", "sub/x.txt", "r", "__pkg__", "...", "all")
	switch g.N(8) {
	case 0:
		return ":" + tgt
	case 1:
		return tgt
	case 2:
		return repo + "//" + pkg
	case 3:
		return repo + "//" + pkg + ":" + tgt
	case 4:
		i := strings.LastIndexByte(pkg, '/')
		return repo + "//" + pkg + ":" + pkg[i+1:]
	case 5:
		return repo
	case 6:
		return "//" + pkg + ":" + tgt
	default:
		return "//conditions:default"
	}
}

// StrContent draws the content of a string.
func (g *G) StrContent() string {
	s := g.strContent()
	if g.C.StarlarkGo || g.C.ASCII {
		// buildtools writes non-ASCII bytes it has to re-quote as octal escapes,
		// which Bazel (Latin-1 source strings) reads back as the same bytes but
		// Starlark-Go rejects
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				return "na"
			}
		}
	}
	return s
}

func (g *G) strContent() string {
	switch g.N(7) {
	case 0:
		return g.Pick("", "a", "b", "x.py", "foo")
	case 1, 2:
		return g.LabelText()
	case 3:
		return g.Pick("it's", `say "hi"`, `both ' and "`, "tab\there", "back\\slash", "nl\nx", "é", "世界", "#not a comment", "a b", "%s", "{}", "\x00", "\x7f")
	default:
		return g.Pick("a", "b", "c", "d.cc", "e.h", ":x", "-Wall", "zz", "10", "9")
	}
}

// Str writes a string literal with the given content in a random valid form.
func (g *G) Str(s string) {
	g.W(g.StrLit(s))
}

// StrLit renders content as a literal that both parsers accept.
func (g *G) StrLit(s string) string {
	form := g.N(12)
	raw := form >= 10 && !strings.ContainsAny(s, "\\\n\x00\r") && !(strings.Contains(s, "'") && strings.Contains(s, `"`))
	if raw {
		g.mark("raw-string")
		q := `"`
		if strings.Contains(s, `"`) || (form == 11 && !strings.Contains(s, "'")) {
			q = "'"
		}
		return "r" + q + s + q
	}
	q := `"`
	if form == 5 || form == 6 || form == 8 {
		q = `'`
		g.mark("single-quoted")
	}
	triple := form >= 7 && form <= 9
	if triple {
		g.mark("triple-quoted")
	}
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			if triple && form != 9 {
				b.WriteString("\n")
			} else {
				b.WriteString(`\n`)
			}
		case r == '\t':
			if form%2 == 0 {
				b.WriteString(`\t`)
			} else {
				b.WriteRune(r)
			}
		case r == 0:
			b.WriteString(`\0`)
		case string(r) == q:
			b.WriteString(`\` + q)
		default:
			b.WriteRune(r)
		}
	}
	if triple {
		q = q + q + q
	}
	return q + b.String() + q
}

func (g *G) number() {
	switch g.N(8) {
	case 0, 1, 2:
		g.W(g.Pick("0", "1", "2", "42", "10"))
	case 3:
		g.W(g.Pick("0x1F", "0X1f", "0o17", "0xabc"))
	case 4:
		g.W(g.Pick("1.5", "0.5", "1.0", "10.25"))
		g.mark("float")
	case 5:
		g.W(g.Pick("1.5e10", "2.5e-3", "1.0E5", "3.25e+07", "1.5e+10", "1.5E-07"))
		g.mark("float-exp")
	case 6:
		if g.C.StarlarkGo {
			g.W("7")
		} else {
			g.W(g.Pick("017", "0123", "00"))
			g.mark("old-octal")
		}
	case 7:
		g.W(g.Pick("123456789012345678901234567890", "999", "100"))
	}
}

// Expr writes an expression. prec: 0 allows a bare tuple, 1 lambda/if-else,
// 2 or, 3 and, 4 not, 5 comparison, 6 |, 7 ^, 8 &, 9 shifts, 10 +-, 11 */, 12 unary, 13 primary.
func (g *G) Expr(prec, depth int) {
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		g.atom()
		return
	}
	k := g.N(34)
	open := func(need int) bool {
		if prec > need {
			g.W("(")
			g.paren++
			g.ws()
			return true
		}
		return false
	}
	closeIf := func(o bool) {
		if o {
			g.ws()
			g.paren--
			g.W(")")
		}
	}
	switch {
	case k < 8:
		g.atom()
	case k < 12:
		g.list(depth)
	case k < 15:
		g.Call(depth, "")
	case k < 18:
		op := g.N(12)
		type bo struct {
			s string
			p int
		}
		ops := []bo{{"+", 10}, {"+", 10}, {"-", 10}, {"*", 11}, {"/", 11}, {"//", 11}, {"%", 11}, {"|", 6}, {"&", 8}, {"^", 7}, {"<<", 9}, {">>", 9}}
		o := ops[op]
		g.mark("binary")
		p := open(o.p)
		g.Expr(o.p, depth-1)
		g.wsn()
		g.W(g.Pick(" ", " ", " ", "") + o.s + g.Pick(" ", " ", " ", ""))
		g.ws()
		g.Expr(o.p+1, depth-1)
		closeIf(p)
	case k < 20:
		o := g.Pick("==", "!=", "<", ">", "<=", ">=", "in", "not in")
		g.mark("comparison")
		p := open(5)
		g.Expr(6, depth-1)
		g.sp()
		g.W(strings.Replace(o, " ", g.Pick(" ", "  "), 1))
		g.sp()
		g.Expr(6, depth-1)
		closeIf(p)
	case k == 20:
		g.mark("boolean")
		o, pr := "and", 3
		if g.P(50) {
			o, pr = "or", 2
		}
		p := open(pr)
		g.Expr(pr, depth-1)
		g.sp()
		g.W(o)
		g.sp()
		g.Expr(pr+1, depth-1)
		closeIf(p)
	case k == 21:
		g.mark("not")
		p := open(4)
		g.W("not")
		g.spn()
		g.Expr(4, depth-1)
		closeIf(p)
	case k == 22:
		g.mark("unary")
		p := open(12)
		g.W(g.Pick("-", "+", "~"))
		g.wsn()
		g.Expr(12, depth-1)
		closeIf(p)
	case k == 23:
		g.mark("conditional")
		p := open(1)
		g.Expr(2, depth-1)
		g.spn()
		g.W("if")
		g.spn()
		g.Expr(2, depth-1)
		g.spn()
		g.W("else")
		g.spn()
		g.Expr(1, depth-1)
		closeIf(p)
	case k == 24:
		g.mark("lambda")
		p := open(1)
		g.W("lambda")
		g.params(depth-1, true)
		g.W(":")
		g.spn()
		g.Expr(1, depth-1)
		closeIf(p)
	case k == 25:
		g.mark("dot")
		g.primary(depth - 1)
		g.wsn()
		g.W(".")
		g.wsn()
		g.W(g.Pick("foo", "bar", "append", "attr", "name"))
	case k == 26:
		g.mark("index")
		g.primary(depth - 1)
		g.W("[")
		g.paren++
		g.wsn()
		g.Expr(0, depth-1)
		g.wsn()
		g.paren--
		g.W("]")
	case k == 27:
		g.mark("slice")
		g.primary(depth - 1)
		g.W("[")
		g.paren++
		if g.P(60) {
			g.Expr(1, depth-1)
		}
		g.wsn()
		g.W(":")
		g.wsn()
		if g.P(60) {
			g.Expr(1, depth-1)
		}
		if g.P(30) {
			g.W(":")
			if g.P(60) {
				g.Expr(1, depth-1)
			}
		}
		g.wsn()
		g.paren--
		g.W("]")
	case k == 28:
		g.dict(depth)
	case k == 29:
		g.comprehension(depth)
	case k == 30:
		g.tuple(depth)
	case k == 31:
		g.mark("paren")
		g.W("(")
		g.paren++
		g.brk(g.P(30))
		g.Expr(1, depth-1)
		g.brk(g.P(20))
		g.paren--
		g.W(")")
	case k == 32:
		if g.C.StarlarkGo {
			g.atom()
			return
		}
		switch g.N(2) {
		case 0:
			g.mark("set")
			g.W("{")
			g.seq(depth, 1, func() { g.Expr(1, depth-1) }, "}", true)
		case 1:
			g.mark("juxtaposed")
			g.W("(")
			g.Str(g.StrContent())
			g.W(" + ")
			g.Str(g.StrContent())
			g.W(")")
		}
	case k == 33:
		if prec == 0 && !g.C.Plain {
			g.mark("bare-tuple")
			n := 2 + g.N(2)
			for i := 0; i < n; i++ {
				if i > 0 {
					g.W(",")
					g.sp()
				}
				g.Expr(2, depth-1)
			}
			return
		}
		g.atom()
	}
}

func (g *G) primary(depth int) {
	switch g.N(4) {
	case 0, 1:
		g.W(g.Ident())
	case 2:
		g.Call(depth, "")
	case 3:
		if g.P(50) {
			g.W("(")
			g.paren++
			g.Expr(1, depth)
			g.paren--
			g.W(")")
		} else {
			g.Str(g.StrContent())
		}
	}
}

func (g *G) atom() {
	switch g.N(5) {
	case 0, 1:
		g.W(g.Ident())
	case 2:
		g.number()
	default:
		g.Str(g.StrContent())
	}
}

// seq writes elements separated by commas up to the closer.
func (g *G) seq(depth, min int, elem func(), closer string, trailing bool) {
	n := min + g.N(5)
	multi := g.P(40)
	g.paren++
	for i := 0; i < n; i++ {
		g.brk(multi)
		elem()
		g.wsn()
		if i < n-1 || (trailing && (multi && g.P(80) || g.P(10))) {
			g.W(",")
			if !multi {
				g.W(g.Pick(" ", " ", ""))
			} else if g.P(15) && !g.C.NoComments && !g.C.Plain {
				g.W("  " + g.Comment() + "\n")
				g.mark("suffix-comment-in-brackets")
			}
		}
	}
	g.brk(multi)
	g.paren--
	g.W(closer)
}

func (g *G) list(depth int) {
	g.mark("list")
	g.W("[")
	strs := g.P(60)
	g.seq(depth, 0, func() {
		if strs && g.P(95) {
			g.Str(g.StrContent())
		} else {
			g.Expr(1, depth-1)
		}
	}, "]", true)
}

func (g *G) tuple(depth int) {
	g.mark("tuple")
	n := g.N(4)
	if n == 0 {
		g.W("()")
		return
	}
	if n == 1 {
		g.W("(")
		g.paren++
		g.Expr(1, depth-1)
		g.W(",")
		g.ws()
		g.paren--
		g.W(")")
		return
	}
	g.W("(")
	g.seq(depth, 2, func() { g.Expr(1, depth-1) }, ")", true)
}

func (g *G) dict(depth int) {
	g.mark("dict")
	g.W("{")
	g.seq(depth, 0, func() {
		if g.P(70) {
			g.Str(g.StrContent())
		} else {
			g.Expr(2, depth-1)
		}
		g.wsn()
		g.W(":")
		g.spn()
		g.Expr(1, depth-1)
	}, "}", true)
}

func (g *G) comprehension(depth int) {
	g.mark("comprehension")
	curly := g.P(30)
	multi := g.P(30)
	if curly {
		g.W("{")
	} else {
		g.W("[")
	}
	g.paren++
	g.brk(multi)
	if curly {
		g.Expr(2, depth-1)
		g.W(": ")
	}
	g.Expr(2, depth-1)
	n := 1 + g.N(2)
	for i := 0; i < n; i++ {
		g.W(" ")
		g.brk(multi)
		g.W("for ")
		g.loopVars()
		g.W(" in ")
		g.Expr(2, depth-1)
		for g.P(25) {
			g.W(" ")
			g.brk(multi)
			g.W("if ")
			g.Expr(2, depth-1)
		}
	}
	g.brk(multi)
	g.paren--
	if curly {
		g.W("}")
	} else {
		g.W("]")
	}
}

func (g *G) loopVars() {
	switch g.N(4) {
	case 0, 1:
		g.W(g.target())
	case 2:
		g.W(g.target() + ", " + g.target())
	case 3:
		g.W("(" + g.target() + ", " + g.target() + ")")
	}
}

// Call writes a call expression; kind "" draws the callee.
// labelSum writes a label, sometimes split into parts which are added.
func (g *G) labelSum() {
	s := g.LabelText()
	n := 0
	if g.P(30) {
		g.mark("label-sum")
		n = 1 + g.N(2)
	}
	for ; n > 0; n-- {
		i := g.N(len(s) + 1)
		if j := strings.LastIndexByte(s, ':'); j >= 0 && g.P(60) {
			i = j
		}
		g.Str(s[:i])
		s = s[i:]
		g.ws()
		g.W(g.Pick(" + ", " +", "+"))
		if g.P(40) {
			g.nl(g.C.WildComment || !g.C.SaneComment)
		} else {
			g.ws()
		}
	}
	g.Str(s)
}

// labels writes a typical value of an attribute with labels.
func (g *G) labels(depth int) {
	g.mark("labels")
	one := func() {
		if g.P(25) {
			g.labelSum()
			return
		}
		g.W("[")
		g.seq(depth, 0, g.labelSum, "]", true)
	}
	sel := func() {
		g.W("select(")
		g.paren++
		g.brk(g.P(20))
		g.W("{")
		g.seq(depth, 1, func() {
			g.Str(g.LabelText())
			g.W(g.Pick(": ", ":", ":  "))
			g.wsn()
			one()
		}, "}", true)
		g.brk(g.P(20))
		g.paren--
		g.W(")")
	}
	n := g.Pick("", "", "", "+", "++")
	for i := 0; i <= len(n); i++ {
		if i > 0 {
			g.wsn()
			g.W(g.Pick(" + ", " +", "+ "))
			g.ws()
		}
		if g.P(30) {
			sel()
		} else {
			one()
		}
	}
}

func (g *G) Call(depth int, kind string) {
	g.mark("call")
	if kind == "" {
		switch g.N(5) {
		case 0:
			g.W(g.Pick("foo", "glob", "select", "dict", "struct", "depset"))
		case 1:
			g.W(rules[g.N(len(rules))])
		case 2:
			g.W(g.Pick("native", "ctx", "foo"))
			g.W(".")
			g.W(g.Pick("cc_library", "actions", "bar"))
		case 3:
			if depth > 1 {
				g.primary(depth - 2)
				break
			}
			g.W("f")
		default:
			g.W(g.Ident())
		}
	} else {
		g.W(kind)
	}
	if g.P(5) {
		g.wsn()
	}
	g.Args(depth)
}

// Args writes a parenthesised argument list in grammatical order.
func (g *G) Args(depth int) {
	g.W("(")
	nPos, nKw := g.N(3), g.N(4)
	if g.C.BuildLike && g.P(70) {
		nPos = 0
		nKw = g.N(6)
	}
	star, dstar := g.P(6), g.P(6)
	type arg func()
	var args []arg
	for i := 0; i < nPos; i++ {
		args = append(args, func() { g.Expr(1, depth-1) })
	}
	used := map[string]bool{}
	for i := 0; i < nKw; i++ {
		k := kwargs[g.N(len(kwargs))]
		if used[k] {
			continue
		}
		used[k] = true
		args = append(args, func() {
			g.W(k)
			g.W(g.Pick(" = ", " = ", "=", "= "))
			g.ws()
			if g.C.BuildLike && depth > 0 && !g.C.Plain && g.P(25) {
				g.labels(depth)
			} else {
				g.Expr(1, depth-1)
			}
		})
	}
	if star {
		g.mark("star-arg")
		args = append(args, func() { g.W("*"); g.Expr(2, depth-1) })
	}
	if dstar {
		g.mark("dstar-arg")
		args = append(args, func() { g.W("**"); g.Expr(2, depth-1) })
	}
	multi := g.P(50)
	g.paren++
	for i, a := range args {
		g.brk(multi)
		a()
		g.wsn()
		if i < len(args)-1 || (!star && !dstar && (multi && g.P(80) || g.P(5))) {
			g.W(",")
			if !multi {
				g.W(g.Pick(" ", " ", ""))
			} else if g.P(10) && !g.C.NoComments && !g.C.Plain {
				g.W("  " + g.Comment() + "\n")
				g.mark("suffix-comment-in-brackets")
			}
		}
	}
	g.brk(multi && g.P(80))
	g.paren--
	g.W(")")
}

func (g *G) params(depth int, lambda bool) {
	typed := !lambda && !g.C.StarlarkGo && g.P(25)
	n := g.N(4)
	names := []string{"p", "q", "r", "s", "t"}
	multi := !lambda && g.P(20)
	if !lambda {
		g.W("(")
		g.paren++
	} else {
		g.W(" ")
	}
	first := true
	sep := func() {
		if !first {
			g.W(",")
			if !multi {
				g.W(" ")
			}
		}
		if !lambda {
			g.brk(multi)
		}
		first = false
	}
	typ := func() {
		if typed && g.P(60) {
			g.mark("type-annotation")
			g.W(": ")
			switch g.N(4) {
			case 0:
				g.W("list[str]")
			case 1:
				g.W("int | None")
			default:
				g.W(g.Pick("int", "str", "Foo"))
			}
		}
	}
	dflt := false
	for i := 0; i < n; i++ {
		sep()
		g.W(names[i])
		typ()
		if dflt || g.P(30) {
			dflt = true
			g.W(g.Pick(" = ", "="))
			g.Expr(2, depth-1)
		}
	}
	if g.P(10) {
		sep()
		g.W("*")
		if g.P(60) {
			g.W("args")
			typ()
		} else {
			sep()
			g.W("kwonly")
			if g.P(50) {
				g.W(" = ")
				g.Expr(2, depth-1)
			}
		}
	}
	if g.P(10) {
		sep()
		g.W("**kw")
		typ()
	}
	if !lambda {
		if n > 0 && g.P(5) && !g.C.Plain && strings.HasSuffix(g.b.String(), "q") {
			g.W(",")
		}
		g.brk(multi && g.P(50))
		g.paren--
		g.W(")")
	}
}

// endLine finishes a simple statement's line.
func (g *G) endLine() {
	if !g.C.NoComments && g.P(12) {
		g.W(g.Pick("  ", " ", "", "    ") + g.Comment())
		g.mark("suffix-comment")
	}
	if g.P(3) && !g.C.Plain {
		g.W("  ")
	}
	g.W("\n")
}

// Gap writes blank lines and comment lines before a statement.
func (g *G) Gap(first bool) {
	r := g.N(20)
	switch {
	case r < 9:
	case r < 13:
		g.W("\n")
	case r == 13:
		g.W(strings.Repeat("\n", 2+g.N(3)))
	case r == 14 && !g.C.Plain:
		g.W("   \n")
	default:
		if g.C.NoComments {
			return
		}
		if g.P(50) {
			g.W("\n")
		}
		for i := 1 + g.N(3); i > 0; i-- {
			ind := g.ind
			if g.C.WildComment && g.P(20) {
				ind = strings.Repeat(" ", g.N(10))
				g.mark("odd-indented-comment")
			}
			g.W(ind + g.Comment() + "\n")
			g.mark("line-comment")
			if g.P(15) {
				g.W(strings.Repeat("\n", 1+g.N(3)))
			}
		}
		if g.P(30) {
			g.W(strings.Repeat("\n", 1+g.N(3)))
		}
	}
}

// Block writes an indented block or an inline suite.
func (g *G) Block(depth int, inDef, inLoop bool) {
	if g.P(8) && !g.C.Plain {
		g.mark("inline-suite")
		g.W(" ")
		g.simple(depth, inDef, inLoop)
		g.endLine()
		g.inline = true
		return
	}
	if !g.C.NoComments && g.P(8) {
		g.W("  " + g.Comment())
		g.mark("header-comment")
	}
	g.W("\n")
	old := g.ind
	g.ind = old + g.Pick("    ", "    ", "  ", " ", "        ")
	n := 1 + g.N(4)
	for i := 0; i < n; i++ {
		g.Gap(i == 0)
		g.Stmt(depth, inDef, inLoop)
	}
	if !g.C.NoComments && g.P(8) {
		g.W(g.ind + g.Comment() + "\n")
		g.mark("trailing-block-comment")
	}
	g.ind = old
	g.inline = false
}

func (g *G) simple(depth int, inDef, inLoop bool) {
	d := g.C.MaxDepth
	switch k := g.N(12); {
	case k < 3:
		g.W(g.assignTarget())
		g.ws()
		g.W(g.Pick(" = ", " = ", "=", " += ", " = "))
		g.ws()
		g.Expr(0, d)
	case k < 7:
		g.Call(d, "")
	case k == 7 && inDef:
		g.W("return")
		if g.P(70) {
			g.sp()
			g.Expr(0, d-1)
		}
	case k == 8 && inLoop:
		g.W(g.Pick("break", "continue"))
	case k == 9:
		g.W("pass")
	case k == 10:
		g.mark("augmented")
		g.W(g.target())
		g.W(" " + g.Pick("+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=") + " ")
		g.Expr(0, d-1)
	default:
		g.Expr(0, d-1)
	}
}

func (g *G) assignTarget() string {
	switch g.N(6) {
	case 0:
		return g.target() + ", " + g.target()
	case 1:
		return g.target() + "." + g.target()
	case 2:
		return g.target() + "[0]"
	case 3:
		return "(" + g.target() + ", " + g.target() + ")"
	}
	return g.target()
}

// Load writes a load statement.
func (g *G) Load() {
	g.mark("load")
	mods := g.C.Modules
	if len(mods) == 0 {
		mods = modules
	}
	g.W("load(")
	g.paren++
	multi := g.P(30)
	g.brk(multi)
	g.Str(mods[g.N(len(mods))])
	n := 1 + g.N(4)
	for i := 0; i < n; i++ {
		g.W(",")
		if !multi {
			g.W(g.Pick(" ", " ", ""))
		}
		g.brk(multi)
		sym := g.Pick("a", "b", "c", "foo", "bar", "x", "y", "Zed")
		if g.P(30) {
			g.W(g.Pick("a", "b", "alias", "_p", "foo"))
			g.wsn()
			g.W(g.Pick(" = ", "="))
			g.wsn()
		}
		g.W(g.StrQuote(sym))
	}
	if g.P(20) {
		g.W(",")
	}
	g.brk(multi)
	g.paren--
	g.W(")")
}

// StrQuote quotes a simple word.
func (g *G) StrQuote(s string) string {
	if g.P(15) {
		return "'" + s + "'"
	}
	return `"` + s + `"`
}

// Stmt writes one statement (with its newline).
func (g *G) Stmt(depth int, inDef, inLoop bool) {
	if g.C.StmtHook != nil && g.C.StmtHook(g) {
		return
	}
	top := g.ind == ""
	g.W(g.ind)
	k := g.N(20)
	if top && g.C.BuildLike {
		switch {
		case k < 3 && !g.C.NoLoads:
			g.Load()
			g.endLine()
			return
		case k < 14:
			g.Call(g.C.MaxDepth, rules[g.N(len(rules))])
			g.endLine()
			return
		case k < 16:
			g.W(g.target() + " = ")
			g.Expr(0, g.C.MaxDepth)
			g.endLine()
			return
		}
		k = g.N(20)
	}
	if depth <= 0 && k >= 13 {
		k = g.N(13)
	}
	switch {
	case k < 2 && top && !g.C.NoLoads:
		g.Load()
		g.endLine()
	case k < 13:
		g.simple(depth, inDef, inLoop)
		for !g.C.NoSemi && !g.C.Plain && g.P(4) {
			g.W(g.Pick(";", " ; ", "; "))
			g.mark("semicolon")
			g.simple(depth, inDef, inLoop)
		}
		if !g.C.NoSemi && !g.C.Plain && g.P(2) {
			g.W(";")
		}
		g.endLine()
	case k < 15 && !g.C.NoDefs:
		g.mark("def")
		g.W("def " + g.Pick("f", "g", "h", "_impl", "macro"))
		g.params(2, false)
		if !g.C.StarlarkGo && g.P(10) {
			g.mark("type-annotation")
			g.W(" -> " + g.Pick("int", "None", "list[str]"))
		}
		g.W(":")
		if g.P(35) {
			g.defWithDoc(depth-1, inLoop)
			return
		}
		g.Block(depth-1, true, false)
	case k < 17:
		g.mark("for")
		g.W("for ")
		g.loopVars()
		g.W(" in ")
		g.Expr(0, 2)
		g.W(":")
		g.Block(depth-1, inDef, true)
	default:
		g.mark("if")
		g.W("if ")
		g.Expr(1, 2)
		g.W(":")
		g.Block(depth-1, inDef, inLoop)
		for g.P(30) {
			g.mark("elif")
			g.elseGap()
			g.W(g.ind + "elif ")
			g.Expr(1, 2)
			g.W(":")
			g.Block(depth-1, inDef, inLoop)
		}
		if g.P(50) {
			g.mark("else")
			g.elseGap()
			g.W(g.ind + "else:")
			g.Block(depth-1, inDef, inLoop)
		}
	}
}

func (g *G) elseGap() {
	if g.C.Plain {
		return
	}
	if g.P(15) {
		g.W(strings.Repeat("\n", 1+g.N(4)))
	}
	// (a comment line between a one-line "if" suite and "else" is a syntax error
	// for buildtools)
	if g.P(8) && !g.C.NoComments && !g.inline {
		g.W(g.ind + g.Comment() + "\n")
		g.mark("comment-before-else")
	}
}

func (g *G) defWithDoc(depth int, inLoop bool) {
	g.mark("docstring")
	g.W("\n")
	old := g.ind
	g.ind = old + g.Pick("    ", "  ", "      ")
	g.Gap(true)
	g.W(g.ind)
	q := g.Pick(`"""`, `"""`, `'''`)
	g.W(q + g.Pick("Doc.", "A b c.", "", "  lead"))
	if g.P(70) {
		for i := 1 + g.N(4); i > 0; i-- {
			g.W("\n")
			switch g.N(5) {
			case 0:
			case 1:
				g.W(strings.Repeat(" ", g.N(10)))
			default:
				g.W(g.ind + g.Pick("", "", "  ", "    ") + g.Pick("Args:", "x: the x", "Returns:", "text é", "a  b", `esc \\ d`, "trail  "))
			}
		}
		g.W("\n" + g.ind)
	}
	g.W(q)
	g.endLine()
	n := g.N(3)
	for i := 0; i < n; i++ {
		g.Gap(false)
		g.Stmt(depth, true, false)
	}
	g.ind = old
}

// New starts a generation.
func New(t *rapid.T, c Cfg) *G {
	if c.MaxStmts == 0 {
		c.MaxStmts = 6
	}
	if c.MaxDepth == 0 {
		c.MaxDepth = 3
	}
	return &G{T: t, C: c, feat: map[string]bool{}, budget: 120}
}

// Done returns the generated source.
func (g *G) Done() *Src {
	return &Src{Text: g.b.String(), Comments: g.Comments, Feat: g.feat}
}

// Budget resets the expression budget.
func (g *G) Budget(n int) { g.budget = n }

// Mark records a feature.
func (g *G) Mark(f string) { g.mark(f) }

// Indent returns the current indentation.
func (g *G) Indent() string { return g.ind }

// File generates a whole file.
func File(t *rapid.T, c Cfg) *Src {
	g := New(t, c)
	n := 1 + g.N(g.C.MaxStmts)
	if g.P(6) {
		g.Str("Module docstring.")
		g.endLine()
	}
	for i := 0; i < n; i++ {
		g.Gap(i == 0)
		g.Stmt(2, false, false)
	}
	if !g.C.NoComments && g.P(10) {
		if g.P(50) {
			g.W("\n")
		}
		g.W(g.Comment())
		if g.P(70) {
			g.W("\n")
		}
		g.mark("eof-comment")
	} else if g.P(5) && !g.C.Plain {
		g.W("\n\n")
	}
	return g.Done()
}
