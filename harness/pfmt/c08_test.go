package pfmt

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// resolveLabel is what a label names when written in package pkg: Bazel's rules.
func resolveLabel(s, pkg string) string {
	if strings.Contains(s, "\n") || s == "" {
		return "raw " + s
	}
	if s[0] != '@' && !strings.HasPrefix(s, "//") {
		t := strings.TrimPrefix(s, ":")
		return fmt.Sprintf("cur|%s|%s", pkg, t)
	}
	repo := "cur"
	if s[0] == '@' {
		i := strings.Index(s, "//")
		if i < 0 {
			if strings.ContainsAny(s, ":/") {
				return "raw " + s
			}
			return fmt.Sprintf("%s||%s", s, strings.TrimLeft(s, "@"))
		}
		repo, s = s[:i], s[i:]
	}
	s = s[2:]
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return fmt.Sprintf("%s|%s|%s", repo, s[:i], s[i+1:])
	}
	return fmt.Sprintf("%s|%s|%s", repo, s, s[strings.LastIndexByte(s, '/')+1:])
}

// meaning evaluates the value of a label attribute: literal strings added up are
// one label; pieces of a label that is only partly literal stay as they are.
func meaning(n *astx.N, label func(string) string, other func(*astx.N) string) string {
	switch n.K {
	case "str":
		return label(n.V)
	case "list", "set", "tuple":
		s := n.K + "["
		for _, c := range n.C {
			s += meaning(c, label, other) + ","
		}
		return s + "]"
	case "bin":
		if n.V == "+" {
			var ops []*astx.N
			var flat func(n *astx.N)
			flat = func(n *astx.N) {
				if n.K == "bin" && n.V == "+" {
					flat(n.C[0])
					flat(n.C[1])
					return
				}
				ops = append(ops, n)
			}
			flat(n)
			strs := 0
			for _, o := range ops {
				if o.K == "str" {
					strs++
				}
			}
			if strs == len(ops) {
				s := ""
				for _, o := range ops {
					s += o.V
				}
				return label(s)
			}
			s := "("
			lit := ""
			for _, o := range ops {
				if o.K == "str" {
					lit += o.V
					continue
				}
				s += fmt.Sprintf("%q+", lit)
				lit = ""
				if strs > 0 {
					s += other(o)
				} else {
					s += meaning(o, label, other)
				}
				s += "+"
			}
			return s + fmt.Sprintf("%q)", lit)
		}
	case "call":
		if isID(n.C[0], "select") && len(n.C) > 1 && n.C[1].K == "arg" && n.C[1].C[0].K == "dict" {
			s := "select{"
			for _, kv := range n.C[1].C[0].C {
				s += other(kv.C[0]) + ":" + meaning(kv.C[1], label, other) + ","
			}
			s += "}"
			for _, a := range n.C[2:] {
				s += other(a)
			}
			return s
		}
	}
	return other(n)
}

var repoPool = []string{"", "", "", "", "@foo", "@r", "@foo_2", "@foo.bar", "@foo-bar", "@foo+", "@@foo", "@", "@@", "@foo~1~x"}
var pkgPool = []string{"", "foo", "foo/bar", "pkg", "a/b/c", "third_party/m4", "r", "foo.bar", "pkg/sub", "pk", "pkg2", "...", "foo/...", "visibility", "foo-bar", "conditions", "foo_2"}
var tgtPool = []string{"foo", "bar", "m4", "c", "x.txt", "sub/x.txt", "r", "pkg", "__pkg__", "all", "foo/bar", "public", "sub", "foo_2", "foo.bar", "foo-bar", "...", "default", "b/c", "bar/bar", "fo", "oo"}

func drawLabel(rt *rapid.T) string {
	repo := repoPool[gen.Int(rt, len(repoPool))]
	pkg := pkgPool[gen.Int(rt, len(pkgPool))]
	tgt := tgtPool[gen.Int(rt, len(tgtPool))]
	last := pkg[strings.LastIndexByte(pkg, '/')+1:]
	switch gen.Int(rt, 12) {
	case 0:
		return tgt
	case 1:
		return ":" + tgt
	case 2:
		return repo + "//" + pkg
	case 3, 4:
		return repo + "//" + pkg + ":" + last
	case 5, 6:
		return repo + "//:" + strings.TrimLeft(repo, "@")
	case 7:
		return repo
	case 8:
		return gen.Pick(rt, "", "a b", "//a b:a b", "//foo:foo:foo", "//foo:", "foo:foo", "/foo:foo", "///foo:foo", "//foo/:foo", "@foo:foo", "//foo//bar:bar", "//:", "//a:b/c:c", "a//foo:foo", "-//foo:foo", "//a/b:c\nd", "é//foo:foo", "//é:é", "x@foo//:foo", "//foo:bar/foo", "//foo/foo:foo/foo", "@foo//foo:foo", "$(location //foo:foo)", "//foo:foo ")
	case 9:
		return repo + "//" + pkg + "/" + last + ":" + last
	default:
		return repo + "//" + pkg + ":" + tgt
	}
}

type valueGen struct {
	rt    *rapid.T
	draw  func() string
	marks bool
	nl    bool
}

func (g *valueGen) str() string {
	s := g.draw()
	s = strings.NewReplacer(`\`, `\\`, "\n", `\n`, `"`, `\"`).Replace(s)
	if gen.Pct(g.rt, 10) && !strings.Contains(s, "'") {
		return "'" + s + "'"
	}
	return `"` + s + `"`
}

// piece is a string or the concatenation of pieces of one
func (g *valueGen) piece() string {
	if gen.Pct(g.rt, 70) {
		return g.str()
	}
	s := g.draw()
	if len(s) < 2 || strings.ContainsAny(s, "\\\n\"") {
		return g.str() + " + " + g.str()
	}
	var out []string
	for len(s) > 1 && len(out) < 3 {
		i := 1 + gen.Int(g.rt, len(s)-1)
		if k := strings.IndexByte(s, ':'); k > 0 && gen.Pct(g.rt, 60) {
			i = k
		}
		for i < len(s) && s[i]&0xc0 == 0x80 {
			i++
		}
		out = append(out, `"`+s[:i]+`"`)
		s = s[i:]
		if gen.Pct(g.rt, 50) {
			break
		}
	}
	if s != "" {
		out = append(out, `"`+s+`"`)
	}
	if gen.Pct(g.rt, 25) {
		out[gen.Int(g.rt, len(out))] = gen.Pick(g.rt, "X", `X.y`, `f("//foo:foo")`, `("//foo" + ":foo")`, `"%s" % x`, `("//foo:foo")`)
	}
	if len(out) > 2 && gen.Pct(g.rt, 15) {
		return out[0] + " + (" + strings.Join(out[1:], " + ") + ")"
	}
	return strings.Join(out, " + ")
}

func (g *valueGen) list() string {
	var b strings.Builder
	b.WriteString("[\n")
	for i := gen.Int(g.rt, 5); i > 0; i-- {
		if g.marks && gen.Pct(g.rt, 10) {
			b.WriteString("        # buildifier: leave-alone\n")
		}
		p := g.piece()
		if gen.Pct(g.rt, 5) {
			p = gen.Pick(g.rt, "X", `f("//foo:foo")`, `["//foo:foo"]`, `("//foo:foo",)`, `{"//foo:foo": "//foo:foo"}`, `x["//foo:foo"]`, `"//foo:foo" if x else "//foo:foo"`)
		}
		b.WriteString("        " + p + ",\n")
	}
	b.WriteString("    ]")
	return b.String()
}

// value draws an attribute value; operands of sums are lists, as Bazel requires
func (g *valueGen) value(depth int, lists bool) string {
	k := gen.Int(g.rt, 10)
	if lists && k < 2 {
		k = 9
	}
	switch k {
	case 0, 1:
		return g.piece()
	case 2:
		if lists {
			return gen.Pick(g.rt, "X", `glob(["//foo:foo"])`, `["//foo:foo" for x in y]`, `f(deps = ["//foo:foo"])`)
		}
		return gen.Pick(g.rt, "X", `glob(["//foo:foo"])`, `["//foo:foo" for x in y]`, `f(deps = ["//foo:foo"])`, `{"//foo:foo": "//foo:foo"}`, `("//foo:foo", "//bar:bar")`, `{"//foo:foo"}`, `("//foo:foo")`)
	case 3, 4:
		if depth > 0 {
			return g.value(depth-1, true) + " + " + g.value(depth-1, true)
		}
	case 5, 6:
		if depth > 0 {
			var b strings.Builder
			b.WriteString("select({\n")
			for i := 1 + gen.Int(g.rt, 2); i > 0; i-- {
				b.WriteString("        " + gen.Pick(g.rt, `"//foo:foo"`, `":foo"`, `"//conditions:default"`, `X`) + ": " + g.value(depth-1, lists) + ",\n")
			}
			b.WriteString("    }" + gen.Pick(g.rt, "", "", `, no_match_error = "//foo:foo"`) + ")")
			return b.String()
		}
	}
	return g.list()
}

// TestC08_Identity: every label of a label attribute names the same target
// afterwards, and every other string is the same.
func TestC08_Identity(t *testing.T) {
	vk.Check(t, "calls of several kinds with label, non-label and denied attributes whose values are strings, lists, sets, concatenations, selects and nested calls over label-like strings of all shapes (repositories, root package, package-named targets, malformed), pieces joined with +, leave-alone markers on call, argument and element; with and without shortening to relative labels; non-trivial: at least one string is written differently", 120000, 6000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		g := &valueGen{rt: rt, draw: func() string { return drawLabel(rt) }, marks: gen.Pct(rt, 30)}
		pkg := gen.Pick(rt, "pkg", "foo", "foo/bar", "a/b/c", "r", "")
		path := typ.name[strings.LastIndexByte(typ.name, '/')+1:]
		if pkg != "" {
			path = pkg + "/" + path
		}
		type attr struct {
			call      int
			name, rhs string
			free      bool // not to be touched
			kind      string
		}
		var attrs []attr
		var b strings.Builder
		for i := 1 + gen.Int(rt, 2); i > 0; i-- {
			kind := gen.Pick(rt, "cc_library", "foo", "package_group", "package_group", "native.cc_library", "x.package_group", "f(1).x")
			alone := gen.Pct(rt, 8)
			if alone {
				b.WriteString(gen.Pick(rt, "# buildifier: leave-alone\n", "# Buildifier: Leave-Alone, please\n"))
			}
			nest := gen.Pct(rt, 12)
			if nest {
				b.WriteString("outer(x = [")
			}
			b.WriteString(kind + "(\n")
			for k := 1 + gen.Int(rt, 3); k > 0; k-- {
				name := gen.Pick(rt, "deps", "deps", "srcs", "includes", "includes", "visibility", "tags", "args", "src", "exports", "hdrs", "testonly", "my_deps", "tool")
				arg := gen.Pct(rt, 6)
				if arg {
					b.WriteString("    # buildifier: leave-alone\n")
				}
				rhs := g.value(2, false)
				b.WriteString("    " + name + " = " + rhs + ",\n")
				attrs = append(attrs, attr{i, name, rhs, alone || arg, kind})
			}
			if gen.Pct(rt, 15) {
				b.WriteString("    " + `*["//foo:foo"],` + "\n")
			}
			b.WriteString(")")
			if nest {
				b.WriteString("])")
			}
			b.WriteString("\n\n")
		}
		if gen.Pct(rt, 30) {
			b.WriteString("deps = " + g.list() + "\n")
		}
		c.Input(b.String())
		c.Part("path %s", path)
		rel := gen.Pct(rt, 35)
		f, err := typ.parse(path, []byte(b.String()))
		if err != nil {
			c.Fail("does not parse: %v", err)
		}
		f1, _ := typ.parse(path, []byte(b.String()))
		w := rewriter(nil)
		w.ShortenAbsoluteLabelsToRelative = rel
		set := "disabled others"
		if gen.Pct(rt, 50) {
			set = "only label"
			w.RewriteSet = []string{"label"}
		} else {
			for _, n := range rewriteNames {
				if n != "label" {
					build.DisableRewrites = append(build.DisableRewrites, n)
				}
			}
			defer func() { build.DisableRewrites = nil }()
		}
		out := build.FormatWithRewriter(w, f1)
		c.Part("%s, relative %v, output:\n%s", set, rel, out)
		f2, err := typ.parse(path, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		n0, n2 := astx.FromAST(f), astx.FromAST(f2)
		active := set == "only label" || typ.typ&buildLike != 0
		if n0.String() != n2.String() {
			c.NonTrivial(true)
			if !active {
				c.Fail("labels of a file that is not BUILD-like changed")
			}
		}
		// leave-alone marked elements and lines, by their text
		alone := map[string]bool{}
		mark := func(f *build.File) (r []string) {
			build.Walk(f, func(e build.Expr, stk []build.Expr) {
				if _, ok := e.(*build.File); ok {
					return
				}
				for _, cm := range e.Comment().Before {
					if strings.Contains(strings.ToLower(cm.Token), "buildifier: leave-alone") {
						r = append(r, astx.FromAST(e).String())
					}
				}
			})
			return
		}
		_ = alone
		if a, z := mark(f), mark(f2); strings.Join(a, "\n") != strings.Join(z, "\n") {
			c.Fail("leave-alone construct changed:\n%s\nto\n%s", strings.Join(a, "\n"), strings.Join(z, "\n"))
		}
		label := func(s string) string { return resolveLabel(s, pkg) }
		raw := func(s string) string { return fmt.Sprintf("%q", s) }
		var view func(n *astx.N) string
		view = func(n *astx.N) string {
			s := "(" + n.K + " " + n.V
			if n.K == "str" {
				return raw(n.V)
			}
			for _, ch := range n.C {
				if n.K == "call" && ch.K == "kw" && tables.IsLabelArg[ch.V] && !tables.LabelDenylist[callKind(n)+"."+ch.V] {
					s += " " + ch.V + "=" + meaning(ch.C[0], label, view)
					continue
				}
				s += "\n " + view(ch)
			}
			return s + ")"
		}
		if a, z := view(n0), view(n2); a != z {
			c.Fail("a label or another string means something else:\n%s\nwas\n%s", z, a)
		}
		c.LabelIf(active, "active")
		c.LabelIf(rel, "relative")
	})
}
