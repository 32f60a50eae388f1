package pfmt

import (
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

func drawFile(rt *rapid.T, typ ft, sane ...bool) *gen.Src {
	if len(sane) > 0 && gen.Pct(rt, 10) {
		return &gen.Src{Text: gen.Odd(rt), Feat: map[string]bool{"odd shapes": true}}
	}
	bl := gen.Pct(rt, 40)
	if typ.typ == build.TypeBuild || typ.typ == build.TypeModule || typ.typ == build.TypeWorkspace {
		bl = gen.Pct(rt, 75)
	}
	var hook func(*gen.G) bool
	if gen.Pct(rt, map[bool]int{true: 60, false: 8}[typ.typ == build.TypeModule]) {
		hook = moduleStmt
	}
	return gen.File(rt, gen.Cfg{StmtHook: hook, SaneComment: len(sane) > 0, WildComment: gen.Pct(rt, 50), BuildLike: bl})
}

// moduleStmt sometimes writes a statement typical for MODULE.bazel.
func moduleStmt(g *gen.G) bool {
	if g.Indent() != "" || !g.P(60) {
		return false
	}
	str := func() string { return `"` + g.Pick("a", "b", "c", "d", "e") + `"` }
	ext := g.Pick("x", "y", "z")
	dev := g.Pick("", "", ", dev_dependency = True")
	nl := func() {
		if !g.C.NoComments && g.P(15) {
			g.W("  " + g.Comment())
		}
		g.W("\n")
	}
	switch g.N(7) {
	case 0, 1:
		g.W("bazel_dep(name = " + str() + `, version = "1"` + dev + ")")
	case 2:
		g.W(g.Pick("git_override", "archive_override", "single_version_override") + "(module_name = " + str() + ")")
	case 3:
		g.W(ext + ` = use_extension("//:e.bzl", ` + str() + dev + ")")
	case 4:
		g.W(ext + ".tag(name = " + str() + ")")
	case 5:
		g.W("use_repo(" + ext)
		for i := g.N(5); i > 0; i-- {
			g.W(",")
			if g.P(30) {
				nl()
			}
			if g.P(25) {
				g.W(g.Pick("k", "l", "m") + " = ")
			}
			g.W(str())
		}
		g.W(")")
	case 6:
		g.W("include(" + str() + ")")
	}
	nl()
	return true
}

// TestC02_Layout: layout-only formatting is idempotent.
func TestC02_Layout(t *testing.T) {
	vk.Check(t, "grammar-generated files of the 5 types (a tenth: calls with well-known names and arguments of any shape) with random layout and comments; non-trivial: output differs from input", 200000, 8000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		src := drawFile(rt, typ, true)
		c.Input(src.Text)
		c.Part("type %s", typ.name)
		f, err := typ.parse(typ.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		out := build.FormatWithoutRewriting(f)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		out2 := build.FormatWithoutRewriting(f2)
		if string(out) != string(out2) {
			c.Fail("second formatting differs:\n%s", out2)
		}
		c.NonTrivial(string(out) != src.Text)
		c.Label(typ.name)
	})
}

// TestC02_Full: formatting with all rewrites is idempotent.
func TestC02_Full(t *testing.T) {
	vk.Check(t, "grammar-generated files of the 5 types (a tenth: calls with well-known names and arguments of any shape), formatted with the default rewrites; non-trivial: the rewrites changed something beyond layout", 160000, 6000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		src := drawFile(rt, typ, true)
		c.Input(src.Text)
		c.Part("type %s", typ.name)
		f, err := typ.parse(typ.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		layout := build.FormatWithoutRewriting(f)
		out := build.Format(f)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		out2 := build.Format(f2)
		if string(out) != string(out2) {
			c.Fail("second formatting differs:\n%s", out2)
		}
		c.NonTrivial(string(out) != string(layout))
		c.Label(typ.name)
	})
}

func bag(xs []string) []string {
	r := append([]string{}, xs...)
	for i := range r {
		r[i] = strings.TrimSpace(r[i])
	}
	sort.Strings(r)
	return r
}

func diffBags(a, b []string) (missing, extra []string) {
	m := map[string]int{}
	for _, x := range bag(a) {
		m[x]++
	}
	for _, x := range bag(b) {
		if m[x] > 0 {
			m[x]--
		} else {
			extra = append(extra, x)
		}
	}
	for x, n := range m {
		for ; n > 0; n-- {
			missing = append(missing, x)
		}
	}
	sort.Strings(missing)
	return
}

// TestC03_Layout: comments survive layout-only formatting.
func TestC03_Layout(t *testing.T) {
	vk.Check(t, "grammar-generated files with uniquely numbered comments at any token boundary; non-trivial: at least two comments", 200000, 8000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		src := drawFile(rt, typ)
		c.Input(src.Text)
		c.Part("type %s", typ.name)
		f, err := typ.parse(typ.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		out := build.FormatWithoutRewriting(f)
		c.Part("output:\n%s", out)
		if miss, extra := diffBags(src.Comments, astx.ScanComments(string(out))); len(miss)+len(extra) > 0 {
			c.Fail("comments lost %q, appeared %q", miss, extra)
		}
		c.NonTrivial(len(src.Comments) > 1)
		c.Label(typ.name)
	})
}

// TestC03_Full: comments survive the rewrites too.
func TestC03_Full(t *testing.T) {
	vk.Check(t, "as C03_Layout with the default rewrites; non-trivial: at least two comments and rewrites changed something", 160000, 6000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		src := drawFile(rt, typ)
		c.Input(src.Text)
		c.Part("type %s", typ.name)
		f, err := typ.parse(typ.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		layout := build.FormatWithoutRewriting(f)
		dup := listStrings(f)
		out := build.Format(f)
		c.Part("output:\n%s", out)
		if miss, extra := diffBags(src.Comments, astx.ScanComments(string(out))); len(extra) > 0 || len(miss) > 0 && !dup.explains(miss) {
			c.Fail("comments lost %q, appeared %q", miss, extra)
		}
		c.NonTrivial(len(src.Comments) > 1 && string(out) != string(layout))
		c.Label(typ.name)
	})
}

// strInList is a string element with an end-of-line comment.
type strInList struct {
	list *build.ListExpr
	call *build.CallExpr
	str  *build.StringExpr
}

type strsInLists []strInList

func listStrings(f *build.File) (r strsInLists) {
	astx.Each(f, func(e build.Expr) {
		switch e := e.(type) {
		case *build.ListExpr:
			for _, x := range e.List {
				if s, ok := x.(*build.StringExpr); ok && len(s.Suffix) > 0 {
					r = append(r, strInList{e, nil, s})
				}
				// The parts of a label are joined to its first part.
				if sum, ok := x.(*build.BinaryExpr); ok && sum.Op == "+" {
					for ok {
						x = sum.X
						sum, ok = x.(*build.BinaryExpr)
					}
					if s, ok := x.(*build.StringExpr); ok {
						r = append(r, strInList{e, nil, s})
					}
				}
			}
		case *build.CallExpr:
			if id, ok := e.X.(*build.Ident); ok && id.Name == "use_repo" {
				for _, x := range e.List {
					if s, ok := x.(*build.StringExpr); ok && len(s.Suffix) > 0 {
						r = append(r, strInList{nil, e, s})
					}
				}
			}
		}
	})
	return
}

// explains tells whether every missing comment was the end-of-line comment of a
// string that was removed from its list while an equal one stays.
func (l strsInLists) explains(missing []string) bool {
	ok := map[string]bool{}
	for _, x := range l {
		var list []build.Expr
		if x.list != nil {
			list = x.list.List
		} else {
			list = x.call.List
		}
		equal := false
		for _, y := range list {
			if y == build.Expr(x.str) {
				equal = false
				break
			}
			if s, isStr := y.(*build.StringExpr); isStr && s.Value == x.str.Value {
				equal = true
			}
		}
		if equal {
			for _, c := range x.str.Suffix {
				ok[strings.TrimSpace(c.Token)] = true
			}
		}
	}
	for _, m := range missing {
		if !ok[m] {
			return false
		}
	}
	return true
}
