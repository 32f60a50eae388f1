package pfmt

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

type carg struct {
	kind    string // "arg", "kw", "*", "**"
	name    string
	value   string // unique
	before  string
	suffix  string
	inner   *ccall
	priorit int
}

type ccall struct {
	fn    string
	mark  bool // leave-alone on the call
	args  []*carg
	multi bool
}

var callNames = []string{"cc_library", "foo", "module", "bazel_dep", "archive_override", "git_override", "native.cc_library", "x.y", "f(1)", "a[0]", "glob", "select", "ctx.actions.run", "d.module"}
var kwNames = []string{"name", "srcs", "deps", "hdrs", "visibility", "size", "timeout", "testonly", "a", "B", "_z", "zz", "exclude", "include", "alwayslink", "implementation", "runtime_deps", "exports", "outs", "out", "src", "module_name", "version", "package_name", "tags", "data", "of", "baseline", "destdir", "implements", "srcdir", "gwt_name", "ab", "a_b", "é"}

// TestC10_Arguments: reordering is a stable partition of the arguments, with
// sorted keywords where documented, and each argument keeps value and comments.
func TestC10_Arguments(t *testing.T) {
	vk.Check(t, "calls (nested, of 14 callee shapes) with positional, keyword, *args and **kwargs arguments in any order, repeated keywords, comments on arguments and leave-alone markers on calls and around them, for the 5 file types; non-trivial: the reference order differs from the written one", 100000, 5000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		id, nc := 0, 0
		var mk func(depth int) *ccall
		mk = func(depth int) *ccall {
			call := &ccall{fn: callNames[gen.Int(rt, len(callNames))], multi: gen.Pct(rt, 70)}
			n := gen.Int(rt, 8)
			if gen.Pct(rt, 4) {
				n = 13 + gen.Int(rt, 20)
			}
			mixed := gen.Pct(rt, 40)
			comments := call.multi && gen.Pct(rt, 40)
			for ; n > 0; n-- {
				id++
				a := &carg{value: fmt.Sprintf("v%d", id)}
				k := gen.Int(rt, 12)
				switch {
				case mixed && k < 3:
					a.kind = "arg"
				case mixed && k == 3:
					a.kind = "*"
				case mixed && k == 4:
					a.kind = "**"
				default:
					a.kind = "kw"
					a.name = kwNames[gen.Int(rt, len(kwNames))]
				}
				if depth > 0 && gen.Pct(rt, 12) {
					a.inner = mk(depth - 1)
				}
				if comments && gen.Pct(rt, 25) {
					nc++
					a.before = fmt.Sprintf("# c%d", nc)
				}
				if comments && gen.Pct(rt, 25) {
					nc++
					a.suffix = fmt.Sprintf("# c%d", nc)
				}
				call.args = append(call.args, a)
			}
			return call
		}
		var render func(call *ccall) string
		render = func(call *ccall) string {
			var b strings.Builder
			b.WriteString(call.fn + "(")
			for i, a := range call.args {
				if call.multi {
					b.WriteString("\n    ")
					if a.before != "" {
						b.WriteString(a.before + "\n    ")
					}
				}
				switch a.kind {
				case "kw":
					b.WriteString(a.name + " = ")
				case "*", "**":
					b.WriteString(a.kind)
				}
				b.WriteString(a.value)
				if a.inner != nil {
					b.WriteString(" or " + render(a.inner))
				}
				if i < len(call.args)-1 || call.multi {
					b.WriteString(", ")
				}
				if call.multi && a.suffix != "" {
					b.WriteString("  " + a.suffix)
				}
			}
			if call.multi {
				b.WriteString("\n")
			}
			b.WriteString(")")
			return b.String()
		}
		var b strings.Builder
		var calls []*ccall
		for i := 1 + gen.Int(rt, 2); i > 0; i-- {
			call := mk(2)
			if gen.Pct(rt, 12) {
				call.mark = true
				b.WriteString("# buildifier: leave-alone\n")
			}
			calls = append(calls, call)
			switch gen.Int(rt, 4) {
			case 0:
				b.WriteString("x = " + render(call) + "\n\n")
			case 1:
				b.WriteString("[" + render(call) + " for x in y]\n\n")
			default:
				b.WriteString(render(call) + "\n\n")
			}
		}
		c.Input(b.String())
		c.Part("type %s", typ.name)
		// the reference order
		sortKw := typ.typ&buildLike != 0
		order := true
		switch gen.Int(rt, 6) {
		case 0:
			build.DisableRewrites = []string{"callsort"}
			sortKw = false
		case 1:
			build.DisableRewrites = []string{"reorderarguments", "callsort"}
			order, sortKw = false, false
		}
		defer func() { build.DisableRewrites = nil }()
		var model func(call *ccall, alone bool)
		changed := false
		model = func(call *ccall, alone bool) {
			alone = alone || call.mark
			old := append([]*carg{}, call.args...)
			if order {
				rank := map[string]int{"arg": 0, "kw": 1, "*": 2, "**": 3}
				sort.SliceStable(call.args, func(i, j int) bool { return rank[call.args[i].kind] < rank[call.args[j].kind] })
			}
			if sortKw && !alone {
				rule := call.fn
				if strings.ContainsAny(rule, "([") {
					rule = "?"
				}
				i := len(call.args)
				for i > 0 && call.args[i-1].kind == "kw" {
					i--
					a := call.args[i]
					a.priorit = tables.NamePriority[a.name]
					if p, ok := tables.NamePriority[rule+"."+a.name]; ok {
						a.priorit = p
					}
				}
				tail := call.args[i:]
				sort.SliceStable(tail, func(x, y int) bool {
					if tail[x].priorit != tail[y].priorit {
						return tail[x].priorit < tail[y].priorit
					}
					return tail[x].name < tail[y].name
				})
			}
			for i := range old {
				if old[i] != call.args[i] {
					changed = true
				}
				if old[i].inner != nil {
					model(old[i].inner, alone)
				}
			}
		}
		for _, call := range calls {
			model(call, false)
		}
		c.NonTrivial(changed)

		f, err := typ.parse(typ.name, []byte(b.String()))
		if err != nil {
			c.Fail("does not parse: %v", err)
		}
		out := build.Format(f)
		c.Part("disabled %v output:\n%s", build.DisableRewrites, out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		var show func(call *ccall) string
		show = func(call *ccall) string {
			s := call.fn + "("
			for _, a := range call.args {
				s += a.kind + " " + a.name + " " + a.value + " "
				if a.inner != nil {
					s += show(a.inner)
				}
				s += a.before + a.suffix + ";"
			}
			return s + ")"
		}
		var read func(call *build.CallExpr) string
		read = func(call *build.CallExpr) string {
			s := build.FormatString(call.X) + "("
			for _, e := range call.List {
				cms := ""
				note := func(e build.Expr) {
					for _, cm := range append(append([]build.Comment{}, e.Comment().Before...), e.Comment().Suffix...) {
						if strings.HasPrefix(cm.Token, "# c") {
							cms += cm.Token
						}
					}
				}
				note(e)
				kind, name := "arg", ""
				var v build.Expr = e
				switch x := e.(type) {
				case *build.AssignExpr:
					kind, name, v = "kw", x.LHS.(*build.Ident).Name, x.RHS
				case *build.UnaryExpr:
					kind, v = x.Op, x.X
				}
				if v != e {
					note(v)
				}
				if p, ok := v.(*build.ParenExpr); ok {
					v = p.X
					note(v)
				}
				s += kind + " " + name + " "
				if bin, ok := v.(*build.BinaryExpr); ok {
					s += build.FormatString(bin.X) + " " + read(bin.Y.(*build.CallExpr))
					note(bin.Y)
				} else {
					s += v.(*build.Ident).Name + " "
				}
				if p, ok := e.(*build.UnaryExpr); ok {
					if q, ok := p.X.(*build.ParenExpr); ok {
						for _, cm := range q.End.Before {
							cms += cm.Token
						}
					}
				}
				s += cms + ";"
			}
			return s + ")"
		}
		var got, want []string
		for _, st := range f2.Stmt {
			switch x := st.(type) {
			case *build.CallExpr:
				got = append(got, read(x))
			case *build.AssignExpr:
				got = append(got, read(x.RHS.(*build.CallExpr)))
			case *build.Comprehension:
				got = append(got, read(x.Body.(*build.CallExpr)))
			}
		}
		for _, call := range calls {
			want = append(want, show(call))
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("calls are\n%s\nwant\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		c.Label(typ.name)
	})
}
