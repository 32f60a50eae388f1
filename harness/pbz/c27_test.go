package pbz

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// a fixFile is a BUILD file with something to fix.
type fixFile struct {
	g     *bg
	names []string
}

func (x *fixFile) strs(multi bool, pool ...string) {
	g := x.g
	n := gen.Int(g.rt, 5)
	g.w("[")
	if multi = multi && n > 0 && g.p(50); multi {
		g.w("\n")
	}
	for i := 0; i < n; i++ {
		e := fmt.Sprintf("%q", g.pick(pool...))
		if !g.noVars && g.p(5) {
			e = g.pick("ELEM", "f(1)")
		}
		if multi {
			g.before("        ")
			g.w("        %s,", e)
			g.suffix()
			continue
		}
		if i > 0 {
			g.w(", ")
		}
		g.w("%s", e)
	}
	if multi {
		if g.comments && g.p(8) {
			g.w("        %s\n", g.comment())
		}
		g.w("    ")
	}
	g.w("]")
}

var fixLabels = []string{":x", "x", "//a/b:x", "//c:c", "//c", "//c:d", "//a/b", "//a/b:b", "s.cc", "//a/b:s.cc", ":s.cc", "//a/b/c:c", "//a:b", "@r//p:p", "//:x"}

func (x *fixFile) attr(kind, name string) {
	g := x.g
	lists := func(pool ...string) {
		for {
			switch gen.Int(g.rt, 9) {
			case 0:
				g.w("select({\"//conf:a\": ")
				x.strs(false, pool...)
				g.w("})")
			case 1:
				g.w("%s", g.pick("VAR_A", "f(x = [\"//a/b:x\"])"))
			default:
				x.strs(true, pool...)
			}
			if !g.p(35) {
				return
			}
			g.w(" + ")
		}
	}
	g.before("    ")
	g.w("    %s = ", name)
	switch name {
	case "copts", "linkopts", "my_opts":
		lists("-Wall", "-Dfoo -Dbar", "a  b c", "-DX='a b'", "$(location :x) -z", " -x", "-I$(execpath :x) -y", "-lm", `-DY=\"a b\"`, "-I$(GENDIR) -q", "-Dx\\ y")
	case "visibility":
		if g.p(85) {
			vs := []string{"//visibility:private", "//visibility:private", "//visibility:public", "//c:__pkg__", "//d:__pkg__"}
			n := 1 + gen.Int(g.rt, 2)
			i := gen.Int(g.rt, len(vs))
			var r []string
			for ; n > 0; n-- {
				r = append(r, fmt.Sprintf("%q", vs[i%len(vs)]))
				i++
			}
			g.w("[%s]", strings.Join(r, ", "))
		} else {
			g.w("%s", g.pick("VIS", "[VIS]", "[\"//visibility:private\"] + X", "[]"))
		}
	case "testonly":
		g.w("%s", g.pick("1", "0", "True", "False", "FLAG", "1", "0"))
	case "cmd":
		parts := []string{"x", ":x", "//c:d", "$(location x)", "$(location :x)", "$(locations //c:d)", "$(execpath x)", "$@", "$<", "cat", "a/x", "s.cc", "//c", "y"}
		var r []string
		for n := 1 + gen.Int(g.rt, 5); n > 0; n-- {
			r = append(r, g.pick(parts...))
		}
		g.w("%q", strings.Join(r, " "))
		if g.p(15) {
			g.w(" + %q", " "+g.pick(parts...))
		}
	case "size", "main":
		g.w("%s", g.pick(`varref("V")`, `varref("V") + "x"`, `"small"`, "varref(V)", `"a" + varref("B")`))
	default:
		if g.p(20) {
			g.w("glob(")
			x.strs(true, "*.cc", "a.cc", "b.cc", "**/*.h", "x10", "x9")
			if g.p(30) {
				g.w(", exclude = ")
				x.strs(false, "z", "y", "x")
			}
			g.w(")")
		} else if g.p(5) {
			g.w(`[varref("W"), "x"]`)
		} else {
			lists(fixLabels...)
		}
	}
	g.w(",")
	g.suffix()
}

func (x *fixFile) rule() {
	g := x.g
	kind := g.pick("cc_library", "cc_test", "genrule", "genrule", "my_rule", "test_suite", "java_library")
	g.before("")
	name := fmt.Sprintf("r%d", len(x.names))
	x.names = append(x.names, name)
	g.w("%s(\n    name = %q,\n", kind, name)
	pool := []string{"deps", "srcs", "visibility", "testonly", "copts", "linkopts", "my_opts", "data", "size", "my_deps"}
	if kind == "genrule" {
		pool = []string{"srcs", "deps", "tools", "cmd", "cmd", "outs", "visibility", "testonly"}
	}
	start := gen.Int(g.rt, len(pool))
	used := map[string]bool{}
	for n := gen.Int(g.rt, 6); n > 0; n-- {
		a := pool[start%len(pool)]
		start += 1 + gen.Int(g.rt, 2)
		if !used[a] {
			used[a] = true
			x.attr(kind, a)
		}
	}
	g.w(")")
	g.suffix()
	g.w("\n")
}

func (x *fixFile) load() {
	g := x.g
	g.before("")
	syms := []string{"my_rule", "f", "VAR_A", "unused1", "unused2", "cc_library", "genrule", "VIS"}
	i := gen.Int(g.rt, len(syms))
	g.w("load(%q", g.pick(":defs.bzl", ":defs.bzl", "//t:d.bzl", "@r//p:q.bzl"))
	multi := g.p(30)
	for n := 1 + gen.Int(g.rt, 3); n > 0; n-- {
		s := syms[i%len(syms)]
		i++
		g.w(",")
		if multi {
			g.w("\n")
			g.before("    ")
			g.w("    ")
		} else {
			g.w(" ")
		}
		if g.p(15) {
			g.w("%s = %q", s, g.pick("orig", s+"_impl"))
		} else {
			g.w("%q", s)
		}
	}
	if multi {
		g.w(",\n")
	}
	g.w(")")
	if g.p(6) {
		g.w("  # %s", g.pick("@unused", "buildifier: disable=load @unused", "@Unused"))
	}
	g.suffix()
}

func (x *fixFile) file() string {
	g := x.g
	if g.p(15) {
		g.w("# header\n\n")
	}
	for n := gen.Int(g.rt, 4); n > 0; n-- {
		x.load()
	}
	hasPkg, hasLic := false, false
	for n := 1 + gen.Int(g.rt, 5); n > 0; n-- {
		switch c := gen.Int(g.rt, 12); {
		case c == 0 && !hasPkg, c == 1 && !hasPkg:
			hasPkg = true
			g.before("")
			g.w("package(")
			if g.p(70) {
				g.w("default_visibility = %s, ", g.pick(`["//visibility:public"]`, `["//visibility:private"]`, `["//d:__pkg__", "//c:__pkg__"]`, "VIS"))
			}
			if g.p(50) {
				g.w("default_testonly = %s, ", g.pick("1", "0", "True", "FLAG"))
			}
			if g.p(10) {
				g.w("features = [\"z\"], ")
			}
			g.w(")")
			g.suffix()
		case c == 2 && !hasLic:
			hasLic = true
			g.before("")
			g.w("licenses([%q])", g.pick("notice", "reciprocal"))
			g.suffix()
		case c == 3:
			g.before("")
			g.w("X.%s(", g.pick("append", "extend", "pop"))
			g.w("%s)", g.pick("[1]", "Y", "\"s\""))
			g.suffix()
		case c == 4:
			g.w("exports_files(")
			x.strs(true, "b.txt", "a.txt", "c/d", "x10", "x9")
			g.w(")\n")
		case c == 5:
			g.w("VAR_A = ")
			x.strs(true, fixLabels...)
			g.w("\n")
		case c == 6:
			x.load()
		default:
			x.rule()
		}
	}
	return g.b.String()
}

func mkFixFile(rt *rapid.T) (string, []string) {
	x := &fixFile{g: &bg{rt: rt, comments: gen.Pct(rt, 60), noVars: gen.Pct(rt, 40)}}
	for len(x.names) == 0 {
		x.g.b.Reset()
		x.names = nil
		t := x.file()
		if len(x.names) > 0 {
			return t, x.names
		}
		x.rule()
		t = x.g.b.String()
		return t, x.names
	}
	return "", nil
}

// concatLists lists the list literals concatenated in e.
func concatLists(e build.Expr) (ls []*build.ListExpr) {
	switch e := e.(type) {
	case *build.ListExpr:
		return []*build.ListExpr{e}
	case *build.ParenExpr:
		return concatLists(e.X)
	case *build.BinaryExpr:
		if e.Op == "+" {
			return append(concatLists(e.X), concatLists(e.Y)...)
		}
	}
	return nil
}

var ruleFixNames = []string{"sortGlob", "splitOptions", "shortenLabels", "removeVisibility", "removeTestOnly", "genruleRenameDepsTools", "genruleFixHeuristicLabels", "sortExportsFiles", "varref", "mergeLiteralLists"}
var fileFixNames = []string{"movePackageToTop", "usePlusEqual", "unusedLoads", "moveLicenses"}

// eachExpr visits all nodes below e, and e.
func eachExpr(e build.Expr, f func(build.Expr)) {
	astx.Each(e, f)
}

// dropAttr removes the attribute from the rule.
func (r *rule) dropAttr(name string) {
	var l []build.Expr
	for _, x := range r.call.List {
		if as, ok := x.(*build.AssignExpr); ok {
			if id, ok := as.LHS.(*build.Ident); ok && id.Name == name {
				continue
			}
		}
		l = append(l, x)
	}
	r.call.List = l
}

// stringsOf lists the elements of a list of string literals.
func stringsOf(e build.Expr) ([]string, bool) {
	l, ok := e.(*build.ListExpr)
	if !ok {
		return nil, false
	}
	var r []string
	for _, x := range l.List {
		s, ok := x.(*build.StringExpr)
		if !ok {
			return nil, false
		}
		r = append(r, s.Value)
	}
	sort.Strings(r)
	return r, true
}

// wantFix changes f as the fix should, on the statements chosen by on.
func wantFix(f *build.File, fix string, on func(*rule) bool) {
	var pkgRule *rule
	var rs []*rule
	for _, r := range rulesOf(f) {
		if r.kind == "package" && pkgRule == nil {
			pkgRule = r
		}
		if on(r) {
			rs = append(rs, r)
		}
	}
	for _, r := range rs {
		switch fix {
		case "splitOptions":
			for _, a := range []string{"copts", "linkopts"} {
				for _, l := range concatLists(r.attr(a)) {
					var out []build.Expr
					for _, x := range l.List {
						s, ok := x.(*build.StringExpr)
						fs := []string(nil)
						if ok {
							fs = strings.Fields(s.Value)
						}
						if !ok || !strings.Contains(s.Value, " ") || strings.ContainsAny(s.Value, `'"\`) || strings.Contains(s.Value, "$(location ") || strings.Contains(s.Value, "$(execpath ") || len(fs) == 0 {
							out = append(out, x)
							continue
						}
						for i, v := range fs {
							n := &build.StringExpr{Value: v}
							if i == 0 {
								n.Comments = s.Comments
							}
							out = append(out, n)
						}
					}
					l.List = out
				}
			}
		case "removeVisibility":
			def := []string{"//visibility:private"}
			ok := true
			if v := pkgRule.attr("default_visibility"); v != nil {
				def, ok = stringsOf(v)
			}
			if v, ok2 := stringsOf(r.attr("visibility")); ok && ok2 && len(v) > 0 && fmt.Sprint(v) == fmt.Sprint(def) {
				r.dropAttr("visibility")
			}
		case "removeTestOnly":
			def := "0"
			if strings.HasSuffix(r.kind, "_test") || r.kind == "test_suite" {
				def = "1"
			} else if v := pkgRule.attr("default_testonly"); v != nil {
				if l, ok := v.(*build.LiteralExpr); ok {
					def = l.Token
				} else {
					def = "?"
				}
			}
			if l, ok := r.attr("testonly").(*build.LiteralExpr); ok && l.Token == def {
				r.dropAttr("testonly")
			}
		case "genruleRenameDepsTools":
			if r.kind == "genrule" && r.attr("tools") == nil {
				for _, a := range r.attrs {
					if a.name == "deps" {
						a.def.LHS.(*build.Ident).Name = "tools"
					}
				}
			}
		case "varref":
			var walk func(e build.Expr) build.Expr
			walk = func(e build.Expr) build.Expr {
				return build.Edit(e, func(x build.Expr, _ []build.Expr) build.Expr {
					call, ok := x.(*build.CallExpr)
					if !ok || kindOf(call.X) != "varref" || len(call.List) != 1 {
						return nil
					}
					if s, ok := call.List[0].(*build.StringExpr); ok {
						return &build.StringExpr{Value: "$(" + s.Value + ")", Comments: call.Comments}
					}
					return nil
				})
			}
			walk(r.call)
		}
	}
	switch fix {
	case "usePlusEqual":
		for i, s := range f.Stmt {
			r := ruleOf(i, s)
			if r == nil || len(r.call.List) != 1 {
				continue
			}
			v, m, ok := strings.Cut(r.kind, ".")
			if !ok || m != "append" && m != "extend" {
				continue
			}
			rhs := r.call.List[0]
			if m == "append" {
				rhs = &build.ListExpr{List: []build.Expr{rhs}}
			}
			f.Stmt[i] = &build.AssignExpr{LHS: &build.Ident{Name: v}, Op: "+=", RHS: rhs, Comments: r.call.Comments}
		}
	case "movePackageToTop":
		if pkgRule == nil {
			return
		}
		at := 0
		for at < len(f.Stmt) {
			switch f.Stmt[at].(type) {
			case *build.CommentBlock, *build.StringExpr, *build.AssignExpr, *build.LoadStmt:
				at++
				continue
			}
			break
		}
		if at < pkgRule.idx {
			var out []build.Expr
			out = append(out, f.Stmt[:at]...)
			out = append(out, f.Stmt[pkgRule.idx])
			out = append(out, f.Stmt[at:pkgRule.idx]...)
			f.Stmt = append(out, f.Stmt[pkgRule.idx+1:]...)
		}
	}
}

func hasComments(e build.Expr) bool {
	n := 0
	eachExpr(e, func(x build.Expr) {
		c := x.Comment()
		n += len(c.Before) + len(c.Suffix) + len(c.After)
		if l, ok := x.(*build.ListExpr); ok {
			n += len(l.End.Before) + len(l.End.Suffix)
		}
	})
	return n > 0
}

// asSets dumps a node with list literals as sets.
func asSets(e build.Expr) string {
	return astx.Dump(e, astx.Opt{Override: func(e build.Expr, rec func(build.Expr) string) (string, bool) {
		l, ok := e.(*build.ListExpr)
		if !ok {
			return "", false
		}
		m := map[string]bool{}
		for _, x := range l.List {
			m[rec(x)] = true
		}
		return "[" + strings.Join(sortedKeys(m), " ") + "]", true
	}})
}

// merged dumps a node with adjacent list literals concatenated.
func merged(e build.Expr) string {
	var rec func(build.Expr) string
	opt := astx.Opt{Override: func(e build.Expr, rec func(build.Expr) string) (string, bool) {
		var elems func(build.Expr) ([]string, bool)
		elems = func(e build.Expr) ([]string, bool) {
			switch e := e.(type) {
			case *build.ListExpr:
				r := []string{}
				for _, x := range e.List {
					r = append(r, rec(x))
				}
				return r, true
			case *build.BinaryExpr:
				if e.Op == "+" {
					a, ok1 := elems(e.X)
					b, ok2 := elems(e.Y)
					if ok1 && ok2 {
						return append(a, b...), true
					}
				}
			}
			return nil, false
		}
		if l, ok := elems(e); ok {
			m := map[string]bool{} // formatting sorts and deduplicates merged lists
			for _, x := range l {
				m[x] = true
			}
			return "[" + strings.Join(sortedKeys(m), " ") + "]", true
		}
		return "", false
	}}
	_ = rec
	return astx.Dump(e, opt)
}

// fixText applies fixes to the file, or to one rule of it.
func fixText(c *vk.Case, path, text, rule string, fixes ...string) string {
	f := parseBuild(c, path, text)
	f.Pkg = pkg
	var g *build.File
	if rule == "" {
		g = edit.FixFile(f, pkg, fixes)
	} else {
		g = edit.FixRule(f, pkg, edit.FindRuleByName(f, rule), fixes)
	}
	if g == nil {
		if now := string(build.Format(f)); now != plain(c, path, text) {
			c.Fail("fix %q reports no change, but the file has changed:\n%s\n--- before\n%s", fixes, now, text)
		}
		g = f
	}
	return plain(c, path, string(build.Format(g)))
}

func commentSet(text string) string {
	x := astx.ScanComments(text)
	sort.Strings(x)
	return strings.Join(x, "\n")
}

// loadedOf lists what is loaded: "module from to".
func loadedOf(f *build.File) (r []string) {
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			for i := range l.To {
				r = append(r, l.Module.Value+" "+l.From[i].Name+" "+l.To[i].Name)
			}
		}
	}
	return
}

func stmts(f *build.File, keep func(build.Expr) bool) (r []string) {
	for _, s := range f.Stmt {
		if keep(s) {
			r = append(r, fmt.Sprintf("%s %q", astx.Dump(s, astx.Opt{}), astx.AllComments(s)))
		}
	}
	return
}

// usedNames adds the names that e uses, not those it assigns.
func usedNames(e build.Expr, used map[string]bool) {
	switch x := e.(type) {
	case *build.Ident:
		used[x.Name] = true
		return
	case *build.AssignExpr:
		if _, ok := x.LHS.(*build.Ident); ok {
			usedNames(x.RHS, used)
			return
		}
	}
	for _, x := range astx.Children(e) {
		usedNames(x, used)
	}
}

// checkHeuristic checks that some words of cmd became $(location word).
func checkHeuristic(c *vk.Case, r0, r1 *rule, got, text string) {
	cmd0, cmd1 := cmdStrings(r0.attr("cmd")), cmdStrings(r1.attr("cmd"))
	if r0.kind != "genrule" || len(cmd0) != len(cmd1) {
		if fmt.Sprint(cmd0) != fmt.Sprint(cmd1) {
			c.Fail("cmd is %q, was %q\n%s", cmd1, cmd0, got)
		}
		return
	}
	lab := map[string]bool{}
	for _, a := range []string{"srcs", "tools"} {
		for _, l := range concatLists(r0.attr(a)) {
			for _, x := range l.List {
				if s, ok := x.(*build.StringExpr); ok {
					lab[s.Value] = true
				}
			}
		}
	}
	for i := range cmd0 {
		var want []string
		ws := strings.Split(cmd0[i], " ")
		open := false // after a function of an unknown label, one label may be left alone
		gotWords := strings.Split(cmd1[i], " ")
		for _, w := range ws { // words, some of them inside $( )
			l := strings.TrimSuffix(w, ")")
			switch {
			case strings.HasPrefix(w, "$("):
			case strings.HasSuffix(w, ")"):
				open = open || !lab[l] && !lab[":"+l]
			case open && (lab[w] || lab[":"+w]) && len(want) < len(gotWords) && gotWords[len(want)] == w:
				open = false
			case lab[w]:
				want = append(want, "$(location")
				w += ")"
			case lab[":"+w]:
				want = append(want, "$(location")
				w = ":" + w + ")"
			}
			want = append(want, w)
		}
		if w := strings.Join(want, " "); w != cmd1[i] {
			c.Fail("cmd is %q, expected %q, was %q\n%s\n--- before\n%s", cmd1[i], w, cmd0[i], got, text)
		}
	}
}

func cmdStrings(e build.Expr) (r []string) {
	switch e := e.(type) {
	case *build.StringExpr:
		return []string{e.Value}
	case *build.BinaryExpr:
		return append(cmdStrings(e.X), cmdStrings(e.Y)...)
	}
	return nil
}

func TestC27_Fix(t *testing.T) {
	vk.Check(t, "generated BUILD files with something for every fix x one fix x the whole file or one rule; the result is compared with a model of the fix (sorted and merged lists as sets, loads as the used symbols, labels up to spelling). Non-trivial: the fix changed the file", 60000, 2000000, func(rt *rapid.T, c *vk.Case) {
		text, names := mkFixFile(rt)
		path := "/ws/a/b/BUILD"
		all := append(append([]string{}, ruleFixNames...), fileFixNames...)
		fix := all[gen.Int(rt, len(all))]
		ruleFix := contains(ruleFixNames, fix)
		rn := ""
		if ruleFix && gen.Pct(rt, 40) {
			rn = names[gen.Int(rt, len(names))]
		}
		build.DisableRewrites = []string{"label", "listsort"}
		defer func() { build.DisableRewrites = nil }()
		text = plain(c, path, text)
		c.Input(text)
		c.Part("fix %s, rule %q", fix, rn)
		got := fixText(c, path, text, rn, fix)
		f0, f1 := parseBuild(c, path, text), parseBuild(c, path, got)
		c.NonTrivial(got != text)
		if got != text {
			c.Label(fix)
		}
		if x := fixText(c, path, got, rn, fix); x != got {
			c.Fail("%s twice:\n%s\n--- once\n%s\n--- before\n%s", fix, x, got, text)
		}
		on := func(r *rule) bool { return rn == "" || r.name == rn }
		switch fix {
		default:
			w := parseBuild(c, path, text)
			wantFix(w, fix, on)
			want := plain(c, path, string(build.Format(w)))
			if got != want {
				c.Fail("%s gives\n%s\n--- expected\n%s\n--- before\n%s", fix, got, want, text)
			}
			return
		case "mergeLiteralLists", "sortGlob", "sortExportsFiles", "shortenLabels", "genruleFixHeuristicLabels":
			dup := false // comments behind removed duplicates are lost
			eachExpr(&build.ListExpr{List: f0.Stmt}, func(e build.Expr) {
				if l, ok := e.(*build.ListExpr); ok {
					seen := map[string]bool{}
					for _, x := range l.List {
						if s, ok := x.(*build.StringExpr); ok {
							dup = dup || seen[s.Value]
							seen[s.Value] = true
						}
					}
				}
			})
			if a, b := commentSet(text), commentSet(got); a != b && !(dup && strings.HasPrefix(fix, "sort")) {
				c.Fail("%s changes the comments\n%s\n--- before\n%s", fix, got, text)
			}
		case "unusedLoads", "moveLicenses":
		}
		if fix == "sortGlob" || fix == "sortExportsFiles" {
			// the order the strings were in doesn't matter
			of := "exports_files"
			if fix == "sortGlob" {
				of = "glob"
			}
			w := parseBuild(c, path, text)
			eachExpr(&build.ListExpr{List: w.Stmt}, func(e build.Expr) {
				call, ok := e.(*build.CallExpr)
				if !ok || kindOf(call.X) != of || len(call.List) == 0 || hasComments(call.List[0]) {
					return
				}
				l, ok := call.List[0].(*build.ListExpr)
				if _, ok2 := stringsOf(call.List[0]); !ok || !ok2 {
					return
				}
				for i, j := 0, len(l.List)-1; i < j; i, j = i+1, j-1 {
					a, b := l.List[i].(*build.StringExpr), l.List[j].(*build.StringExpr)
					a.Value, b.Value = b.Value, a.Value
					a.Token, b.Token = "", ""
				}
			})
			if rn == "" {
				if x := fixText(c, path, string(build.Format(w)), rn, fix); x != got {
					c.Fail("%s depends on the order there was:\n%s\n--- or\n%s\n--- before\n%s", fix, got, x, text)
				}
			}
		}
		all0, all1 := f0.Stmt, f1.Stmt
		if fix != "unusedLoads" && fix != "moveLicenses" {
			if len(all0) != len(all1) {
				c.Fail("%s: %d statements, were %d\n%s\n--- before\n%s", fix, len(all1), len(all0), got, text)
			}
			for i := range all0 {
				r := ruleOf(i, all0[i])
				dump := func(e build.Expr) string { return astx.Dump(e, astx.Opt{}) }
				if r != nil && on(r) {
					switch fix {
					case "mergeLiteralLists":
						dump = merged
						eachExpr(all1[i], func(e build.Expr) {
							if b, ok := e.(*build.BinaryExpr); ok && b.Op == "+" {
								_, ok1 := b.X.(*build.ListExpr)
								_, ok2 := b.Y.(*build.ListExpr)
								if ok1 && ok2 {
									c.Fail("%s leaves lists to merge\n%s", fix, got)
								}
							}
						})
					case "sortGlob", "sortExportsFiles":
						of := "exports_files"
						if fix == "sortGlob" {
							of = "glob"
						}
						dump = func(e build.Expr) string {
							return astx.Dump(e, astx.Opt{Override: func(e build.Expr, rec func(build.Expr) string) (string, bool) {
								call, ok := e.(*build.CallExpr)
								if !ok || kindOf(call.X) != of || len(call.List) == 0 {
									return "", false
								}
								s := of + "(" + asSets(call.List[0])
								for _, x := range call.List[1:] {
									s += " " + rec(x)
								}
								return s + ")", true
							}})
						}
					case "shortenLabels":
						known := map[*build.StringExpr]bool{}
						mark := func(r *rule) {
							for _, a := range []string{"deps", "srcs", "data", "visibility", "tools"} {
								for _, l := range concatLists(r.attr(a)) {
									for _, x := range l.List {
										if s, ok := x.(*build.StringExpr); ok {
											known[s] = true
										}
									}
								}
							}
						}
						r1 := ruleOf(i, all1[i])
						mark(r)
						mark(r1)
						for s := range known {
							if strings.HasPrefix(s.Value, "//a/b:") || s.Value == "//a/b" || s.Value == "//c:c" || s.Value == "//a/b/c:c" || s.Value == "@r//p:p" {
								found := false
								eachExpr(all1[i], func(e build.Expr) { found = found || e == build.Expr(s) })
								if found {
									c.Fail("%s leaves %q\n%s", fix, s.Value, got)
								}
							}
						}
						dump = func(e build.Expr) string {
							return astx.Dump(e, astx.Opt{Override: func(e build.Expr, rec func(build.Expr) string) (string, bool) {
								if s, ok := e.(*build.StringExpr); ok && known[s] {
									return "label " + norm(s.Value, pkg), true
								}
								return "", false
							}})
						}
					case "genruleFixHeuristicLabels":
						r1 := ruleOf(i, all1[i])
						checkHeuristic(c, r, r1, got, text)
						if r.kind == "genrule" {
							dump = func(e build.Expr) string {
								x := ruleOf(0, e)
								return astx.Dump(e, astx.Opt{Override: func(y build.Expr, rec func(build.Expr) string) (string, bool) {
									if x != nil && x.attr("cmd") != nil && y == x.attr("cmd") {
										return "cmd", true
									}
									return "", false
								}})
							}
						}
					}
				}
				if a, b := dump(all0[i]), dump(all1[i]); a != b {
					c.Fail("%s changes statement %d to\n%s\n--- from\n%s\n%s\n--- before\n%s", fix, i+1, b, a, got, text)
				}
			}
			return
		}
		if fix == "moveLicenses" {
			isLic := func(e build.Expr) bool { r := ruleOf(0, e); return r != nil && r.kind == "licenses" }
			isPkg := func(e build.Expr) bool { r := ruleOf(0, e); return r != nil && r.kind == "package" }
			other := func(e build.Expr) bool { return !isLic(e) && !isPkg(e) }
			a, b := stmts(f0, other), stmts(f1, other)
			if fmt.Sprint(a) != fmt.Sprint(b) {
				c.Fail("moveLicenses changes other statements\n%s\n--- before\n%s", got, text)
			}
			if len(stmts(f1, isLic)) > 0 {
				c.Fail("moveLicenses leaves licenses\n%s", got)
			}
			if a, b := commentSet(text), commentSet(got); a != b {
				c.Fail("%s changes the comments\n%s\n--- before\n%s", fix, got, text)
			}
			var lic *rule
			attrs := func(f *build.File) map[string]string {
				m := map[string]string{}
				for _, r := range rulesOf(f) {
					if r.kind == "package" {
						for _, a := range r.attrs {
							m[a.name] = astx.Dump(a.def.RHS, astx.Opt{})
						}
					}
					if r.kind == "licenses" {
						lic = r
					}
				}
				return m
			}
			w, g := attrs(f0), attrs(f1)
			if lic != nil {
				w["licenses"] = astx.Dump(lic.call.List[0], astx.Opt{})
			}
			if fmt.Sprint(w) != fmt.Sprint(g) {
				c.Fail("moveLicenses: package has %v, expected %v\n%s\n--- before\n%s", g, w, got, text)
			}
			return
		}
		// unusedLoads
		used := map[string]bool{}
		for _, s := range f0.Stmt {
			if _, ok := s.(*build.LoadStmt); ok {
				continue
			}
			usedNames(s, used)
		}
		last := map[string]string{}
		var want []string
		for _, s := range f0.Stmt {
			l, ok := s.(*build.LoadStmt)
			if !ok {
				continue
			}
			unusedOK := strings.Contains(strings.ToLower(fmt.Sprint(l.Before, l.Suffix, l.After)), "@unused")
			for i := range l.To {
				id := l.Module.Value + " " + l.From[i].Name
				keep := used[l.To[i].Name] || strings.Contains(strings.ToLower(fmt.Sprint(l.From[i].Comments, l.To[i].Comments)), "@unused")
				if !unusedOK && (!keep || last[l.To[i].Name] == id) {
					continue
				}
				if !unusedOK {
					last[l.To[i].Name] = id
				}
				want = append(want, id+" "+l.To[i].Name)
			}
		}
		have := loadedOf(f1)
		sort.Strings(want)
		sort.Strings(have)
		if fmt.Sprint(want) != fmt.Sprint(have) {
			c.Fail("unusedLoads leaves %q, expected %q\n%s\n--- before\n%s", have, want, got, text)
		}
		no := func(e build.Expr) bool {
			_, ok := e.(*build.LoadStmt)
			_, cb := e.(*build.CommentBlock)
			return !ok && !cb
		}
		if a, b := stmts(f0, no), stmts(f1, no); fmt.Sprint(a) != fmt.Sprint(b) {
			c.Fail("unusedLoads changes other statements\n%s\n--- before\n%s", got, text)
		}
	})
}

func TestC27_All(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated BUILD files x all fixes or a subset of them, through the command line: equal to the fixes one after the other, with the rules' fixes before the file's; applying them again changes nothing, nor does a fix that doesn't exist. Non-trivial: at least two fixes changed the file", 8000, 300000, func(rt *rapid.T, c *vk.Case) {
		text, names := mkFixFile(rt)
		path := w.path("a/b/BUILD")
		all := append(append([]string{}, ruleFixNames...), fileFixNames...)
		var fixes []string
		k := cmd{"fix"}
		if gen.Pct(rt, 50) {
			fixes = all
		} else {
			m := 1 + gen.Int(rt, 1<<len(all)-1)
			for i, f := range all {
				if m&(1<<i) != 0 {
					fixes = append(fixes, f)
				}
			}
			given := rapid.Permutation(fixes).Draw(rt, "order")
			k = append(k, given...)
		}
		rn := ""
		if gen.Pct(rt, 30) {
			rn = names[gen.Int(rt, len(names))]
		}
		fl := flags{noShorten: gen.Pct(rt, 50)}
		if fl.noShorten {
			build.DisableRewrites = []string{"label"}
		}
		defer func() { build.DisableRewrites = nil }()
		text = plain(c, path, text)
		c.Input(text)
		target := "//a/b:__pkg__"
		if rn != "" {
			target = "//a/b:" + rn
		}
		c.Part("buildozer %s %q %s", fl, k.line(), target)
		changes := 0
		f := parseBuild(c, path, text)
		f.Pkg = pkg
		for _, fix := range fixes {
			if rn != "" && contains(fileFixNames, fix) {
				continue
			}
			before := string(build.FormatWithoutRewriting(f))
			if rn == "" {
				edit.FixFile(f, pkg, []string{fix})
			} else {
				edit.FixRule(f, pkg, edit.FindRuleByName(f, rn), []string{fix})
			}
			if string(build.FormatWithoutRewriting(f)) != before {
				changes++
			}
		}
		want := plain(c, path, string(build.FormatWithoutRewriting(f)))
		// the command line removes an empty package declaration
		f = parseBuild(c, path, want)
		var l []build.Expr
		for _, s := range f.Stmt {
			if r := ruleOf(0, s); r != nil && r.kind == "package" && len(r.call.List) == 0 {
				continue
			}
			l = append(l, s)
		}
		f.Stmt = l
		want2 := plain(c, path, string(build.Format(f)))
		w.put("a/b/BUILD", text)
		res := w.run(fl, k.line(), target)
		now := w.get("a/b/BUILD")
		// merged lists may keep the layout of the first one
		flat := func(s string) string {
			return astx.Dump(parseBuild(c, path, s), astx.Opt{}) + "\n" + strings.Join(astx.ScanComments(s), "\n")
		}
		if now != want && now != want2 && flat(now) != flat(want) && flat(now) != flat(want2) {
			c.Fail("%s (exit %d, %s) gives\n%s\none by one:\n%s", k.line(), res.rc, res.err, now, want)
		}
		if rc := map[bool]int{true: 0, false: 3}[now != text]; res.rc != rc {
			c.Fail("exit %d, expected %d (%s)", res.rc, rc, res.err)
		}
		res = w.run(fl, k.line(), target)
		if x := w.get("a/b/BUILD"); x != now {
			c.Fail("%s again gives\n%s\n--- before\n%s", k.line(), x, now)
		}
		res = w.run(fl, "fix noSuchFix", target)
		if x := w.get("a/b/BUILD"); x != now {
			c.Fail("an unknown fix changes the file to\n%s\n--- before\n%s", x, now)
		}
		c.NonTrivial(changes >= 2)
	})
}
