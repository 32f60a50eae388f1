package plint

import (
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// A pr is a piece of a program together with what the fixes must make of it.
type pr struct {
	a, b string
	ds   bool // known to be a depset
}

func lit(s string) pr { return pr{a: s, b: s} }

// cat concatenates pieces (strings stay as they are).
func cat(parts ...any) pr {
	var r pr
	for _, x := range parts {
		switch x := x.(type) {
		case string:
			r.a += x
			r.b += x
		case pr:
			r.a += x.a
			r.b += x.b
		}
	}
	return r
}

func list(items []pr, sep string) pr {
	var r pr
	for i, x := range items {
		if i > 0 {
			r = cat(r, sep)
		}
		r = cat(r, x)
	}
	return r
}

// commented puts elements on lines of their own, some with comments.
func (g *fx) commented(args []pr) string {
	ind := "\n" + g.ind + "        "
	r := ""
	note := func() string {
		x := g.comment()
		g.inner = append(g.inner, x.b)
		return x.a
	}
	for _, x := range args {
		if g.P(25) {
			r += ind + note()
		}
		r += ind + x.a + ","
		if g.P(25) {
			r += "  " + note()
		}
	}
	if g.P(10) {
		// not checked by skylark-comment
		x := "# " + g.fresh("end")
		g.inner = append(g.inner, x)
		r += ind + x
	}
	return r + "\n" + g.ind
}

// texts joins the results only.
func (g *fx) call(fn pr, args, after []pr) pr {
	sep := ", "
	switch g.N(6) {
	case 0, 1:
		sep = ",\n" + g.ind + "        "
		if len(args) == len(after) && g.P(60) {
			return pr{a: fn.a + "(" + g.commented(args) + ")", b: fn.b + "(" + list(after, ", ").b + ")"}
		}
	}
	tail := ""
	if len(args) > 0 && g.P(10) {
		tail = ","
	}
	return pr{a: fn.a + "(" + list(args, sep).a + tail + ")", b: fn.b + "(" + list(after, ", ").b + ")"}
}

// callWith calls something with keyword arguments.
func (g *fx) callWith(fn pr, d int) pr {
	args := g.args(d, false)
	return g.call(fn, args, args)
}

type loadable struct {
	cat, name, module string
	symbol            bool // any mention, not only calls
	build             bool // also in BUILD files
}

var loadables = []loadable{
	{"git-repository", "git_repository", "@bazel_tools//tools/build_defs/repo:git.bzl", false, false},
	{"git-repository", "new_git_repository", "@bazel_tools//tools/build_defs/repo:git.bzl", false, false},
	{"http-archive", "http_archive", "@bazel_tools//tools/build_defs/repo:http.bzl", false, false},
	{"native-cc-library", "cc_library", "@rules_cc//cc:cc_library.bzl", false, true},
	{"native-cc-info", "CcInfo", "@rules_cc//cc/common:cc_info.bzl", true, true},
	{"native-java-info", "JavaInfo", "@rules_java//java/common:java_info.bzl", true, true},
	{"native-py", "py_library", "@rules_python//python:defs.bzl", false, true},
	{"native-py", "py_test", "@rules_python//python:defs.bzl", false, true},
	{"native-sh-binary", "sh_binary", "@rules_shell//shell:sh_binary.bzl", false, true},
	{"native-proto", "proto_library", "@protobuf//bazel:proto_library.bzl", false, true},
}

type fx struct {
	rt     *rapid.T
	typ    build.FileType
	on     map[string]bool
	ind    string
	n      int
	bound  []map[string]bool            // names bound in the scopes around
	loaded map[string]string            // symbols loaded in the beginning, and from where
	want   map[string]map[string]string // loads there must be afterwards: module → name → from
	ctx    bool
	dsVars, intVars,
	argVars []string
	inner   []string // comments inside of expressions, expected ones
	changed map[string]bool
	module  func(string) string // the module file of a label, as it's named here
}

// modules draws the repository around: how it names modules, and a reader of it.
func (g *fx) modules() (func(string) string, func() *warn.FileReader) {
	legacy := func(m string) string {
		if m == "protobuf" {
			return "com_google_protobuf"
		}
		return m
	}
	if g.P(40) {
		return func(m string) string { return m }, func() *warn.FileReader { return nil }
	}
	files := map[string]string{}
	apparent := map[string]string{}
	if g.P(70) {
		module := "module(name = \"me\")\n"
		for _, m := range []string{"rules_cc", "rules_java", "rules_python", "rules_shell", "protobuf"} {
			to := &module
			if g.P(30) {
				if _, ok := files["inc/deps.MODULE.bazel"]; !ok {
					module += "include(\"//inc:deps.MODULE.bazel\")\n"
				}
				s := files["inc/deps.MODULE.bazel"]
				to = &s
			}
			switch g.N(3) {
			case 0:
				*to += fmt.Sprintf("bazel_dep(name = %q)\n", m)
				apparent[m] = m
			case 1:
				*to += fmt.Sprintf("bazel_dep(name = %q, repo_name = \"my_%s\")\n", m, m)
				apparent[m] = "my_" + m
			}
			if to != &module {
				files["inc/deps.MODULE.bazel"] = *to
			}
		}
		files["MODULE.bazel"] = module
	}
	return func(m string) string {
			if a := apparent[m]; a != "" {
				return a
			}
			return legacy(m)
		}, func() *warn.FileReader {
			return warn.NewFileReader(func(p string) ([]byte, error) {
				if s, ok := files[p]; ok {
					return []byte(s), nil
				}
				return nil, fmt.Errorf("no such file")
			})
		}
}

func (g *fx) N(n int) int              { return gen.Int(g.rt, n) }
func (g *fx) P(p int) bool             { return gen.Pct(g.rt, p) }
func (g *fx) Pick(xs ...string) string { return xs[g.N(len(xs))] }
func (g *fx) fresh(p string) string {
	g.n++
	return fmt.Sprintf("%s%d", p, g.n)
}

// do tells whether the category is fixed here, and records that it was relevant.
func (g *fx) do(cat string, where bool) bool {
	ok := g.on[cat] && where
	if ok {
		g.changed[cat] = true
	}
	return ok
}

func (g *fx) bzl() bool { return g.typ == build.TypeBzl }

// known is true if the name is bound in some scope around.
func (g *fx) known(name string) bool {
	for _, m := range g.bound {
		if m[name] {
			return true
		}
	}
	return false
}

// outermost is true if the name isn't bound in any scope but the file.
func (g *fx) outermost(name string) bool {
	for _, m := range g.bound[1:] {
		if m[name] {
			return false
		}
	}
	return true
}

func (g *fx) need(module, name string) {
	if g.want[module] == nil {
		g.want[module] = map[string]string{}
	}
	g.want[module][name] = name
}

func paren(x pr) pr { return pr{a: "(" + x.a + ")", b: "(" + x.b + ")", ds: x.ds} }

// some is an expression, a depset in p percent.
func (g *fx) some(d, p int) pr {
	if g.P(p) {
		return g.depset(d)
	}
	return g.e(d)
}

// op is an operand: anything in parentheses.
func (g *fx) op(d int) pr {
	if d <= 0 || g.P(50) {
		return g.leaf()
	}
	return paren(g.e(d))
}

func (g *fx) leaf() pr {
	return lit(g.Pick("a", "b", "c", "foo.bar", `"s"`, "d[0]", "f()"))
}

// iter is something that is iterated over or looked up in.
func (g *fx) iter(x pr) pr {
	if x.ds && g.do("depset-iteration", true) {
		x.b = "(" + x.b + ").to_list()"
	}
	x.ds = false
	return x
}

func (g *fx) depset(d int) pr {
	switch g.N(5) {
	case 0:
		if len(g.dsVars) > 0 {
			x := lit(g.Pick(g.dsVars...))
			x.ds = true
			return x
		}
	case 1:
		x := cat(g.depset(d-1), g.Pick(" + ", " | "), g.leaf())
		x.ds = true
		return x
	}
	x := lit("depset")
	if g.P(50) {
		x = g.call(x, nil, nil)
	} else {
		a := []pr{g.iter(g.e(d - 1))}
		x = g.call(x, a, a)
	}
	x.ds = true
	return x
}

// not is the negation of x.
func not(x string) string {
	switch x {
	case "True":
		return "False"
	case "False":
		return "True"
	}
	return "not (" + x + ")"
}

func (g *fx) intE(d int) pr {
	if d > 0 {
		switch g.N(5) {
		case 0:
			x := g.e(d - 1)
			return g.call(lit("int"), []pr{x}, []pr{x})
		case 1:
			return paren(cat(g.intE(d-1), g.Pick(" + ", " * ", " - "), g.intE(d-1)))
		case 2:
			x := g.intE(d - 1)
			y := g.intE(d - 1)
			r := pr{a: "(" + x.a + " / " + y.a + ")", b: "(" + x.b + " / " + y.b + ")"}
			if g.do("integer-division", true) {
				r.b = "(" + x.b + " // " + y.b + ")"
			}
			return r
		}
	}
	if len(g.intVars) > 0 && g.P(30) {
		return lit(g.Pick(g.intVars...))
	}
	return lit(g.Pick("1", "20", "0x3", "0o7"))
}

// args draws some arguments, names excluded from the keywords.
func (g *fx) args(d int, positional bool) []pr {
	var r []pr
	if positional && g.P(40) {
		r = append(r, g.e(d))
	}
	for g.P(35) {
		k := g.Pick("doc", "default", "providers", "mandatory", "PACKAGE_NAME", "CcInfo", "cc_library")
		r = append(r, cat(k+" = ", g.e(d)))
	}
	return r
}

func insert(g *fx, l []pr, from int, x pr) []pr {
	i := from
	if len(l) > from {
		i += g.N(len(l) - from + 1)
	}
	return append(append(append([]pr{}, l[:i]...), x), l[i:]...)
}

// keywords counts the leading positional arguments.
func positional(l []pr) int {
	n := 0
	for n < len(l) && !strings.Contains(strings.SplitN(l[n].a, "(", 2)[0], " = ") {
		n++
	}
	return n
}

func (g *fx) e(d int) pr {
	if d <= 0 {
		return g.leaf()
	}
	bzl := g.bzl()
	switch g.N(24) {
	case 0, 1:
		return g.leaf()
	case 2: // attr.xxx(…)
		args := g.args(d-1, true)
		pos := positional(args)
		// every argument with what becomes of it ("" if it's dropped)
		type arg struct {
			src pr
			dst string
		}
		var all []arg
		for _, x := range args {
			all = append(all, arg{x, x.b})
		}
		put := func(src pr, dst string) {
			i := pos + g.N(len(all)-pos+1)
			all = append(all[:i], append([]arg{{src, dst}}, all[i:]...)...)
		}
		if g.P(60) {
			v := g.Pick("data", "host", "exec", "target", "other")
			x := lit(fmt.Sprintf(`cfg = %q`, v))
			switch {
			case v == "data" && g.do("attr-cfg", bzl):
				put(x, "")
			case v == "host" && g.do("attr-cfg", bzl):
				put(x, `cfg = "exec"`)
			default:
				put(x, x.b)
			}
		}
		if g.P(50) {
			v := pr{}
			switch g.N(5) {
			default:
				v = g.e(d - 1)
			case 0:
				v = lit("True")
			case 1:
				v = lit("False")
			case 2:
				v = cat("not ", g.op(d-1))
			case 3:
				v = cat(g.op(d-1), g.Pick(" and ", " or ", " == "), g.op(d-1))
			}
			x := cat("non_empty = ", v)
			if g.do("attr-non-empty", bzl) {
				if strings.HasPrefix(v.b, "not ") {
					put(x, "allow_empty = "+v.b[4:])
				} else {
					put(x, "allow_empty = "+not(v.b))
				}
			} else {
				put(x, x.b)
			}
		}
		if g.P(50) {
			files, hasFiles := pr{}, g.P(50)
			if hasFiles {
				files = g.e(d - 1)
			}
			single := g.leaf()
			if g.P(60) {
				single = lit(g.Pick("True", "False"))
			} else if !hasFiles {
				single = g.e(d - 1)
			}
			x := cat("single_file = ", single)
			y := cat("allow_files = ", files)
			if !g.do("attr-single-file", bzl) {
				put(x, x.b)
				if hasFiles {
					put(y, y.b)
				}
			} else if single.a == "False" {
				put(x, "")
				if hasFiles {
					put(y, y.b)
				}
			} else {
				v := single.b
				if hasFiles {
					v = files.b
					put(y, "")
				}
				put(x, "allow_single_file = "+v)
			}
		}
		var before, after []pr
		for _, x := range all {
			before = append(before, x.src)
			if x.dst != "" {
				after = append(after, pr{b: x.dst})
			}
		}
		return g.call(lit("attr."+g.Pick("label", "label_list", "string")), before, after)
	case 3, 4: // ctx.xxx(…)
		k := g.N(8)
		on := g.do("ctx-actions", bzl)
		name := func(old, new string) pr {
			if on {
				return pr{a: "ctx." + old, b: "ctx.actions." + new}
			}
			return lit("ctx." + old)
		}
		var args []pr
		if k != 0 {
			args = g.args(d-1, true)
		}
		rename := func(kw, new string) ([]pr, []pr) {
			if g.P(50) {
				v := g.e(d - 1)
				x := cat(kw+" = ", v)
				if on {
					x.b = new + " = " + v.b
				}
				args = insert(g, args, positional(args), x)
			}
			return args, args
		}
		var before, after []pr
		switch k {
		case 0:
			x := g.e(d - 1)
			n := g.N(3)
			if n == 0 {
				return g.call(name("new_file", "declare_file"), []pr{x}, []pr{x})
			}
			y := g.e(d - 1)
			if n == 1 {
				if on {
					return g.call(name("new_file", "declare_file"), []pr{x, y}, []pr{y, cat("sibling = ", x)})
				}
				return g.call(lit("ctx.new_file"), []pr{x, y}, []pr{x, y})
			}
			l := []pr{x, y, g.e(d - 1)}
			return g.call(lit("ctx.new_file"), l, l)
		case 1:
			return g.call(name("experimental_new_directory", "declare_directory"), args, args)
		case 2:
			before, after = rename("executable", "is_executable")
			return g.call(name("file_action", "write"), before, after)
		case 3:
			before, after = rename("executable", "is_executable")
			return g.call(name("template_action", "expand_template"), before, after)
		case 4:
			kind := g.Pick("command", "executable")
			args = insert(g, args, positional(args), cat(kind+" = ", g.e(d-1)))
			if kind == "command" {
				return g.call(name("action", "run_shell"), args, args)
			}
			return g.call(name("action", "run"), args, args)
		case 5:
			return g.call(name("empty_action", "do_nothing"), args, args)
		default:
			x := lit(g.Pick("ctx.actions.run", "ctx.actions.write", "ctx.action_", "ctx.attr.new_file", "actions.action"))
			return g.call(x, args, args)
		}
	case 5: // args.add(…)
		obj := "actions.args()"
		known := false
		if g.ctx && g.P(70) {
			known = true
			obj = "ctx.actions.args()"
			if len(g.argVars) > 0 && g.P(60) {
				obj = g.Pick(g.argVars...)
			}
		}
		args := g.args(d-1, true)
		pos := positional(args)
		has := map[string]bool{}
		var vals = map[string]pr{}
		for _, k := range []string{"before_each", "join_with", "map_fn"} {
			has[k] = g.P(40)
			if has[k] {
				vals[k] = g.e(d - 1)
			}
		}
		some := has["before_each"] || has["join_with"] || has["map_fn"]
		on := some && g.do("ctx-args", bzl && known)
		for _, k := range []string{"before_each", "join_with", "map_fn"} {
			if !has[k] {
				continue
			}
			x := cat(k+" = ", vals[k])
			if on {
				switch {
				case k == "before_each" && has["join_with"]:
					x.b = "format_each = (" + vals[k].b + `) + "%s"`
				case k == "map_fn":
					x.b = "map_each = " + vals[k].b
				}
			}
			args = insert(g, args, pos, x)
		}
		fn := lit(obj + ".add")
		if on {
			fn.b = obj + ".add_all"
			if has["join_with"] {
				fn.b = obj + ".add_joined"
			}
		}
		return g.call(fn, args, args)
	case 6:
		return g.depset(d)
	case 7: // iteration and lookup in expressions
		x := g.some(d-1, 60)
		switch g.N(4) {
		case 0:
			return cat(g.op(d-1), g.Pick(" in ", " not in "), g.iter(paren(x)))
		case 1:
			fn := g.Pick("all", "any", "len", "sorted", "max", "min", "tuple")
			a := []pr{g.iter(x)}
			return g.call(lit(fn), a, a)
		case 2:
			var before pr
			if g.P(40) {
				before = pr{a: "list(" + g.commented([]pr{x}) + ")", b: "list(" + x.b + ")"}
			} else {
				before = g.call(lit("list"), []pr{x}, []pr{x})
			}
			if x.ds && g.do("depset-iteration", true) {
				before.b = "(" + x.b + ").to_list()"
			}
			return before
		default:
			a := []pr{g.iter(x), g.iter(g.e(d - 1))}
			return g.call(lit("zip"), a, a)
		}
	case 8: // comprehension
		x := g.some(d-1, 40)
		if x.ds || strings.Contains(x.a, " if ") || strings.Contains(x.a, "lambda") {
			x = paren(x)
		}
		v := g.fresh("i")
		if g.P(15) {
			if w := g.Pick("PACKAGE_NAME", "CcInfo", "cc_library"); !strings.Contains(x.a, w) {
				v = w
			}
		}
		// the iterable belongs to the outer scope
		g.bound = append(g.bound, map[string]bool{v: true})
		body := g.e(d - 1)
		cond := cat()
		if g.P(30) {
			cond = cat(" if ", g.op(d-1))
		}
		g.bound = g.bound[:len(g.bound)-1]
		return cat("[", body, " for "+v+" in ", g.iter(x), cond, "]")
	case 9: // a rule or symbol to be loaded
		l := loadables[g.N(len(loadables))]
		where := bzl || l.build && g.typ == build.TypeBuild
		switch {
		case l.symbol:
			x := l.name
			if !g.known(x) && g.do(l.cat, where) {
				g.need(g.module(l.module), x)
			}
			if g.P(50) {
				return lit(x)
			}
			return g.callWith(lit(x), d-1)
		case g.P(40):
			nb := g.on["native-build"] && g.typ == build.TypeBuild
			fn := lit("native." + l.name)
			if g.known(l.name) && !(g.outermost(l.name) && g.loaded[l.name] == g.module(l.module)) {
				// the name means something else here
				return g.callWith(fn, d-1)
			}
			if nb && !g.known(l.name) && g.do("native-build", true) {
				fn.b = l.name
			}
			if g.do(l.cat, where) {
				fn.b = l.name
				g.need(g.module(l.module), l.name)
			} else if nb && g.known(l.name) {
				return g.callWith(fn, d-1)
			}
			return g.callWith(fn, d-1)
		case g.P(75):
			if !g.known(l.name) && g.do(l.cat, where) {
				g.need(g.module(l.module), l.name)
			}
			return g.callWith(lit(l.name), d-1)
		default:
			return lit(l.name) // not called
		}
	case 10: // native.xxx
		name := g.Pick("glob", "existing_rules", "package_name", "foo.bar")
		x := lit("native." + name)
		if !g.known(name) && g.do("native-build", g.typ == build.TypeBuild) {
			x.b = name
		}
		if g.P(50) {
			args := g.args(d-1, true)
			return g.call(x, args, args)
		}
		return x
	case 11:
		v := g.Pick("PACKAGE_NAME", "REPOSITORY_NAME")
		x := lit(v)
		if g.known(v) {
			return x
		}
		if v == "PACKAGE_NAME" && g.do("package-name", bzl) {
			x.b = "native.package_name()"
		}
		if v == "REPOSITORY_NAME" && g.do("repository-name", bzl) {
			x.b = "native.repository_name()"
		}
		return x
	case 12:
		x := "ctx.attr." + g.Pick("dep", "x") + ".output_group"
		if g.P(30) {
			x = g.Pick("ctx.attr.output_group", "attr.dep.output_group", "ctx.attr.dep.output_groups", "ctx.attr[0].output_group")
		} else if g.do("output-group", bzl) {
			y := strings.TrimSuffix(x, ".output_group") + "[OutputGroupInfo]"
			if g.P(50) {
				return pr{a: x + ".z", b: y + ".z"}
			}
			return pr{a: x, b: y}
		}
		return lit(x)
	case 13, 14: // builtins with positional parameters
		sigs := map[string][]string{"str": {"x"}, "len": {"x"}, "repr": {"x"}, "bool": {"x"}, "dir": {"x"}, "type": {"x"}, "all": {"elements"}, "any": {"elements"},
			"hasattr": {"x", "name"}, "getattr": {"x", "name", "default"}, "select": {"x"}}
		fn := g.Pick("str", "len", "repr", "bool", "dir", "type", "all", "any", "hasattr", "getattr", "getattr", "select")
		sig := sigs[fn]
		n := 1 + g.N(len(sig))
		var before, after []pr
		keyword, wrong := false, false
		for i := 0; i < n; i++ {
			v := g.e(d - 1)
			if v.ds {
				v = cat("[", v, "]")
			}
			x, y := v, v
			if keyword || g.P(60) {
				keyword = true
				kw := sig[i]
				if g.P(10) {
					kw = "other"
					wrong = true
				} else if wrong {
					// a positional argument after a keyword isn't allowed
				}
				x = cat(kw+" = ", v)
				if wrong || kw == "other" {
					y = x
				}
			}
			before = append(before, x)
			after = append(after, y)
		}
		// a keyword that has to stay may not be followed by one that becomes positional:
		// then all of them stay
		stay := false
		for i := range before {
			if strings.HasPrefix(before[i].a, "other = ") {
				stay = true
			} else if stay && strings.HasPrefix(before[i].a, sig[i]+" = ") {
				after = before
			}
		}
		name := fn
		if g.P(15) {
			name = "native." + fn
		}
		f := lit(name)
		if strings.HasPrefix(name, "native.") && !g.known(fn) && g.do("native-build", g.typ == build.TypeBuild) {
			f.b = fn
		}
		if keyword && g.do("keyword-positional-params", true) {
			return g.call(f, before, after)
		}
		return g.call(f, before, before)
	case 15, 16: // dictionaries
		n := g.N(5)
		type item struct {
			x   pr
			key string
			str bool
		}
		var items []item
		for i := 0; i < n; i++ {
			v := g.e(d - 1)
			if g.P(20) {
				k := g.Pick("a", "foo.bar", "d[0]", "f()")
				items = append(items, item{cat(k, ": ", v), "", false})
				continue
			}
			k := g.Pick("a", "b", "_c", "_d", "B", "//conditions:default", "a-b", "z", "")
			items = append(items, item{cat(fmt.Sprintf("%q: ", k), v), k, true})
		}
		var before []pr
		var sorted []item
		for _, x := range items {
			before = append(before, x.x)
			if x.str {
				sorted = append(sorted, x)
			}
		}
		rank := func(k string) int {
			switch {
			case k == "//conditions:default":
				return 1
			case strings.HasPrefix(k, "_"):
				return 2
			}
			return 0
		}
		sort.SliceStable(sorted, func(i, j int) bool {
			a, b := sorted[i].key, sorted[j].key
			if rank(a) != rank(b) {
				return rank(a) < rank(b)
			}
			return a < b
		})
		after := before
		if g.do("unsorted-dict-items", true) {
			after = nil
			j := 0
			for _, x := range items {
				if x.str {
					x = sorted[j]
					j++
				}
				after = append(after, x.x)
			}
		}
		sep := g.Pick(", ", ",\n"+g.ind+"        ")
		r := pr{a: "{" + list(before, sep).a + "}", b: "{" + list(after, ", ").b + "}"}
		if g.P(15) {
			r.a = "{" + g.commented(before) + "}"
		}
		return r
	case 17:
		return g.intE(d)
	case 18: // not an integer division
		return cat(g.leaf(), " / ", g.Pick("2", "a", "1.5"))
	case 19:
		return cat(g.op(d-1), " if ", g.op(d-1), " else ", g.op(d-1))
	case 20:
		v := g.fresh("l")
		head := lit("lambda " + v)
		if g.P(30) {
			// default values are evaluated outside, but bzlenv knows the parameters there
			v = g.Pick("PACKAGE_NAME", "CcInfo", "cc_library")
			head = lit("lambda " + v)
		} else if g.P(30) {
			head = cat("lambda "+v+" = ", g.op(d-1))
		}
		g.bound = append(g.bound, map[string]bool{v: true})
		body := g.e(d - 1)
		g.bound = g.bound[:len(g.bound)-1]
		return cat(head, ": ", body)
	case 21:
		return cat("[", g.e(d-1), ", ", g.e(d-1), "]")
	case 22:
		args := g.args(d-1, true)
		return g.call(lit("fun"), args, args)
	default:
		return cat(g.op(d-1), g.Pick(" == ", " and ", " or "), g.op(d-1))
	}
}

func (g *fx) comment() pr {
	g.n++
	words := []string{"skylark", "Skylark", "SKYLARK", "skyLark", "SkyLark", "http://x/skylark/y", "/skylark", "skylark/", "skylarks.", "Skylark,", "starlark"}
	r := lit(fmt.Sprintf("# c%d", g.n))
	for i := g.N(4); i > 0; i-- {
		w := words[g.N(len(words))]
		x := lit(" " + w)
		if g.do("skylark-comment", true) {
			x.b = " " + star(w)
		}
		r = cat(r, x)
	}
	return r
}

// star is what becomes of a word.
func star(w string) string {
	switch w {
	case "skylark", "skyLark":
		return "starlark"
	case "Skylark", "SkyLark":
		return "Starlark"
	case "SKYLARK":
		return "STARLARK"
	case "skylarks.":
		return "starlarks."
	case "Skylark,":
		return "Starlark,"
	}
	return w
}

func (g *fx) docstring() pr {
	words := []string{"skylark", "Skylark", "SKYLARK", "/skylark", "skylark/", "text", `\\n`, `\"quoted\"`, "\n" + g.ind + "  more", "'"}
	r := lit(g.fresh("doc"))
	for i := g.N(5); i > 0; i-- {
		w := words[g.N(len(words))]
		x := lit(" " + w)
		if g.do("skylark-docstring", true) {
			x.b = " " + star(w)
		}
		r = cat(r, x)
	}
	q := `"""`
	if !strings.Contains(r.a, "\n") && g.P(30) {
		q = `"`
	}
	return cat(q, r, q)
}

func (g *fx) stmt(d int) pr {
	if g.P(10) {
		c := g.comment()
		return cat(g.ind, c, "\n", g.stmt(d))
	}
	switch g.N(12) {
	case 0: // list append
		t := lit(g.Pick("x", "x.y", "x[0]", "f().z"))
		if g.P(5) {
			return cat(g.ind, t, g.Pick(" += [", " = [", " -= ["), "]\n")
		}
		var v pr
		if g.P(70) {
			v = g.e(2)
			v.ds = false
		} else {
			v = lit(g.Pick("-1", "+x", "not a", "(1)", "x.y", "[1]", "-x.y", "lambda: 1", "\"s\""))
		}
		if g.P(35) {
			r := cat(g.ind, t, g.Pick(" += [", " += [", " = [", " -= ["), v)
			for {
				r = cat(r, ", ", g.e(1))
				if g.P(60) {
					return cat(r, "]\n")
				}
			}
		}
		r := cat(g.ind, t, " += [", v, "]")
		if g.do("list-append", true) {
			r.b = g.ind + t.b + ".append(" + v.b + ")"
		}
		if g.P(20) {
			r = cat(r, "  ", g.comment())
		}
		return cat(r, "\n")
	case 1:
		v := g.fresh("n")
		r := cat(g.ind, v+" = ", g.intE(1), "\n")
		g.intVars = append(g.intVars, v)
		if g.P(40) {
			x := g.intE(1)
			y := cat(g.ind, v+" /= ", x, "\n")
			if g.do("integer-division", true) {
				y.b = g.ind + v + " //= " + x.b + "\n"
			}
			r = cat(r, y)
		}
		return r
	case 2:
		v := g.fresh("ds")
		x := g.depset(1)
		g.dsVars = append(g.dsVars, v)
		return cat(g.ind, v+" = ", x, "\n")
	case 3:
		if !g.ctx {
			break
		}
		v := g.fresh("args")
		g.argVars = append(g.argVars, v)
		return cat(g.ind, v+" = ctx.actions.args()\n")
	case 4, 5:
		if d <= 0 {
			break
		}
		x := g.some(1, 50)
		head := cat(g.ind, "for "+g.fresh("i")+" in ", g.iter(x), ":\n")
		return cat(head, g.block(d-1))
	case 6:
		if d <= 0 {
			break
		}
		r := cat(g.ind, "if ", g.e(2), ":\n", g.block(d-1))
		if g.P(40) {
			r = cat(r, g.ind, "else:\n", g.block(d-1))
		}
		return r
	case 7, 8:
		r := cat(g.ind, g.fresh("v")+" = ", g.e(3))
		if g.P(15) {
			r = cat(r, "  ", g.comment())
		}
		return cat(r, "\n")
	}
	r := cat(g.ind, "fun(", g.e(3), ")")
	if g.P(15) {
		r = cat(r, "  ", g.comment())
	}
	return cat(r, "\n")
}

func (g *fx) block(d int) pr {
	g.ind += "    "
	r := cat()
	for i := 1 + g.N(3); i > 0; i-- {
		r = cat(r, g.stmt(d))
	}
	g.ind = g.ind[:len(g.ind)-4]
	return r
}

func (g *fx) def(d int) pr {
	scope := map[string]bool{}
	var params []pr
	name := g.fresh("fn")
	ctx := g.P(50)
	if ctx {
		params = append(params, lit("ctx"))
		scope["ctx"] = true
	}
	for g.P(25) {
		v := g.Pick("PACKAGE_NAME", "REPOSITORY_NAME", "cc_library", "CcInfo", "py_test", "glob", "p")
		if scope[v] {
			break
		}
		scope[v] = true
		if g.P(30) {
			// the default value belongs to the outer scope
			params = append(params, cat(v+" = ", g.leaf()))
			break
		}
		params = append(params, lit(v))
	}
	oldInt, oldDs, oldArgs, oldCtx := g.intVars, g.dsVars, g.argVars, g.ctx
	if ctx {
		g.ctx = true
	}
	g.bound = append(g.bound, scope)
	body := cat()
	g.ind += "    "
	if g.P(30) {
		if g.ind == "    " {
			body = cat(g.ind, g.docstring(), "\n")
		} else {
			body = cat(g.ind, `"""skylark"""`, "\n")
		}
	}
	if g.P(15) {
		v := g.Pick("PACKAGE_NAME", "cc_library", "JavaInfo")
		scope[v] = true
		body = cat(body, g.ind+v+" = a\n")
	}
	g.ind = g.ind[:len(g.ind)-4]
	body = cat(body, g.block(d))
	g.bound = g.bound[:len(g.bound)-1]
	g.intVars, g.dsVars, g.argVars, g.ctx = oldInt, oldDs, oldArgs, oldCtx
	return cat(g.ind, "def "+name+"(", list(params, ", "), "):\n", body)
}

// loads returns what a file loads: module → name → from.
func loads(f *build.File) map[string]map[string]string {
	r := map[string]map[string]string{}
	for _, s := range f.Stmt {
		l, ok := s.(*build.LoadStmt)
		if !ok {
			continue
		}
		m := l.Module.Value
		if r[m] == nil {
			r[m] = map[string]string{}
		}
		for i := range l.From {
			r[m][l.To[i].Name] = l.From[i].Name
		}
	}
	return r
}

func showMap(m map[string]map[string]string) string {
	var r []string
	for k, v := range m {
		for a, b := range v {
			r = append(r, fmt.Sprintf("%s %s=%s", k, a, b))
		}
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func comments(f *build.File, more []string) string {
	r := append(append([]string{}, more...), astx.AllComments(f)...)
	sort.Strings(r)
	return strings.Join(r, "\n")
}

var pairCats = []string{"attr-cfg", "attr-non-empty", "attr-single-file", "ctx-actions", "ctx-args", "depset-iteration", "git-repository", "http-archive", "integer-division",
	"keyword-positional-params", "list-append", "native-build", "native-cc-library", "native-cc-info", "native-java-info", "native-py", "native-sh-binary", "native-proto",
	"output-group", "package-name", "repository-name", "skylark-comment", "skylark-docstring", "unsorted-dict-items"}

// settled checks that fixing what was fixed changes nothing, and that no finding
// with a fix remains.
func settled(c *vk.Case, out string, typ build.FileType, cats []string, rd func() *warn.FileReader) {
	f, err := lintFile(out, typ)
	if err != nil {
		c.Fail("the fixed file doesn't parse: %v\n%s", err, out)
	}
	for _, x := range warn.FileWarnings(f, cats, nil, warn.ModeWarn, rd()) {
		if x.AutoFixable {
			c.Fail("a finding remains that can be fixed: %s\n%s", show(x), out)
		}
	}
	// fixed code may be printed with another layout than the same code if it's parsed
	f, _ = lintFile(out, typ)
	out = string(build.FormatWithoutRewriting(f))
	f, err = lintFile(out, typ)
	if err != nil {
		c.Fail("the formatted fixed file doesn't parse: %v\n%s", err, out)
	}
	warn.FixWarnings(f, cats, false, rd())
	if again := string(build.FormatWithoutRewriting(f)); again != out {
		c.Fail("fixing again changes the file to\n%s\n--- from\n%s", again, out)
	}
}

// TestC32_Pairs: the fixes of all categories do what they're documented to do.
func TestC32_Pairs(t *testing.T) {
	vk.Check(t, "pairs of programs: pieces of code the fixes apply to and near misses, nested into each other, and what becomes of them if a random set of categories is fixed; with names that are bound in some scope, by loads or not at all, .bzl, BUILD and other files; the fixed program, its loads and its comments are compared with the expected ones, fixing again may change nothing; non-trivial: at least two categories apply", 50000, 2500000, func(rt *rapid.T, c *vk.Case) {
		g := &fx{rt: rt, on: map[string]bool{}, want: map[string]map[string]string{}, loaded: map[string]string{}, changed: map[string]bool{}}
		g.typ = lintTypes[g.N(len(lintTypes))]
		var cats []string
		most := g.P(50)
		for _, x := range pairCats {
			if g.P(map[bool]int{true: 85, false: 25}[most]) {
				g.on[x] = true
				cats = append(cats, x)
			}
		}
		if len(cats) == 0 {
			cats = append(cats, "attr-cfg")
			g.on["attr-cfg"] = true
		}
		names, rd := g.modules()
		g.module = func(m string) string {
			repo, rest, _ := strings.Cut(m[1:], "//")
			return "@" + names(repo) + "//" + rest
		}
		global := map[string]bool{}
		g.bound = []map[string]bool{global}
		src := cat()
		if g.P(25) {
			src = cat(g.docstring(), "\n")
		}
		for g.P(30) {
			l := loadables[g.N(len(loadables))]
			if global[l.name] {
				break
			}
			m, from := g.module(l.module), l.name
			if g.P(40) {
				m = "//other:x.bzl"
			} else if g.P(40) {
				// something else of the module
				l.name, from = g.fresh("sym"), "sym"
			}
			global[l.name] = true
			g.loaded[l.name] = m
			if g.want[m] == nil {
				g.want[m] = map[string]string{}
			}
			g.want[m][l.name] = from
			src = cat(src, fmt.Sprintf("load(%q, %s = %q)\n", m, l.name, from))
		}
		for g.P(25) {
			v := g.Pick("PACKAGE_NAME", "REPOSITORY_NAME", "cc_library", "CcInfo", "py_library", "http_archive", "glob")
			if global[v] {
				break
			}
			global[v] = true
			if g.P(50) {
				src = cat(src, v+" = a\n")
			} else {
				src = cat(src, "def "+v+"():\n    pass\n")
			}
		}
		for i := 1 + g.N(4); i > 0; i-- {
			if g.P(60) {
				src = cat(src, g.def(2))
			} else {
				src = cat(src, g.stmt(1))
			}
		}
		c.Input(src.a + fmt.Sprintf("\n--- expected\n%s\n---\ntype %v categories %v", src.b, g.typ, cats))
		want, err := lintFile(src.b, g.typ)
		if err != nil {
			panic(fmt.Sprintf("%v\n%s", err, src.b))
		}
		f, err := lintFile(src.a, g.typ)
		if err != nil {
			panic(fmt.Sprintf("%v\n%s", err, src.a))
		}
		warn.FixWarnings(f, cats, false, rd())
		out := string(build.FormatWithoutRewriting(f))
		got, err := lintFile(out, g.typ)
		if err != nil {
			c.Fail("the fixed file doesn't parse: %v\n%s", err, out)
		}
		o := astx.Opt{SkipLoads: true}
		if a, b := astx.Dump(got, o), astx.Dump(want, o); a != b {
			c.Fail("the fixed file is\n%s\ntree     %s\nexpected %s", out, cut(a, b), cut(b, a))
		}
		if a, b := showMap(loads(got)), showMap(g.want); a != b {
			c.Fail("the fixed file loads\n%s\ninstead of\n%s", a, b)
		}
		if a, b := comments(got, nil), comments(want, g.inner); a != b {
			c.Fail("the fixed file has the comments\n%s\ninstead of\n%s", a, b)
		}
		settled(c, out, g.typ, cats, rd)
		c.Evals(3)
		for x := range g.changed {
			c.Label(x)
		}
		c.NonTrivial(len(g.changed) > 1)
	})
}

// TestC32_Mixed: the fixes of any program give a valid, settled program.
func TestC32_Mixed(t *testing.T) {
	vk.Check(t, "programs made of the patterns the linter looks for or arbitrary ones x file types x random sets of categories x surrounding repositories: the fixed file parses, has no finding left that can be fixed, no new comments, and fixing it again changes nothing; non-trivial: fixes change the file", 12000, 600000, func(rt *rapid.T, c *vk.Case) {
		text, typ, repo := setup(rt, c)
		cats := drawCats(rt)
		c.Part("categories %v", cats)
		f, _ := lintFile(text, typ)
		plain := string(build.FormatWithoutRewriting(f))
		f, _ = lintFile(text, typ)
		warn.FixWarnings(f, cats, false, reader(repo))
		out := string(build.FormatWithoutRewriting(f))
		settled(c, out, typ, cats, func() *warn.FileReader { return reader(repo) })
		c.NonTrivial(out != plain)
	})
}

// TestC32_Package: a package declaration moves before the first statement that it
// has to precede, and nothing else happens.
func TestC32_Package(t *testing.T) {
	vk.Check(t, "files of 1..10 statements of every kind (rules, several package(), licenses(), package_group(), loads, strings, comments, functions, assignments, expressions), all file types: package-on-top gives the statements in the expected order, with their comments; non-trivial: something moves", 8000, 400000, func(rt *rapid.T, c *vk.Case) {
		typ := lintTypes[gen.Int(rt, len(lintTypes))]
		type st struct{ kind, text string }
		var l []st
		for n := 1 + gen.Int(rt, 10); n > 0; n-- {
			k := gen.Pick(rt, "package", "package", "package", "rule", "rule", "licenses", "package_group", "load", "string", "comment", "def", "assign", "other")
			if k == "assign" && gen.Pct(rt, 70) {
				k = "rule"
			}
			i := len(l)
			var s string
			switch k {
			case "package":
				s = gen.Pick(rt, "package()", fmt.Sprintf("package(default_visibility = [\"//v:%d\"])", i), fmt.Sprintf("package(\n    # inside %d\n    features = [],\n)", i))
			case "rule":
				s = fmt.Sprintf(gen.Pick(rt, "cc_library(name = \"r%d\")", "mac(%d)", "a.package(%d)", "native.licenses(%d)", "packages(x = %d)"), i)
			case "licenses":
				s = "licenses([\"notice\"])"
			case "package_group":
				s = fmt.Sprintf("package_group(name = \"g%d\")", i)
			case "load":
				s = fmt.Sprintf("load(\":x.bzl\", \"s%d\")", i)
			case "string":
				s = fmt.Sprintf("\"\"\"text %d\"\"\"", i)
			case "comment":
				if i > 0 && l[i-1].kind == "comment" {
					continue
				}
				s = fmt.Sprintf("# comment %d", i)
			case "def":
				s = fmt.Sprintf("def f%d():\n    package()", i)
			case "assign":
				s = fmt.Sprintf(gen.Pick(rt, "x%d = 1", "x%d += [1]", "x%d, y = z"), i)
			case "other":
				s = fmt.Sprintf(gen.Pick(rt, "[package() for x in %d]", "%d", "x%d.y", "(package(%d))"), i)
			}
			if k != "comment" {
				if gen.Pct(rt, 20) {
					s = fmt.Sprintf("# before %d\n%s", i, s)
				}
				if gen.Pct(rt, 15) && k != "def" {
					s += fmt.Sprintf("  # after %d", i)
				}
			}
			l = append(l, st{k, s})
		}
		join := func(l []st) string {
			r := ""
			for _, x := range l {
				r += x.text + "\n\n"
			}
			return r
		}
		text := join(l)
		// the model
		stop := len(l)
		if typ == build.TypeWorkspace || typ == build.TypeModule {
			stop = 0
		}
		first := -1
		var moved, rest []st
		for i, x := range l {
			if x.kind == "assign" && i < stop {
				stop = i
			}
			if i < stop && first < 0 && (x.kind == "rule" || x.kind == "def" || x.kind == "other") {
				first = i
			}
			if first >= 0 && i < stop && x.kind == "package" {
				moved = append(moved, x)
			} else if first >= 0 {
				rest = append(rest, x)
			}
		}
		want := text
		if len(moved) > 0 {
			want = join(append(append(append([]st{}, l[:first]...), moved...), rest...))
		}
		c.Input(text)
		c.Part("type %v", typ)
		f, err := lintFile(text, typ)
		if err != nil {
			panic(err)
		}
		n := len(warn.FileWarnings(f, []string{"package-on-top"}, nil, warn.ModeWarn, nil))
		if n != len(moved) {
			c.Fail("%d findings, expected %d", n, len(moved))
		}
		f, _ = lintFile(text, typ)
		warn.FixWarnings(f, []string{"package-on-top"}, false, nil)
		// separate the statements like they are in the expected text
		var parts []string
		for _, s := range f.Stmt {
			parts = append(parts, strings.TrimSpace(string(build.FormatWithoutRewriting(&build.File{Type: typ, Stmt: []build.Expr{s}}))))
		}
		f, err = lintFile(want, typ)
		if err != nil {
			panic(err)
		}
		var expected []string
		for _, s := range f.Stmt {
			expected = append(expected, strings.TrimSpace(string(build.FormatWithoutRewriting(&build.File{Type: typ, Stmt: []build.Expr{s}}))))
		}
		if a, b := strings.Join(parts, "\n\n"), strings.Join(expected, "\n\n"); a != b {
			c.Fail("package-on-top gives\n%s\n--- expected\n%s", a, b)
		}
		c.NonTrivial(len(moved) > 0)
	})
}

// TestC32_Command: buildifier -lint=fix writes the fixed file, which stays as it is.
func TestC32_Command(t *testing.T) {
	bin := vk.Bin(t, "buildifier")
	dir := vk.Scratch(t)
	vk.Check(t, "programs made of the patterns the linter looks for x file types x random sets of categories: the file that buildifier -lint=fix writes is the one the library gives, -mode=check accepts it, and -lint=fix leaves it as it is; non-trivial: fixes change more than the format", 900, 40000, func(rt *rapid.T, c *vk.Case) {
		text, typ, _ := setup(rt, c)
		name := map[build.FileType]string{build.TypeBzl: "f.bzl", build.TypeBuild: "BUILD", build.TypeWorkspace: "WORKSPACE", build.TypeModule: "MODULE.bazel", build.TypeDefault: "f.star"}[typ]
		cats := drawCats(rt)
		c.Part("categories %v", cats)
		if len(cats) == 0 {
			c.Skip("no categories")
		}
		sub, err := os.MkdirTemp(dir, "d")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(sub)
		run := func(args ...string) (int, string) {
			cmd := exec.Command(bin, args...)
			cmd.Dir = sub
			out, err := cmd.CombinedOutput()
			if e, ok := err.(*exec.ExitError); ok {
				return e.ExitCode(), string(out)
			}
			if err != nil {
				t.Fatal(err)
			}
			return 0, string(out)
		}
		path := sub + "/" + name
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
		get := func() string {
			b, err := os.ReadFile(path)
			if err != nil {
				t.Fatal(err)
			}
			return string(b)
		}
		parse := func(s string) *build.File {
			f, err := lintFile(s, typ)
			if err != nil {
				c.Fail("the fixed file doesn't parse: %v\n%s", err, s)
			}
			f.Path = name
			f.Pkg, f.Label, f.WorkspaceRoot = "", "", ""
			return f
		}
		plain := string(build.Format(parse(text)))
		f := parse(text)
		warn.FixWarnings(f, cats, false, nil)
		want := string(build.Format(parse(string(build.Format(f)))))
		fix := []string{"-lint=fix", "-warnings=" + strings.Join(cats, ","), name}
		rc, out := run(fix...)
		got := get()
		if rc != 0 || got != want {
			c.Fail("buildifier %q: exit %d, %s\n%s\n--- expected\n%s", fix, rc, out, got, want)
		}
		if rc, out := run("-mode=check", name); rc != 0 {
			c.Fail("the fixed file isn't formatted: exit %d, %s\n%s", rc, out, got)
		}
		// Which of the symbols loaded under one name counts as the first one depends on the
		// order of the load statements, which formatting changes. Bazel rejects such files.
		names := map[string]bool{}
		for _, s := range parse(got).Stmt {
			if l, ok := s.(*build.LoadStmt); ok {
				for _, id := range l.To {
					if names[id.Name] {
						c.NonTrivial(got != plain)
						return
					}
					names[id.Name] = true
				}
			}
		}
		rc, out = run(fix...)
		if again := get(); rc != 0 || again != got {
			c.Fail("fixing again: exit %d, %s\n%s\n--- from\n%s", rc, out, again, got)
		}
		c.NonTrivial(got != plain)
	})
}
