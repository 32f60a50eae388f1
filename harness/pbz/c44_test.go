package pbz

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// odd generates valid files whose statements have the right words in the wrong shapes.
type odd struct {
	rt *rapid.T
	nc int
}

func (g *odd) p(n int) bool             { return gen.Pct(g.rt, n) }
func (g *odd) pick(xs ...string) string { return gen.Pick(g.rt, xs...) }

func (g *odd) str() string {
	if g.p(60) {
		return fmt.Sprintf("%q", drawLabel(g.rt))
	}
	return g.pick(`""`, `"lib"`, `":"`, `"//"`, `"@"`, `"@r"`, `"a b"`, `"//conditions:default"`, `"//conf:a"`, `"k1"`, `"k2"`, `"1"`, `"True"`, `"g.txt"`, `"x.bzl"`, `":BUILD"`, `"//a/b:"`, `"multi\nline"`, `"""raw
text"""`)
}

func (g *odd) name() string {
	return g.pick(`"lib"`, `"lib"`, `"bin"`, `"x"`, `"y"`, `"t1"`, `"dir/lib"`, `""`, `NAME`, `"a" + "b"`, `"lib%s" % X`, `["lib"]`, `1`, `None`, `f("x")`)
}

func (g *odd) seq(n, d int) string {
	var r []string
	for i := gen.Int(g.rt, n+1); i > 0; i-- {
		r = append(r, g.expr(d))
	}
	return strings.Join(r, ", ")
}

func (g *odd) list(d int) string {
	if g.p(25) {
		var b strings.Builder
		b.WriteString("[\n")
		for i := gen.Int(g.rt, 4); i > 0; i-- {
			if g.p(20) {
				b.WriteString("        " + g.comment() + "\n")
			}
			b.WriteString("        " + g.expr(d) + ",")
			if g.p(20) {
				b.WriteString("  " + g.comment())
			}
			b.WriteString("\n")
		}
		if g.p(15) {
			b.WriteString("        " + g.comment() + "\n")
		}
		return b.String() + "    ]"
	}
	if g.p(70) {
		var r []string
		for i := gen.Int(g.rt, 4); i > 0; i-- {
			r = append(r, g.str())
		}
		return "[" + strings.Join(r, ", ") + "]"
	}
	return "[" + g.seq(3, d) + "]"
}

func (g *odd) comment() string {
	g.nc++
	return fmt.Sprintf("# %s%d", g.pick("c", "c", "buildozer: disable=", "keep sorted ", "do not sort "), g.nc)
}

func (g *odd) dict(d int) string {
	var r []string
	for i := gen.Int(g.rt, 4); i > 0; i-- {
		k := g.str()
		if g.p(20) {
			k = g.expr(d)
		}
		r = append(r, k+": "+g.expr(d))
	}
	return "{" + strings.Join(r, ", ") + "}"
}

func (g *odd) sel(d int) string {
	arg := ""
	switch gen.Int(g.rt, 9) {
	case 0:
	case 1:
		arg = "{}"
	case 2:
		arg = g.expr(d)
	case 3:
		arg = "**" + g.pick("kw", "{}")
	case 4:
		arg = g.dict(d) + ", no_match_error = " + g.expr(d)
	case 5:
		arg = "no_match_error = \"x\""
	case 6:
		arg = "*args"
	default:
		var r []string
		for i := gen.Int(g.rt, 4); i > 0; i-- {
			r = append(r, g.pick(`"//conf:a"`, `"//conf:b"`, `"//conditions:default"`, `K`)+": "+g.pick(g.list(d), g.list(d), g.expr(d)))
		}
		arg = "{" + strings.Join(r, ", ") + "}"
	}
	return "select(" + arg + ")"
}

func (g *odd) expr(d int) string {
	if d <= 0 {
		return g.pick(g.str(), g.str(), "1", "0", "True", "None", "VAR_A", "VAR_B", "[]", "{}", "()", "select()", "glob()", "1.5", "-1")
	}
	switch gen.Int(g.rt, 26) {
	case 0, 1, 2:
		return g.str()
	case 3, 4, 5:
		return g.list(d - 1)
	case 6, 7:
		return g.sel(d - 1)
	case 8, 9:
		return g.dict(d - 1)
	case 10, 11:
		return g.expr(d-1) + " + " + g.expr(d-1)
	case 12:
		return g.pick("glob("+g.list(d-1)+")", "glob("+g.list(d-1)+", exclude = "+g.list(d-1)+")", "glob(include = "+g.expr(d-1)+")", "glob()", "glob("+g.expr(d-1)+")")
	case 13:
		return "[" + g.expr(d-1) + " for x in " + g.list(d-1) + " if x]"
	case 14:
		return "{" + g.str() + ": " + g.expr(d-1) + " for x in " + g.list(d-1) + "}"
	case 15:
		return "(" + g.expr(d-1) + ",)"
	case 16:
		return "f(" + g.expr(d-1) + ")"
	case 17:
		return "(" + g.expr(d-1) + " if X else " + g.expr(d-1) + ")"
	case 18:
		return "(" + g.expr(d-1) + " " + g.pick("|", "%", "-", "*", "==", "and", "in", "not in", "//") + " " + g.expr(d-1) + ")"
	case 19:
		return g.pick("dict", "depset", "Label", "f", "native.glob", "x.y", "PKG.lib", "sorted") + "(" + g.args(d-1) + ")"
	case 20:
		return "VAR_A[" + g.expr(d-1) + "]"
	case 21:
		return "VAR_A[" + g.pick("1:", ":", "::2", ":1") + "]"
	case 22:
		return "(lambda x: " + g.expr(d-1) + ")"
	case 23:
		return "(not " + g.expr(d-1) + ")"
	case 24:
		return g.pick("VAR_A", "VAR_B", "VAR_A.x", "True", "False", "None")
	default:
		return g.pick("0", "1", "-1", "0x10", "1.5", "07")
	}
}

var oddAttrs = []string{"deps", "deps", "srcs", "tags", "visibility", "my_dict", "env", "testonly", "size", "copts", "data", "licenses", "default_visibility", "include"}

// args are the arguments of a call.
func (g *odd) args(d int) string { return g.callArgs(d, false) }

func (g *odd) callArgs(d int, named bool) string {
	var r []string
	used := map[string]bool{}
	if named {
		used["name"] = true
		r = append(r, "name = "+g.name())
	}
	for i := gen.Int(g.rt, 5); i > 0; i-- {
		switch gen.Int(g.rt, 12) {
		case 0:
			r = append([]string{g.expr(d)}, r...) // Starlark wants them first
		case 1:
			r = append(r, "*"+g.pick("args", "VAR_A", "[]"))
		case 2:
			r = append(r, "**"+g.pick("kwargs", "VAR_A", "{}"))
		case 3, 4:
			if !used["name"] {
				used["name"] = true
				r = append(r, "name = "+g.name())
			}
		default:
			if a := oddAttrs[gen.Int(g.rt, len(oddAttrs))]; !used[a] {
				used[a] = true
				r = append(r, a+" = "+g.expr(d))
			}
		}
	}
	return strings.Join(r, ", ")
}

func (g *odd) rule() string {
	x := g.pick("cc_library", "java_library", "my_rule", "genrule", "cc_library", "native.cc_library", "m.k", "f()", "m.k()", "rules[0]", "\"x\".format", "package", "exports_files", "config_setting", "test_suite", "filegroup", "select", "glob", "licenses", "workspace", "module", "use_repo", "use_extension", "proto_library", "java_test", "x.y.z", "(lambda **k: k)", "package_group")
	a := g.callArgs(2, g.p(50))
	if g.p(15) {
		return x + "(  " + g.comment() + "\n    " + a + "\n    " + g.comment() + "\n)"
	}
	return x + "(" + a + ")"
}

func (g *odd) stmt() string {
	switch gen.Int(g.rt, 24) {
	case 0:
		return "load(" + g.pick(`":defs.bzl", "my_rule"`, `"//t:d.bzl", x = "q"`, `"//t:d.bzl", "q", "r", s = "q"`, `"@r//p:q.bzl", "VAR_A"`, `"", "q"`, `"x", "cc_library"`, `":defs.bzl", "my_rule", "my_rule"`) + ")"
	case 1:
		return "package(" + g.args(1) + ")"
	case 2:
		return "exports_files(" + g.pick(g.list(1), g.expr(1), g.args(1), `["g.txt", "lib"]`) + ")"
	case 3:
		return g.pick("VAR_A", "VAR_B", "NAME", "rules") + " " + g.pick("=", "=", "+=") + " " + g.expr(2)
	case 4:
		return "[" + g.rule() + " for x in " + g.list(1) + "]"
	case 5:
		return "def f(" + g.pick("", "x", "name, **kwargs", "*args") + "):\n    " + g.pick("pass", g.rule(), "return "+g.expr(1))
	case 6:
		return "for x in " + g.list(1) + ":\n    " + g.pick("pass", g.rule())
	case 7:
		return "if " + g.expr(1) + ":\n    " + g.pick("pass", g.rule()) + "\nelse:\n    " + g.pick("pass", g.rule())
	case 8:
		return g.expr(2)
	case 9:
		return g.pick("a, b", "rules[0]", "x.y", "(a, [b])") + " = " + g.pick(g.rule(), g.expr(1))
	case 10:
		return g.pick("ext", "ext2") + " = use_extension(" + g.pick(`"//:ext.bzl", "ext"`, "", `"//:ext.bzl"`, g.args(1), `"//:ext.bzl", "ext", dev_dependency = True`, `EXT, "ext"`) + ")"
	case 11:
		return "use_repo(" + g.pick("", "ext", `ext, "r1", "r2"`, `ext, a = "r1"`, `"r1"`, "ext, *repos", "ext, a = r1", g.args(1)) + ")"
	case 12:
		return "(" + g.rule() + " if X else " + g.rule() + ")"
	case 13:
		return g.comment()
	case 14:
		return "pass"
	default:
		return g.rule()
	}
}

func (g *odd) file() string {
	var b strings.Builder
	if g.p(60) {
		a := g.callArgs(3, false)
		if !strings.Contains(a, "name = ") {
			if a != "" {
				a = ", " + a
			}
			a = `name = "lib"` + a
		}
		b.WriteString(g.pick("cc_library", "my_rule", "genrule", "package", "exports_files", "m.k") + "(" + a + ")\n")
	}
	for i := gen.Int(g.rt, 7); i > 0; i-- {
		if g.p(15) {
			b.WriteString(g.comment() + "\n")
		}
		b.WriteString(g.stmt())
		if g.p(10) {
			b.WriteString("  " + g.comment())
		}
		b.WriteString("\n")
		if g.p(30) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// oddCmd draws any command with any arguments it accepts the number of.
func (g *odd) oddCmd() cmd {
	var all []string
	for n := range edit.AllCommands {
		all = append(all, n)
	}
	sort.Strings(all)
	n := all[gen.Int(g.rt, len(all))]
	ci := edit.AllCommands[n]
	k := ci.MinArg
	max := ci.MaxArg
	if max < 0 {
		max = ci.MinArg + 3
	}
	if max > k {
		k += gen.Int(g.rt, max-k+1)
	}
	if g.p(8) { // the command that a fix is often
		n, k = "fix", gen.Int(g.rt, 3)
	}
	attr := func() string {
		return g.pick(oddAttrs[gen.Int(g.rt, len(oddAttrs))], oddAttrs[gen.Int(g.rt, len(oddAttrs))], "name", "kind", "*", "label", "rule", "startline", "path", "new_attr", "none")
	}
	val := func() string {
		return g.pick(drawLabel(g.rt), drawLabel(g.rt), "1", "True", "*", "", "k1:v", "k1", "//conf:a", "//conditions:default", "lib", "bin", "select()", "[", "(", ".*", "$0", "${1}", "ext", "dev", "//:ext.bzl", "a=b", "=", ":", "x:", "a=", "\"q\"", "glob([])", "r1", "[]", "None", "small", "before", "after", "all", "-1", "1_0", "07", "é")
	}
	c := cmd{n}
	source := n == "set" || n == "set_if_absent" // values may be source code
	for i := 0; i < k; i++ {
		v := val()
		switch n {
		case "new_load", "replace_load", "substitute_load":
			v = g.pick(":defs.bzl", "//t:d.bzl", "my_rule", "q", "a=b", "x", "", v)
		case "new":
			v = g.pick("cc_library", "lib", "bin", "x", "before", "after", v)
		case "fix":
			var fs []string
			for _, f := range edit.AllRuleFixes {
				fs = append(fs, f.Name)
			}
			for _, f := range edit.FileLevelFixes {
				fs = append(fs, f.Name)
			}
			v = g.pick(append(fs, "none")...)
		case "use_repo_add", "use_repo_remove":
			v = g.pick("ext", "ext2", "dev", "//:ext.bzl", "r1", "a=r1", v)
		case "copy", "copy_no_overwrite":
			if i == 1 {
				v = g.pick("lib", "bin", "x", "none")
			} else {
				v = attr()
			}
		case "rename":
			v = attr()
		default:
			if i == 0 || i == 1 && (n == "move" || n == "print") {
				v = attr()
			}
			if n == "set_select" && i > 0 && g.p(60) {
				v = g.pick("//conf:a", ":x", "//conditions:default")
			}
		}
		if source && i > 0 {
			if _, err := build.ParseBuild("", []byte("_ = "+v)); err != nil {
				v = "small"
			}
		}
		if v == "" {
			v = "w" // empty arguments cannot be written
		}
		c = append(c, v)
	}
	return c
}

// once are the commands that have nothing left to do when they are repeated.
var once = map[string]bool{"add": true, "remove": true, "set": true, "set_if_absent": true, "dict_add": true, "dict_set": true, "dict_remove": true, "dict_list_add": true, "remove_comment": true, "new_load": true, "replace_load": true, "use_repo_add": true, "use_repo_remove": true, "remove_if_equal": true, "format": true, "set_select": true, "copy_no_overwrite": true, "copy": true, "print": true, "print_comment": true}

// mentions tells whether a statement may hold what the target names.
func mentions(s build.Expr, target string) bool {
	found := false
	build.WalkOnce(s, func(e *build.Expr) {
		found = found || mentions(*e, target)
	})
	switch s := s.(type) {
	case *build.StringExpr:
		return s.Value == target || norm(s.Value, pkg) == norm(target, pkg)
	case *build.CallExpr:
		k := kindOf(s.X)
		switch {
		case target == "__pkg__":
			return found || k == "package"
		case target == "all" || target == "*" || target == "%1" || target == "%3":
			return true
		case strings.HasPrefix(target, "%"):
			return found || k == target[1:] || k == ""
		}
	}
	return found
}

func TestC44_Total(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "valid files in which the words of BUILD and MODULE.bazel files occur in unusual shapes (selects, globs, loads, packages and use_repo calls without or with odd arguments, rules whose name is no string, star arguments, calls of calls, nested rules, comprehensions, functions) x every command with every legal number of arguments x target patterns x options; no crash, a valid file or no change, nothing outside the target changed, repeating changes nothing. Non-trivial: the command changed the file beyond formatting it", 120000, 4000000, func(rt *rapid.T, c *vk.Case) {
		g := &odd{rt: rt}
		text := g.file()
		k := g.oddCmd()
		file, target := "a/b/BUILD", "//a/b:"
		module := strings.HasPrefix(k[0], "use_repo") && g.p(90) || g.p(4)
		if module {
			file, target = "MODULE.bazel", "//MODULE.bazel:"
		}
		tn := g.pick("lib", "lib", "lib", "bin", "x", "all", "*", "__pkg__", "%cc_library", "%my_rule", "%package", "%1", "%3", "g.txt", "dir/lib", "%f", "%load", "%select", "%native.cc_library")
		if k[0] == "new" || k[0] == "new_load" || k[0] == "replace_load" || k[0] == "substitute_load" {
			tn = "__pkg__"
		}
		fl := flags{noEOL: g.p(20), editVars: g.p(25), keepComments: g.p(25), noShorten: g.p(15)}
		if g.p(10) {
			fl.types = []string{"cc_library"}
		}
		c.Input(text)
		c.Part("%s: buildozer %s %q %q", file, fl, k.line(), target+tn)
		c.Persist()
		p := w.path(file)
		if _, err := build.Parse(p, []byte(text)); err != nil {
			c.Label("not a valid file")
			return
		}
		w.put(file, text)
		defer w.put("MODULE.bazel", "")
		res := w.run(fl, k.line(), target+tn)
		now := w.get(file)
		c.Label(k[0])
		if res.rc != 0 && now != text {
			c.Fail("exit %d (stderr %q) but the file was written:\n%s", res.rc, res.err, now)
		}
		switch res.rc {
		case 0, 3:
		case 2:
			c.Label("refused")
			if res.err == "" {
				c.Fail("exit 2 without an error message")
			}
			return
		default:
			c.Fail("exit %d (stderr %q)", res.rc, res.err)
		}
		f1, err := build.Parse(p, []byte(now))
		if err != nil {
			c.Fail("the file written is not valid: %v\n%s", err, now)
		}
		if now == text {
			return
		}
		if k[0] == "print" || k[0] == "print_comment" {
			c.Fail("%s changed the file", k[0])
		}
		if fl.noShorten {
			build.DisableRewrites = []string{"label"}
		}
		f0 := parseBuild(c, p, plain(c, p, text))
		build.DisableRewrites = nil
		c.NonTrivial(astx.Dump(f0, astx.Opt{}) != astx.Dump(f1, astx.Opt{}))
		// Whatever the command is not about is still there, in the same order.
		if k[0] != "fix" {
			var loads []string
			touched := func(s build.Expr) bool {
				switch s := s.(type) {
				case *build.CallExpr: // calls which do nothing are removed
					if k := kindOf(s.X); k == "package" && len(s.List) == 0 || k == "use_repo" && len(s.List) <= 1 {
						return true
					}
				case *build.LoadStmt: // formatting moves them
					if !strings.HasSuffix(k[0], "_load") {
						loads = append(loads, astx.Dump(s, astx.Opt{}))
					}
					return true
				case *build.AssignExpr:
					if fl.editVars {
						return true
					}
				case *build.CommentBlock:
					return true
				}
				switch k[0] {
				case "new", "new_load", "replace_load", "substitute_load":
					return false
				case "use_repo_add", "use_repo_remove":
					call, ok := s.(*build.CallExpr)
					return ok && kindOf(call.X) == "use_repo"
				}
				return mentions(s, tn)
			}
			have := f1.Stmt
			for _, s := range f0.Stmt {
				if touched(s) {
					continue
				}
				want := astx.Dump(s, astx.Opt{})
				for len(have) > 0 && astx.Dump(have[0], astx.Opt{}) != want {
					have = have[1:]
				}
				if len(have) == 0 {
					c.Fail("a statement which is not the target is gone or moved:\n%s\n--- result\n%s", build.FormatString(s), now)
				}
				have = have[1:]
				c.Evals(1)
			}
			var loaded []string
			for _, s := range f1.Stmt {
				if _, ok := s.(*build.LoadStmt); ok {
					loaded = append(loaded, astx.Dump(s, astx.Opt{}))
				}
			}
			for _, l := range loads {
				if !contains(loaded, l) {
					c.Fail("a load statement changed: %s is not among %s", l, loaded)
				}
			}
		}
		again := once[k[0]]
		if len(k) > 1 && (k[1] == "name" || k[1] == "kind" || k[1] == "*") {
			again = false // the target may name something else afterwards
		}
		if tn == "__pkg__" && strings.Count(text, "package(") > 1 {
			again = false // an empty one may have been removed
		}
		if again && tn != "%1" && tn != "%3" {
			res := w.run(fl, k.line(), target+tn)
			if again := w.get(file); again != now {
				if k[0] == "replace_load" || k[0] == "new_load" {
					// the place may differ, and the symbol's comment goes with it
					dumps := func(f *build.File) (r []string) {
						for _, s := range f.Stmt {
							r = append(r, astx.Dump(s, astx.Opt{}))
						}
						sort.Strings(r)
						return
					}
					if f2, err := build.Parse(p, []byte(again)); err == nil && fmt.Sprint(dumps(f2)) == fmt.Sprint(dumps(f1)) {
						return
					}
				}
				c.Fail("repeating the command changed the file again (exit %d):\n%s\n--- after the first time\n%s", res.rc, again, now)
			}
		}
	})
}
