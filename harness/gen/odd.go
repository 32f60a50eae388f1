package gen

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Odd is a valid file whose statements have the words the tools look for in unusual shapes.
func Odd(rt *rapid.T) string { return (&odd{rt: rt}).file() }

// odd generates valid files whose statements have the right words in the wrong shapes.
type odd struct {
	rt *rapid.T
	nc int
}

func (g *odd) p(n int) bool             { return Pct(g.rt, n) }
func (g *odd) pick(xs ...string) string { return Pick(g.rt, xs...) }

func (g *odd) str() string {
	if g.p(60) {
		return fmt.Sprintf("%q", g.pick("//a:x", ":y", "//b", "@r//p:q", "z.cc", "//a/b:b", "@r", "y", "//visibility:public", "a b", "//a:*", "::", "//:"))
	}
	return g.pick(`""`, `"lib"`, `":"`, `"//"`, `"@"`, `"@r"`, `"a b"`, `"//conditions:default"`, `"//conf:a"`, `"k1"`, `"k2"`, `"1"`, `"True"`, `"g.txt"`, `"x.bzl"`, `":BUILD"`, `"//a/b:"`, `"multi\nline"`, `"""raw
text"""`)
}

func (g *odd) name() string {
	return g.pick(`"lib"`, `"lib"`, `"bin"`, `"x"`, `"y"`, `"t1"`, `"dir/lib"`, `""`, `NAME`, `"a" + "b"`, `"lib%s" % X`, `["lib"]`, `1`, `None`, `f("x")`)
}

func (g *odd) seq(n, d int) string {
	var r []string
	for i := Int(g.rt, n+1); i > 0; i-- {
		r = append(r, g.expr(d))
	}
	return strings.Join(r, ", ")
}

func (g *odd) list(d int) string {
	if g.p(25) {
		var b strings.Builder
		b.WriteString("[\n")
		for i := Int(g.rt, 4); i > 0; i-- {
			if g.p(20) {
				b.WriteString("        " + g.comment() + "\n")
			}
			b.WriteString("        " + g.expr(d) + ",")
			if g.p(20) {
				b.WriteString("  " + g.comment())
			}
			b.WriteString("\n")
		}
		if g.p(15) {
			b.WriteString("        " + g.comment() + "\n")
		}
		return b.String() + "    ]"
	}
	if g.p(70) {
		var r []string
		for i := Int(g.rt, 4); i > 0; i-- {
			r = append(r, g.str())
		}
		return "[" + strings.Join(r, ", ") + "]"
	}
	return "[" + g.seq(3, d) + "]"
}

func (g *odd) comment() string {
	g.nc++
	return fmt.Sprintf("# %s%d", g.pick("c", "c", "buildozer: disable=", "keep sorted ", "do not sort "), g.nc)
}

func (g *odd) dict(d int) string {
	var r []string
	for i := Int(g.rt, 4); i > 0; i-- {
		k := g.str()
		if g.p(20) {
			k = g.expr(d)
		}
		r = append(r, k+": "+g.expr(d))
	}
	return "{" + strings.Join(r, ", ") + "}"
}

func (g *odd) sel(d int) string {
	arg := ""
	switch Int(g.rt, 9) {
	case 0:
	case 1:
		arg = "{}"
	case 2:
		arg = g.expr(d)
	case 3:
		arg = "**" + g.pick("kw", "{}")
	case 4:
		arg = g.dict(d) + ", no_match_error = " + g.expr(d)
	case 5:
		arg = "no_match_error = \"x\""
	case 6:
		arg = "*args"
	default:
		var r []string
		for i := Int(g.rt, 4); i > 0; i-- {
			r = append(r, g.pick(`"//conf:a"`, `"//conf:b"`, `"//conditions:default"`, `K`)+": "+g.pick(g.list(d), g.list(d), g.expr(d)))
		}
		arg = "{" + strings.Join(r, ", ") + "}"
	}
	return "select(" + arg + ")"
}

func (g *odd) expr(d int) string {
	if d <= 0 {
		return g.pick(g.str(), g.str(), "1", "0", "True", "None", "VAR_A", "VAR_B", "[]", "{}", "()", "select()", "glob()", "1.5", "-1")
	}
	switch Int(g.rt, 26) {
	case 0, 1, 2:
		return g.str()
	case 3, 4, 5:
		return g.list(d - 1)
	case 6, 7:
		return g.sel(d - 1)
	case 8, 9:
		return g.dict(d - 1)
	case 10, 11:
		return g.expr(d-1) + " + " + g.expr(d-1)
	case 12:
		return g.pick("glob("+g.list(d-1)+")", "glob("+g.list(d-1)+", exclude = "+g.list(d-1)+")", "glob(include = "+g.expr(d-1)+")", "glob()", "glob("+g.expr(d-1)+")")
	case 13:
		return "[" + g.expr(d-1) + " for x in " + g.list(d-1) + " if x]"
	case 14:
		return "{" + g.str() + ": " + g.expr(d-1) + " for x in " + g.list(d-1) + "}"
	case 15:
		return "(" + g.expr(d-1) + ",)"
	case 16:
		return "f(" + g.expr(d-1) + ")"
	case 17:
		return "(" + g.expr(d-1) + " if X else " + g.expr(d-1) + ")"
	case 18:
		return "(" + g.expr(d-1) + " " + g.pick("|", "%", "-", "*", "==", "and", "in", "not in", "//") + " " + g.expr(d-1) + ")"
	case 19:
		return g.pick("dict", "depset", "Label", "f", "native.glob", "x.y", "PKG.lib", "sorted") + "(" + g.args(d-1) + ")"
	case 20:
		return "VAR_A[" + g.expr(d-1) + "]"
	case 21:
		return "VAR_A[" + g.pick("1:", ":", "::2", ":1") + "]"
	case 22:
		return "(lambda x: " + g.expr(d-1) + ")"
	case 23:
		return "(not " + g.expr(d-1) + ")"
	case 24:
		return g.pick("VAR_A", "VAR_B", "VAR_A.x", "True", "False", "None")
	default:
		return g.pick("0", "1", "-1", "0x10", "1.5", "07")
	}
}

var oddAttrs = []string{"deps", "deps", "srcs", "tags", "visibility", "my_dict", "env", "testonly", "size", "copts", "data", "licenses", "default_visibility", "include", "implementation", "attrs", "cfg", "allow_files", "single_file", "non_empty", "executable", "default", "outputs", "ctx", "hdrs", "outs", "exports", "doc", "items", "exclude"}

// args are the arguments of a call.
func (g *odd) args(d int) string { return g.callArgs(d, false) }

func (g *odd) callArgs(d int, named bool) string {
	var r []string
	used := map[string]bool{}
	if named {
		used["name"] = true
		r = append(r, "name = "+g.name())
	}
	for i := Int(g.rt, 5); i > 0; i-- {
		switch Int(g.rt, 12) {
		case 0:
			r = append([]string{g.expr(d)}, r...) // Starlark wants them first
		case 1:
			r = append(r, "*"+g.pick("args", "VAR_A", "[]"))
		case 2:
			r = append(r, "**"+g.pick("kwargs", "VAR_A", "{}"))
		case 3, 4:
			if !used["name"] {
				used["name"] = true
				r = append(r, "name = "+g.name())
			}
		default:
			if a := oddAttrs[Int(g.rt, len(oddAttrs))]; !used[a] {
				used[a] = true
				r = append(r, a+" = "+g.expr(d))
			}
		}
	}
	return strings.Join(r, ", ")
}

func (g *odd) rule() string {
	x := g.pick("cc_library", "java_library", "my_rule", "genrule", "cc_library", "native.cc_library", "m.k", "f()", "m.k()", "rules[0]", "\"x\".format", "package", "exports_files", "config_setting", "test_suite", "filegroup", "select", "glob", "licenses", "workspace", "module", "use_repo", "use_extension", "proto_library", "java_test", "x.y.z", "(lambda **k: k)", "package_group", "attr.label", "attr.output", "rule", "ctx.actions.args", "ctx.new_file", "ctx.actions.do_nothing", "ctx.template_action", "native.package_name", "depset", "struct", "print", "fail", "provider", "existing_rules", "repository_rule", "register_toolchains", "bazel_dep", "ctx.attr.dep.files.to_list", "sh_binary", "android_binary", "py_test", "Label", "FileType", "PACKAGE_NAME", "list_lists", "range", "len")
	a := g.callArgs(2, g.p(50))
	if g.p(15) {
		return x + "(  " + g.comment() + "\n    " + a + "\n    " + g.comment() + "\n)"
	}
	return x + "(" + a + ")"
}

func (g *odd) stmt() string {
	switch Int(g.rt, 24) {
	case 0:
		return "load(" + g.pick(`":defs.bzl", "my_rule"`, `"//t:d.bzl", x = "q"`, `"//t:d.bzl", "q", "r", s = "q"`, `"@r//p:q.bzl", "VAR_A"`, `"", "q"`, `"x", "cc_library"`, `":defs.bzl", "my_rule", "my_rule"`) + ")"
	case 1:
		return "package(" + g.args(1) + ")"
	case 2:
		return "exports_files(" + g.pick(g.list(1), g.expr(1), g.args(1), `["g.txt", "lib"]`) + ")"
	case 3:
		return g.pick("VAR_A", "VAR_B", "NAME", "rules") + " " + g.pick("=", "=", "+=") + " " + g.expr(2)
	case 4:
		return "[" + g.rule() + " for x in " + g.list(1) + "]"
	case 5:
		return "def f(" + g.pick("", "x", "name, **kwargs", "*args") + "):\n    " + g.body(2)
	case 6:
		return "for x in " + g.list(1) + ":\n    " + g.pick("pass", g.rule())
	case 7:
		return "if " + g.expr(1) + ":\n    " + g.pick("pass", g.rule()) + "\nelse:\n    " + g.pick("pass", g.rule())
	case 8:
		return g.expr(2)
	case 9:
		return g.pick("a, b", "rules[0]", "x.y", "(a, [b])") + " = " + g.pick(g.rule(), g.expr(1))
	case 10:
		return g.pick("ext", "ext2") + " = use_extension(" + g.pick(`"//:ext.bzl", "ext"`, "", `"//:ext.bzl"`, g.args(1), `"//:ext.bzl", "ext", dev_dependency = True`, `EXT, "ext"`) + ")"
	case 11:
		return "use_repo(" + g.pick("", "ext", `ext, "r1", "r2"`, `ext, a = "r1"`, `"r1"`, "ext, *repos", "ext, a = r1", g.args(1)) + ")"
	case 12:
		return "(" + g.rule() + " if X else " + g.rule() + ")"
	case 13:
		return g.comment()
	case 14:
		return g.pick("pass", "return", "return "+g.expr(1), "break", "x = 1\nx = 2", "\"\"\"doc\"\"\"", "_x = 1", "if X:\n    return 1\nelse:\n    pass", "for y in ():\n    continue\n    pass")
	default:
		return g.rule()
	}
}

func (g *odd) body(d int) string {
	var r []string
	for i := 1 + Int(g.rt, 3); i > 0; i-- {
		if d > 0 && g.p(30) {
			h := g.pick("if X:", "for y in "+g.expr(1)+":", "def h(y):", "for a, b in x:", "if not x:")
			r = append(r, h+"\n        "+strings.ReplaceAll(g.body(0), "\n    ", "\n        "))
			continue
		}
		s := g.pick("pass", g.rule(), "return "+g.expr(1), "return", "x = "+g.expr(1), "x += "+g.expr(1), "\"\"\"Doc.\n\n    Args:\n      x: it\n    \"\"\"", g.expr(1), "fail()", "print(x)", "x.y = 1", "a, b = b, a", "break")
		r = append(r, s)
	}
	return strings.Join(r, "\n    ")
}

func (g *odd) file() string {
	var b strings.Builder
	if g.p(60) {
		a := g.callArgs(3, false)
		if !strings.Contains(a, "name = ") {
			if a != "" {
				a = ", " + a
			}
			a = `name = "lib"` + a
		}
		b.WriteString(g.pick("cc_library", "my_rule", "genrule", "package", "exports_files", "m.k") + "(" + a + ")\n")
	}
	for i := Int(g.rt, 7); i > 0; i-- {
		if g.p(15) {
			b.WriteString(g.comment() + "\n")
		}
		b.WriteString(g.stmt())
		if g.p(10) {
			b.WriteString("  " + g.comment())
		}
		b.WriteString("\n")
		if g.p(30) {
			b.WriteString("\n")
		}
	}
	return b.String()
}
