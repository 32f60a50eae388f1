// Package plint decides the linter's properties.
package plint

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/gen"
)

func init() { log.SetOutput(io.Discard) }

// lg generates programs made of the patterns the linter looks for, in all kinds
// of places, mixed with ordinary statements.
type lg struct {
	rt     *rapid.T
	typ    build.FileType
	b      strings.Builder
	ind    string
	n      int // comment counter
	budget int
	loads  bool // generate load statements
	cmts   bool
	cats   []string // categories named in disabling comments
	vars   []string // names in scope (roughly)
	inDef  bool
	inLoop bool
	depth  int
}

var lintTypes = []build.FileType{build.TypeBzl, build.TypeBuild, build.TypeBzl, build.TypeBuild, build.TypeWorkspace, build.TypeModule, build.TypeDefault}

func (g *lg) N(n int) int              { return gen.Int(g.rt, n) }
func (g *lg) P(p int) bool             { return gen.Pct(g.rt, p) }
func (g *lg) Pick(xs ...string) string { return xs[g.N(len(xs))] }

func (g *lg) comment() string {
	g.n++
	s := fmt.Sprintf("# c%d", g.n)
	switch g.N(10) {
	case 0:
		s += " Skylark"
	case 1:
		s += " see http://x.y/skylark"
	case 2, 3:
		if len(g.cats) > 0 {
			s += " buildifier: disable=" + g.Pick(g.cats...)
		}
	case 4:
		if g.P(40) {
			s += " @unused"
		}
	case 5:
		if g.P(40) {
			s += " @unsorted-dict-items"
		}
	case 6:
		s += " SKYLARK and skylark/x"
	}
	return s
}

func (g *lg) line(s string) {
	if g.cmts && g.P(8) {
		g.b.WriteString(g.ind + g.comment() + "\n")
		if g.P(20) {
			g.b.WriteString("\n")
		}
	}
	if g.P(12) {
		g.b.WriteString("\n")
	}
	g.b.WriteString(g.ind + strings.ReplaceAll(s, "\n", "\n"+g.ind))
	if g.cmts && g.P(6) {
		g.b.WriteString("  " + g.comment())
	}
	g.b.WriteString("\n")
}

func (g *lg) name() string {
	return g.Pick("a", "b", "x", "y", "d", "n", "s", "l", "foo", "_p", "ctx", "args", "O", "CcInfo", "sh_test", "Camel", "MyInfo", "K_K", "PACKAGE_NAME", "select")
}

func (g *lg) use() string {
	if g.P(70) {
		return g.Pick("a", "b", "x", "y", "d", "n", "s", "foo", "_p", "ctx", "args", "dep")
	}
	return g.Pick("PACKAGE_NAME", "REPOSITORY_NAME", "CcInfo", "JavaInfo", "ProtoInfo", "cc_common", "java_common", "proto_common", "True", "False", "None", "sh_test", "cc_library")
}

func (g *lg) str() string {
	return g.Pick(`"a"`, `"b"`, `"c"`, `"*.cc"`, `"x.h"`, `"_z"`, `"//a:b"`, `":c"`, `"//conditions:default"`, `"data"`, `"host"`, `"licenses"`, `"deps"`, `"package_metadata"`, `"applicable_licenses"`, `"%s"`, `'q'`, `"""t"""`, `""`)
}

func (g *lg) seq(k int, f func() string) string {
	var r []string
	for i := 0; i < k; i++ {
		r = append(r, f())
	}
	return strings.Join(r, ", ")
}

// wrap puts a bracketed list over several lines sometimes, with comments.
func (g *lg) wrap(open string, items []string, close string) string {
	if len(items) == 0 || g.P(70) {
		return open + strings.Join(items, ", ") + close
	}
	s := open + "\n"
	for _, it := range items {
		if g.cmts && g.P(10) {
			s += "    " + g.comment() + "\n"
		}
		s += "    " + strings.ReplaceAll(it, "\n", "\n    ") + ","
		if g.cmts && g.P(10) {
			s += "  " + g.comment()
		}
		s += "\n"
	}
	if g.cmts && g.P(5) {
		s += "    " + g.comment() + "\n"
	}
	return s + close
}

func (g *lg) kw(names ...string) string { return g.Pick(names...) + " = " + g.expr(2) }

// args draws an argument list holding some of the given fixed arguments.
func (g *lg) args(fixed ...string) []string {
	var r []string
	for g.P(25) && len(r) < 3 {
		r = append(r, g.expr(2))
	}
	for _, f := range fixed {
		for g.P(12) {
			r = append(r, g.kw("doc", "default", "mandatory", "k1", "k2", "allow_files", "name"))
		}
		r = append(r, f)
	}
	for g.P(20) && len(r) < 8 {
		r = append(r, g.kw("doc2", "z", "k3", "providers"))
	}
	if g.P(4) {
		r = append(r, "*"+g.use())
	}
	if g.P(4) {
		r = append(r, "**"+g.use())
	}
	return r
}

func (g *lg) call(fn string, fixed ...string) string { return g.wrap(fn+"(", g.args(fixed...), ")") }

func (g *lg) expr(d int) string {
	g.budget--
	if d > 3 || g.budget < 0 {
		if g.P(50) {
			return g.use()
		}
		return g.Pick("1", "2", "\"s\"", "3", "True", "None", "x")
	}
	switch g.N(32) {
	case 0, 1, 2:
		return g.use()
	case 3:
		return g.Pick("1", "22", "0x1F", "1.5", "0o17")
	case 4:
		return g.str()
	case 5:
		return g.wrap("[", g.many(g.N(4), d), "]")
	case 6:
		return g.dict(d)
	case 7:
		return g.use() + g.Pick(" + ", " - ", " * ", " / ", " // ", " % ", " | ", " and ", " or ", " == ", " in ", " not in ", " < ") + g.atom(d)
	case 8:
		if g.P(40) {
			return g.Pick("n", "2", "a", "int(y)", "(1)") + g.Pick(" / ", " / ", " // ", " + ", " * ") + g.Pick("2", "n", "a", "(n / 2)", "n / a", "int(x)")
		}
		return g.atom(d) + g.Pick(" / ", " / ", " + ", " | ", " in ") + g.atom(d) + g.Pick("", "", " / 2", " + x")
	case 9:
		return "(" + g.expr(d+1) + ")"
	case 10:
		return "(" + g.expr(d+1) + " if " + g.expr(d+1) + " else " + g.expr(d+1) + ")"
	case 11:
		return "(lambda " + g.Pick("x", "x, y", "x = a", "*x", "") + ": " + g.expr(d+1) + ")"
	case 12:
		return g.Pick("not ", "-") + g.atom(d)
	case 13:
		v := g.Pick("x", "i", "l", "_j", "x, y", "d")
		s := g.Pick("[", "[", "{")
		if s == "[" {
			return "[" + g.expr(d+1) + " for " + v + " in " + g.atom(d) + g.Pick("", " if "+g.use(), " for z in "+g.use()) + "]"
		}
		return "{" + g.atom(d) + ": " + g.expr(d+1) + " for " + v + " in " + g.atom(d) + "}"
	case 14:
		return g.idiomArgs(d)
	case 15:
		return g.idiomAttr()
	case 16:
		return g.idiomCtx(d)
	case 17:
		return g.idiomBuiltin(d)
	case 18:
		return g.idiomDepset(d)
	case 19:
		return g.idiomNative(d)
	case 20:
		return g.atom(d) + "[" + g.expr(d+1) + "]"
	case 21:
		return g.use() + "." + g.Pick("foo", "output_group", "to_list", "actions", "bar")
	case 22:
		return "ctx.attr." + g.Pick("dep", "deps") + ".output_group"
	case 23:
		return g.use() + g.Pick(".pop(", ".get(", ".setdefault(", ".append(", ".union(") + g.expr(d+1) + g.Pick("", ", default = "+g.expr(d+1)) + ")"
	case 24:
		return g.call("glob", g.Pick("[\"*.cc\", \"a.h\"]", "include = [\"*.h\"]", "[\"a.cc\"]", "include = [\"b.cc\"]"))
	case 25:
		return g.call("provider", g.Pick("\"doc\"", "doc = \"d\"", "fields = [\"a\"]", "init = f"))
	case 26:
		return g.call("rule", g.Pick("implementation = foo", "foo", "_impl", "implementation = _impl", "attrs = "+g.dict(d)))
	case 28:
		return g.anyCall(d)
	case 27:
		return g.Pick("print", "fail", "struct", "FileType", "str", "foo.bar") + g.wrap("(", g.args(), ")")
	default:
		return g.atom(d)
	}
}

// anyCall calls a name the linter may recognize with any arguments.
func (g *lg) anyCall(d int) string {
	fn := g.Pick("all", "any", "reversed", "max", "min", "zip", "len", "list", "sorted", "tuple", "depset", "dict", "set", "int", "float", "str", "bool", "repr", "range", "enumerate",
		"getattr", "hasattr", "select", "glob", "rule", "repository_rule", "aspect", "macro", "provider", "struct", "package", "licenses", "print", "fail", "load", "type", "dir", "existing_rule", "existing_rules", "package_name", "exports_files",
		"attr.output", "attr.label", "attr.license", "attr.string_list", "attr", "args.add", "args.add_all", "ctx.action", "ctx.actions.args", "ctx.new_file", "ctx.experimental_new_directory", "ctx.file_action", "ctx.empty_action", "ctx.template_action", "ctx.actions.declare_file",
		"native.glob", "native.package_name", "native.existing_rules", "native.package", "native", "native.sh_test", "ctx", "FileType", "x.output", "d.pop", "d.get", "d.setdefault", "s.union", "x.append",
		"module_extension", "tag_class", "http_archive", "git_repository", "new_git_repository", "use_repo", "bazel_dep", "use_extension", "workspace", "module", "cc_library", "CcInfo", "(f)", "f()", "x[0]", "[f][0]", "(lambda x: x)")
	var r []string
	for n := g.N(5); n > 0; n-- {
		switch g.N(9) {
		case 0, 1:
			k := g.Pick("name", "x", "elements", "items", "transitive", "direct", "order", "default", "key", "doc", "fields", "implementation", "attrs", "cfg", "executable", "output", "sibling", "filename", "non_empty", "single_file", "before_each", "map_fn", "join_with", "include", "exclude", "allow_empty", "init")
			dup := false
			for _, a := range r {
				dup = dup || strings.HasPrefix(a, k+" =")
			}
			if !dup {
				r = append(r, k+" = "+g.expr(d+1))
			}
		case 2:
			if g.P(50) {
				r = append(r, "*"+g.atom(d+1))
			}
		case 3:
			if g.P(50) {
				r = append(r, "**"+g.atom(d+1))
			}
		default:
			r = append(r, g.expr(d+1))
		}
	}
	return g.wrap(fn+"(", r, ")")
}

// anyList is a list display of any length.
func (g *lg) anyList() string {
	var r []string
	for n := g.N(4); n > 0; n-- {
		r = append(r, g.Pick("-1", "+x", "not a", "\"s\"", "[1]", "x", "f(x)", g.expr(1)))
	}
	return g.wrap("[", r, "]")
}

func (g *lg) many(k, d int) []string {
	var r []string
	for i := 0; i < k; i++ {
		r = append(r, g.expr(d+1))
	}
	return r
}

func (g *lg) atom(d int) string {
	switch g.N(6) {
	case 0:
		return "(" + g.expr(d+1) + ")"
	case 1:
		return g.Pick("1", "2", "10", "1.5")
	case 2:
		return g.str()
	case 3:
		return "[" + g.seq(g.N(3), func() string { return g.expr(d + 1) }) + "]"
	case 4:
		return g.Pick("depset([1])", "depset(x)", "int(x)", "dict(a = 1)", "str(x)", "list(y)")
	}
	return g.use()
}

func (g *lg) dict(d int) string {
	var items []string
	for n := g.N(5); n > 0; n-- {
		k := g.str()
		if g.P(15) {
			k = g.use()
		}
		items = append(items, k+": "+g.expr(d+1))
	}
	return g.wrap("{", items, "}")
}

func (g *lg) idiomArgs(d int) string {
	if g.P(30) {
		return g.Pick("x", "{}", "dict(y)", "d") + g.Pick(".pop(", ".get(", ".setdefault(") + g.expr(d+1) + ", " + g.Pick("default = ", "") + g.expr(d+1) + ")"
	}
	return g.call(g.Pick("args", "args", "x", "ctx.actions.args()")+".add", g.Pick("before_each = "+g.expr(d+1), "join_with = \",\"", "map_fn = "+g.use(), "format = \"f\""), g.Pick("before_each = \"-x\"", "join_with = "+g.str(), "map_fn = f", "x"))
}

func (g *lg) idiomAttr() string {
	fn := "attr." + g.Pick("output", "label", "label_list", "string", "string_list", "output", "license", "int_list")
	fixed := []string{}
	for n := 1 + g.N(2); n > 0; n-- {
		s := g.Pick(`cfg = "data"`, `cfg = "host"`, `cfg = "exec"`, "cfg = x",
			"non_empty = True", "non_empty = False", "non_empty = not "+g.use(), "non_empty = (True)", "non_empty = "+g.expr(2), "non_empty = "+g.use(),
			"single_file = True", "single_file = False", "single_file = "+g.expr(2), "single_file = x",
			"allow_files = True", "allow_files = [\".cc\"]", "default = None", "default = \"x\"", "mandatory = True")
		k := s[:strings.Index(s, " ")]
		dup := false
		for _, f := range fixed {
			if strings.HasPrefix(f, k+" ") {
				dup = true
			}
		}
		if !dup {
			fixed = append(fixed, s)
		}
	}
	var r []string
	r = append(r, fixed...)
	if g.P(30) {
		r = append(r, "doc = "+g.str())
	}
	if g.P(10) {
		r = append([]string{g.str()}, r...)
	}
	return g.wrap(fn+"(", r, ")")
}

func (g *lg) idiomCtx(d int) string {
	switch g.N(8) {
	case 0:
		return "ctx.new_file(" + g.Pick("", g.expr(d+1), g.expr(d+1)+", "+g.expr(d+1), "a, b, c", "sibling = "+g.use()+", filename = "+g.str(), g.use()+", filename = "+g.str()) + ")"
	case 1:
		return g.call("ctx.experimental_new_directory", g.str())
	case 2:
		return g.call("ctx.file_action", "output = x", g.Pick("executable = True", "content = y", "executable = "+g.expr(d+1)))
	case 3:
		return g.call("ctx.action", g.Pick("command = "+g.str(), "executable = x", "inputs = []"), "outputs = "+g.use())
	case 4:
		return g.call("ctx.empty_action", "mnemonic = \"x\"")
	case 5:
		return g.call("ctx.template_action", g.Pick("executable = True", "template = y"), "output = x")
	case 6:
		return "ctx.actions.args()"
	}
	return g.call("ctx.actions.run", "outputs = [x]")
}

func (g *lg) idiomBuiltin(d int) string {
	fn := g.Pick("native.", "", "", "", "") + g.Pick("all", "any", "tuple", "list", "len", "str", "repr", "bool", "int", "dir", "type", "hasattr", "getattr", "select")
	e := func() string { return g.expr(d + 1) }
	switch g.N(7) {
	case 0:
		return fn + "(x = " + e() + ")"
	case 1:
		return fn + "(elements = " + e() + ")"
	case 2:
		return fn + "(x = " + e() + ", name = " + e() + g.Pick("", ", default = "+e()) + ")"
	case 3:
		return fn + "(" + e() + ", name = " + e() + ", default = " + e() + ")"
	case 4:
		return fn + "(" + e() + ", " + e() + ", default = " + e() + g.Pick("", ", *x", ", **y") + ")"
	case 5:
		return fn + "(" + e() + ", x = " + e() + ")"
	}
	return fn + g.wrap("(", g.many(1+g.N(2), d), ")")
}

func (g *lg) idiomDepset(d int) string {
	x := g.Pick("depset([1])", "depset(items = x)", "depset(d)", "depset(direct = [1], transitive = [d])", "depset(transitive = x)", "d", "d", "depset(depset(x))")
	switch g.N(8) {
	case 0:
		return g.Pick("len", "list", "sorted", "all", "any", "max", "min", "tuple", "depset") + "(" + x + ")"
	case 1:
		return g.atom(d) + g.Pick(" in ", " not in ") + x
	case 2:
		return "[" + g.expr(d+1) + " for y in " + x + "]"
	case 3:
		return "zip(" + x + ", " + g.expr(d+1) + ", " + x + ")"
	case 4:
		return x + g.Pick(" + ", " | ") + g.atom(d)
	case 5:
		return x + ".union(" + g.expr(d+1) + ")"
	case 6:
		return x + ".to_list()"
	}
	return x
}

func (g *lg) idiomNative(d int) string {
	fn := g.Pick("cc_library", "cc_binary", "cc_test", "cc_import", "java_library", "java_binary", "java_test", "java_import", "py_library", "py_binary", "py_test",
		"proto_library", "cc_proto_library", "java_proto_library", "sh_test", "sh_library", "sh_binary", "android_library", "android_binary", "aar_import", "http_archive",
		"git_repository", "new_git_repository", "cc_toolchain", "java_runtime", "proto_lang_toolchain", "genrule", "filegroup", "glob", "package_name", "package", "existing_rule")
	if g.P(40) {
		fn = "native." + fn
	}
	if g.P(15) {
		fn = g.Pick("CcInfo", "JavaInfo", "ProtoInfo", "cc_common.link", "java_common.compile", "DebugPackageInfo", "CcSharedLibraryInfo", "JavaPluginInfo", "ProtoLangToolchainInfo", "proto_common.f")
	}
	var as []string
	if g.P(80) {
		as = append(as, "name = "+g.Pick(`"a"`, `"b"`, `"x"`, "name", `"a" + x`))
	}
	for g.P(40) && len(as) < 5 {
		as = append(as, g.Pick("srcs = [\"a.cc\"]", "deps = "+g.expr(2), "tags = []", "data = "+g.idiomDepset(2)))
	}
	if g.P(8) {
		as = append([]string{g.expr(2)}, as...)
	}
	if g.P(4) {
		as = append(as, "**kwargs")
	}
	return g.wrap(fn+"(", as, ")")
}

// body writes an indented block.
func (g *lg) body(f func()) {
	old := g.ind
	g.ind += "    "
	f()
	g.ind = old
}

func (g *lg) docstring() string {
	switch g.N(12) {
	case 0:
		return "\"Skylark doc\""
	case 1:
		return `"Header.\n\nArgs:\n  x: foo\n  b: bar\n\nReturns:\n  a"`
	case 2:
		return "\"\"\"Header\n\nArgs:\n  x: foo\n  " + g.Pick("y", "a", "*args", "**kwargs", "ctx", "zz", "b (int)") + ": bar\n    baz: more\n\nReturns:\n  val\n\"\"\""
	case 3:
		return "\"\"\"Header\n\nArguments:\n  x: foo\n  n: bar\n\"\"\""
	case 4:
		return "\"\"\"Header\n\nDeprecated:\n  use y\n\"\"\""
	case 5:
		return "\"\"\"Header\nnot a header line\n\"\"\""
	case 6:
		return "\"\"\"\nHeader skylark\n\nArgs:\n  : foo\n  x: \n\"\"\""
	case 7:
		return `"one \
 two \
Args:"`
	case 8:
		return "\"\"\"Header\n\nArgs:\n" + g.Pick("", "\n", "    ") + "  foo: foo\n\n" + g.Pick("", "  bar: d\n", "Returns:\n") + "\"\"\""
	case 9:
		return `r"""Raw skylark \d"""`
	}
	return "\"\"\"Doc.\"\"\""
}

func (g *lg) params() string {
	var r []string
	seen := map[string]bool{}
	for n := g.N(5); n > 0; n-- {
		p := g.Pick("x", "y", "ctx", "name", "l", "_u", "b", "a", "d")
		if seen[p] {
			continue
		}
		seen[p] = true
		if g.P(10) {
			p += ": " + g.Pick("int", "list[str]", "T", "_T | None")
		}
		if g.P(30) {
			p += " = " + g.Pick("None", "1", "[]", g.expr(2))
		}
		r = append(r, p)
	}
	// defaults after plain ones
	var plain, def []string
	for _, p := range r {
		if strings.Contains(p, " = ") {
			def = append(def, p)
		} else {
			plain = append(plain, p)
		}
	}
	r = append(plain, def...)
	if g.P(12) {
		r = append(r, g.Pick("*", "*args", "*l")+"")
		if r[len(r)-1] == "*" {
			r = append(r, "kk")
		}
	}
	if g.P(12) {
		r = append(r, "**kwargs")
	}
	return strings.Join(r, ", ")
}

func (g *lg) def() {
	name := g.Pick("foo", "_impl", "f", "_helper", "cc_library", "macro", "l", "glob2", "g", "h")
	ret := ""
	if g.P(5) {
		ret = " -> " + g.Pick("int", "list[T]")
	}
	g.line("def " + name + "(" + g.params() + ")" + ret + ":")
	oldD, oldL := g.inDef, g.inLoop
	g.inDef, g.inLoop = true, false
	g.depth++
	g.body(func() {
		if g.P(35) {
			g.b.WriteString(g.ind + strings.ReplaceAll(g.docstring(), "\n", "\n"+g.ind) + "\n")
		}
		for g.P(35) {
			g.line(g.Pick("d = depset([1])", "n = 5", "args = ctx.actions.args()", "args = ctx.actions.args()", "s = \"x\"", "x = {}", "a = int(b)"))
		}
		g.stmts(1 + g.N(5))
	})
	g.depth--
	g.inDef, g.inLoop = oldD, oldL
}

func (g *lg) stmts(n int) {
	for ; n > 0; n-- {
		g.stmt()
	}
}

func (g *lg) lhs() string {
	switch g.N(8) {
	case 0:
		return g.name() + ", " + g.name()
	case 1:
		return "(" + g.name() + ", _q)"
	case 2:
		return g.use() + "[" + g.expr(2) + "]"
	case 3:
		return "[" + g.name() + "]"
	case 4:
		return g.use() + ".f"
	}
	return g.name()
}

func (g *lg) stmt() {
	g.budget -= 2
	if g.budget < 0 {
		g.line(g.Pick("pass", "x = 1"))
		return
	}
	if g.depth > 3 {
		g.line(g.lhs() + " = " + g.expr(1))
		return
	}
	switch k := g.N(24); {
	case k < 5:
		g.line(g.lhs() + " = " + g.expr(0))
	case k == 5:
		if g.P(30) {
			g.line(g.Pick("n", "a") + g.Pick(" /= ", " //= ", " += ") + g.Pick("2", "n", "n / 2", "x"))
			break
		}
		g.line(g.name() + g.Pick(" += ", " += ", " /= ", " /= ", " %= ", " |= ", " -= ") + g.Pick(g.expr(0), "["+g.expr(1)+"]", g.anyList(), "2", "depset(x)", "{}"))
	case k == 6:
		g.line(g.use() + g.Pick("["+g.expr(1)+"]", ".f", "") + " += " + g.anyList())
	case k == 7, k == 8:
		g.line(g.idiomNative(0))
	case k == 9:
		g.line(g.expr(0))
	case k == 10:
		g.line(g.Pick(g.str(), "[f(x) for x in y]", "{x: 1 for x in y}", "x", "1", "x.y", "x == y", "(a)", "lambda: 1"))
	case k == 11 && (g.inDef || g.typ == build.TypeDefault || g.P(10)):
		g.depth++
		g.line("if " + g.expr(1) + ":")
		g.body(func() { g.stmts(1 + g.N(3)) })
		if g.P(20) {
			g.line("elif " + g.expr(1) + ":")
			g.body(func() { g.stmts(1 + g.N(2)) })
		}
		if g.P(50) {
			g.line("else:")
			g.body(func() { g.stmts(1 + g.N(3)) })
		}
		g.depth--
	case k == 12 && (g.inDef || g.typ == build.TypeDefault || g.P(10)):
		g.depth++
		g.line("for " + g.Pick(g.name(), "x, y", "_, z", "(a, b)", "i") + " in " + g.Pick(g.expr(1), "d", "depset(x)", "\"str\"") + ":")
		old := g.inLoop
		g.inLoop = true
		g.body(func() {
			if g.P(15) {
				g.line("d = depset(transitive = [d])")
			}
			g.stmts(1 + g.N(3))
		})
		g.inLoop = old
		g.depth--
	case k == 13 && g.inDef:
		g.line(g.Pick("return", "return "+g.expr(1), "return struct(a = 1)", "return struct(x = "+g.expr(2)+")", "fail(\"x\")"))
	case k == 14 && g.inLoop:
		g.line(g.Pick("break", "continue"))
	case k == 15 && g.depth < 2 && g.typ != build.TypeBuild:
		g.def()
	case k == 16:
		g.line("pass")
	case k == 17:
		g.line("d = " + g.idiomDepset(1))
	case k == 18:
		g.line(g.name() + " = " + g.dict(0))
	case k == 19:
		g.line(g.idiomAttr())
	case k == 20:
		g.line("[" + g.idiomNative(1) + " for x in " + g.expr(1) + "]")
	default:
		g.line(g.name() + " = " + g.expr(1))
	}
}

func (g *lg) load() {
	mod := g.Pick(":a.bzl", "//x:y.bzl", "//lib:dep.bzl", ":dep.bzl", "//lib/internal:z.bzl", "@r//private/p:q.bzl", "@rules_cc//cc:cc_library.bzl", "@rules_cc//cc/common:cc_info.bzl", "@rules_shell//shell:sh_test.bzl",
		"@rules_java//java:java_library.bzl", "@my_cc//cc:cc_library.bzl", "@rules_python//python:defs.bzl", "@bazel_tools//tools/build_defs/repo:git.bzl", "@com_google_protobuf//bazel:proto_library.bzl", "@protobuf//bazel:proto_library.bzl")
	var items []string
	for n := 1 + g.N(3); n > 0; n-- {
		s := g.Pick("a", "b", "foo", "old_fn", "mac", "cc_library", "sh_test", "CcInfo", "x", "T", "unused1", "py_library", "git_repository")
		if g.P(25) {
			items = append(items, g.Pick("a", "y", "_p", "q", "foo", "unused2")+" = \""+s+"\"")
		} else {
			items = append(items, "\""+s+"\"")
		}
	}
	// duplicated names inside one load are not accepted by Bazel but parse
	g.line(g.wrap("load(\""+mod+"\", ", items, ")"))
}

// program draws a file.
func program(rt *rapid.T, typ build.FileType, cats []string) string {
	g := &lg{rt: rt, typ: typ, budget: 60 + gen.Int(rt, 120), cmts: gen.Pct(rt, 50), cats: cats}
	if g.P(25) {
		g.b.WriteString(g.docstring() + "\n\n")
	}
	if g.P(60) {
		for n := g.N(4); n > 0; n-- {
			g.load()
		}
	}
	for n := 1 + g.N(7); n > 0; n-- {
		k := g.N(10)
		if typ == build.TypeBuild && g.P(40) {
			g.line(g.idiomNative(0))
			continue
		}
		switch {
		case k < 4 && typ != build.TypeBuild:
			g.def()
		case k == 4 && g.P(50):
			g.line(g.Pick("package(default_visibility = [\"//visibility:public\"])", "package()", "package_group(name = \"g\")", "licenses([\"notice\"])", "exports_files([\"a\"])"))
		case k == 5 && g.P(40):
			g.load()
		case k == 6 && g.P(40):
			if g.P(50) {
				g.b.WriteString("\n" + g.comment() + "\n\n")
			} else {
				g.line(g.docstring())
			}
		default:
			g.stmt()
		}
	}
	return g.b.String()
}

// files of the surrounding repository, by path relative to its root.
var repoFiles = []map[string]string{
	{},
	{
		"MODULE.bazel": "bazel_dep(name = \"rules_cc\", version = \"1\", repo_name = \"my_cc\")\nbazel_dep(name = \"rules_java\", version = \"1\")\nbazel_dep(name = \"protobuf\", version = \"1\", repo_name = \"pb\")\n",
		"lib/dep.bzl":  "load(\":more.bzl\", \"m2\")\ndef old_fn():\n    \"\"\"Header\n\n    Deprecated:\n      x\n    \"\"\"\ndef foo(x):\n    native.cc_library(name = x)\ndef mac():\n    m2()\na = rule()\n",
		"lib/more.bzl": "load(\":dep.bzl\", \"mac\")\ndef m2():\n    mac()\n    native.sh_test()\n",
		"pkg/a.bzl":    "a = rule(implementation = x)\nb = a\ndef foo():\n    b()\n    native.genrule()\n    a()\ndef old_fn():\n  \"\"\"x\n\n  Deprecated:\n    y\n  \"\"\"\n",
		"pkg/dep.bzl":  "def x():\n  x()\nfoo = x\n(",
		"x/y.bzl":      "",
	},
	{
		"MODULE.bazel":     "include(\"//:seg.MODULE.bazel\")\nmodule(name = \"m\")\n",
		"seg.MODULE.bazel": "bazel_dep(name = \"rules_shell\", repo_name = \"shrules\")\n",
		"pkg/a.bzl":        "def a():\n    native.cc_library()\n    native.py_library()\n",
	},
}

func reader(i int) *warn.FileReader {
	return warn.NewFileReader(func(p string) ([]byte, error) {
		s, ok := repoFiles[i][p]
		if !ok {
			return nil, errors.New("no such file")
		}
		return []byte(s), nil
	})
}

// lintFile parses text as a file of the type that lives in package pkg.
func lintFile(text string, typ build.FileType) (*build.File, error) {
	name := map[build.FileType]string{build.TypeBzl: "f.bzl", build.TypeBuild: "BUILD", build.TypeWorkspace: "WORKSPACE", build.TypeModule: "MODULE.bazel", build.TypeDefault: "f.star"}[typ]
	path := "pkg/" + name
	var f *build.File
	var err error
	switch typ {
	case build.TypeBzl:
		f, err = build.ParseBzl(path, []byte(text))
	case build.TypeBuild:
		f, err = build.ParseBuild(path, []byte(text))
	case build.TypeWorkspace:
		f, err = build.ParseWorkspace(path, []byte(text))
	case build.TypeModule:
		f, err = build.ParseModule(path, []byte(text))
	default:
		f, err = build.ParseDefault(path, []byte(text))
	}
	if err != nil {
		return nil, err
	}
	f.Pkg, f.Label, f.WorkspaceRoot = "pkg", name, "/ws"
	return f, nil
}

func drawCats(rt *rapid.T) []string {
	switch gen.Int(rt, 4) {
	case 0:
		return warn.AllWarnings
	case 1:
		return warn.DefaultWarnings
	}
	var r []string
	p := 10 + gen.Int(rt, 80)
	for _, w := range warn.AllWarnings {
		if gen.Pct(rt, p) {
			r = append(r, w)
		}
	}
	return r
}

func drawSource(rt *rapid.T, typ build.FileType) string {
	if gen.Pct(rt, 20) {
		return gen.Odd(rt)
	}
	if gen.Pct(rt, 20) {
		return gen.File(rt, gen.Cfg{MaxStmts: 8, BuildLike: typ == build.TypeBuild || typ == build.TypeWorkspace}).Text
	}
	return program(rt, typ, warn.AllWarnings)
}

var _ = os.Getenv
