package pbz

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/gen"
)

const pkg = "a/b"

// the spellings of each target from package a/b
var targets = [][]string{
	{":x", "x", "//a/b:x"},
	{":y", "y", "//a/b:y"},
	{"b", ":b", "//a/b", "//a/b:b"},
	{"//c", "//c:c"},
	{"//c:d"},
	{"//a:x"},
	{"//a/b/c:x"},
	{"@r//p", "@r//p:p"},
	{"@r//p:q"},
	{"@r", "@r//:r"},
	{"s.cc", ":s.cc", "//a/b:s.cc"},
	{"dir/t.cc", "//a/b:dir/t.cc"},
	{"//x:x", "//x"},
}

// words that are no labels
var words = []string{"-Wall", "-O2", "manual", "fast", "a b", "$(location x)", "--flag=1", "no-cache", "é", ""}

func drawLabel(rt *rapid.T) string {
	t := targets[gen.Int(rt, len(targets))]
	return t[gen.Int(rt, len(t))]
}

// attribute classes
var listAttrs = []string{"deps", "srcs", "data", "runtime_deps", "exports", "hdrs", "visibility", "my_deps"}
var wordAttrs = []string{"copts", "tags", "args", "my_words"}

// bg generates BUILD files.
type bg struct {
	rt        *rapid.T
	b         strings.Builder
	nc        int
	comments  bool
	names     []string // rule names used
	noSelect  bool
	parens    bool
	twoArgs   bool // selects may have a no_match_error argument
	vars      []string
	kinds     []string
	elems     func(attr string) string // overrides list elements
	extraRule func(g *bg, name string) bool
	noVars    bool
}

func (g *bg) p(n int) bool             { return gen.Pct(g.rt, n) }
func (g *bg) w(f string, a ...any)     { fmt.Fprintf(&g.b, f, a...) }
func (g *bg) pick(xs ...string) string { return gen.Pick(g.rt, xs...) }
func (g *bg) comment() string          { g.nc++; return fmt.Sprintf("# c%d", g.nc) }
func (g *bg) before(ind string) {
	if g.comments && g.p(8) {
		g.w("%s%s\n", ind, g.comment())
		if g.p(20) {
			g.w("%s%s\n", ind, g.comment())
		}
	}
}
func (g *bg) suffix() {
	if g.comments && g.p(8) {
		g.w("  %s", g.comment())
	}
	g.w("\n")
}

func (g *bg) elem(attr string) string {
	if g.elems != nil {
		return g.elems(attr)
	}
	for _, a := range wordAttrs {
		if a == attr {
			return g.pick(words...)
		}
	}
	return drawLabel(g.rt)
}

// list writes a list literal at indentation ind (the closing bracket's).
func (g *bg) list(attr, ind string) {
	n := gen.Int(g.rt, 5)
	if n > 0 && g.p(15) {
		n--
	}
	multi := n > 1 && g.p(70) || g.p(25)
	g.w("[")
	if multi {
		g.w("\n")
	}
	for i := 0; i < n; i++ {
		e := fmt.Sprintf("%q", g.elem(attr))
		if !g.noVars && g.p(4) {
			e = g.pick("ELEM", "f(1)", `"a" + "b"`, "x[0]")
		}
		if multi {
			g.before(ind + "    ")
			g.w("%s    %s,", ind, e)
			g.suffix()
			continue
		}
		if i > 0 {
			g.w(", ")
		}
		g.w("%s", e)
	}
	if multi {
		if g.comments && g.p(5) {
			g.w("%s    %s\n", ind, g.comment())
		}
		g.w("%s", ind)
	}
	g.w("]")
}

func (g *bg) sel(attr, ind string) {
	keys := []string{"//conf:a", "//conf:b", ":c", "//conditions:default"}
	n := 1 + gen.Int(g.rt, 3)
	start := gen.Int(g.rt, len(keys))
	g.w("select({\n")
	for i := 0; i < n; i++ {
		k := keys[(start+i)%len(keys)]
		g.before(ind + "    ")
		g.w("%s    %q: ", ind, k)
		if !g.noVars && g.p(8) {
			g.w("%s", g.pick("VAR_A", `glob(["*.x"])`))
		} else {
			g.list(attr, ind+"    ")
		}
		g.w(",")
		g.suffix()
	}
	g.w("%s}", ind)
	if g.twoArgs && g.p(15) {
		g.w(`, no_match_error = "nope"`)
	}
	g.w(")")
}

func (g *bg) part(attr, ind string) {
	switch {
	case !g.noSelect && g.p(35):
		g.sel(attr, ind)
	case !g.noVars && g.p(20):
		g.w("%s", g.pick(`glob(["*.cc"])`, "VAR_A", "VAR_B", "f(x = [1])", `glob(["a"], exclude = ["b"])`))
	default:
		g.list(attr, ind)
	}
}

// listValue writes a list-typed value.
func (g *bg) listValue(attr, ind string) {
	n := 1
	if g.p(35) {
		n = 2 + gen.Int(g.rt, 2)
	}
	paren := g.parens && n > 1 && g.p(25)
	if paren {
		g.w("(")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.w(" + ")
			if ind != "" && g.p(15) {
				g.w("\n%s        ", ind)
			}
		}
		if g.parens && g.p(6) {
			g.w("(")
			g.part(attr, ind)
			g.w(")")
			continue
		}
		g.part(attr, ind)
	}
	if paren {
		g.w(")")
	}
}

func (g *bg) dict(attr, ind string) {
	n := gen.Int(g.rt, 4)
	keys := []string{"k1", "k2", "K3", "x/y", "k 5"}
	start := gen.Int(g.rt, len(keys))
	multi := g.p(70)
	g.w("{")
	if multi {
		g.w("\n")
	}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%q", keys[(start+i)%len(keys)])
		if !g.noVars && g.p(12) {
			k = g.pick("KEY", "1", `"a" + "b"`, "Label(\"//c\")")
		}
		if multi {
			g.before(ind + "    ")
			g.w("%s    ", ind)
		} else if i > 0 {
			g.w(", ")
		}
		g.w("%s: ", k)
		switch gen.Int(g.rt, 6) {
		case 0:
			g.list("my_deps", ind+"    ")
		case 1:
			g.w("%s", g.pick("True", "VAR_A", "3", "{}", "[] + X"))
		default:
			g.w("%q", g.elem("my_deps"))
		}
		if multi {
			g.w(",")
			g.suffix()
		}
	}
	if multi {
		g.w("%s", ind)
	}
	g.w("}")
}

// attr writes one attribute (without trailing comma).
func (g *bg) attr(ind string, used map[string]bool) {
	var name string
	var val func()
	switch c := gen.Int(g.rt, 12); {
	case c < 6:
		name = g.pick(listAttrs...)
		val = func() { g.listValue(name, ind) }
	case c < 8:
		name = g.pick(wordAttrs...)
		val = func() { g.listValue(name, ind) }
	case c < 10:
		name = g.pick("testonly", "size", "main", "my_attr", "my_label", "shard_count", "toolchain", "cmd", "licenses", "my_bool")
		val = func() {
			switch name {
			case "testonly", "my_bool":
				g.w("%s", g.pick("True", "False", "1", "FLAG"))
			case "shard_count":
				g.w("%s", g.pick("3", "SHARDS"))
			case "main", "my_label", "toolchain":
				g.w("%q", g.elem("main"))
			case "licenses":
				g.w(`["notice"]`)
			default:
				g.w("%s", g.pick(`"small"`, `"//c:d"`, `"a b"`, "VAR_A", `"x" + "y"`, `"%s" % x`))
			}
		}
	case c < 11:
		name = g.pick("my_dict", "env", "substitutions")
		val = func() { g.dict(name, ind) }
	default:
		name = g.pick("my_size", "my_select")
		val = func() { g.w(`select({"//conf:a": "p", "//conditions:default": "q"})`) }
	}
	if used[name] {
		return
	}
	used[name] = true
	g.before(ind)
	g.w("%s%s = ", ind, name)
	val()
	g.w(",")
	g.suffix()
}

// rule writes one rule with the name.
func (g *bg) rule(name string) {
	kinds := g.kinds
	if kinds == nil {
		kinds = []string{"cc_library", "java_library", "my_rule", "genrule", "cc_test", "mod.rule"}
	}
	g.before("")
	g.w("%s(", g.pick(kinds...))
	if g.p(8) {
		g.w("name = %q)", name)
		g.suffix()
		return
	}
	g.w("\n")
	used := map[string]bool{"name": true}
	early := gen.Int(g.rt, 2)
	for i := 0; i < early && g.p(30); i++ {
		g.attr("    ", used)
	}
	g.before("    ")
	g.w("    name = %q,", name)
	g.suffix()
	for n := gen.Int(g.rt, 5); n > 0; n-- {
		g.attr("    ", used)
	}
	if g.p(4) {
		g.w("    **kwargs\n")
	}
	if g.comments && g.p(5) {
		g.w("    %s\n", g.comment())
	}
	g.w(")")
	g.suffix()
}

// file writes a whole BUILD file with the rules named.
func (g *bg) file(names ...string) string {
	g.names = names
	if g.comments && g.p(20) {
		g.w("%s\n\n", g.comment())
	}
	if g.p(10) {
		g.w("\"\"\"Doc.\"\"\"\n\n")
	}
	for n := gen.Int(g.rt, 3); n > 0; n-- {
		g.before("")
		g.w("load(%q, %q)", g.pick(":defs.bzl", "//t:d.bzl", "@r//p:q.bzl", "//a:z.bzl"), g.pick("my_rule", "x_rule", "VAR_B", "f"))
		g.suffix()
	}
	if g.p(40) {
		g.before("")
		g.w("package(default_visibility = [%q])", g.pick("//visibility:public", "//c:__pkg__"))
		g.suffix()
		g.w("\n")
	}
	for _, v := range []string{"VAR_A", "VAR_B"} {
		if g.p(30) && !g.noVars {
			g.before("")
			g.w("%s = ", v)
			g.listValue("deps", "")
			g.suffix()
			g.vars = append(g.vars, v)
			g.w("\n")
		}
	}
	for _, n := range names {
		g.other()
		if g.extraRule != nil && g.extraRule(g, n) {
			continue
		}
		g.rule(n)
		if g.p(80) {
			g.w("\n")
		}
	}
	g.other()
	if g.comments && g.p(15) {
		g.w("\n%s\n", g.comment())
	}
	return g.b.String()
}

// other may write a statement that is no plain rule.
func (g *bg) other() {
	if g.comments && g.p(8) {
		g.w("\n%s\n\n", g.comment())
	}
	if !g.p(12) {
		return
	}
	switch gen.Int(g.rt, 6) {
	case 0:
		g.w("exports_files([%q, %q])\n\n", g.pick("f.txt", "g.txt"), g.pick("h.txt", "i.txt"))
	case 1:
		g.w("[\n    my_rule(\n        name = \"gen_\" + n,\n        deps = [\":x\", %q],\n    )\n    for n in [\"p\", \"q\"]\n]\n\n", drawLabel(g.rt))
	case 2:
		g.w("helper(%q)\n\n", g.pick("u", "v"))
	case 3:
		g.w("licenses([\"notice\"])\n\n")
	case 4:
		g.w("CONST = %q + \"z\"\n\n", g.pick("u", "v"))
	default:
		g.w("filegroup(\n    name = NAME + \"_files\",\n    srcs = glob([\"**\"]),\n    deps = [%q],\n)\n\n", drawLabel(g.rt))
	}
}

// buildFile draws a BUILD file with 1..5 rules.
func buildFile(rt *rapid.T, set func(*bg)) (text string, names []string) {
	g := &bg{rt: rt, comments: gen.Pct(rt, 60)}
	if set != nil {
		set(g)
	}
	all := []string{"lib", "bin", "x", "t1", "y"}
	n := 1 + gen.Int(rt, 4)
	start := gen.Int(rt, len(all))
	for i := 0; i < n; i++ {
		names = append(names, all[(start+i)%len(all)])
	}
	return g.file(names...), names
}
