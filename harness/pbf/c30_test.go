package pbf

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// options of one layer: name -> value; a list for the flags that may be repeated.
type layer map[string]any

var stringOptions = []string{"type", "mode", "lint", "format", "warnings", "diffCommand", "path", "tables", "addTables"}
var boolOptions = []string{"diffMode", "recursive", "verbose", "multiDiff"}
var listOptions = []string{"buildifier_disable", "allowsort"}

var flagOf = map[string]string{"diffCommand": "diff_command", "addTables": "add_tables", "diffMode": "d", "recursive": "r", "verbose": "v", "multiDiff": "multi_diff"}

func flagName(o string) string {
	if f, ok := flagOf[o]; ok {
		return f
	}
	return o
}

func (l layer) args(rt *rapid.T) (r []string) {
	dash := func() string {
		if gen.Pct(rt, 30) {
			return "--"
		}
		return "-"
	}
	for _, o := range append(append(append([]string{}, stringOptions...), boolOptions...), listOptions...) {
		v, ok := l[o]
		if !ok {
			continue
		}
		f := flagName(o)
		switch v := v.(type) {
		case string:
			if gen.Pct(rt, 30) {
				r = append(r, dash()+f, v)
			} else {
				r = append(r, dash()+f+"="+v)
			}
		case bool:
			if v && gen.Pct(rt, 60) {
				r = append(r, dash()+f)
			} else {
				r = append(r, fmt.Sprintf("%s%s=%v", dash(), f, v))
			}
		case []string:
			for _, x := range v {
				r = append(r, dash()+f+"="+x)
			}
		}
	}
	return
}

func drawWarnings(rt *rapid.T) string {
	switch gen.Int(rt, 6) {
	case 0:
		return gen.Pick(rt, "all", "default", "")
	case 1, 2, 3:
		return someWarnings(rt, "", "")
	default:
		return someWarnings(rt, "+", "-")
	}
}

func someWarnings(rt *rapid.T, mods ...string) string {
	var xs []string
	for n := 1 + gen.Int(rt, 6); n > 0; n-- {
		w := warn.AllWarnings[gen.Int(rt, len(warn.AllWarnings))]
		if gen.Pct(rt, 25) {
			w = "unsorted-dict-items"
		}
		if gen.Pct(rt, 40) {
			w = gen.Pick(rt, "load", "unused-variable", "no-effect", "module-docstring", "integer-division", "duplicated-name", "constant-glob")
		}
		if !strings.Contains(","+strings.Join(xs, ",")+",", ","+w+",") { // not twice
			xs = append(xs, mods[gen.Int(rt, len(mods))]+w)
		}
	}
	return strings.Join(xs, ",")
}

// wantWarnings is the documented meaning of a list of warnings.
func wantWarnings(list string) (map[string]bool, bool) {
	set := map[string]bool{}
	switch list {
	case "", "default":
		for _, w := range warn.DefaultWarnings {
			set[w] = true
		}
		return set, true
	case "all":
		for _, w := range warn.AllWarnings {
			set[w] = true
		}
		return set, true
	}
	raw, mod := 0, 0
	items := strings.Split(list, ",")
	for _, w := range items {
		if strings.HasPrefix(w, "+") || strings.HasPrefix(w, "-") {
			mod++
		} else {
			raw++
		}
	}
	if raw > 0 && mod > 0 {
		return nil, false
	}
	if mod > 0 {
		for _, w := range warn.DefaultWarnings {
			set[w] = true
		}
		for _, w := range items {
			if w[0] == '-' {
				delete(set, w[1:])
			}
		}
		for _, w := range items {
			if w[0] == '+' {
				set[w[1:]] = true
			}
		}
		return set, true
	}
	for _, w := range items {
		set[w] = true
	}
	return set, true
}

func keysOf(m map[string]bool) (r []string) {
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	return sorted(r)
}

func drawLayer(rt *rapid.T, sane bool) layer {
	l := layer{}
	some := func(o string, pct int, vals ...string) {
		if gen.Pct(rt, pct) {
			l[o] = gen.Pick(rt, vals...)
		}
	}
	some("type", 30, "build", "bzl", "workspace", "default", "module", "auto")
	some("mode", 50, "check", "check", "check", "diff", "fix", "print_if_changed")
	some("lint", 40, "off", "warn", "warn", "fix")
	some("format", 20, "text", "json")
	if gen.Pct(rt, 40) {
		l["warnings"] = drawWarnings(rt)
	}
	some("diffCommand", 20, "cat", "echo")
	some("path", 12, "BUILD", "x.bzl", "p/BUILD.bazel", "")
	for _, o := range boolOptions {
		if gen.Pct(rt, 15) {
			l[o] = gen.Pct(rt, 65)
		}
	}
	if gen.Pct(rt, 15) {
		l["buildifier_disable"] = []string{gen.Pick(rt, "listsort", "label", "callsort", "loadsort"), gen.Pick(rt, "listsort", "multiplus")}[:1+gen.Int(rt, 2)]
	}
	if gen.Pct(rt, 10) {
		l["allowsort"] = []string{gen.Pick(rt, "my_rule.other", "foo.deps")}
	}
	if !sane {
		some("type", 8, "BUILD", "", "starlark", "auto ")
		some("mode", 8, "Check", "pipe", "checks", "fix ")
		some("lint", 8, "on", "warn,fix", "Warn")
		some("format", 8, "JSON", "xml", "yaml")
		if gen.Pct(rt, 10) {
			l["warnings"] = someWarnings(rt, "", "+", "-")
		}
		some("tables", 6, "missing.json", "broken.json")
		some("addTables", 6, "missing.json", "broken.json")
	}
	some("tables", 10, "tables.json", "../up.json")
	some("addTables", 10, "tables.json", "up.json")
	return l
}

// merge applies the layer over the other.
func merge(lo, hi layer) layer {
	r := layer{}
	for k, v := range lo {
		r[k] = v
	}
	for k, v := range hi {
		if xs, ok := v.([]string); ok {
			old, _ := r[k].([]string)
			r[k] = append(append([]string{}, old...), xs...)
		} else {
			r[k] = v
		}
	}
	return r
}

// verdict decides whether the options are valid for so many files.
func (l layer) verdict(nargs int) (invalid string) {
	str := func(o string) string { s, _ := l[o].(string); return s }
	in := func(s string, xs ...string) bool {
		for _, x := range xs {
			if x == s {
				return true
			}
		}
		return false
	}
	if t, ok := l["type"]; ok && !in(t.(string), "build", "bzl", "workspace", "default", "module", "auto") {
		return "type"
	}
	d, _ := l["diffMode"].(bool)
	mode := str("mode")
	if f := str("format"); f != "" && (!in(f, "text", "json") || mode != "check") {
		return "format"
	}
	if d && mode != "" {
		return "-d with -mode"
	}
	if d {
		mode = "diff"
	}
	if !in(mode, "", "check", "diff", "fix", "print_if_changed") {
		return "mode"
	}
	if !in(str("lint"), "", "off", "warn", "fix") || str("lint") == "fix" && mode != "" && mode != "fix" {
		return "lint"
	}
	if nargs > 1 && (str("path") != "" || mode == "print_if_changed") {
		return "several files"
	}
	for _, o := range []string{"tables", "addTables"} {
		if in(str(o), "missing.json", "broken.json") {
			return o
		}
	}
	if _, ok := wantWarnings(str("warnings")); !ok {
		return "warnings"
	}
	return ""
}

const tablesText = `{"IsLabelArg": {"deps": true, "srcs": true, "mylabels": true}, "IsSortableListArg": {"deps": true, "srcs": true, "mylist": true}, "NamePriority": {"name": -99, "zz": -50, "deps": 4}}`

// several categories of findings
const lintText = `load(":x.bzl", "foo", "unused")
load(":y.bzl", "y")

def f(x, z):
    v = 1
    if z:
        return 2 / 3
    "text"
    foo(b = 1, *x)

def g():
    return {"b": 1, "a": 2}
    foo(1)
`

func TestC30_CLI(t *testing.T) {
	d := newDir(t)
	vk.Check(t, "random options in a configuration file (nearest .buildifier.json, -config, BUILDIFIER_CONFIG) and in flags: the run has the outcome (exit code, output, messages, files) of the same run with all options given as flags and -config=off; options decided to be invalid by a model exit 2 with a message and nothing written. Non-trivial: valid options in both layers, at least one of them in both", 4000, 100000, func(rt *rapid.T, c *vk.Case) {
		d.env = nil
		texts := map[string]string{"w/d/BUILD": "", "w/d/x.bzl": lintText, "w/d/e/BUILD": "cc_library(deps=['b','a'],name='x')\n"}
		texts["w/d/BUILD"] = draw(rt, "BUILD")
		if _, err := formatted("", "BUILD", texts["w/d/BUILD"]); err != nil {
			texts["w/d/BUILD"] = "x = 1\n"
		}
		if gen.Pct(rt, 50) {
			texts["w/d/BUILD"] += "\nmy_rule(name='x', zz=1, other=['b','a'], mylist=['b','a'], mylabels=['//a:a'], deps=['z','//b:b','a'])\n"
		}
		sane := gen.Pct(rt, 75)
		conf, flags := drawLayer(rt, sane), drawLayer(rt, sane)
		list := ""
		delete(conf, "path")
		if gen.Pct(rt, 15) { // a list instead of a string
			if _, ok := flags["warnings"]; !ok {
				delete(conf, "warnings")
				list = someWarnings(rt, "")
			}
		}
		for k := range conf {
			if s, ok := conf[k].(string); ok && s == "" && (k == "type" || k == "path") {
				delete(conf, k)
			}
		}
		all := merge(conf, flags)
		if list != "" {
			all["warnings"] = list
		}
		files := []string{"BUILD", "x.bzl", "e/BUILD"}[:1+gen.Int(rt, 3)]
		if r, _ := all["recursive"].(bool); r && gen.Pct(rt, 50) {
			files = []string{"."}
		}
		stdin := gen.Pct(rt, 20)
		if stdin {
			files = nil
		}
		bad := all.verdict(len(files))

		js := map[string]any{}
		for k, v := range conf {
			js[k] = v
		}
		if list != "" {
			js["warningsList"] = strings.Split(list, ",")
		}
		jt, _ := json.MarshalIndent(js, "", "  ")
		how := gen.Pick(rt, "same", "parent", "flag", "env", "envrel")
		a1 := append(flags.args(rt), files...)
		a2 := append(append(all.args(rt), "-config=off"), files...)
		c.Input(texts["w/d/BUILD"])
		c.Part("config (%s): %s\nflags: buildifier %q\nall flags: buildifier %q\nstdin: %v, expected invalid: %q", how, jt, a1, a2, stdin, bad)
		reset := func() {
			d.clear()
			d.put("w/WORKSPACE", "")
			for f, tx := range texts {
				d.put(f, tx)
			}
			d.put("w/d/tables.json", tablesText)
			d.put("w/up.json", tablesText)
			d.put("w/d/broken.json", `{"IsLabelArg": [`)
			for f := range texts {
				d.age(f)
			}
		}
		wd := d.dir
		in := ""
		if stdin {
			in = texts["w/d/BUILD"]
		}
		run := func(args []string) (result, string) {
			d.dir = wd + "/w/d"
			res := d.run(in, args...)
			d.dir = wd
			st := ""
			for _, f := range []string{"w/d/BUILD", "w/d/x.bzl", "w/d/e/BUILD"} {
				st += fmt.Sprintf("==== %s %v\n%s", f, d.touched(f), d.get(f))
			}
			return res, st
		}
		reset()
		initial := ""
		for _, f := range []string{"w/d/BUILD", "w/d/x.bzl", "w/d/e/BUILD"} {
			initial += fmt.Sprintf("==== %s false\n%s", f, texts[f])
		}
		switch how {
		case "same":
			d.put("w/d/.buildifier.json", string(jt))
			d.put("w/.buildifier.json", `{"mode": "wrong"}`)
		case "parent":
			d.put("w/.buildifier.json", string(jt))
		case "flag":
			d.put("conf.json", string(jt))
			d.put("w/d/.buildifier.json", `{"mode": "wrong"}`)
			a1 = append([]string{"-config=../../conf.json"}, a1...)
		case "env":
			d.put("conf.json", string(jt))
			d.put("w/d/.buildifier.json", `{"mode": "wrong"}`)
			d.env = []string{"BUILDIFIER_CONFIG=" + d.path("conf.json")}
		case "envrel":
			d.put("w/conf.json", string(jt))
			d.env = []string{"BUILDIFIER_CONFIG=../conf.json"}
		}
		r1, s1 := run(a1)
		d.env = nil
		reset()
		d.put("w/d/.buildifier.json", `{"mode": "wrong"}`)
		r2, s2 := run(a2)
		c.Evals(2)
		tmp := func(s string) string { // names and times of temporary files
			ls := strings.Split(s, "\n")
			for i, l := range ls {
				if j := strings.Index(l, d.tmp+"/buildifier-tmp-"); j >= 0 {
					ls[i] = ""
					for _, w := range strings.Fields(l) {
						if strings.HasPrefix(w, d.tmp) {
							ls[i] += " TMP"
						} else if !strings.HasPrefix(l, "+++") && !strings.HasPrefix(l, "---") {
							ls[i] += " " + w
						}
					}
				}
			}
			return strings.Join(ls, "\n")
		}
		if r1.rc != r2.rc || tmp(r1.out) != tmp(r2.out) || tmp(r1.err) != tmp(r2.err) || s1 != s2 {
			c.Fail("with the configuration: %v\n%s\nwith flags only: %v\n%s", r1, s1, r2, s2)
		}
		if bad != "" {
			if r1.rc != 2 || r1.err == "" || r1.out != "" || s1 != initial {
				c.Fail("invalid %s: exit %d %q %q\n%s", bad, r1.rc, r1.out, r1.err, s1)
			}
			c.Label("invalid " + bad)
			return
		}
		if m, _ := all["multiDiff"].(bool); r1.rc != 0 && r1.rc != 4 && !m {
			c.Fail("valid options: exit %d %q", r1.rc, r1.err)
		}
		both := false
		for k := range conf {
			if v, ok := flags[k]; ok && !reflect.DeepEqual(v, conf[k]) {
				both = true
			}
		}
		c.NonTrivial(both)
		c.Label("config " + how)
	})
}

func TestC30_Config(t *testing.T) {
	vk.Check(t, "random configurations and flags in process: loading, flags, validation give the expected fields and the documented set of warnings without repetitions; a configuration printed and loaded again is the same. Non-trivial: at least four options", 40000, 2000000, func(rt *rapid.T, c *vk.Case) {
		conf, flags := drawLayer(rt, true), drawLayer(rt, gen.Pct(rt, 80))
		for _, l := range []layer{conf, flags} {
			delete(l, "tables")
			delete(l, "addTables")
		}
		js, _ := json.Marshal(conf)
		args := append(flags.args(rt), []string{"a", "b"}[:gen.Int(rt, 3)]...)
		c.Input(string(js))
		c.Part("%q", args)
		c.NonTrivial(len(conf)+len(flags) >= 4)
		k := config.New()
		parse := func() []string {
			fs := k.FlagSet("x", flag.ContinueOnError)
			fs.SetOutput(io.Discard)
			if err := fs.Parse(args); err != nil {
				c.Fail("flags: %v", err)
			}
			return fs.Args()
		}
		if err := k.LoadReader(strings.NewReader(string(js))); err != nil {
			c.Fail("load: %v", err)
		}
		rest := parse()
		all := merge(conf, flags)
		str := func(o string) string { s, _ := all[o].(string); return s }
		typ := "auto"
		if s, ok := all["type"].(string); ok {
			typ = s
		}
		b := func(o string) bool { x, _ := all[o].(bool); return x }
		l := func(o string) config.ArrayFlags { x, _ := all[o].([]string); return x }
		want := &config.Config{InputType: typ, Format: str("format"), Mode: str("mode"), DiffMode: b("diffMode"), Lint: str("lint"), Warnings: str("warnings"), Recursive: b("recursive"), Verbose: b("verbose"), DiffCommand: str("diffCommand"), MultiDiff: b("multiDiff"), WorkspaceRelativePath: str("path"), DisableRewrites: l("buildifier_disable"), AllowSort: l("allowsort")}
		if !reflect.DeepEqual(k, want) {
			c.Fail("got\n%+v\nexpected\n%+v", k, want)
		}
		// print and load again
		k2 := config.New()
		if typ == "" {
			k2.InputType = ""
		}
		if err := k2.LoadReader(strings.NewReader(k.String())); err != nil || !reflect.DeepEqual(k, k2) {
			c.Fail("printed as\n%s\nloaded as\n%+v (%v)\nwas\n%+v", k, k2, err, k)
		}
		bad := all.verdict(len(rest))
		err := k.Validate(rest)
		if (err != nil) != (bad != "") {
			c.Fail("validation: %v, expected invalid: %q", err, bad)
		}
		if err != nil {
			c.Label("invalid " + bad)
			return
		}
		mode, lint := str("mode"), str("lint")
		if b("diffMode") {
			mode = "diff"
		}
		if mode == "" {
			mode = "fix"
		}
		if lint == "" {
			lint = "off"
		}
		if k.Mode != mode || k.Lint != lint {
			c.Fail("mode %q lint %q, expected %q %q", k.Mode, k.Lint, mode, lint)
		}
		set, _ := wantWarnings(str("warnings"))
		ws := keysOf(set)
		if fmt.Sprint(uniq(k.LintWarnings)) != fmt.Sprint(ws) {
			c.Fail("warnings %q\nexpected %q", k.LintWarnings, ws)
		}
		if strings.Contains(str("warnings"), "+") && len(k.LintWarnings) != len(ws) {
			c.Fail("repeated warnings: %q", k.LintWarnings)
		}
		d := config.New()
		if x := config.Example(); x.Validate(nil) != nil || d.Validate(nil) != nil {
			c.Fail("the default configuration is invalid")
		}
	})
}

func uniq(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return keysOf(m)
}

func TestC30_Warnings(t *testing.T) {
	d := newDir(t)
	vk.Check(t, "a .bzl and a BUILD file with findings of many categories x random lists of warnings: the categories reported are those found with all warnings that the list selects. Non-trivial: some finding is dropped and some is kept", 2500, 60000, func(rt *rapid.T, c *vk.Case) {
		d.clear()
		d.put("WORKSPACE", "")
		name := gen.Pick(rt, "x.bzl", "BUILD")
		tx := lintText + draw(rt, name)
		if _, err := formatted("", name, tx); err != nil {
			tx = lintText
		}
		d.put(name, tx)
		list := drawWarnings(rt)
		c.Input(tx)
		c.Part("-warnings=%s %s", list, name)
		report := func(w string) []string {
			res := d.run("", "-lint=warn", "-mode=check", "-format=json", "-warnings="+w, name)
			dg := decode(c, res.out)
			var r []string
			for _, x := range dg.Files[0].Warnings {
				r = append(r, fmt.Sprintf("%s %v %v %s", x.Category, x.Start, x.End, x.Message))
			}
			return r
		}
		set, _ := wantWarnings(list)
		got, all := report(list), report("all")
		var want []string
		for _, x := range all {
			if set[strings.Fields(x)[0]] {
				want = append(want, x)
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("reported\n%s\nexpected\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		c.NonTrivial(len(want) > 0 && len(want) < len(all))
		if gen.Pct(rt, 20) { // an unknown category
			d.put("first.bzl", "x=1\n")
			d.age(name)
			d.age("first.bzl")
			bad := gen.Pick(rt, "nosuch", "load,no-such-category", "+nosuch", "unused_variable", "Load")
			mode := gen.Pick(rt, "-lint=fix", "-lint=warn")
			res := d.run("", mode, "-warnings="+bad, "first.bzl", name)
			if res.rc == 0 || !strings.Contains(res.err, "arning") || d.touched("first.bzl") || d.touched(name) {
				c.Fail("%s -warnings=%s: exit %d %q %q, written: %v", mode, bad, res.rc, res.out, res.err, d.touched(name))
			}
		}
	})
}
