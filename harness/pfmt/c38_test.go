package pfmt

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	buildpb "github.com/bazelbuild/buildtools/build_proto"
	"github.com/bazelbuild/buildtools/lang"
	"github.com/bazelbuild/buildtools/tables"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// defs is a model of the tables. Absent maps are empty.
type defs struct {
	label, denyLabel, list, sortable, denySort, allowSort map[string]bool
	prio                                                  map[string]int
	strip, rel                                            bool
}

func copyBool(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func copyInt(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// current reads the tables.
func current() defs {
	return defs{copyBool(tables.IsLabelArg), copyBool(tables.LabelDenylist), copyBool(tables.IsListArg), copyBool(tables.IsSortableListArg), copyBool(tables.SortableDenylist), copyBool(tables.SortableAllowlist), copyInt(tables.NamePriority), tables.StripLabelLeadingSlashes, tables.ShortenAbsoluteLabelsToRelative}
}

// install sets the tables.
func (d defs) install() {
	d = d.copy()
	tables.IsLabelArg, tables.LabelDenylist, tables.IsListArg, tables.IsSortableListArg, tables.SortableDenylist, tables.SortableAllowlist = d.label, d.denyLabel, d.list, d.sortable, d.denySort, d.allowSort
	tables.NamePriority, tables.StripLabelLeadingSlashes, tables.ShortenAbsoluteLabelsToRelative = d.prio, d.strip, d.rel
}

func (d defs) copy() defs {
	return defs{copyBool(d.label), copyBool(d.denyLabel), copyBool(d.list), copyBool(d.sortable), copyBool(d.denySort), copyBool(d.allowSort), copyInt(d.prio), d.strip, d.rel}
}

func (d defs) String() string {
	return fmt.Sprintf("%v", [9]any{d.label, d.denyLabel, d.list, d.sortable, d.denySort, d.allowSort, d.prio, d.strip, d.rel})
}

var defaultTables = current()

var tabAttrs = []string{"name", "srcs", "hdrs", "deps", "data", "tags", "copts", "visibility", "foo", "bar", "exports", "tools", "outs", "size", "labels", "main"}
var tabKinds = []string{"cc_library", "genrule", "foo", "x.y", "package", "java_library"}

// drawDefs draws a definitions file and the model of its contents. Fields may be absent.
func drawDefs(rt *rapid.T) (string, defs) {
	var parts []string
	key := func(rule int) string {
		k := gen.Pick(rt, tabAttrs...)
		if gen.Pct(rt, rule) {
			k = gen.Pick(rt, tabKinds...) + "." + k
		}
		return k
	}
	bools := func(field string, rule int) map[string]bool {
		r := map[string]bool{}
		if gen.Pct(rt, 30) {
			if gen.Pct(rt, 20) {
				parts = append(parts, fmt.Sprintf("%q: null", field))
			}
			return r
		}
		for n := gen.Int(rt, 8); n > 0; n-- {
			r[key(rule)] = gen.Pct(rt, 75)
		}
		b, _ := json.Marshal(r)
		parts = append(parts, fmt.Sprintf("%q: %s", field, b))
		return r
	}
	var d defs
	d.label = bools("IsLabelArg", 3)
	d.denyLabel = bools("LabelDenylist", 90)
	d.list = bools("IsListArg", 3)
	d.sortable = bools("IsSortableListArg", 3)
	d.denySort = bools("SortableDenylist", 90)
	d.allowSort = bools("SortableAllowlist", 90)
	d.prio = map[string]int{}
	if gen.Pct(rt, 70) {
		for n := gen.Int(rt, 8); n > 0; n-- {
			d.prio[key(40)] = gen.Int(rt, 9) - 4
		}
		b, _ := json.Marshal(d.prio)
		parts = append(parts, fmt.Sprintf("%q: %s", "NamePriority", b))
	}
	flag := func(field string) bool {
		if gen.Pct(rt, 70) {
			return false
		}
		v := gen.Pct(rt, 70)
		parts = append(parts, fmt.Sprintf("%q: %v", field, v))
		return v
	}
	d.strip = flag("StripLabelLeadingSlashes")
	d.rel = flag("ShortenAbsoluteLabelsToRelative")
	if gen.Pct(rt, 20) {
		parts = append(parts, `"i-am-an-unrelated-field": [1, {}]`)
	}
	// in any order
	for i := range parts {
		j := i + gen.Int(rt, len(parts)-i)
		parts[i], parts[j] = parts[j], parts[i]
	}
	return "{" + strings.Join(parts, gen.Pick(rt, ",", ",\n  ")) + "}", d
}

// apply is the documented effect of a definitions file on the tables.
func (t defs) apply(d defs, merge bool) defs {
	if !merge {
		return d.copy()
	}
	t = t.copy()
	for _, p := range [][2]map[string]bool{{t.label, d.label}, {t.denyLabel, d.denyLabel}, {t.list, d.list}, {t.sortable, d.sortable}, {t.denySort, d.denySort}, {t.allowSort, d.allowSort}} {
		for k, v := range p[1] {
			p[0][k] = v
		}
	}
	for k, v := range d.prio {
		t.prio[k] = v
	}
	t.strip = t.strip || d.strip
	t.rel = t.rel || d.rel
	return t
}

func useDefaults() {
	reset()
	defaultTables.install()
	modelDir = "."
}

// TestC38_Tables: loading definitions merges or replaces the tables, exactly.
func TestC38_Tables(t *testing.T) {
	dir := vk.Scratch(t)
	defer useDefaults()
	vk.Check(t, "sequences of 1..4 definitions files (any fields absent, null or unknown; malformed, of wrong types, or missing files) loaded in merge or replace mode, against a model of the nine tables; non-trivial: tables were merged and replaced", 10000, 800000, func(rt *rapid.T, c *vk.Case) {
		useDefaults()
		want := defaultTables.copy()
		modes := map[bool]bool{}
		for n := 1 + gen.Int(rt, 4); n > 0; n-- {
			text, d := drawDefs(rt)
			path := dir + "/t.json"
			bad := gen.Pct(rt, 15)
			if bad {
				switch gen.Int(rt, 5) {
				case 0:
					path = dir + "/missing.json"
				case 1:
					text = text[:gen.Int(rt, len(text))]
				case 2:
					text = "[" + text + "]"
				case 3:
					text = strings.TrimSuffix(text, "}")
					if text != "{" {
						text += ","
					}
					text += `"NamePriority": {"name": "x"}}`
				default:
					text = strings.TrimSuffix(text, "}")
					if text != "{" {
						text += ","
					}
					text += `"` + gen.Pick(rt, "IsListArg", "SortableAllowlist", "LabelDenylist") + `": ["a"]}`
				}
			}
			merge := gen.Pct(rt, 60)
			c.Part("merge %v, invalid %v: %s", merge, bad, text)
			if err := os.WriteFile(dir+"/t.json", []byte(text), 0o644); err != nil {
				t.Fatal(err)
			}
			err := tables.ParseAndUpdateJSONDefinitions(path, merge)
			if (err != nil) != bad {
				c.Fail("invalid: %v, error: %v", bad, err)
			}
			if !bad {
				want = want.apply(d, merge)
				modes[merge] = true
				got, err := tables.ParseJSONDefinitions(path)
				if err != nil {
					c.Fail("%v", err)
				}
				parsed := defs{copyBool(got.IsLabelArg), copyBool(got.LabelDenylist), copyBool(got.IsListArg), copyBool(got.IsSortableListArg), copyBool(got.SortableDenylist), copyBool(got.SortableAllowlist), copyInt(got.NamePriority), got.StripLabelLeadingSlashes, got.ShortenAbsoluteLabelsToRelative}
				if parsed.String() != d.String() {
					c.Fail("the file is read as\n%v\nwant\n%v", parsed, d)
				}
			}
			if got := current().String(); got != want.String() {
				c.Fail("the tables are\n%s\nwant\n%s", got, want)
			}
		}
		c.NonTrivial(len(modes) == 2)
	})
}

// tabFile draws a comment-free file on which the tables have an effect.
func tabFile(rt *rapid.T, pkg string) string {
	N := func(n int) int { return gen.Int(rt, n) }
	P := func(p int) bool { return gen.Pct(rt, p) }
	base := pkg[strings.LastIndexByte(pkg, '/')+1:]
	label := func() string {
		return `"` + gen.Pick(rt, "//"+pkg+":t", "//"+pkg+":"+base, "//"+pkg, pkg+":t", pkg+":"+base, pkg, "//"+pkg+"/sub:sub", "//"+pkg+"x:t", "//a/b:b", "//a:a", "a/b:b", "a:a", "//a:b", "a:b", "//:r", "//:b", "@r//:r", "@r//a:a", "@r//a:b", "@r", "@my-r//x:x", ":a", ":b", "a", "b.cc", "a.h", "-lm", "x y", "c") + `"`
	}
	list := func() string {
		var l []string
		for n := N(6); n > 0; n-- {
			s := label()
			if P(6) {
				s = gen.Pick(rt, "X", "f(1)", `"//a" + ":b"`, "1")
			}
			l = append(l, s)
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	var value func(d int) string
	value = func(d int) string {
		switch k := N(12); {
		case k < 6:
			return list()
		case k < 8:
			return label()
		case k == 8 && d < 2:
			return value(d+1) + " + " + value(d+1)
		case k == 9 && d < 2:
			return `select({"//c:d": ` + value(d+1) + `, "//conditions:default": ` + value(d+1) + "})"
		case k == 10:
			return gen.Pick(rt, "glob("+list()+")", "X", "None", "1", "f(srcs = "+list()+", deps = "+label()+")")
		}
		return list()
	}
	var b strings.Builder
	for n := 1 + N(4); n > 0; n-- {
		b.WriteString(gen.Pick(rt, tabKinds...) + "(\n")
		seen := map[string]bool{}
		for m := 1 + N(7); m > 0; m-- {
			a := gen.Pick(rt, tabAttrs...)
			if seen[a] {
				continue
			}
			seen[a] = true
			b.WriteString("    " + a + " = " + value(0) + ",\n")
		}
		if P(5) {
			b.WriteString("    **kw\n")
		}
		b.WriteString(")\n")
	}
	return b.String()
}

func drawTables(rt *rapid.T, c *vk.Case) (texts []string, merges []bool, want defs) {
	want = defaultTables.copy()
	k := 1 + gen.Int(rt, 2)
	for i := 0; i < k; i++ {
		text, d := drawDefs(rt)
		merge := gen.Pct(rt, 60)
		if k == 2 { // the order in which the flags are read
			merge = i == 1
		}
		texts, merges = append(texts, text), append(merges, merge)
		want = want.apply(d, merge)
		c.Part("merge %v: %s", merge, text)
	}
	return
}

// TestC38_Format: formatting follows the tables.
func TestC38_Format(t *testing.T) {
	dir := vk.Scratch(t)
	defer useDefaults()
	vk.Check(t, "random tables (default ones with one or two definitions files merged in or in their place) x comment-free BUILD, WORKSPACE and .bzl files of calls whose arguments are lists, concatenations and selects of labels in all spellings: the formatted file is what the reference model of the rewrites (as in C12) gives with the tables; non-trivial: it differs from what the default tables give", 20000, 1500000, func(rt *rapid.T, c *vk.Case) {
		useDefaults()
		texts, merges, want := drawTables(rt, c)
		typ := fileTypes[gen.Int(rt, len(fileTypes))]
		pkg := gen.Pick(rt, "foo/bar", "foo", "a.b/c")
		src := tabFile(rt, pkg)
		path := pkg + "/" + typ.name
		if gen.Pct(rt, 10) {
			path = typ.name
		}
		c.Input(src)
		c.Part("path %s", path)
		f0, err := typ.parse(path, []byte(src))
		if err != nil {
			c.Fail("does not parse: %v", err)
		}
		f1, _ := typ.parse(path, []byte(src))
		f2, _ := typ.parse(path, []byte(src))
		modelDir = filepath.Dir(path)
		on := func(s string) bool { return inScope(s, typ.typ) }
		plain := string(build.Format(f2))
		for i, text := range texts {
			if err := os.WriteFile(dir+"/t.json", []byte(text), 0o644); err != nil {
				t.Fatal(err)
			}
			if err := tables.ParseAndUpdateJSONDefinitions(dir+"/t.json", merges[i]); err != nil {
				c.Fail("%v", err)
			}
		}
		out := string(build.Format(f1))
		c.Part("output:\n%s", out)
		want.install()
		ref := model(astx.FromAST(f0), typ.typ, on, true).String()
		f3, err := typ.parse(path, []byte(out))
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		if got := canon(astx.FromAST(f3), on).String(); got != ref {
			c.Fail("the program differs from what the tables document:\n%s\nwant\n%s", got, ref)
		}
		c.NonTrivial(out != plain)
		c.LabelIf(want.strip, "strip")
		c.LabelIf(want.rel, "relative")
		c.Label(typ.name)
	})
}

// isList is the type that buildozer gives to a new attribute.
func (d defs) isList(attr string) bool {
	if v, ok := d.list[attr]; ok {
		return v
	}
	if d.sortable[attr] {
		return true
	}
	switch lang.TypeOf[attr] {
	case buildpb.Attribute_STRING_LIST, buildpb.Attribute_LABEL_LIST, buildpb.Attribute_OUTPUT_LIST, buildpb.Attribute_INTEGER_LIST, buildpb.Attribute_LICENSE, buildpb.Attribute_DISTRIBUTION_SET, buildpb.Attribute_FILESET_ENTRY_LIST:
		return true
	}
	return false
}

// TestC38_Command: the tools use the tables given on the command line, in the configuration, or above.
func TestC38_Command(t *testing.T) {
	bf, bz := vk.Bin(t, "buildifier"), vk.Bin(t, "buildozer")
	dir := vk.Scratch(t)
	defer useDefaults()
	vk.Check(t, "buildifier with -tables and -add_tables given as paths, as names to be found in a directory above, or in a configuration file, and buildozer with both flags and a command that creates an attribute (set) or a no-op: the file written is the one the library gives with the tables; broken and missing tables end the run with a message and no change; non-trivial: the tables make a difference", 700, 30000, func(rt *rapid.T, c *vk.Case) {
		useDefaults()
		texts, merges, want := drawTables(rt, c)
		pkg := gen.Pick(rt, "foo/bar", "foo")
		src := tabFile(rt, pkg)
		c.Input(src)
		ws, err := os.MkdirTemp(dir, "w")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(ws)
		put := func(name, text string) {
			if err := os.MkdirAll(filepath.Dir(filepath.Join(ws, name)), 0o755); err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(filepath.Join(ws, name), []byte(text), 0o644); err != nil {
				t.Fatal(err)
			}
		}
		put("WORKSPACE", "")
		put(pkg+"/BUILD", src)
		cwd := ws
		var args []string
		bad := ""
		if gen.Pct(rt, 12) {
			bad = gen.Pick(rt, "missing", "malformed", "type")
		}
		badAt := gen.Int(rt, len(texts))
		buildozer := gen.Pct(rt, 40)
		config := !buildozer && gen.Pct(rt, 30)
		conf := []string{}
		for i, text := range texts {
			name := fmt.Sprintf("t%d.json", i)
			if bad == "malformed" && i == badAt {
				text = text[:len(text)-1]
			} else if bad == "type" && i == badAt {
				text = `{"IsLabelArg": 1}`
			}
			if bad != "missing" || i != badAt {
				put(name, text)
			}
			if gen.Pct(rt, 40) || buildozer {
				name = filepath.Join(ws, name)
			} else if gen.Pct(rt, 50) {
				cwd = filepath.Join(ws, pkg) // tables are searched upwards
			}
			flag, key := "-tables", "tables"
			if merges[i] {
				flag, key = "-add_tables", "addTables"
			}
			if config {
				conf = append(conf, fmt.Sprintf("%q: %q", key, name))
			} else {
				args = append(args, flag+"="+name)
			}
		}
		// the order of the flags doesn't matter
		if len(args) == 2 && gen.Pct(rt, 50) {
			args[0], args[1] = args[1], args[0]
		}
		// labels are shortened relative to the directory of the file as it is given
		path := filepath.Join(ws, pkg, "BUILD")
		var cmd *exec.Cmd
		attr := gen.Pick(rt, tabAttrs[1:]...)
		if buildozer {
			target := "//" + pkg + ":%1"
			args = append(args, "-root_dir="+ws, "-shorten_labels=true")
			cmd = exec.Command(bz, append(args, "set "+attr+" zz", target)...)
			want.install()
		} else {
			if config {
				put(".buildifier.json", "{"+strings.Join(conf, ", ")+"}")
			} else {
				args = append(args, "-config=off")
			}
			if gen.Pct(rt, 30) {
				path = pkg + "/BUILD"
				args = append(args, "-path="+path)
				cmd = exec.Command(bf, args...)
				cmd.Stdin = strings.NewReader(src)
			} else {
				if cwd == ws && gen.Pct(rt, 70) {
					path = pkg + "/BUILD"
				}
				cmd = exec.Command(bf, append(args, path)...)
			}
		}
		cmd.Dir = cwd
		for _, s := range os.Environ() {
			if !strings.HasPrefix(s, "BUILDIFIER_") {
				cmd.Env = append(cmd.Env, s)
			}
		}
		c.Part("%q in %s", cmd.Args, cwd)
		var stderr strings.Builder
		cmd.Stderr = &stderr
		stdout, err := cmd.Output()
		rc := cmd.ProcessState.ExitCode()
		b, err2 := os.ReadFile(filepath.Join(ws, pkg, "BUILD"))
		if err2 != nil {
			t.Fatal(err2)
		}
		got := string(b)
		if bad != "" {
			if rc != 2 || stderr.Len() == 0 || got != src || len(stdout) > 0 {
				c.Fail("%s tables: exit %d, %v, %q, %q, file\n%s", bad, rc, err, stdout, stderr.String(), got)
			}
			c.Label("bad")
			return
		}
		if cmd.Stdin != nil {
			if got != src {
				c.Fail("the file has changed to\n%s", got)
			}
			got = string(stdout)
		}
		if rc != 0 {
			c.Fail("exit %d: %s", rc, stderr.String())
		}
		f, err := build.ParseBuild(path, []byte(src))
		if err != nil {
			t.Fatal(err)
		}
		if buildozer {
			r := f.Rules("")[0]
			var v build.Expr = &build.StringExpr{Value: "zz"}
			if want.isList(attr) {
				v = &build.ListExpr{List: []build.Expr{v}}
			} else if ty := lang.TypeOf[attr]; ty != buildpb.Attribute_STRING && ty != buildpb.Attribute_LABEL && ty != buildpb.Attribute_OUTPUT {
				v = &build.Ident{Name: "zz"}
			}
			r.SetAttr(attr, v)
		}
		plain, _ := build.ParseBuild(path, []byte(src))
		pt := string(build.Format(plain))
		want.install()
		if w := string(build.Format(f)); w != got {
			c.Fail("the file is\n%s\n--- with these tables it is\n%s", got, w)
		}
		c.NonTrivial(got != pt)
	})
}
