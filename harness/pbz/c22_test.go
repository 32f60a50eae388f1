package pbz

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// a call that is not part of another call
type callAt struct {
	call *build.CallExpr
	top  int // statement index if it is a statement itself, else -1
	name string
	kind string
	line int
}

// callsOf lists the calls of a file that are not nested in other calls, in order.
func callsOf(f *build.File, dir string) (r []callAt) {
	for i, s := range f.Stmt {
		var rec func(e build.Expr, top int)
		rec = func(e build.Expr, top int) {
			if call, ok := e.(*build.CallExpr); ok {
				x := callAt{call: call, top: top, kind: kindOf(call.X)}
				st, _ := call.X.Span()
				x.line = st.Line
				x.name = ruleOf(0, call).name
				if top >= 0 {
					x.name = nameOf(f, dir, top)
				}
				r = append(r, x)
				return
			}
			for _, y := range astx.Children(e) {
				rec(y, -1)
			}
		}
		rec(s, i)
	}
	return
}

// selectRules is the reference for target patterns; ok=false if there is no such target.
// A synthetic package declaration is returned as an entry without call.
func selectRules(f *build.File, dir, what string) (sel []callAt, ok bool) {
	all := callsOf(f, dir)
	if what == "__pkg__" {
		for _, x := range all {
			if x.top >= 0 && x.kind == "package" {
				return []callAt{x}, true
			}
		}
		return []callAt{{kind: "package"}}, true
	}
	for _, x := range all {
		if x.top >= 0 && x.name == what {
			return []callAt{x}, true
		}
	}
	for _, x := range all {
		if x.kind == "exports_files" && len(x.call.List) > 0 {
			for _, s := range plainLists(x.call.List[0]) {
				if norm(s, "") == norm(what, "") {
					return []callAt{x}, true
				}
			}
		}
	}
	if what == "all" || what == "*" {
		return all, true
	}
	if k, isPct := strings.CutPrefix(what, "%"); isPct {
		if n, err := strconv.Atoi(k); err == nil {
			for _, x := range all {
				if x.line == n && x.top >= 0 {
					return []callAt{x}, true
				}
				if x.line == n {
					sel = append(sel, x)
				}
			}
			return sel, len(sel) == 1 // else ambiguous
		}
		for _, x := range all {
			if x.kind == k {
				sel = append(sel, x)
			}
		}
		return sel, true
	}
	return nil, false
}

// plainLists lists the strings of the lists concatenated in a value.
func plainLists(e build.Expr) (r []string) {
	switch e := unparen(e).(type) {
	case *build.ListExpr:
		for _, x := range e.List {
			if s, ok := x.(*build.StringExpr); ok {
				r = append(r, s.Value)
			}
		}
	case *build.BinaryExpr:
		if e.Op == "+" {
			r = append(plainLists(e.X), plainLists(e.Y)...)
		}
	}
	return
}

// richFile draws a BUILD file with unusual rules and names.
func richFile(rt *rapid.T, dir string) string {
	text, _ := buildFile(rt, func(g *bg) {
		g.parens = true
		g.kinds = []string{"cc_library", "java_library", "my_rule", "mod.rule", "a.b.c", "cc_test"}
		g.extraRule = func(g *bg, n string) bool {
			switch gen.Int(g.rt, 12) {
			case 0: // may get the directory's name
				g.w("%s(srcs = [%q])\n\n", g.pick("cc_library", "my_rule"), n)
			case 1:
				g.w("[cc_library(name = %q + s, deps = [f(x = 1)]) for s in h(name = \"q\")]\n\n", n)
			case 2:
				g.w("v = my_rule(name = %q)\n\n", g.pick(n, "inner"))
			case 3:
				g.w("exports_files([%q, %q] + [%q], visibility = [\"//visibility:public\"])\n\n", n, g.pick("a.txt", "b.txt"), g.pick("c.txt", "all", "d/e.txt"))
			case 4:
				g.w("cc_library(name = %q)  # one line\n", g.pick(path.Base("/"+dir), "all", "dup", n))
			case 5:
				g.w("mod.rule(\n    name = %q,\n    x = cc_library(name = \"nested\"),\n)\n\n", n)
			case 6:
				g.w("cc_library(\n    deps = [],\n    name = %q, size = \"small\")\n\n", g.pick("dup", n, "all"))
			case 7:
				g.w("[\n    my_rule(deps = [])\n    for i in [1]\n    if i\n]\n\n")
			default:
				return false
			}
			return true
		}
	})
	return text
}

type field struct {
	Text   *string `json:"text"`
	Number *int    `json:"number"`
	Error  *string `json:"error"`
	List   *struct {
		Strings []string `json:"strings"`
	} `json:"list"`
	Quote bool `json:"quoteWhenPrinting"`
}

type output struct {
	Records []struct {
		Fields []field `json:"fields"`
	} `json:"records"`
}

func decode(c *vk.Case, s string) (o output) {
	if err := json.Unmarshal([]byte(s), &o); err != nil {
		c.Fail("output is not JSON: %v\n%s", err, s)
	}
	return
}

func (f field) String() string {
	switch {
	case f.Text != nil:
		return "text " + *f.Text
	case f.Number != nil:
		return fmt.Sprintf("number %d", *f.Number)
	case f.Error != nil:
		return "error " + *f.Error
	case f.List != nil:
		return fmt.Sprintf("list %q", f.List.Strings)
	}
	return "nothing"
}

func TestC22_Targets(t *testing.T) {
	w := newWS(t)
	dirs := []string{"", "a", "a/b", "a/b/c", "d", "d/e", "a/.b", "d/_e", "a/bazel-x/c.d", "d/testdata"}
	vk.Check(t, "generated trees of BUILD, BUILD.bazel files (rules of dotted kinds, in comprehensions and assignments, nested, one-line, unnamed, duplicate and special names, exports_files) x target patterns (name, package shorthand, kind, line, *, all, __pkg__, exported file, file path, '...') and -types filters; the rules printed, and the rules changed by set, are compared with an independent reading of the files. Non-trivial: some but not all rules selected", 60000, 500000, func(rt *rapid.T, c *vk.Case) {
		for _, d := range dirs {
			removeFile(w.path(d + "/BUILD"))
			removeFile(w.path(d + "/BUILD.bazel"))
		}
		type bf struct{ dir, file, text string }
		var files []bf
		n := 1 + gen.Int(rt, 3)
		start := gen.Int(rt, len(dirs))
		var in strings.Builder
		for i := 0; i < n; i++ {
			d := dirs[(start+i*(1+gen.Int(rt, 3)))%len(dirs)]
			f := bf{dir: d, file: gen.Pick(rt, "BUILD", "BUILD.bazel"), text: richFile(rt, d)}
			dup := false
			for _, x := range files {
				dup = dup || x.dir == d
			}
			if dup {
				continue
			}
			if gen.Pct(rt, 10) { // both names in a directory: BUILD.bazel counts
				f.file = "BUILD.bazel"
				w.put(path.Join(d, "BUILD"), "decoy(name = \"x\")\n")
			}
			files = append(files, f)
			w.put(path.Join(d, f.file), f.text)
			fmt.Fprintf(&in, "==== %s\n%s", path.Join(d, f.file), f.text)
		}
		c.Input(in.String())
		parsed := map[string]*build.File{}
		for _, f := range files {
			p := w.path(path.Join(f.dir, f.file))
			parsed[f.dir] = parseBuild(c, p, f.text)
		}
		at := files[gen.Int(rt, len(files))]
		all := callsOf(parsed[at.dir], at.dir)
		var what string
		switch gen.Int(rt, 8) {
		case 0:
			what = "%" + gen.Pick(rt, "cc_library", "java_library", "my_rule", "mod.rule", "a.b.c", "rule", "cc_test", "package", "exports_files")
		case 1:
			what = fmt.Sprintf("%%%d", 1+gen.Int(rt, 30))
			if len(all) > 0 && gen.Pct(rt, 80) {
				what = fmt.Sprintf("%%%d", all[gen.Int(rt, len(all))].line)
			}
		case 2, 3:
			what = gen.Pick(rt, "*", "all")
		case 4:
			what = gen.Pick(rt, "__pkg__", "a.txt", "c.txt", "missing", "f.txt", "d/e.txt", "dup", "b")
		default:
			what = gen.Pick(rt, "lib", "bin", "x", "b", "e")
			if len(all) > 0 {
				if x := all[gen.Int(rt, len(all))]; x.name != "" {
					what = x.name
				}
			}
		}
		target := "//" + at.dir + ":" + what
		on := []bf{at}
		switch {
		case gen.Pct(rt, 25): // all files below
			target = "//" + path.Join(at.dir, "...") + ":" + what
			on = nil
			for _, f := range files {
				if at.dir == "" || f.dir == at.dir || strings.HasPrefix(f.dir, at.dir+"/") {
					on = append(on, f)
				}
			}
			c.Label("ellipsis")
		case gen.Pct(rt, 8) && at.dir != "":
			target, what = "//"+at.dir, path.Base(at.dir)
		case gen.Pct(rt, 8):
			target, what = "//"+path.Join(at.dir, at.file), "__pkg__"
		case gen.Pct(rt, 5):
			target = "//" + path.Join(at.dir, at.file) + ":" + what
		}
		var types []string
		if gen.Pct(rt, 25) {
			for m := 1 + gen.Int(rt, 2); m > 0; m-- {
				types = append(types, gen.Pick(rt, "cc_library", "my_rule", "mod.rule", "rule", "package", "java_library"))
			}
		}
		mark := gen.Pct(rt, 40)
		c.Part("buildozer -types=%s %s (edit: %v)", strings.Join(types, ","), target, mark)
		wantErr, some, rest := false, false, false
		want := map[string][]string{} // by path
		for _, f := range on {
			sel, ok := selectRules(parsed[f.dir], f.dir, what)
			if !ok {
				wantErr = true
				continue
			}
			rest = rest || len(sel) < len(callsOf(parsed[f.dir], f.dir))
			p := w.path(path.Join(f.dir, f.file))
			for _, x := range sel {
				if len(types) > 0 && !contains(types, x.kind) {
					rest = true
					continue
				}
				some = true
				if mark {
					want[p] = append(want[p], fmt.Sprintf("%s %q", x.kind, ruleOf2(x)))
				} else {
					lab := "//" + f.dir + ":" + x.name
					if x.name == path.Base(f.dir) && f.dir != "" {
						lab = "//" + f.dir
					}
					l1, l2 := 0, 0
					if x.call != nil {
						l1, l2 = x.call.ListStart.Line, x.call.End.Pos.Line
					}
					_ = lab
					want[p] = append(want[p], fmt.Sprintf("%s %q %d-%d", x.kind, x.name, l1, l2))
				}
			}
		}
		got := map[string][]string{}
		if mark {
			before := map[string]string{}
			for _, f := range files {
				before[path.Join(f.dir, f.file)] = f.text
			}
			res := w.run(flags{types: types, keepGoing: true}, "set verif_mark 1", target)
			if (res.rc == 2) != wantErr {
				c.Fail("exit %d (stderr %q), expected an error: %v", res.rc, res.err, wantErr)
			}
			for _, f := range files {
				rel := path.Join(f.dir, f.file)
				p := w.path(rel)
				now := w.get(rel)
				if len(want[p]) == 0 && now != f.text && now != plain(c, p, f.text) {
					c.Fail("%s changed although nothing was selected in it:\n%s", rel, now)
				}
				for _, x := range callsOf(parseBuild(c, p, now), f.dir) {
					if ruleOf(0, x.call).attr("verif_mark") != nil {
						got[p] = append(got[p], fmt.Sprintf("%s %q", x.kind, ruleOf2(x)))
					}
				}
			}
			for _, d := range dirs {
				if d2 := w.get(path.Join(d, "BUILD")); strings.HasPrefix(d2, "decoy") && d2 != "decoy(name = \"x\")\n" {
					c.Fail("%s/BUILD was changed next to BUILD.bazel", d)
				}
			}
			// sorting may reorder statements' arguments but not statements
		} else {
			res := w.run(flags{types: types, json: true}, "print kind name startline endline path", target)
			if (res.rc == 2) != wantErr || !wantErr && res.rc != 0 {
				c.Fail("exit %d (stderr %q), expected an error: %v", res.rc, res.err, wantErr)
			}
			for _, r := range decode(c, res.out).Records {
				if len(r.Fields) != 5 {
					c.Fail("%d fields instead of 5: %s", len(r.Fields), res.out)
				}
				s := func(i int) string {
					if r.Fields[i].Text == nil {
						c.Fail("field %d is not a text: %s", i, res.out)
					}
					return *r.Fields[i].Text
				}
				nr := func(i int) int {
					if r.Fields[i].Number == nil {
						c.Fail("field %d is not a number: %s", i, res.out)
					}
					return *r.Fields[i].Number
				}
				got[s(4)] = append(got[s(4)], fmt.Sprintf("%s %q %d-%d", s(0), s(1), nr(2), nr(3)))
			}
			for _, f := range files {
				if w.get(path.Join(f.dir, f.file)) != f.text {
					c.Fail("print changed %s", path.Join(f.dir, f.file))
				}
			}
		}
		for _, f := range files {
			p := w.path(path.Join(f.dir, f.file))
			if fmt.Sprint(got[p]) != fmt.Sprint(want[p]) {
				c.Fail("%s: selected %q, expected %q", path.Join(f.dir, f.file), got[p], want[p])
			}
			delete(got, p)
		}
		if len(got) > 0 {
			c.Fail("records of other files: %v", got)
		}
		c.NonTrivial(some && rest)
		kind := "name"
		switch {
		case what == "__pkg__" || what == "*" || what == "all":
			kind = what
		case len(what) > 1 && what[0] == '%' && what[1] < 'A':
			kind = "line"
		case what[0] == '%':
			kind = "kind"
		}
		c.Label(kind)
		c.LabelIf(wantErr, "no such target")
		c.LabelIf(mark, "edit")
	})
}

// ruleOf2 identifies a call in the edited file: its explicit name or its arguments.
func ruleOf2(x callAt) string {
	if x.call == nil {
		return ""
	}
	return ruleOf(0, x.call).name
}

var _ = sort.Strings
var _ = os.Remove
var _ = filepath.Join
