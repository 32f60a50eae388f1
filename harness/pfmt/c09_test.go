package pfmt

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

var loadModules = []string{"//a:a.bzl", "//a:b.bzl", "//a/b:c.bzl", "//a-b:c.bzl", "//A:a.bzl", "//A/b:c.bzl", "//:d.bzl", "//b:sub/x.bzl", "//b:sub.bzl", ":e.bzl", ":f.bzl", ":sub/g.bzl", "h.bzl", "@r//a:a.bzl", "@r//:a.bzl", "@s//x:y.bzl", "@rules_cc//cc:defs.bzl", "@r", "//a:A.bzl", "//a", "//z/y", "//a:a/b.bzl", "@R//a:a.bzl", "//B:x.bzl"}

type sload struct {
	module string
	syms   [][2]string // local name, symbol
	same   bool        // carries disable=same-origin-load
}

// one statement of the generated file
type sitem struct {
	load *sload
	id   string // text identifying another statement
	kind string // "other", "head" (docstring, workspace()) or "block" (comment block)
	text string
}

func drawLoads(rt *rapid.T, opt bool) (items []sitem, optTop, optOrder, dupOK bool) {
	nc := 0
	cm := func() string { nc++; return fmt.Sprintf("# c%d", nc) }
	// every local name belongs to one module unless it is repeated within it
	next := 0
	names := map[string][]string{}
	dupOK = true
	n := gen.Int(rt, 9)
	if gen.Pct(rt, 5) {
		n = 16 + gen.Int(rt, 20)
	}
	pool := loadModules
	if gen.Pct(rt, 50) {
		i := gen.Int(rt, len(loadModules)-4)
		pool = loadModules[i : i+4]
	}
	started := false
	for ; n > 0; n-- {
		k := gen.Int(rt, 10)
		switch {
		case k < 6:
			l := &sload{module: pool[gen.Int(rt, len(pool))]}
			for j := gen.Int(rt, 4); j >= 0; j-- {
				var local string
				if old := names[l.module]; len(old) > 0 && gen.Pct(rt, 25) {
					local = old[gen.Int(rt, len(old))]
				} else {
					next++
					local = gen.Pick(rt, "a", "b", "B", "_c", "zz", "x", "é") + fmt.Sprint(next*7%10) + "_" + fmt.Sprint(next)
					names[l.module] = append(names[l.module], local)
				}
				sym := local
				if gen.Pct(rt, 35) {
					sym = gen.Pick(rt, "a", "b", "C", "lib", "s9")
				}
				l.syms = append(l.syms, [2]string{local, sym})
			}
			var b strings.Builder
			if gen.Pct(rt, 15) {
				b.WriteString(cm() + "\n")
			}
			if opt && gen.Pct(rt, 8) {
				l.same = true
				dupOK = false
				b.WriteString("# buildifier: disable=same-origin-load\n")
			}
			b.WriteString("load(")
			brk := func() { b.WriteString(gen.Pick(rt, "", " ", "\n    ")) }
			brk()
			b.WriteString(`"` + l.module + `"`)
			for _, s := range l.syms {
				b.WriteString(",")
				brk()
				if gen.Pct(rt, 7) {
					b.WriteString("\n    " + cm() + "\n    ")
				}
				if s[0] != s[1] || gen.Pct(rt, 8) {
					b.WriteString(s[0] + " = ")
				}
				b.WriteString(`"` + s[1] + `"`)
			}
			if gen.Pct(rt, 20) {
				b.WriteString(",")
			}
			if gen.Pct(rt, 10) {
				b.WriteString("  " + cm() + "\n")
			}
			b.WriteString(")")
			if opt && gen.Pct(rt, 4) && !l.same {
				l.same = true
				dupOK = false
				b.WriteString("  # buildozer: disable=same-origin-load")
			}
			b.WriteString("\n")
			items = append(items, sitem{load: l, text: b.String()})
		case k == 6:
			c := cm()
			if opt && gen.Pct(rt, 15) {
				if gen.Pct(rt, 50) {
					c += " buildifier: disable=load-on-top"
					optTop = true
				} else {
					c += " buildifier: disable=out-of-order-load"
					optOrder = true
				}
			}
			items = append(items, sitem{kind: "block", id: c, text: "\n" + c + "\n\n"})
		case k == 7 && gen.Pct(rt, 60):
			id := fmt.Sprintf("doc %d", n)
			t := fmt.Sprintf("\"%s\"\n", id)
			if gen.Pct(rt, 40) {
				id = fmt.Sprintf("workspace(name = \"w%d\")", n)
				t = id + "\n"
			}
			items = append(items, sitem{kind: "head", id: id, text: t})
		default:
			started = true
			id := fmt.Sprintf("s%d", n)
			t := gen.Pick(rt, id+" = 1\n", "cc_library(name = \""+id+"\")\n", "def "+id+"():\n    pass\n", "if x:\n    "+id+"()\n", "[f(\""+id+"\") for x in y]\n", id+" += 1\n")
			if opt && gen.Pct(rt, 8) {
				w := gen.Pick(rt, "load-on-top", "out-of-order-load")
				if w == "load-on-top" {
					optTop = true
				} else {
					optOrder = true
				}
				w = "# buildifier: disable=" + w
				t = gen.Pick(rt, "f(\n    "+id+",\n    "+w+"\n)\n", "x = [\n    "+id+",  "+w+"\n]\n", "x = {\n    "+w+"\n    "+id+": 1,\n}\n", "x = {\n    "+id+": 1,\n    "+w+"\n}\n", "def "+id+"():\n    "+w+"\n    pass\n", "x = (\n    "+id+"\n    "+w+"\n)\n", "if "+id+":\n    pass\n\n    "+w+"\n")
			} else if gen.Pct(rt, 20) {
				c := cm()
				if opt && gen.Pct(rt, 15) {
					c += gen.Pick(rt, " buildifier: disable=load-on-top", " buildozer: disable=load-on-top, x")
					optTop = true
				}
				if gen.Pct(rt, 50) {
					t = c + "\n" + t
				} else {
					t = strings.Replace(t, "\n", "  "+c+"\n", 1)
				}
			}
			if gen.Pct(rt, 30) {
				t = "\n" + t
			}
			items = append(items, sitem{kind: "other", id: id, text: t})
		}
	}
	_ = started
	return
}

// modelItems is what the enabled load rewrites make of the statements.
func modelItems(items []sitem, typ build.FileType, on func(string) bool, optTop, optOrder bool) []sitem {
	if on("loadTop") && typ != build.TypeWorkspace && !optTop {
		i := 0
		for i < len(items) && items[i].kind != "other" {
			i++
		}
		out := append([]sitem{}, items[:i]...)
		for _, s := range items[i:] {
			if s.load != nil {
				out = append(out, s)
			}
		}
		for _, s := range items[i:] {
			if s.load == nil {
				out = append(out, s)
			}
		}
		items = out
	}
	if on("sameOriginLoad") {
		first := map[string]*sload{}
		var out []sitem
		for _, s := range items {
			if s.load != nil {
				p := first[s.load.module]
				if p != nil && !p.same && !s.load.same {
					p.syms = append(p.syms, s.load.syms...)
					continue
				}
				c := *s.load
				s.load = &c
				if p == nil {
					first[c.module] = s.load
				}
			}
			out = append(out, s)
		}
		items = out
	}
	if on("sortLoadStatements") && !optOrder {
		items = append([]sitem{}, items...)
		for i := 0; i < len(items); {
			j := i
			for j < len(items) && items[j].load != nil {
				j++
			}
			run := items[i:j]
			sort.SliceStable(run, func(a, b int) bool { return moduleLess(run[a].load.module, run[b].load.module) })
			i = j + 1
		}
	}
	if on("loadsort") {
		for k, s := range items {
			if s.load == nil {
				continue
			}
			last := map[string]int{}
			for i, y := range s.load.syms {
				last[y[0]] = i
			}
			var out [][2]string
			for i, y := range s.load.syms {
				if last[y[0]] == i {
					out = append(out, y)
				}
			}
			sort.SliceStable(out, func(i, j int) bool {
				a, b := out[i], out[j]
				if x, y := a[0] == a[1], b[0] == b[1]; x != y {
					return x
				}
				return a[0] < b[0]
			})
			c := *s.load
			c.syms = out
			items[k].load = &c
		}
	}
	return items
}

func showItems(items []sitem) string {
	var b strings.Builder
	for _, s := range items {
		if s.load != nil {
			fmt.Fprintf(&b, "load %s %v\n", s.load.module, s.load.syms)
		} else {
			b.WriteString(s.id + "\n")
		}
	}
	return b.String()
}

// readItems reads the statements of a formatted file back.
func readItems(f *build.File, want []sitem) (res []sitem) {
	var r []sitem
	for _, c := range f.Before {
		r = append(r, sitem{id: c.Token})
	}
	defer func() {
		for _, c := range f.After {
			r = append(r, sitem{id: c.Token})
		}
		res = r
	}()
	for _, st := range f.Stmt {
		switch x := st.(type) {
		case *build.LoadStmt:
			l := &sload{module: x.Module.Value}
			for i := range x.To {
				l.syms = append(l.syms, [2]string{x.To[i].Name, x.From[i].Name})
			}
			r = append(r, sitem{load: l})
		case *build.CommentBlock:
			for _, c := range append(append([]build.Comment{}, x.Before...), x.After...) {
				r = append(r, sitem{id: c.Token})
			}
		default:
			txt := build.FormatString(st)
			id := "?" + txt
			for _, w := range want {
				if w.id != "" && w.kind != "block" && hasWord(txt, w.id) {
					id = w.id
				}
			}
			r = append(r, sitem{id: id})
		}
	}
	return r
}

func hasWord(s, w string) bool {
	for i := 0; ; {
		k := strings.Index(s[i:], w)
		if k < 0 {
			return false
		}
		k += i
		ok := func(c byte) bool { return !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z') }
		if (k == 0 || ok(s[k-1])) && (k+len(w) == len(s) || ok(s[k+len(w)])) {
			return true
		}
		i = k + 1
	}
}

func bindings(items []sitem) map[string]string {
	m := map[string]string{}
	for _, s := range items {
		if s.load != nil {
			for _, y := range s.load.syms {
				m[y[0]] = s.load.module + " " + y[1]
			}
		}
	}
	return m
}

// TestC09_Loads: what is bound, where loads end up and in which order, and the opt-outs.
func TestC09_Loads(t *testing.T) {
	vk.Check(t, "files of loads (24 module shapes, aliases, repeated symbols, comments), other statements, docstrings, workspace() and comment blocks in drawn order, with opt-out comments, for the 5 file types and drawn sets of enabled load rewrites; non-trivial: the reference model changes the statement or symbol order", 150000, 6000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		items, optTop, optOrder, dupOK := drawLoads(rt, gen.Pct(rt, 35))
		if !dupOK {
			seen := map[string]bool{}
			for _, s := range items {
				if s.load != nil {
					for _, y := range s.load.syms {
						if seen[y[0]] {
							c.Skip("repeated symbol next to a same-origin opt-out")
						}
						seen[y[0]] = true
					}
				}
			}
		}
		var b strings.Builder
		prev := ""
		for _, s := range items {
			if prev == "block" && strings.HasPrefix(s.text, "\n#") {
				b.WriteString(strings.TrimPrefix(s.text, "\n"))
			} else {
				b.WriteString(s.text)
			}
			prev = s.kind
		}
		c.Input(b.String())
		f, err := typ.parse(typ.name, []byte(b.String()))
		if err != nil {
			c.Fail("does not parse: %v", err)
		}
		on := func(string) bool { return true }
		switch gen.Int(rt, 4) {
		case 0:
			for _, n := range []string{"loadTop", "sameOriginLoad", "sortLoadStatements", "loadsort"} {
				if gen.Pct(rt, 40) {
					build.DisableRewrites = append(build.DisableRewrites, n)
				}
			}
			defer func() { build.DisableRewrites = nil }()
			dis := map[string]bool{}
			for _, n := range build.DisableRewrites {
				dis[n] = true
			}
			on = func(s string) bool { return !dis[s] }
		}
		want := modelItems(items, typ.typ, on, optTop, optOrder)
		out := build.Format(f)
		c.Part("type %s disabled %v", typ.name, build.DisableRewrites)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		got := readItems(f2, want)
		x, y := bindings(items), bindings(got)
		for k, v := range x {
			if y[k] != v {
				c.Fail("%s was %s, is %q", k, v, y[k])
			}
		}
		if len(x) != len(y) {
			c.Fail("loaded names were %v, are %v", x, y)
		}
		if showItems(got) != showItems(want) {
			c.Fail("statements are\n%s\nwant\n%s", showItems(got), showItems(want))
		}
		c.NonTrivial(showItems(want) != showItems(items))
		c.LabelIf(optTop || optOrder || !dupOK, "opt-out")
		c.Label(typ.name)
	})
}

// TestC09_Permutation: the order in which loads and symbols are written does not matter.
func TestC09_Permutation(t *testing.T) {
	vk.Check(t, "files of comment-free loads without repeated names, formatted as written and shuffled; non-trivial: the shuffled file differs", 50000, 2000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		var loads []*sload
		used := map[string]bool{}
		for i := 2 + gen.Int(rt, 12); i > 0; i-- {
			l := &sload{module: loadModules[gen.Int(rt, len(loadModules))]}
			for j := gen.Int(rt, 4); j >= 0; j-- {
				s := fmt.Sprintf("%s%d", gen.Pick(rt, "a", "B", "_c"), gen.Int(rt, 60))
				if !used[s] {
					used[s] = true
					l.syms = append(l.syms, [2]string{s, gen.Pick(rt, s, s, "x")})
				}
			}
			if len(l.syms) > 0 {
				loads = append(loads, l)
			}
		}
		render := func() string {
			var b strings.Builder
			for _, l := range loads {
				b.WriteString("load(\"" + l.module + "\"")
				for _, s := range l.syms {
					if s[0] == s[1] {
						b.WriteString(", \"" + s[0] + "\"")
					} else {
						b.WriteString(", " + s[0] + " = \"" + s[1] + "\"")
					}
				}
				b.WriteString(")\n")
			}
			return b.String() + "x = 1\n"
		}
		format := func(s string) string {
			f, err := typ.parse(typ.name, []byte(s))
			if err != nil {
				c.Fail("does not parse: %v", err)
			}
			return string(build.Format(f))
		}
		s1 := render()
		o1 := format(s1)
		for i := len(loads) - 1; i > 0; i-- {
			j := gen.Int(rt, i+1)
			loads[i], loads[j] = loads[j], loads[i]
		}
		for _, l := range loads {
			for i := len(l.syms) - 1; i > 0; i-- {
				j := gen.Int(rt, i+1)
				l.syms[i], l.syms[j] = l.syms[j], l.syms[i]
			}
		}
		s2 := render()
		c.Input(s1 + "---\n" + s2)
		o2 := format(s2)
		c.NonTrivial(s1 != s2)
		if o1 != o2 {
			c.Fail("type %s: the written order matters:\n%s\n---\n%s", typ.name, o1, o2)
		}
	})
}
