package pfmt

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// TestC07_UseRepo: the repository names of use_repo calls in MODULE.bazel.
func TestC07_UseRepo(t *testing.T) {
	vk.Check(t, "use_repo calls over several lines with repository names (repeated ones, too), other arguments, keyword arguments, line and end-of-line comments and 'do not sort' markers on the call, the extension and the names, in the 5 file types; non-trivial: the reference moves or drops a name", 60000, 3000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		if gen.Pct(rt, 70) {
			for _, t := range fileTypes {
				if t.typ == build.TypeModule {
					typ = t
				}
			}
		}
		g := &lgen{rt: rt}
		pool := []string{"a", "b", "B", "a.b", "a_b", "a-b", "ab", "10", "9", "z", "repo", "repo2", "a.b.c", "A", "é", "a+b", "a~b"}
		commented := gen.Pct(rt, 40)
		marked := gen.Pct(rt, 30)
		mark := func() string {
			return gen.Pick(rt, "# do not sort", "# DO NOT SORT, please", "# (Do not sort)", "# do not sort this", "# keep sorted", "# donotsort", "# do  not sort", "# sort")
		}
		callMark, callSuffix := "", ""
		if marked && gen.Pct(rt, 30) {
			callMark = mark()
		}
		if marked && gen.Pct(rt, 15) {
			callSuffix = mark()
		}
		ext := lelem{v: gen.Pick(rt, "ext", "ext", "m.ext", `use_extension("//a:b.bzl", "e")`)}
		var elems []lelem
		n := gen.Int(rt, 8)
		if gen.Pct(rt, 4) {
			n = 13 + gen.Int(rt, 20)
		}
		for i := 0; i < n; i++ {
			e := lelem{str: true, v: pool[gen.Int(rt, len(pool))]}
			if gen.Pct(rt, 5) {
				e = lelem{v: gen.Pick(rt, "NAME", `"a" + X`, `f("b")`)}
			}
			elems = append(elems, e)
		}
		var kws []string
		for i := gen.Int(rt, 3); i > 0; i-- {
			kws = append(kws, fmt.Sprintf("k%d = %q", len(kws), pool[gen.Int(rt, len(pool))]))
		}
		all := append([]lelem{ext}, elems...)
		for i := range all {
			e := &all[i]
			if commented && gen.Pct(rt, 15) {
				e.before = append(e.before, g.comment())
			}
			if commented && gen.Pct(rt, 20) {
				e.suffix = g.comment()
			}
			if marked && i < 3 && gen.Pct(rt, 25) {
				if gen.Pct(rt, 70) {
					e.before = append(e.before, mark())
				} else {
					e.suffix = mark()
				}
			}
		}
		for _, e := range all {
			// parentheses and operands take comments of their own
			if !e.str && e.v != "ext" && e.v != "NAME" && len(e.before)+len(e.suffix) > 0 {
				c.Skip("comment on another expression")
			}
		}

		var b strings.Builder
		if callMark != "" {
			b.WriteString(callMark + "\n")
		}
		b.WriteString("use_repo(\n")
		for _, e := range all {
			for _, cm := range e.before {
				b.WriteString("    " + cm + "\n")
			}
			v := e.v
			if e.str {
				v = `"` + v + `"`
			}
			b.WriteString("    " + v + ",")
			if e.suffix != "" {
				b.WriteString("  " + e.suffix)
			}
			b.WriteString("\n")
		}
		for _, k := range kws {
			b.WriteString("    " + k + ",\n")
		}
		b.WriteString(")")
		if callSuffix != "" {
			b.WriteString("  " + callSuffix)
		}
		b.WriteString("\n")
		c.Input(b.String())
		c.Part("type %s", typ.name)

		// Each Before comment that has to stay at its place.
		want, dedup := all, false
		if typ.typ == build.TypeModule && len(all)+len(kws) >= 3 {
			marks := []string{callMark, callSuffix}
			for i := 0; i < 2 && i < len(all); i++ {
				marks = append(append(marks, all[i].before...), all[i].suffix)
			}
			want = nil
			if anyContains(marks, "do not sort") {
				dedup = true
				seen := map[string]bool{}
				for _, e := range all {
					if e.str && seen[e.v] {
						continue
					}
					seen[e.v] = seen[e.v] || e.str
					want = append(want, e)
				}
				c.Label("marked")
			} else {
				for i := 0; i < len(all); {
					j := i + 1
					for all[i].str && j < len(all) && all[j].str && len(all[j].before) == 0 {
						j++
					}
					run := append([]lelem{}, all[i:j]...)
					before := run[0].before
					run[0].before = nil
					sort.SliceStable(run, func(a, b int) bool { return refLess(run[a].v, run[b].v) })
					run[0].before = before
					for k, e := range run {
						if k == 0 || e.v != run[k-1].v {
							want = append(want, e)
						}
					}
					i = j
				}
				c.Label("sorted")
			}
		}
		cnt := map[string]int{}
		for _, e := range all {
			cnt[e.v]++
		}
		var ws []string
		for i, e := range want {
			if e.v != all[i].v || len(want) != len(all) {
				c.NonTrivial(true)
			}
			if !e.str {
				ws = append(ws, "other")
				continue
			}
			before, suffix := strings.Join(e.before, " "), e.suffix
			if dedup {
				before = "?"
			}
			if cnt[e.v] > 1 {
				suffix = "?"
			}
			ws = append(ws, fmt.Sprintf("%q %s / %s", e.v, before, suffix))
		}
		ws = append(ws, kws...)

		f, err := typ.parse(typ.name, []byte(b.String()))
		if err != nil {
			c.Fail("does not parse: %v", err)
		}
		out := build.Format(f)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		var call *build.CallExpr
		for _, s := range f2.Stmt {
			if x, ok := s.(*build.CallExpr); ok {
				call = x
			}
		}
		if call == nil || call.X.(*build.Ident).Name != "use_repo" {
			c.Fail("the call disappeared")
		}
		var gs []string
		for _, e := range call.List {
			switch x := e.(type) {
			case *build.StringExpr:
				before, suffix := "", ""
				for i, cm := range x.Before {
					if i > 0 {
						before += " "
					}
					before += cm.Token
				}
				for _, cm := range x.Suffix {
					suffix += cm.Token
				}
				if dedup {
					before = "?"
				}
				if cnt[x.Value] > 1 {
					suffix = "?"
				}
				gs = append(gs, fmt.Sprintf("%q %s / %s", x.Value, before, suffix))
			case *build.AssignExpr:
				gs = append(gs, build.FormatString(x))
			default:
				gs = append(gs, "other")
			}
		}
		if a, w := strings.Join(gs, "\n"), strings.Join(ws, "\n"); a != w {
			c.Fail("arguments are\n%s\nwant\n%s", a, w)
		}
		for _, e := range all {
			for _, cm := range e.before {
				if strings.Count(string(out), cm+"\n") < 1 {
					c.Fail("the line comment %s is lost", cm)
				}
			}
		}
	})
}
