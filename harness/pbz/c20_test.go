package pbz

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

type triple struct{ module, from, to string }

func loadsOf(f *build.File) (r []triple) {
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			for i := range l.From {
				r = append(r, triple{l.Module.Value, l.From[i].Name, l.To[i].Name})
			}
		}
	}
	return
}

func tripleSet(ts []triple, n func(string) string) map[string]int {
	m := map[string]int{}
	for _, t := range ts {
		m[fmt.Sprintf("%s: %s as %s", n(t.module), t.from, t.to)]++
	}
	return m
}

var loadModules = []string{":defs.bzl", "//a/b:defs.bzl", "//t:d.bzl", "@r//p:q.bzl", "//a:z.bzl", "@rules_x//x:x.bzl", "//t:e.bzl"}
var loadSyms = []string{"a", "b", "c", "d", "e", "my_rule"}

func TestC20_Loads(t *testing.T) {
	w := newWS(t)
	files := []struct{ path, target string }{
		{"a/b/BUILD", "//a/b:__pkg__"}, {"a/b/BUILD.bazel", "//a/b:__pkg__"}, {"a/b/defs.bzl", "//a/b/defs.bzl:__pkg__"}, {"WORKSPACE", "//WORKSPACE:__pkg__"},
	}
	vk.Check(t, "generated files (BUILD, BUILD.bazel, .bzl, WORKSPACE) with several loads (aliases, the same symbol from several modules or several times) x sequences of 1..3 of new_load, replace_load, substitute_load; the set of (module, symbol, local name) is compared with a model, runs are repeated for determinism. Non-trivial: the loads changed", 40000, 1000000, func(rt *rapid.T, c *vk.Case) {
		fi := files[gen.Int(rt, len(files))]
		var b strings.Builder
		if gen.Pct(rt, 15) {
			b.WriteString("\"\"\"Doc.\"\"\"\n\n")
		}
		if gen.Pct(rt, 15) {
			b.WriteString("# c0\n\n")
		}
		if fi.path == "WORKSPACE" && gen.Pct(rt, 50) {
			b.WriteString("workspace(name = \"w\")\n\n")
		}
		bound := map[string]string{}
		nl := gen.Int(rt, 4)
		late := false
		for i := 0; i < nl; i++ {
			if fi.path != "a/b/BUILD" && gen.Pct(rt, 10) {
				b.WriteString("x = 1\n")
				late = true
			}
			if gen.Pct(rt, 8) {
				b.WriteString("# before load\n")
			}
			mod := gen.Pick(rt, loadModules...)
			fmt.Fprintf(&b, "load(%q", mod)
			var pos, kw []string
			seen := map[string]bool{}
			for n := 1 + gen.Int(rt, 4); n > 0; n-- {
				// the same name always means the same symbol of a module
				l, f := gen.Pick(rt, loadSyms...), ""
				if f = bound[norm(mod, pkg)+l]; f == "" {
					if f = l; gen.Pct(rt, 25) {
						f = gen.Pick(rt, loadSyms...)
					}
					bound[norm(mod, pkg)+l] = f
				}
				if l == f {
					pos = append(pos, fmt.Sprintf("%q", l))
				} else if !seen[l] {
					seen[l] = true
					kw = append(kw, fmt.Sprintf("%s = %q", l, f))
				}
			}
			for _, s := range append(pos, kw...) {
				fmt.Fprintf(&b, ", %s", s)
			}
			b.WriteString(")\n")
		}
		b.WriteString("\ncc_library(\n    name = \"lib\",\n    deps = [a],\n)\n")
		text := b.String()
		var ks []cmd
		var lines []string
		for n := 1 + gen.Int(rt, 3); n > 0; n-- {
			if gen.Pct(rt, 20) {
				s := [][2]string{{"^//t:(.*)$", "//new:$1"}, {`\.bzl$`, ".star"}, {"^@r(.*)//", "@s//"}, {":defs", ":d2"}, {"^//(a)", "//${1}x"}}[gen.Int(rt, 5)]
				ks = append(ks, cmd{"substitute_load", s[0], s[1]})
			} else {
				k := cmd{gen.Pick(rt, "new_load", "replace_load"), gen.Pick(rt, loadModules...)}
				used := map[string]bool{}
				for m := 1 + gen.Int(rt, 3); m > 0; m-- {
					to := gen.Pick(rt, loadSyms...)
					from := to
					if used[to] && gen.Pct(rt, 90) {
						continue
					}
					if gen.Pct(rt, 25) {
						from = gen.Pick(rt, loadSyms...)
					}
					if used[to] { // the same once more
						for _, x := range k[2:] {
							if strings.HasPrefix(x, to+"=") || x == to {
								k = append(k, x)
								break
							}
						}
						continue
					}
					used[to] = true
					if from != to || gen.Pct(rt, 10) {
						k = append(k, to+"="+from)
					} else {
						k = append(k, to)
					}
				}
				ks = append(ks, k)
			}
			lines = append(lines, ks[len(ks)-1].line())
		}
		c.Input(text)
		c.Part("%s: buildozer %q %s", fi.path, lines, fi.target)
		for _, f := range files {
			removeFile(w.path(f.path))
		}
		norml := func(s string) string { return norm(s, pkg) }
		if !strings.HasPrefix(fi.path, "a/b/") {
			norml = func(s string) string { return norm(s, "") }
		}
		w.put(fi.path, text)
		cur := text
		for i, k := range ks {
			before := loadsOf(parseBuild(c, w.path(fi.path), cur))
			res := w.run(flags{}, lines[i], fi.target)
			now := w.get(fi.path)
			if res.rc != 0 && res.rc != 3 {
				c.Fail("%s: exit %d %s\n%s", lines[i], res.rc, res.err, now)
			}
			fa := parseBuild(c, w.path(fi.path), now)
			got := loadsOf(fa)
			var want []triple
			asked := map[string]string{}
			if k[0] != "substitute_load" {
				for _, s := range k[2:] {
					to, from, ok := strings.Cut(s, "=")
					if !ok {
						from = to
					}
					asked[to] = from
				}
			}
			switch k[0] {
			case "new_load":
				have := map[string]bool{}
				for _, t := range before {
					if t.module == k[1] {
						have[t.to] = true
					}
				}
				want = append(want, before...)
				for to, from := range asked {
					if !have[to] {
						want = append(want, triple{k[1], from, to})
					}
				}
			case "replace_load":
				for _, t := range before {
					if _, ok := asked[t.to]; !ok {
						want = append(want, t)
					}
				}
				for to, from := range asked {
					want = append(want, triple{k[1], from, to})
				}
			case "substitute_load":
				f := map[string]func(string) string{
					"^//t:(.*)$": func(s string) string {
						if strings.HasPrefix(s, "//t:") {
							return "//new:" + s[4:]
						}
						return s
					},
					`\.bzl$`: func(s string) string {
						if strings.HasSuffix(s, ".bzl") {
							return strings.TrimSuffix(s, ".bzl") + ".star"
						}
						return s
					},
					"^@r(.*)//": func(s string) string {
						if strings.HasPrefix(s, "@r") {
							if j := strings.LastIndex(s, "//"); j >= 0 {
								return "@s//" + s[j+2:]
							}
						}
						return s
					},
					":defs": func(s string) string { return strings.Replace(s, ":defs", ":d2", 1) },
					"^//(a)": func(s string) string {
						if strings.HasPrefix(s, "//a") {
							return "//ax" + s[3:]
						}
						return s
					},
				}[k[1]]
				for _, t := range before {
					want = append(want, triple{f(t.module), t.from, t.to})
				}
			}
			g, m := tripleSet(got, norml), tripleSet(want, norml)
			if fmt.Sprint(sortedKeys(g)) != fmt.Sprint(sortedKeys(m)) {
				c.Fail("%s: loaded now:\n%s\nexpected:\n%s\n--- file before\n%s--- after\n%s", lines[i], strings.Join(sortedKeys(g), "\n"), strings.Join(sortedKeys(m), "\n"), cur, now)
			}
			if k[0] == "replace_load" {
				for _, n := range sortedKeys(asked) {
					cnt := 0
					for _, t := range got {
						if t.to == n {
							cnt++
						}
					}
					if cnt != 1 {
						c.Fail("%s: %s is loaded %d times\n%s", lines[i], n, cnt, now)
					}
				}
			}
			if k[0] == "new_load" {
				raw := func(s string) string { return s }
				b0, g0 := tripleSet(before, raw), tripleSet(got, raw)
				for _, s := range sortedKeys(g0) {
					if g0[s] > 1 && g0[s] > b0[s] {
						c.Fail("%s: %q is loaded %d times\n%s", lines[i], s, g0[s], now)
					}
				}
			}
			// a load comes before the code that may use it
			if !late {
				code := false
				for _, s := range fa.Stmt {
					switch s := s.(type) {
					case *build.LoadStmt:
						if code {
							c.Fail("%s: load after other code:\n%s", lines[i], now)
						}
					case *build.CommentBlock, *build.StringExpr:
					case *build.CallExpr:
						if kindOf(s.X) != "workspace" {
							code = true
						}
					default:
						code = true
					}
				}
			}
			// everything else is still there
			dump := func(text string) string {
				return astx.Dump(parseBuild(c, w.path(fi.path), text), astx.Opt{SkipLoads: true})
			}
			if a, b := dump(cur), dump(now); a != b {
				c.Fail("%s: other statements changed:\n%s\n--- before\n%s", lines[i], b, a)
			}
			// the same run again
			w.put(fi.path, cur)
			w.run(flags{}, lines[i], fi.target)
			if again := w.get(fi.path); again != now {
				c.Fail("%s: two runs differ:\n%s\n--- and\n%s", lines[i], now, again)
			}
			c.Evals(1)
			if fmt.Sprint(tripleSet(before, norml)) != fmt.Sprint(g) {
				c.NonTrivial(true)
				c.Label("changed by " + k[0])
			}
			cur = now
		}
	})
}
