package pbz

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

type usage struct {
	proxy, key string // key identifies the extension usage
	bzl, name  string
	dev, iso   bool
}

func isTrue(e build.Expr) bool { id, ok := e.(*build.Ident); return !ok || id.Name != "False" }

// usagesOf lists the use_extension assignments.
func usagesOf(f *build.File) (us []usage) {
	mod := ""
	for _, r := range rulesOf(f) {
		if r.kind == "module" {
			if s, ok := r.attr("repo_name").(*build.StringExpr); ok && s.Value != "" {
				mod = s.Value
			} else if r.name != "" {
				mod = r.name
			}
		}
	}
	normBzl := func(s string) string {
		s = norm(s, "")
		if strings.HasPrefix(s, "//") {
			return "@" + mod + s
		}
		if mod == "" {
			return s
		}
		return s
	}
	for _, s := range f.Stmt {
		as, ok := s.(*build.AssignExpr)
		if !ok {
			continue
		}
		r := ruleOf(0, as.RHS)
		if r == nil || r.kind != "use_extension" {
			continue
		}
		u := usage{proxy: as.LHS.(*build.Ident).Name}
		u.bzl = normBzl(r.call.List[0].(*build.StringExpr).Value)
		u.name = r.call.List[1].(*build.StringExpr).Value
		if v := r.attr("dev_dependency"); v != nil && isTrue(v) {
			u.dev = true
		}
		if v := r.attr("isolate"); v != nil && isTrue(v) {
			u.iso = true
		}
		u.key = fmt.Sprintf("%s %s dev=%v", u.bzl, u.name, u.dev)
		if u.iso {
			u.key = "isolated " + u.proxy
		}
		us = append(us, u)
	}
	return
}

// imports lists the imported repositories per extension usage: "name in extension as name here".
func imports(f *build.File) map[string][]string {
	of := map[string]string{}
	for _, u := range usagesOf(f) {
		of[u.proxy] = u.key
	}
	m := map[string][]string{}
	for _, r := range rulesOf(f) {
		if r.kind != "use_repo" || len(r.call.List) == 0 {
			continue
		}
		id, ok := r.call.List[0].(*build.Ident)
		if !ok {
			continue
		}
		key := of[id.Name]
		if key == "" {
			key = "unknown " + id.Name
		}
		for _, a := range r.call.List[1:] {
			switch a := a.(type) {
			case *build.StringExpr:
				m[key] = append(m[key], a.Value+" as "+a.Value)
			case *build.AssignExpr:
				s, ok := a.RHS.(*build.StringExpr)
				if !ok {
					m[key] = append(m[key], "? "+astx.Dump(a, astx.Opt{}))
					continue
				}
				m[key] = append(m[key], s.Value+" as "+a.LHS.(*build.Ident).Name)
			default:
				m[key] = append(m[key], "? "+astx.Dump(a, astx.Opt{}))
			}
		}
		sort.Strings(m[key])
	}
	return m
}

func TestC26_UseRepo(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated MODULE.bazel files (module with and without repo_name, extensions in several spellings, dev, isolated and repeated usages, tags, several use_repo calls with positional and renamed repositories, comments) x sequences of 1..3 use_repo_add and use_repo_remove, addressed by extension or by variable; the imports per extension are compared with a set model, both ways of addressing with each other. Non-trivial: the imports changed", 30000, 800000, func(rt *rapid.T, c *vk.Case) {
		var b strings.Builder
		p := func(n int) bool { return gen.Pct(rt, n) }
		wr := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
		nc := 0
		cm := func() {
			if p(10) {
				nc++
				wr("# c%d\n", nc)
			}
		}
		sfx := func() {
			if p(8) {
				nc++
				wr("  # c%d", nc)
			}
			wr("\n")
		}
		mod := ""
		if p(70) {
			mod = "my_mod"
			wr("module(name = \"my_mod\", version = \"1\"")
			if p(30) {
				mod = "me"
				wr(", repo_name = \"me\"")
			}
			wr(")\n\n")
		}
		spell := func() string {
			s := []string{"//:ext.bzl", "//:ext.bzl", "@//:ext.bzl", ":ext.bzl", "//x:y.bzl", "@other//a:e.bzl", "@@other//a:e.bzl", "@other//a", "@other//a:a", "//:e2.bzl"}
			if mod != "" {
				s = append(s, "@"+mod+"//:ext.bzl", "@"+mod+"//x:y.bzl")
			}
			return s[gen.Int(rt, len(s))]
		}
		repoNames := []string{"foo", "bar", "baz", "qux", "a.b", "Zed"}
		var proxies []string
		n := 1 + gen.Int(rt, 4)
		for i := 0; i < n; i++ {
			proxy := fmt.Sprintf("ext%d", i)
			cm()
			if p(20) {
				wr("bazel_dep(name = \"d%d\", version = \"2\")\n", i)
			}
			wr("%s = use_extension(%q, %q", proxy, spell(), gen.Pick(rt, "e1", "e1", "e2"))
			if p(35) {
				wr(", dev_dependency = %s", gen.Pick(rt, "True", "False", "1"))
			}
			if p(15) {
				wr(", isolate = %s", gen.Pick(rt, "True", "False"))
			}
			wr(")")
			sfx()
			proxies = append(proxies, proxy)
			for j := gen.Int(rt, 3); j > 0; j-- {
				x := proxies[gen.Int(rt, len(proxies))]
				if p(50) {
					cm()
					wr("%s.tag(name = %q)", x, gen.Pick(rt, "t", "u"))
					sfx()
					continue
				}
				cm()
				wr("use_repo(%s", x)
				used := map[string]bool{}
				multi := p(40)
				if multi {
					wr(",\n")
				}
				first := true
				var kws []string
				for k := gen.Int(rt, 4); k > 0; k-- {
					r := repoNames[gen.Int(rt, len(repoNames))]
					if used[r] {
						continue
					}
					used[r] = true
					if p(25) {
						alias := "my_" + r[:1]
						if a := repoNames[gen.Int(rt, 4)]; p(40) && !used[a] { // also the name of another repository
							alias, used[a] = a, true
						}
						kws = append(kws, fmt.Sprintf("%s = %q", alias, r))
						continue
					}
					if multi {
						if p(15) {
							nc++
							wr("    # c%d\n", nc)
						}
						wr("    %q,", r)
						sfx()
					} else {
						wr(", %q", r)
					}
					first = false
				}
				for _, k := range kws {
					if multi {
						wr("    %s,", k)
						sfx()
					} else {
						wr(", %s", k)
					}
					first = false
				}
				_ = first
				wr(")")
				sfx()
			}
			if p(15) {
				wr("register_toolchains(\"//t\")\n")
			}
		}
		text := b.String()
		path := w.path("MODULE.bazel")
		cur := text
		c.Input(text)
		f := parseBuild(c, path, text)
		if f.Type != build.TypeModule {
			c.Fail("not taken for a MODULE file")
		}
		defer w.put("MODULE.bazel", "")
		for n := 1 + gen.Int(rt, 3); n > 0; n-- {
			mode := gen.Pick(rt, "use_repo_add", "use_repo_remove")
			var repos []string
			for m := 1 + gen.Int(rt, 3); m > 0; m-- {
				repos = append(repos, repoNames[gen.Int(rt, len(repoNames))])
			}
			f0 := parseBuild(c, path, cur)
			us := usagesOf(f0)
			u := us[gen.Int(rt, len(us))]
			byProxy := cmd(append([]string{mode, u.proxy}, repos...))
			var byExt cmd
			wantErr := false
			if !u.iso {
				bzl := spell()
				for i := 0; i < 30; i++ { // another spelling of the same file
					g := parseBuild(c, path, fmt.Sprintf("%s\nzz = use_extension(%q, \"x\")\n", strings.ReplaceAll(cur, "load(", "noload("), bzl))
					gu := usagesOf(g)
					if gu[len(gu)-1].bzl == u.bzl {
						break
					}
					bzl = spell()
				}
				if strings.HasPrefix(bzl, ":") {
					bzl = "//" + bzl
				}
				args := []string{mode}
				if u.dev {
					args = append(args, "dev")
				}
				byExt = cmd(append(append(args, bzl, u.name), repos...))
				g := parseBuild(c, path, fmt.Sprintf("%s\nzz = use_extension(%q, \"x\")\n", cur, bzl))
				gu := usagesOf(g)
				if gu[len(gu)-1].bzl != u.bzl {
					byExt = nil
				}
			}
			k := byProxy
			if byExt != nil && p(50) {
				k = byExt
			}
			if p(6) {
				k = cmd(append([]string{mode, gen.Pick(rt, "no_such", "//no:such.bzl", "@other//a:e.bzl"), "no_ext"}, repos...))
				wantErr = true
			}
			if p(3) { // something is missing
				k = cmd{mode, gen.Pick(rt, "dev", "@x//:e.bzl", "//:ext.bzl"), gen.Pick(rt, "//:ext.bzl", "@//:ext.bzl")}
				wantErr = true
			}
			c.Part("buildozer %q //MODULE.bazel:all", k.line())
			w.put("MODULE.bazel", cur)
			res := w.run(flags{}, k.line(), "//MODULE.bazel:all")
			now := w.get("MODULE.bazel")
			if wantErr {
				if res.rc != 2 || now != cur {
					c.Fail("%q: exit %d (%s), expected an error\n%s", k.line(), res.rc, res.err, now)
				}
				continue
			}
			if res.rc != 0 && !(res.rc == 3 && now == cur) {
				c.Fail("%q: exit %d (%s)", k.line(), res.rc, res.err)
			}
			f1 := parseBuild(c, path, now)
			want, got := imports(f0), imports(f1)
			has := map[string]bool{}
			var keep []string
			for _, x := range want[u.key] {
				name, _, _ := strings.Cut(x, " as ")
				has[name] = true
				if mode == "use_repo_add" || !contains(repos, name) {
					keep = append(keep, x)
				}
			}
			if mode == "use_repo_add" {
				for _, r := range repos {
					if !has[r] {
						has[r] = true
						keep = append(keep, r+" as "+r)
					}
				}
			}
			sort.Strings(keep)
			want[u.key] = keep
			for _, m := range []map[string][]string{want, got} {
				for key := range m {
					if len(m[key]) == 0 {
						delete(m, key)
					}
				}
			}
			if fmt.Sprint(want) != fmt.Sprint(got) {
				c.Fail("%q: imports are now\n%v\nexpected\n%v\n--- before\n%s--- after\n%s", k.line(), got, want, cur, now)
			}
			// other statements stay, in order
			rest := func(f *build.File) (r []string) {
				for _, s := range f.Stmt {
					if x := ruleOf(0, s); x != nil && x.kind == "use_repo" {
						continue
					}
					r = append(r, fmt.Sprintf("%s %q", astx.FromAST(s), astx.AllComments(s)))
				}
				return
			}
			r0, r1 := rest(parseBuild(c, path, plain(c, path, cur))), rest(f1)
			if fmt.Sprint(r0) != fmt.Sprint(r1) {
				c.Fail("%q: other statements changed:\n%s\n--- before\n%s", k.line(), strings.Join(r1, "\n"), strings.Join(r0, "\n"))
			}
			// comments stay unless what they belong to is removed
			if mode == "use_repo_add" {
				count := func(text string) string { x := astx.ScanComments(text); sort.Strings(x); return fmt.Sprint(x) }
				if count(cur) != count(now) && !strings.Contains(strings.Join(dumpUseRepos(f0), ";"), "()") {
					c.Fail("%q: comments changed\n%s\n--- before\n%s", k.line(), now, cur)
				}
			}
			// use_repo comes after the definition of its variable
			defined := map[string]bool{}
			for _, s := range f1.Stmt {
				if as, ok := s.(*build.AssignExpr); ok {
					defined[as.LHS.(*build.Ident).Name] = true
				}
				if x := ruleOf(0, s); x != nil && x.kind == "use_repo" {
					if id, ok := x.call.List[0].(*build.Ident); ok && !defined[id.Name] {
						c.Fail("%q: use_repo before %s is defined\n%s", k.line(), id.Name, now)
					}
				}
			}
			// the other way of addressing
			if byExt != nil {
				other := byProxy
				if k[1] == byProxy[1] {
					other = byExt
				}
				w.put("MODULE.bazel", cur)
				res := w.run(flags{}, other.line(), "//MODULE.bazel:all")
				if x := w.get("MODULE.bazel"); x != now {
					c.Fail("%q gives (exit %d %s)\n%s\nbut %q gives\n%s", other.line(), res.rc, res.err, x, k.line(), now)
				}
				c.Evals(1)
			}
			// nothing left to do
			w.put("MODULE.bazel", now)
			res = w.run(flags{}, k.line(), "//MODULE.bazel:all")
			if x := w.get("MODULE.bazel"); x != now || res.rc != 3 {
				c.Fail("%q again: exit %d\n%s\nbefore\n%s", k.line(), res.rc, x, now)
			}
			c.NonTrivial(fmt.Sprint(imports(f0)) != fmt.Sprint(imports(f1)))
			c.Label(mode)
			cur = now
		}
	})
}

func dumpUseRepos(f *build.File) (r []string) {
	for _, x := range rulesOf(f) {
		if x.kind == "use_repo" {
			s := "x"
			if len(x.call.List) < 2 {
				s = "()"
			}
			r = append(r, s)
		}
	}
	return
}
