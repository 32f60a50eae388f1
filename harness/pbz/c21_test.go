package pbz

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// rootName is the name of the workspace directory, baseName that of a package's.
var rootName string

func baseName(dir string) string {
	if dir == "" {
		return rootName
	}
	return path.Base(dir)
}

// implicitOf is the statement index of the rule that has the directory's name
// implicitly, or -1.
func implicitOf(f *build.File, dir string) int {
	idx := -1
	for i, s := range f.Stmt {
		r := ruleOf(i, s)
		if r == nil {
			continue
		}
		if r.name == baseName(dir) {
			return -1
		}
		if r.kind != "" && r.name == "" {
			if idx >= 0 {
				return -1
			}
			idx = i
		}
	}
	if idx >= 0 && kindOf(f.Stmt[idx].(*build.CallExpr).X) == "package" {
		return -1
	}
	return idx
}

// nameOf is the explicit or implicit name of a top-level statement.
func nameOf(f *build.File, dir string, i int) string {
	r := ruleOf(i, f.Stmt[i])
	if r == nil {
		return ""
	}
	if r.name == "" && i == implicitOf(f, dir) {
		return baseName(dir)
	}
	return r.name
}

// byName finds the first rule of the name.
func byName(f *build.File, dir, name string) int {
	for i := range f.Stmt {
		if name != "" && nameOf(f, dir, i) == name {
			return i
		}
	}
	return -1
}

// stmtDumps dumps each statement but comment blocks.
func stmtDumps(f *build.File) (r []string) {
	for _, s := range f.Stmt {
		if cb, ok := s.(*build.CommentBlock); ok {
			r = append(r, "comments "+fmt.Sprint(astx.AllComments(cb)))
			continue
		}
		r = append(r, fmt.Sprintf("%s %q", astx.FromAST(s), astx.AllComments(s)))
	}
	return
}

func TestC21_NewDelete(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated BUILD files with comments, implicit names, several package-like calls x sequences of 1..4 of new (plain, before, after an existing, missing, implicit, __pkg__ or %line rule; fresh or taken names) and delete (by name, kind, line or *); the statements after each command are compared with a list model. Non-trivial: a rule was added or deleted", 25000, 1000000, func(rt *rapid.T, c *vk.Case) {
		text, names := buildFile(rt, func(g *bg) {
			g.parens = true
			g.extraRule = func(g *bg, n string) bool {
				if g.p(12) { // may get the directory's name
					g.w("%s(srcs = [%q])\n\n", g.pick("cc_library", "my_rule"), n)
					return true
				}
				return false
			}
		})
		if gen.Pct(rt, 10) {
			names = append(names, "b")
		}
		file := gen.Pick(rt, "a/b/BUILD", "a/b/BUILD.bazel")
		for _, x := range []string{"a/b/BUILD", "a/b/BUILD.bazel"} {
			removeFile(w.path(x))
		}
		c.Input(text)
		c.Part("%s", file)
		w.put(file, text)
		p := w.path(file)
		cur := text
		for n := 1 + gen.Int(rt, 4); n > 0; n-- {
			f0 := parseBuild(c, p, plain(c, p, cur))
			lineOf := func(i int) int { s, _ := parseBuild(c, p, cur).Stmt[i].Span(); return s.Line }
			var k cmd
			tgt := "__pkg__"
			del := map[int]bool{}
			add := -1
			wantErr := false
			// lines refer to the file as it is: only use them when it is formatted
			lines := plain(c, p, cur) == cur
			anyName := func() string {
				xs := append([]string{"lib", "missing", "b", "u"}, names...)
				return xs[gen.Int(rt, len(xs))]
			}
			var calls []*rule
			for _, r := range rulesOf(f0) {
				if r.kind != "" {
					calls = append(calls, r)
				}
			}
			if gen.Pct(rt, 65) {
				kind := gen.Pick(rt, "cc_library", "my_rule", "zz_rule", "genrule", "exports_files", "helper")
				name := gen.Pick(rt, "fresh", "fresh2", "new", anyName())
				k = cmd{"new", kind, name}
				if gen.Pct(rt, 30) {
					tgt = anyName()
				}
				pkgPos := 0 // where the package declaration would be
			scan:
				for _, s := range f0.Stmt {
					switch s := s.(type) {
					case *build.LoadStmt, *build.StringExpr, *build.CommentBlock:
					case *build.CallExpr:
						if kindOf(s.X) != "workspace" {
							break scan
						}
					default:
						break scan
					}
					pkgPos++
				}
				has := func(n string) int { return byName(f0, "a/b", n) }
				pos := -1
				if gen.Pct(rt, 60) {
					rel := anyName()
					side := gen.Pick(rt, "before", "after")
					at := has(rel)
					switch {
					case gen.Pct(rt, 12):
						rel = "__pkg__"
						at = -2
						for i, s := range f0.Stmt {
							if r := ruleOf(i, s); r != nil && r.kind == "package" {
								at = i
								break
							}
						}
						tgt = "__pkg__"
					case lines && len(calls) > 0 && gen.Pct(rt, 20):
						at = calls[gen.Int(rt, len(calls))].idx
						rel = fmt.Sprintf("%%%d", lineOf(at))
					}
					k = append(k, side, rel)
					if at >= 0 {
						pos = at
						if side == "after" {
							pos++
						}
					}
					if at == -2 { // where the package declaration would be
						pos = pkgPos
					}
				}
				wantErr = has(name) >= 0
				if tgt != "__pkg__" && has(tgt) < 0 {
					wantErr = true // no such target
				}
				if !wantErr {
					if pos < 0 {
						for i, s := range f0.Stmt {
							if r := ruleOf(i, s); r != nil && r.kind == kind {
								if _, ok := r.call.X.(*build.Ident); ok {
									pos = i + 1
								}
							}
						}
					}
					if pos < 0 {
						pos = len(f0.Stmt)
						for pos > 0 {
							if _, ok := f0.Stmt[pos-1].(*build.CommentBlock); !ok {
								break
							}
							pos--
						}
						if tgt == "__pkg__" && pos < pkgPos {
							pos = pkgPos // comments before it are no trailing comments
						}
					}
					add = pos
				}
			} else {
				k = cmd{"delete"}
				switch gen.Int(rt, 5) {
				case 0:
					tgt = "%" + gen.Pick(rt, "cc_library", "my_rule", "genrule", "mod.rule", "cc_test", "none")
					for i, s := range f0.Stmt {
						if r := ruleOf(i, s); r != nil && "%"+r.kind == tgt {
							del[i] = true
						}
					}
				case 1:
					if !lines || len(calls) == 0 {
						continue
					}
					i := calls[gen.Int(rt, len(calls))].idx
					tgt = fmt.Sprintf("%%%d", lineOf(i))
					del[i] = true
				case 2:
					if gen.Pct(rt, 70) {
						continue
					}
					tgt = gen.Pick(rt, "*", "all")
					for i, s := range f0.Stmt {
						if ruleOf(i, s) != nil {
							del[i] = true
						}
					}
				default:
					tgt = anyName()
					i := byName(f0, "a/b", tgt)
					if i < 0 {
						wantErr = true
					} else {
						del[i] = true
					}
				}
			}
			if k[0] == "delete" && (tgt == "u" || strings.HasPrefix(tgt, "%exports")) {
				continue
			}
			c.Part("buildozer %q //a/b:%s", k.line(), tgt)
			res := w.run(flags{}, k.line(), "//a/b:"+tgt)
			now := w.get(file)
			if wantErr {
				if res.rc != 2 || now != cur {
					c.Fail("%q on %s: expected a refusal; exit %d, stderr %q\n%s", k.line(), tgt, res.rc, res.err, now)
				}
				c.Label("refused")
				continue
			}
			if res.rc != 0 && res.rc != 3 {
				c.Fail("%q on %s: exit %d, stderr %q\n%s", k.line(), tgt, res.rc, res.err, cur)
			}
			f1 := parseBuild(c, p, now)
			d0 := stmtDumps(f0)
			var want []string
			for i, d := range d0 {
				if i == add {
					want = append(want, "<new>")
				}
				if !del[i] {
					want = append(want, d)
				}
			}
			if add == len(d0) {
				want = append(want, "<new>")
			}
			if add >= 0 {
				want[add] = fmt.Sprintf("%s []", astx.FromAST(parseBuild(c, p, fmt.Sprintf("%s(name = %q)\n", k[1], k[2])).Stmt[0]))
			}
			if len(del) == 0 && add < 0 {
				// nothing to do: the file may be formatted
				if now != cur && now != plain(c, p, cur) {
					c.Fail("%q on %s changed the file:\n%s", k.line(), tgt, now)
				}
				cur = now
				continue
			}
			got := stmtDumps(f1)
			// comments in front of deleted statements may merge with others: compare
			// code only where blocks differ
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fail("%q on %s: the statements are now\n%s\nexpected\n%s\n--- before\n%s--- after\n%s", k.line(), tgt, strings.Join(got, "\n"), strings.Join(want, "\n"), cur, now)
			}
			if now != plain(c, p, now) {
				c.Fail("%q: the result is not formatted:\n%s", k.line(), now)
			}
			c.NonTrivial(true)
			c.Evals(1)
			c.LabelIf(add >= 0, "added")
			c.LabelIf(len(del) > 0, "deleted")
			cur = now
		}
	})
}

// commentText joins comments the way print_comment documents it.
func commentText(cs ...[]build.Comment) string {
	var r []string
	for _, x := range cs {
		for _, cm := range x {
			r = append(r, strings.TrimSpace(strings.TrimPrefix(cm.Token, "#")))
		}
	}
	return strings.Join(r, " ")
}

func tokens(cs []build.Comment) (r []string) {
	for _, x := range cs {
		r = append(r, strings.TrimRight(x.Token, " "))
	}
	return
}

// listStrings lists the strings of all lists of a value, select branches included.
func listStrings(e build.Expr) (r []*build.StringExpr) {
	add := func(l *build.ListExpr) {
		for _, x := range l.List {
			if s, ok := x.(*build.StringExpr); ok {
				r = append(r, s)
			}
		}
	}
	switch e := unparen(e).(type) {
	case *build.ListExpr:
		add(e)
	case *build.BinaryExpr:
		if e.Op == "+" {
			r = append(listStrings(e.X), listStrings(e.Y)...)
		}
	case *build.CallExpr:
		for _, d := range selects(e) {
			for _, kv := range d.List {
				if l, ok := kv.Value.(*build.ListExpr); ok {
					add(l)
				}
			}
		}
	}
	return
}

func TestC21_Comments(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated BUILD files with comments x comment on a rule, an attribute or a value in a list (end-of-line or own line; several lines; texts with quotes, '#', escapes), followed by print_comment, the same comment again, and remove_comment, in separate runs or in one; the comments of the addressed element are compared with the given text and all other comments with those before. Non-trivial: a comment was attached", 20000, 1000000, func(rt *rapid.T, c *vk.Case) {
		text, names := buildFile(rt, func(g *bg) { g.parens = true; g.noVars = gen.Pct(rt, 50) })
		p := w.path("a/b/BUILD")
		text = plain(c, p, text)
		f0 := parseBuild(c, p, text)
		tn := names[gen.Int(rt, len(names))]
		r0 := named(f0, tn)
		if r0 == nil {
			c.Skip("no such rule")
		}
		noEOL := gen.Pct(rt, 30)
		words := []string{"hello", "hello world", "it's \"quoted\"", "# hash", "TODO(x): fix", "a|b", "é", "two\\nlines", "a\\n\\nb", "buildifier: leave-alone", "x\\ty"}
		txt := words[gen.Int(rt, len(words))]
		lines := strings.Split(strings.ReplaceAll(txt, `\n`, "\n"), "\n")
		var wantC []string
		for _, l := range lines {
			wantC = append(wantC, strings.TrimRight("# "+l, " "))
		}
		full := noEOL || len(lines) > 1
		level := gen.Int(rt, 3)
		var args []string
		if level > 0 {
			if len(r0.attrs) == 0 {
				c.Skip("no attributes")
			}
			args = []string{r0.attrs[gen.Int(rt, len(r0.attrs))].name}
			if gen.Pct(rt, 5) {
				args[0] = "absent"
			}
		}
		if level == 2 {
			var vs []string
			for _, s := range listStrings(r0.attr(args[0])) {
				vs = append(vs, s.Value)
			}
			v := gen.Pick(rt, ":x", "nothing", "//c")
			if len(vs) > 0 && gen.Pct(rt, 92) {
				v = vs[gen.Int(rt, len(vs))]
			}
			if v == "" {
				c.Skip("empty value")
			}
			for _, tg := range targets { // another spelling of the same target
				if contains(tg, v) && gen.Pct(rt, 40) {
					v = tg[gen.Int(rt, len(tg))]
				}
			}
			args = append(args, v)
		}
		add := cmd(append(append([]string{"comment"}, args...), txt))
		pr := cmd(append([]string{"print_comment"}, args...))
		rm := cmd(append([]string{"remove_comment"}, args...))
		c.Input(text)
		tgt := "//a/b:" + tn
		c.Part("buildozer %s %q %s", flags{noEOL: noEOL}, add.line(), tgt)
		w.put("a/b/BUILD", text)
		fl := flags{noEOL: noEOL}

		// the comments of the addressed element: before and at the end of the line
		type place struct {
			before, suffix, after []string
			text                  string
		}
		// matching elements on level 2
		matches := func(f *build.File) (ps []place) {
			r := named(f, tn)
			mk := func(cm *build.Comments) place {
				return place{tokens(cm.Before), tokens(cm.Suffix), tokens(cm.After), commentText(cm.Before, cm.Suffix)}
			}
			switch level {
			case 0:
				pl := mk(&r.call.Comments)
				pl.text = commentText(r.call.Before)
				for _, x := range [][]build.Comment{r.call.Suffix, r.call.After} {
					if s := commentText(x); s != "" {
						pl.text += " " + s
					}
				}
				return []place{pl}
			case 1:
				for _, a := range r.attrs {
					if a.name == args[0] {
						return []place{mk(&a.def.Comments)}
					}
				}
			case 2:
				for _, s := range listStrings(r.attr(args[0])) {
					if norm(s.Value, pkg) == norm(args[1], pkg) {
						ps = append(ps, mk(&s.Comments))
					}
				}
			}
			return
		}
		before := matches(f0)
		all := func(f *build.File) []string { return astx.AllComments(f) }
		// comments decide which parts of a list are sorted and freed of duplicates
		code := func(f *build.File) string {
			return astx.Dump(f, astx.Opt{Override: func(e build.Expr, rec func(build.Expr) string) (string, bool) {
				l, ok := e.(*build.ListExpr)
				if !ok {
					return "", false
				}
				m := map[string]bool{}
				for _, x := range l.List {
					m[rec(x)] = true
				}
				return "[" + strings.Join(sortedKeys(m), " ") + "]", true
			}})
		}
		if len(before) == 0 {
			res := w.run(fl, add.line(), tgt)
			if now := w.get("a/b/BUILD"); now != text || res.rc == 0 {
				c.Fail("%q: nothing to comment on, but exit %d and\n%s", add.line(), res.rc, now)
			}
			if res := w.run(fl, pr.line(), tgt); res.rc != 2 {
				c.Fail("%q: nothing to print, but exit %d, output %q", pr.line(), res.rc, res.out)
			}
			c.Label("absent")
			return
		}
		// the comment as printed before
		res := w.run(fl, pr.line(), tgt)
		found := false
		for i, b := range before {
			if strings.TrimRight(res.out, " \n") == strings.TrimRight(b.text, " ") {
				found = true
			}
			_ = i
		}
		if !found || res.rc != 0 {
			c.Fail("%q: exit %d, printed %q, expected %+v", pr.line(), res.rc, res.out, before)
		}
		if w.get("a/b/BUILD") != text {
			c.Fail("print_comment changed the file")
		}
		// in one run
		var one result
		if gen.Pct(rt, 40) {
			one = w.run(fl, add.line(), pr.line(), tgt)
			c.Label("one run")
		} else {
			one = w.run(fl, add.line(), tgt)
			if one.rc == 0 || one.rc == 3 {
				x := w.run(fl, pr.line(), tgt)
				one.out = x.out
			}
		}
		now := w.get("a/b/BUILD")
		if one.rc != 0 && !(one.rc == 3 && now == text) {
			c.Fail("%q: exit %d %s", add.line(), one.rc, one.err)
		}
		f1 := parseBuild(c, p, now)
		if code(f0) != code(f1) {
			c.Fail("%q changed the code:\n%s", add.line(), now)
		}
		after := matches(f1)
		if len(after) == 1 && len(before) > 1 {
			// formatting drops duplicates of a list with comments
			c.Label("duplicates dropped")
			return
		}
		if len(after) != len(before) {
			c.Fail("%q: %d matching elements instead of %d\n%s", add.line(), len(after), len(before), now)
		}
		// exactly one of the matching elements has the new comment in place of its old
		// one of that kind (comments on an attribute's own line are added)
		which := -1
		for i := range after {
			want := before[i]
			switch {
			case level == 1 && full:
				want.before = append(append([]string{}, want.before...), wantC...)
			case level == 0 || full:
				want.before = wantC
			default:
				want.suffix = wantC
			}
			same := func(a, b place) bool {
				return fmt.Sprintf("%q%q%q", a.before, a.suffix, a.after) == fmt.Sprintf("%q%q%q", b.before, b.suffix, b.after)
			}
			if same(after[i], want) && (which < 0 || !same(after[i], before[i])) {
				if which >= 0 && !same(after[which], before[which]) {
					c.Fail("%q: several elements got the comment\n%s", add.line(), now)
				}
				which = i
				continue
			}
			if !same(after[i], before[i]) {
				c.Fail("%q: the element has comments %+v, expected %+v (before: %+v)\n%s", add.line(), after[i], want, before[i], now)
			}
		}
		if which < 0 {
			c.Fail("%q: no element got the comment\n%s--- before\n%s", add.line(), now, text)
		}
		if got, want := strings.TrimRight(one.out, " \n"), strings.TrimRight(after[which].text, " "); got != want {
			c.Fail("%q prints %q, expected %q\n%s", pr.line(), got, want, now)
		}
		// all other comments are as before
		rest := func(f *build.File, pl place) string {
			m := map[string]int{}
			for _, x := range all(f) {
				m[x[strings.Index(x, "#"):]]++
			}
			for _, l := range [][]string{pl.before, pl.suffix, pl.after} {
				for _, x := range l {
					m[x]--
				}
			}
			var s []string
			for _, x := range sortedKeys(m) {
				if m[x] != 0 {
					s = append(s, fmt.Sprintf("%s x%d", x, m[x]))
				}
			}
			return strings.Join(s, "\n")
		}
		if a, b := rest(f0, before[which]), rest(f1, after[which]); a != b {
			c.Fail("%q: other comments changed:\n%s\n--- before\n%s\n--- file\n%s", add.line(), b, a, now)
		}
		c.NonTrivial(true)
		c.Label([]string{"rule", "attribute", "value"}[level])
		c.Evals(1)
		// remove it again
		res = w.run(fl, rm.line(), tgt)
		last := w.get("a/b/BUILD")
		if res.rc != 0 {
			c.Fail("%q: exit %d %s\n%s", rm.line(), res.rc, res.err, now)
		}
		f2 := parseBuild(c, p, last)
		if code(f0) != code(f2) {
			c.Fail("%q changed the code:\n%s", rm.line(), last)
		}
		gone := matches(f2)
		none := false
		for i := range gone {
			if len(gone[i].before)+len(gone[i].suffix)+len(gone[i].after) == 0 && i == which {
				none = true
			}
		}
		if !none {
			c.Fail("%q left a comment:\n%s", rm.line(), last)
		}
		if a, b := rest(f0, before[which]), rest(f2, place{}); a != b {
			c.Fail("%q: other comments changed:\n%s\n--- before\n%s\n--- file\n%s", rm.line(), b, a, last)
		}
		c.Evals(1)
	})
}
