package pbz

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// escLine escapes a command for a commands file.
func escLine(s string) string { return strings.ReplaceAll(s, "|", `\|`) }

func TestC25_MultiFile(t *testing.T) {
	w := newWS(t)
	bin := vk.Bin(t, "buildozer")
	dirs := []string{"", "a", "a/b", "a/b/c", "d", "d/e", "f", "g"}
	vk.Check(t, "1..8 BUILD files x 1..10 groups of commands and targets (any command, some failing; several targets; file paths and '...'), given in one commands file (or two, or on stdin, or on the command line; with blank lines, comments, escapes, '*' for the labels of the command line) to 1..8 workers, against one run per file; contents, records per file and exit status. Non-trivial: at least two files changed", 9000, 300000, func(rt *rapid.T, c *vk.Case) {
		var files []string // directories
		text := map[string]string{}
		names := map[string][]string{}
		nf := 1 + gen.Int(rt, len(dirs))
		start := gen.Int(rt, len(dirs))
		var in strings.Builder
		for _, d := range dirs {
			removeFile(w.path(d + "/BUILD"))
		}
		for i := 0; i < nf; i++ {
			d := dirs[(start+i)%len(dirs)]
			tx, ns := buildFile(rt, func(g *bg) { g.comments = gen.Pct(rt, 30) })
			if gen.Pct(rt, 3) {
				tx += "\nfoo(\n"
			}
			files = append(files, d)
			text[d], names[d] = tx, ns
			fmt.Fprintf(&in, "==== %s\n%s", path.Join(d, "BUILD"), tx)
		}
		sort.Strings(files)
		type group struct {
			cmds    []string
			targets []string
		}
		var groups []group
		for n := 1 + gen.Int(rt, 10); n > 0; n-- {
			var g group
			d := files[gen.Int(rt, len(files))]
			for m := 1 + gen.Int(rt, 3); m > 0; m-- {
				var k cmd
				switch gen.Int(rt, 6) {
				case 0:
					k = listCmd(rt, []string{"deps", "srcs", "tags"}, nil, false)
				case 1:
					k = cmd{"print", "name", "path", "deps"}
				case 2:
					k = cmd{"set", gen.Pick(rt, "x", "y", "cmd"), gen.Pick(rt, "a|b", "a b", "1", `q\|r`, "#h")}
				default:
					k = anyCmd(rt, nil, names[d], nil, nil)
				}
				g.cmds = append(g.cmds, k.line())
			}
			for m := 1 + gen.Int(rt, 3); m > 0; m-- {
				d := files[gen.Int(rt, len(files))]
				what := names[d][gen.Int(rt, len(names[d]))]
				if gen.Pct(rt, 15) {
					what = gen.Pick(rt, "*", "%cc_library", "__pkg__", "fresh")
				}
				t := "//" + d + ":" + what
				switch {
				case gen.Pct(rt, 12):
					t = "//" + path.Join(d, "...") + ":" + gen.Pick(rt, "*", "%cc_library", what)
				case gen.Pct(rt, 5) && d != "":
					t = "//" + path.Join(d, "BUILD")
				case gen.Pct(rt, 3):
					t = "//zz:missing"
				}
				g.targets = append(g.targets, t)
			}
			groups = append(groups, g)
		}
		if gen.Pct(rt, 20) { // a statement is gone, then labels are compared
			d := files[gen.Int(rt, len(files))]
			tn := names[d][gen.Int(rt, len(names[d]))]
			x := gen.Pick(rt, "x", "a", "bar", "lib")
			groups = append(groups, group{[]string{"delete"}, []string{"//" + d + ":" + tn}},
				group{[]string{fmt.Sprintf("add deps %s //%s:%s //%s:new", gen.Pick(rt, ":", "//"+d+":")+x, d, x, d)}, []string{"//...:*"}},
				group{[]string{fmt.Sprintf("remove deps //%s:new %s%s", d, gen.Pick(rt, ":", "//"+d+":"), x)}, []string{"//...:" + gen.Pick(rt, "*", "%cc_library")}})
		}
		fl := flags{keepGoing: gen.Pct(rt, 40), numIO: 1 + gen.Int(rt, 8)}
		// the script
		var script strings.Builder
		var labels []string
		mode := gen.Int(rt, 5)
		if mode == 4 {
			groups = groups[:1]
		}
		if mode == 3 { // the same labels for all
			for i := range groups {
				groups[i].targets = groups[0].targets
			}
			labels = groups[0].targets
		}
		if mode == 3 {
			for i := range groups {
				groups[i].cmds = groups[i].cmds[:1] // `*` goes with one command
			}
		}
		lineOf := func(g group, star bool) string {
			var r []string
			for _, k := range g.cmds {
				r = append(r, escLine(k))
			}
			if star {
				r = append(r, "*")
			} else {
				r = append(r, g.targets...)
			}
			return strings.Join(r, "|")
		}
		for _, g := range groups {
			if gen.Pct(rt, 10) {
				script.WriteString(gen.Pick(rt, "\n", "# comment|x\n", "   \n", "  # x\n"))
			}
			if gen.Pct(rt, 10) {
				script.WriteString("  ")
			}
			script.WriteString(lineOf(g, mode == 3))
			script.WriteString(gen.Pick(rt, "\n", "\n", "\r\n", "  \n"))
		}
		c.Input(in.String())
		c.Part("mode %d, %s, labels %q, commands\n%s", mode, fl, labels, script.String())
		put := func() {
			for _, d := range files {
				w.put(path.Join(d, "BUILD"), text[d])
			}
		}
		contents := func() map[string]string {
			m := map[string]string{}
			for _, d := range files {
				m[d] = w.get(path.Join(d, "BUILD"))
			}
			return m
		}
		put()
		var res result
		one := fl
		one.json = true
		sc := strings.TrimSuffix(script.String(), "\n")
		switch {
		case mode == 4: // on the command line
			res = w.run(one, append(append([]string{}, groups[0].cmds...), groups[0].targets...)...)
		case mode == 2 && gen.Pct(rt, 4): // from standard input
			args := []string{"-f", "-", "-output_json", fmt.Sprintf("-numio=%d", fl.numIO), "-root_dir", w.dir}
			if fl.keepGoing {
				args = append(args, "-k")
			}
			c.Label("standard input")
			res = w.tool(bin, sc, args...)
		case mode == 1 && len(groups) > 1: // two files
			lines := strings.SplitAfter(sc, "\n")
			h := gen.Int(rt, len(lines))
			w.put("cmds1.txt", strings.Join(lines[:h], ""))
			w.put("cmds2.txt", strings.Join(lines[h:], ""))
			one.files = []string{w.path("cmds1.txt"), w.path("cmds2.txt")}
			res = w.run(one)
		default:
			w.put("cmds1.txt", sc)
			one.files = []string{w.path("cmds1.txt")}
			res = w.run(one, labels...)
		}
		got := contents()
		gotRec := map[string][]string{}
		for _, r := range decode(c, res.out).Records {
			p := "?"
			if len(r.Fields) == 3 && r.Fields[1].Text != nil {
				p = *r.Fields[1].Text
			}
			gotRec[p] = append(gotRec[p], fmt.Sprint(r.Fields))
		}
		// one run per file
		put()
		per := fl
		per.json, per.numIO = true, 1
		rcs := map[int]bool{}
		wantRec := map[string][]string{}
		missing := false
		for _, d := range files {
			var s strings.Builder
			for _, g := range groups {
				var ts []string
				for _, t := range g.targets {
					if strings.HasPrefix(t, "//zz") {
						missing = true
						continue
					}
					p, what, ok := strings.Cut(t[2:], ":")
					if !ok { // a file
						p, what = path.Dir(p), "__pkg__"
					}
					if b, ok := strings.CutSuffix(p, "..."); ok {
						b = strings.TrimSuffix(b, "/")
						if b != "" && d != b && !strings.HasPrefix(d, b+"/") {
							continue
						}
						p = d
					}
					if p == d {
						ts = append(ts, "//"+d+":"+what)
					}
				}
				if len(ts) > 0 {
					s.WriteString(lineOf(group{g.cmds, ts}, false) + "\n")
				}
			}
			if s.Len() == 0 {
				continue
			}
			w.put("cmds1.txt", s.String())
			per.files = []string{w.path("cmds1.txt")}
			r := w.run(per)
			rcs[r.rc] = true
			for _, r := range decode(c, r.out).Records {
				p := "?"
				if len(r.Fields) == 3 && r.Fields[1].Text != nil {
					p = *r.Fields[1].Text
				}
				wantRec[p] = append(wantRec[p], fmt.Sprint(r.Fields))
			}
		}
		want := contents()
		n := 0
		for _, d := range files {
			if got[d] != want[d] {
				c.Fail("%s: all at once (exit %d, %s)\n%s\n--- alone\n%s", path.Join(d, "BUILD"), res.rc, res.err, got[d], want[d])
			}
			if want[d] != text[d] {
				n++
			}
		}
		sort.Strings(gotRec["?"])
		sort.Strings(wantRec["?"])
		if fmt.Sprint(gotRec) != fmt.Sprint(wantRec) {
			c.Fail("records: all at once\n%v\n--- file by file\n%v", gotRec, wantRec)
		}
		rc := 0
		switch {
		case rcs[2] || missing:
			rc = 2
		case n > 0:
		case rcs[3]:
			rc = 3
		}
		if res.rc != rc {
			c.Fail("exit %d (%s), file by file %v (files changed: %d, missing file: %v)", res.rc, res.err, rcs, n, missing)
		}
		c.NonTrivial(n >= 2)
		c.Label([]string{"one script", "two scripts", "one script", "* labels", "command line"}[mode])
		c.Label(fmt.Sprintf("exit %d", rc))
	})
}

// setDump dumps a file ignoring order and duplicates of list elements.
func setDump(f *build.File) string {
	return astx.Dump(f, astx.Opt{String: func(s string) string { return norm(s, pkg) }, Override: func(e build.Expr, rec func(build.Expr) string) (string, bool) {
		l, ok := e.(*build.ListExpr)
		if !ok {
			return "", false
		}
		m := map[string]bool{}
		for _, x := range l.List {
			m[rec(x)] = true
		}
		return "[" + strings.Join(sortedKeys(m), " ") + "]", true
	}})
}

func TestC25_Order(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "sequences of 2..5 arbitrary commands on one rule, in one run and in one run each: the resulting files are equal up to order and duplicates of list elements. Non-trivial: at least two commands changed the file", 20000, 500000, func(rt *rapid.T, c *vk.Case) {
		text, names := buildFile(rt, func(g *bg) { g.comments = false; g.parens = true })
		p := w.path("a/b/BUILD")
		text = plain(c, p, text)
		f0 := parseBuild(c, p, text)
		tn := names[gen.Int(rt, len(names))]
		r := named(f0, tn)
		var attrs, lists []string
		if r != nil {
			for _, a := range r.attrs {
				if a.name != "name" {
					attrs = append(attrs, a.name)
				}
				if isListAttr(a.name) {
					lists = append(lists, a.name)
				}
			}
		}
		lists = append(lists, "deps", "tags")
		present := map[string][]string{}
		var ks []string
		for n := 2 + gen.Int(rt, 4); n > 0; n-- {
			var k cmd
			if gen.Pct(rt, 50) {
				k = listCmd(rt, lists, present, true)
			} else {
				k = anyCmd(rt, f0, names, attrs, present)
			}
			switch {
			case k[0] == "delete" || len(k) > 1 && (k[1] == "kind" || k[1] == "*"), k[0] == "format":
				continue
			}
			if len(k) > 2 && k[0] != "new" && k[0] != "new_load" && k[0] != "replace_load" {
				lists = append(lists, k[1])
			}
			ks = append(ks, k.line())
		}
		if len(ks) < 2 {
			c.Skip("too short")
		}
		tgt := "//a/b:" + tn
		c.Input(text)
		c.Part("buildozer %q %s", ks, tgt)
		// one by one; with -k, as a failing command does not stop separate runs
		w.put("a/b/BUILD", text)
		changes := 0
		cur := text
		fails := false
		var steps []string
		for _, k := range ks {
			res := w.run(flags{}, k, tgt)
			now := w.get("a/b/BUILD")
			if strings.Contains(res.err, "running buildifier") {
				c.Skip("a value is no valid expression, so the file can't be written")
			}
			if now != cur {
				changes++
			}
			fails = fails || res.rc == 2
			steps = append(steps, fmt.Sprintf("--- %s (exit %d)\n%s", k, res.rc, now))
			cur = now
		}
		w.put("a/b/BUILD", text)
		res := w.run(flags{keepGoing: true}, append(append([]string{}, ks...), tgt)...)
		now := w.get("a/b/BUILD")
		a, b := parseBuild(c, p, now), parseBuild(c, p, cur)
		if setDump(a) != setDump(b) {
			c.Fail("in one run (exit %d, %s):\n%s\none by one:\n%s", res.rc, res.err, now, strings.Join(steps, "\n"))
		}
		if fails != (res.rc == 2) {
			c.Fail("in one run: exit %d (%s); one by one a command failed: %v", res.rc, res.err, fails)
		}
		c.NonTrivial(changes >= 2)
	})
}
