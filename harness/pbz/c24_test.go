package pbz

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// a command with a known outcome
type known struct {
	k        cmd
	mark     string // attribute it sets on the target
	fails    bool
	readonly bool
	perFile  bool // does not need the target
	load     string
}

func drawKnown(rt *rapid.T, n int, names []string) known {
	mark := fmt.Sprintf("mark%d", n)
	switch gen.Int(rt, 16) {
	case 0, 1, 2, 3, 4:
		return known{k: cmd{"set", mark, "1"}, mark: mark}
	case 5:
		return known{k: cmd{"remove", "absent_attr"}}
	case 6:
		return known{k: cmd{"format"}, perFile: true}
	case 7:
		return known{k: cmd{"print", "name"}, readonly: true}
	case 8:
		return known{k: cmd{"print_comment"}, readonly: true}
	case 9:
		return known{k: cmd{"print_comment", "absent_attr"}, readonly: true, fails: true}
	case 10:
		return known{k: cmd{"rename", "absent_attr", "other"}, fails: true}
	case 11:
		return known{k: cmd{"substitute", "deps", "(", "x"}, fails: true}
	case 12:
		return known{k: cmd{"new", "my_rule", names[gen.Int(rt, len(names))]}, fails: true, perFile: true}
	case 13:
		return known{k: cmd{"copy", "deps", "no_such_rule"}, fails: true}
	case 14:
		l := fmt.Sprintf("sym%d", n)
		return known{k: cmd{"new_load", "//zz:zz.bzl", l}, perFile: true, load: l}
	default:
		return known{k: cmd{"use_repo_add", "x", "y"}, fails: true, perFile: true}
	}
}

func TestC24_Outcome(t *testing.T) {
	w := newWS(t)
	dirs := []string{"a/b", "c", "d", "e"}
	vk.Check(t, "generated runs over 1..3 files (valid, broken syntax, missing) with 1..5 commands each whose outcome is known (changing, without effect, read-only, failing in nine ways; existing and missing rules), with and without -k and -stdout; files written, contents, modification times, messages and exit code are compared with a model. Non-trivial: a run with a failing and a changing command", 40000, 1000000, func(rt *rapid.T, c *vk.Case) {
		fl := flags{keepGoing: gen.Pct(rt, 40), stdout: gen.Pct(rt, 12), numIO: 1 + gen.Int(rt, 3)}
		type fstate struct {
			rel, text    string
			bad, missing bool
			names        []string
			groups       [][]known
			targets      []string
		}
		var fs []*fstate
		var in strings.Builder
		nf := 1 + gen.Int(rt, 3)
		nmark := 0
		for _, d := range dirs {
			removeFile(w.path(d + "/BUILD"))
		}
		var script []string
		for i := 0; i < nf; i++ {
			f := &fstate{rel: dirs[i] + "/BUILD"}
			f.text, f.names = buildFile(rt, func(g *bg) { g.noSelect = true })
			p := w.path(f.rel)
			if gen.Pct(rt, 60) {
				f.text = plain(c, p, f.text)
			}
			switch gen.Int(rt, 12) {
			case 0:
				f.bad = true
				f.text += gen.Pick(rt, "\nfoo(\n", "\n)\n", "\nx = \"abc\n", "\n  y = 1\n")
			case 1:
				f.missing = true
			}
			if !f.missing {
				w.put(f.rel, f.text)
				old := time.Unix(1000000000, 0)
				os.Chtimes(p, old, old)
			}
			fmt.Fprintf(&in, "==== %s missing=%v\n%s", f.rel, f.missing, f.text)
			for g := 1 + gen.Int(rt, 2); g > 0; g-- {
				tn := f.names[gen.Int(rt, len(f.names))]
				if gen.Pct(rt, 10) {
					tn = "nonexistent"
				}
				var ks []known
				line := ""
				for n := 1 + gen.Int(rt, 3); n > 0; n-- {
					k := drawKnown(rt, nmark, f.names)
					nmark++
					ks = append(ks, k)
					line += k.k.line() + "|"
				}
				f.groups = append(f.groups, ks)
				f.targets = append(f.targets, tn)
				script = append(script, line+"//"+dirs[i]+":"+tn)
			}
			fs = append(fs, f)
		}
		c.Input(in.String())
		c.Part("buildozer %s with\n%s", fl, strings.Join(script, "\n"))
		w.put("cmds.txt", strings.Join(script, "\n"))
		fl.files = []string{w.path("cmds.txt")}
		res := w.run(fl)
		anyErr, anyMod, nonRO := false, false, false
		changing := false
		for i, f := range fs {
			p := w.path(f.rel)
			failed := f.bad || f.missing
			changed := false
			var marks, loads, records []string // "rule mark"
			for gi, ks := range f.groups {
				for _, k := range ks {
					nonRO = nonRO || !k.readonly
				}
				if f.bad || f.missing {
					continue
				}
				if failed && !fl.keepGoing {
					continue
				}
				has := contains(f.names, f.targets[gi])
				if !has {
					failed = true
					if !fl.keepGoing {
						continue
					}
				}
				for _, k := range ks {
					if !has && !k.perFile {
						continue
					}
					if k.fails {
						failed = true
						if !fl.keepGoing {
							break
						}
						continue
					}
					if k.mark != "" {
						marks = append(marks, f.targets[gi]+" "+k.mark)
						changed = true
					}
					if k.load != "" {
						loads = append(loads, k.load)
						changed = true
					}
					if k.k[0] == "format" {
						changed = true
					}
					if k.k[0] == "print" {
						records = append(records, f.targets[gi])
					}
				}
			}
			if failed && !fl.keepGoing {
				marks, loads, changed = nil, nil, false
			}
			changing = changing || len(marks)+len(loads) > 0
			anyErr = anyErr || failed
			now := w.get(f.rel)
			st, _ := os.Stat(p)
			touched := st != nil && st.ModTime().Unix() != 1000000000
			if f.missing {
				if st != nil {
					c.Fail("%s was created", f.rel)
				}
				continue
			}
			if failed && !fl.keepGoing || f.bad || fl.stdout || !changed && len(marks) == 0 {
				if now != f.text {
					// commands without effect may format the file, unless something failed
					if failed && !fl.keepGoing || f.bad || fl.stdout || now != plain(c, p, f.text) {
						c.Fail("%s must not change (failed: %v):\n%s", f.rel, failed, now)
					}
				}
			} else {
				g := parseBuild(c, p, now)
				var gotM []string
				for _, r := range rulesOf(g) {
					for _, a := range r.keys() {
						if strings.HasPrefix(a, "mark") {
							gotM = append(gotM, r.name+" "+a)
						}
					}
				}
				if fmt.Sprint(sortedCopy(gotM)) != fmt.Sprint(sortedCopy(marks)) {
					c.Fail("%s: set %q, expected %q\n%s", f.rel, gotM, marks, now)
				}
				for _, l := range loads {
					if !strings.Contains(now, fmt.Sprintf("%q", l)) {
						c.Fail("%s: %s is not loaded\n%s", f.rel, l, now)
					}
				}
				if now != plain(c, p, now) {
					c.Fail("%s was written without formatting:\n%s", f.rel, now)
				}
			}
			if now == f.text && touched {
				c.Fail("%s was rewritten with the same content", f.rel)
			}
			anyMod = anyMod || now != f.text
			if strings.Contains(res.err, "fixed "+p+"\n") != (now != f.text) {
				c.Fail("%s changed: %v, but stderr is %q", f.rel, now != f.text, res.err)
			}
			if failed != strings.Contains(res.err, p+": ") && !f.missing {
				c.Fail("%s failed: %v, but stderr is %q", f.rel, failed, res.err)
			}
			if fl.stdout && changed {
				// what would be written is printed
				w2 := strings.ReplaceAll(res.out, "\r", "")
				for _, m := range marks {
					if !strings.Contains(w2, strings.Fields(m)[1]+" = ") {
						c.Fail("%s is missing in the output of -stdout:\n%s", m, res.out)
					}
				}
			}
			for _, r := range records {
				if !strings.Contains(res.out, r+"\n") {
					c.Fail("%s: the name %s was not printed: %q", f.rel, r, res.out)
				}
			}
			_ = i
			c.Evals(1)
		}
		want := 0
		switch {
		case anyErr:
			want = 2
		case anyMod || fl.stdout:
		case nonRO:
			want = 3
		}
		if res.rc != want {
			c.Fail("exit %d, expected %d (errors: %v, files changed: %v)\nstderr %q", res.rc, want, anyErr, anyMod, res.err)
		}
		if anyErr != (strings.Count(res.err, ": ") > 0) {
			c.Fail("errors: %v, stderr %q", anyErr, res.err)
		}
		c.NonTrivial(anyErr && changing)
		c.Label(fmt.Sprintf("exit %d", res.rc))
		c.LabelIf(fl.keepGoing, "-k")
		c.LabelIf(fl.stdout, "-stdout")
	})
}

func sortedCopy(xs []string) []string {
	m := map[string]int{}
	for _, x := range xs {
		m[x]++
	}
	var r []string
	for _, x := range sortedKeys(m) {
		for i := 0; i < m[x]; i++ {
			r = append(r, x)
		}
	}
	return r
}

// tool runs the command line tool.
func (w *ws) tool(bin, stdin string, args ...string) result {
	cmd := exec.Command(bin, args...)
	cmd.Dir = w.dir
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	rc := 0
	if err != nil {
		rc = -1
		if ee, ok := err.(*exec.ExitError); ok {
			rc = ee.ExitCode()
		}
	}
	return result{rc, out.String(), errb.String()}
}

func TestC24_Tool(t *testing.T) {
	w := newWS(t)
	bin := vk.Bin(t, "buildozer")
	vk.Check(t, "the command line tool: files given on standard input ('-:rule'), usage errors (unknown or too few or too many arguments, missing command file, no arguments at all), against the same command on a file; stdin must give the same bytes on stdout and touch no file. Non-trivial: a change", 500, 20000, func(rt *rapid.T, c *vk.Case) {
		text, names := buildFile(rt, func(g *bg) { g.parens = true })
		removeFile(w.path("a/b/BUILD"))
		w.put("a/b/BUILD", text)
		c.Input(text)
		if gen.Pct(rt, 30) {
			tgt := "//a/b:" + names[0]
			args := [][]string{
				{"add deps", tgt}, {"delete now", tgt}, {"move deps srcs", tgt}, {"set", tgt}, {"new cc_library", tgt},
				{"new a b after c d", tgt}, {"rename a", tgt}, {"comment a b c d", tgt}, {"dict_replace_if_equal a b c", tgt},
				{"copy deps", tgt}, {"format x", tgt}, {""}, {" ", tgt}, {"set a 1", "add deps", tgt}, {"set a 1", tgt, ""},
				{"-no_such_flag", "set a 1", tgt}, {"-numio=0", "set a 1", tgt},
			}[gen.Int(rt, 17)]
			c.Part("buildozer %q", args)
			res := w.tool(bin, "", args...)
			if w.get("a/b/BUILD") != text {
				c.Fail("a usage error changed the file")
			}
			want := 1
			if args[0] == "-no_such_flag" { // the flag package decides
				want = 2
			}
			if res.rc != want || res.err == "" {
				c.Fail("exit %d, stderr %q; expected a usage error (%d)", res.rc, res.err, want)
			}
			c.Label("usage error")
			return
		}
		rule := names[gen.Int(rt, len(names))]
		if gen.Pct(rt, 15) {
			rule = gen.Pick(rt, "*", "%cc_library", "nonexistent", "__pkg__")
		}
		ks := []cmd{
			{"set", "mark", "1"}, {"add", "deps", ":new", "//c"}, {"remove", "deps"}, {"delete"}, {"new", "my_rule", "fresh"},
			{"new_load", ":q.bzl", "q"}, {"format"}, {"rename", "absent_attr", "x"}, {"comment", "hello"}, {"print", "name", "kind"},
		}
		k := ks[gen.Int(rt, len(ks))]
		c.Part("buildozer %q -:%s", k.line(), rule)
		if implicitOf(parseBuild(c, w.path("BUILD"), text), "") >= 0 {
			c.Skip("standard input has no directory to name a rule by")
		}
		// on a top-level file, as stdin has no package
		w.put("BUILD", text)
		std := w.tool(bin, text, k.line(), "-:"+rule)
		if w.get("BUILD") != text || w.get("a/b/BUILD") != text {
			c.Fail("a file was written for standard input")
		}
		if k[0] == "add" { // labels depend on the package
			return
		}
		ref := w.tool(bin, "", k.line(), "//:"+rule)
		now := w.get("BUILD")
		removeFile(w.path("BUILD"))
		if (std.rc == 2) != (ref.rc == 2) {
			c.Fail("exit %d (%s) on standard input, %d (%s) on a file", std.rc, std.err, ref.rc, ref.err)
		}
		if k[0] == "print" {
			if std.out != ref.out {
				c.Fail("standard input prints %q, a file %q", std.out, ref.out)
			}
			return
		}
		if ref.rc == 2 {
			if std.out != "" {
				c.Fail("output %q in spite of an error", std.out)
			}
			c.Label("error")
			return
		}
		if std.out != now && !(std.out == "" && now == text) {
			c.Fail("standard input gives\n%s\na file\n%s", std.out, now)
		}
		c.NonTrivial(now != text)
		// -stdout prints the same and leaves the file alone
		w.put("BUILD", text)
		so := w.tool(bin, "", "-stdout", k.line(), "//:"+rule)
		if w.get("BUILD") != text {
			c.Fail("-stdout changed the file")
		}
		removeFile(w.path("BUILD"))
		if so.rc != 0 || so.out != std.out {
			c.Fail("-stdout: exit %d, output\n%s\ninstead of\n%s", so.rc, so.out, std.out)
		}
	})
}

var _ = path.Join

// A command for several rules that works on some and fails on others.
func TestC24_Pattern(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated files of 2..5 rules with different attributes x 1..3 commands (rename, copy, set, new_load, print_comment) for a pattern (*, all, %kind) that fail on some of the rules, with and without -k and -stdout; the file must be untouched without -k, else the commands must have been applied where they work. Non-trivial: a command works on one rule and fails on a later one", 8000, 200000, func(rt *rapid.T, c *vk.Case) {
		fl := flags{keepGoing: gen.Pct(rt, 40), stdout: gen.Pct(rt, 8)}
		names := []string{"x0", "x1", "x2", "x3", "x4"}[:2+gen.Int(rt, 4)]
		kinds := map[string]string{}
		model := map[string]map[string]string{}
		var b strings.Builder
		for i, n := range names {
			kinds[n] = gen.Pick(rt, "foo", "bar")
			model[n] = map[string]string{}
			fmt.Fprintf(&b, "%s(\n    name = %q,\n", kinds[n], n)
			for _, a := range []string{"a", "b", "c"} {
				if gen.Pct(rt, 55) {
					model[n][a] = fmt.Sprint(i*10 + len(model[n]))
					fmt.Fprintf(&b, "    %s = %s,\n", a, model[n][a])
				}
			}
			b.WriteString(")\n\n")
		}
		text := b.String()
		w.put("a/b/BUILD", text)
		defer removeFile(w.path("a/b/BUILD"))
		c.Input(text)
		target := gen.Pick(rt, "*", "all", "%foo", "%bar")
		var lines []string
		failed, mixed := false, false
		for n := 1 + gen.Int(rt, 3); n > 0; n-- {
			at := func() string { return gen.Pick(rt, "a", "b", "c") }
			op, x, y := gen.Int(rt, 5), at(), at()
			from := names[gen.Int(rt, len(names))]
			switch op {
			case 0, 1:
				if x == y {
					y = "d"
				}
				lines = append(lines, "rename "+x+" "+y)
			case 2:
				lines = append(lines, "copy "+x+" "+from)
			case 3:
				lines = append(lines, "set "+x+" 7")
			case 4:
				lines = append(lines, "print_comment "+x)
			}
			worked := false
			for _, n := range names {
				if strings.HasPrefix(target, "%") && kinds[n] != target[1:] || failed && !fl.keepGoing {
					continue
				}
				m := model[n]
				fails := false
				switch op {
				case 0, 1:
					if fails = m[x] == "" || m[y] != ""; !fails {
						m[y] = m[x]
						delete(m, x)
					}
				case 2:
					if fails = model[from][x] == ""; !fails {
						m[x] = model[from][x]
					}
				case 3:
					m[x] = "7"
				case 4:
					fails = m[x] == ""
				}
				mixed = mixed || fails && worked
				worked = worked || !fails
				failed = failed || fails
			}
		}
		c.Part("buildozer %s %q //a/b:%s", fl, lines, target)
		res := w.run(fl, append(lines, "//a/b:"+target)...)
		now := w.get("a/b/BUILD")
		if failed != (res.rc == 2) {
			c.Fail("exit %d (%s), failed: %v", res.rc, res.err, failed)
		}
		if failed && !fl.keepGoing || fl.stdout {
			if now != text {
				c.Fail("the file changed (failed: %v):\n%s", failed, now)
			}
		} else {
			for _, r := range rulesOf(parseBuild(c, w.path("a/b/BUILD"), now)) {
				got := map[string]string{}
				for _, k := range r.keys() {
					if k != "name" {
						got[k] = build.FormatString(r.attr(k))
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(model[r.name]) {
					c.Fail("rule %s has attributes %v, expected %v:\n%s", r.name, got, model[r.name], now)
				}
			}
		}
		c.NonTrivial(mixed)
		c.LabelIf(failed, "failed")
		c.LabelIf(fl.keepGoing, "-k")
	})
}
