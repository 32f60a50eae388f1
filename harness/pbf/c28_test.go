package pbf

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

func TestC28_Modes(t *testing.T) {
	d := newDir(t)
	vk.Check(t, "1..4 (sometimes up to 25) files of all kinds of names, many already formatted x -type, -lint off or warn, -v, -path: check (plain, text, JSON), diff (several commands, with and without -multi_diff), print_if_changed, standard input, fix and fix again, all compared with the files' formatted contents; nothing but fix writes, and fix writes changed files only. Non-trivial: some file is changed", 900, 40000, func(rt *rapid.T, c *vk.Case) {
		d.clear()
		if gen.Pct(rt, 50) {
			d.put("WORKSPACE.bazel", "")
		}
		typ, lint := "", ""
		if gen.Pct(rt, 30) {
			typ = gen.Pick(rt, "build", "bzl", "workspace", "default", "module", "auto")
		}
		var flags []string
		if typ != "" {
			flags = append(flags, "-type="+typ)
		}
		if gen.Pct(rt, 40) {
			lint = gen.Pick(rt, "off", "warn")
			flags = append(flags, "-lint="+lint)
		}
		n := 1 + gen.Int(rt, 4)
		if gen.Pct(rt, 6) {
			n = 11 + gen.Int(rt, 15)
		}
		start := gen.Int(rt, len(names))
		var fs []string
		text, want := map[string]string{}, map[string]string{}
		var in strings.Builder
		var changed []string
		for i := 0; i < n; i++ {
			name := names[(start+i)%len(names)]
			if i >= len(names) {
				name = fmt.Sprintf("more%d/BUILD", i)
			}
			tx := draw(rt, name)
			w, err := formatted(typ, name, tx)
			if err != nil {
				tx, w = "x = 1\n", "x = 1\n"
			} else if gen.Pct(rt, 40) {
				tx = w
				if w, err = formatted(typ, name, tx); err != nil {
					c.Fail("the formatted file is no valid file: %v\n%s", err, tx)
				}
			}
			fs = append(fs, name)
			text[name], want[name] = tx, w
			if tx != w {
				changed = append(changed, name)
			}
			d.put(name, tx)
			fmt.Fprintf(&in, "==== %s\n%s", name, tx)
		}
		c.Input(in.String())
		c.Part("buildifier %q", flags)
		c.NonTrivial(len(changed) > 0)
		c.Evals(10)
		args := func(more ...string) []string {
			return append(append(append([]string{}, flags...), more...), fs...)
		}
		for _, f := range fs {
			d.age(f)
		}
		unchanged := func(what string) {
			for _, f := range fs {
				if d.get(f) != text[f] || d.touched(f) {
					c.Fail("%s has written %s:\n%s", what, f, d.get(f))
				}
			}
			if l := d.left(); len(l) > 0 {
				c.Fail("%s leaves temporary files %q", what, l)
			}
		}
		// check
		res := d.run("", args("-mode=check")...)
		var reformat []string
		warnings := 0
		for _, l := range lines(res.err) {
			if x, ok := strings.CutSuffix(l, " # reformat"); ok {
				reformat = append(reformat, x)
			} else {
				warnings++
			}
		}
		if lint != "warn" && warnings > 0 {
			c.Fail("check: %s", res.err)
		}
		wantRC := 0
		if len(changed) > 0 || warnings > 0 {
			wantRC = 4
		}
		lintRC := 0
		if warnings > 0 {
			lintRC = 4
		}
		if fmt.Sprint(reformat) != fmt.Sprint(changed) || res.rc != wantRC || res.out != "" {
			c.Fail("check: exit %d, reports %q, prints %q; expected exit %d and %q\n%s", res.rc, reformat, res.out, wantRC, changed, res.err)
		}
		unchanged("check")
		plain := res.err
		res = d.run("", args("-mode=check", "-format=text")...)
		if res.out != plain || res.rc != 0 || res.err != "" {
			c.Fail("check -format=text: exit %d, prints\n%s%s\nexpected\n%s", res.rc, res.out, res.err, plain)
		}
		js := args("-mode=check", "-format=json")
		if gen.Pct(rt, 50) {
			js = args("-mode=check", "-format=json", "-v")
		}
		res = d.run("", js...)
		dg := decode(c, res.out)
		if res.rc != 0 || len(dg.Files) != len(fs) || dg.Success != (wantRC == 0) {
			c.Fail("%q: exit %d\n%s%s", js, res.rc, res.out, res.err)
		}
		nw := 0
		for i, f := range dg.Files {
			if f.Filename != fs[i] || !f.Valid || f.Formatted != (text[fs[i]] == want[fs[i]]) {
				c.Fail("%q: file %d is %v, expected %s, formatted: %v", js, i, f, fs[i], text[fs[i]] == want[fs[i]])
			}
			nw += len(f.Warnings)
		}
		if (nw > 0) != (warnings > 0) {
			c.Fail("%d warnings in JSON, %d lines in the text\n%s\n%s", nw, warnings, res.out, plain)
		}
		unchanged("check -format")
		// diff
		switch gen.Int(rt, 4) {
		case 0: // the default
			res = d.run("", args(gen.Pick(rt, "-d", "-mode=diff"))...)
			got := 0
			for _, l := range lines(res.out) {
				if x, ok := strings.CutPrefix(l, "--- "); ok && strings.Contains(x, "\t") {
					got++
				}
			}
			if (got == 0) != (len(changed) == 0) || got < len(changed) || len(changed) == 0 && (res.rc != lintRC || res.out != "") || len(changed) > 0 && res.rc != 4 {
				c.Fail("diff: exit %d, expected changes of %q\n%s", res.rc, changed, res.out)
			}
		case 1: // print old and new contents
			res = d.run("", args("-mode=diff", "-diff_command=cat")...)
			w := ""
			for _, f := range changed {
				w += text[f] + want[f]
			}
			if res.out != w || res.rc != lintRC {
				c.Fail("diff: exit %d, prints\n%s\nexpected\n%s\n%s", res.rc, res.out, w, res.err)
			}
			if n > 1 && lint != "warn" {
				w := ""
				for _, f := range changed {
					w += f + ":\n"
				}
				if res.err != w {
					c.Fail("diff: prints %q, expected %q", res.err, w)
				}
			}
		case 2:
			res = d.run("", args("-mode=diff", "-multi_diff", `-diff_command=for f in "$@"; do if [ "$f" = : ]; then echo =====; else cat "$f"; fi; done; true`)...)
			w := ""
			for _, f := range changed {
				w += "=====\n" + text[f] + want[f]
			}
			if res.out != w || res.rc != lintRC {
				c.Fail("diff: exit %d, prints\n%s\nexpected\n%s\n%s", res.rc, res.out, w, res.err)
			}
		default:
			res = d.run("", args("-mode=diff", "-diff_command=:")...)
			if res.out != "" || res.rc != lintRC {
				c.Fail("diff: exit %d, prints\n%s%s", res.rc, res.out, res.err)
			}
		}
		unchanged("diff")
		one := fs[gen.Int(rt, len(fs))]
		exit := func(f string) int { // of lint
			for i := range fs {
				if fs[i] == f && len(dg.Files[i].Warnings) > 0 {
					return 4
				}
			}
			return 0
		}
		// print_if_changed
		res = d.run("", append(append([]string{}, flags...), "-mode=print_if_changed", one)...)
		w := ""
		if want[one] != text[one] {
			w = want[one]
		}
		if res.out != w || res.rc != exit(one) {
			c.Fail("print_if_changed %s: exit %d, prints\n%s\nexpected exit %d and\n%s\n%s", one, res.rc, res.out, exit(one), w, res.err)
		}
		unchanged("print_if_changed")
		// standard input
		dash := []string{}
		if gen.Pct(rt, 30) {
			dash = []string{"-"}
		}
		in1 := append(append([]string{}, flags...), "-path="+one)
		res = d.run(text[one], append(in1, dash...)...)
		if res.out != want[one] || res.rc != exit(one) {
			c.Fail("standard input for %s: exit %d, prints\n%s\nexpected\n%s\n%s", one, res.rc, res.out, want[one], res.err)
		}
		res = d.run(text[one], append(append([]string{}, in1...), "-mode=check", "-format=json")...)
		if x := decode(c, res.out); len(x.Files) != 1 || x.Files[0].Formatted != (text[one] == want[one]) || x.Files[0].Filename != one || res.rc != 0 {
			c.Fail("standard input for %s, check: exit %d\n%s", one, res.rc, res.out)
		}
		res = d.run(text[one], append(append([]string{}, in1...), "-mode=print_if_changed")...)
		if res.out != w || res.rc != exit(one) {
			c.Fail("standard input for %s, print_if_changed: exit %d, prints\n%s\nexpected\n%s", one, res.rc, res.out, w)
		}
		res = d.run(text[one], append(append([]string{}, in1...), "-mode=diff", "-diff_command=cat")...)
		w2 := ""
		if w != "" {
			w2 = text[one] + w
		}
		if res.out != w2 || res.rc != exit(one) {
			c.Fail("standard input for %s, diff: exit %d, prints\n%s\nexpected\n%s", one, res.rc, res.out, w2)
		}
		unchanged("standard input")
		if gen.Pct(rt, 40) { // a copy of the file elsewhere
			d.put("copy.txt", text[one])
			res = d.run("", append(in1, "copy.txt")...)
			if x := d.get("copy.txt"); x != want[one] || res.rc != exit(one) || res.out != "" {
				c.Fail("copy of %s with -path: exit %d\n%s\nexpected\n%s\n%s", one, res.rc, x, want[one], res.err)
			}
			unchanged("fix of a copy")
		}
		// fix
		fix := args("-v")
		if gen.Pct(rt, 50) {
			fix = args("-v", "-mode=fix")
		}
		abs := gen.Pct(rt, 20) && lint != "warn"
		if abs {
			for i := len(fix) - len(fs); i < len(fix); i++ {
				fix[i] = filepath.Join(d.dir, fix[i])
			}
		}
		res = d.run("", fix...)
		var fixed []string
		for _, l := range lines(res.err) {
			if x, ok := strings.CutPrefix(l, "fixed "); ok {
				fixed = append(fixed, strings.TrimPrefix(x, d.dir+"/"))
			}
		}
		if fmt.Sprint(fixed) != fmt.Sprint(changed) || res.rc != lintRC || res.out != "" {
			c.Fail("fix: exit %d, fixed %q, expected exit %d and %q\n%s%s", res.rc, fixed, lintRC, changed, res.out, res.err)
		}
		for _, f := range fs {
			if d.get(f) != want[f] {
				c.Fail("fix: %s is\n%s\nexpected\n%s", f, d.get(f), want[f])
			}
			if text[f] == want[f] && d.touched(f) {
				c.Fail("fix has written %s again", f)
			}
			text[f] = want[f]
			d.age(f)
		}
		res = d.run("", args("-v")...)
		if strings.Contains(res.err, "fixed ") {
			c.Fail("fixed twice: %s", res.err)
		}
		unchanged("fix twice")
		c.LabelIf(n > 10, "many files")
		c.LabelIf(warnings > 0, "warnings")
	})
}

func TestC28_Fix(t *testing.T) {
	d := newDir(t)
	vk.Check(t, "one file x -lint=fix with some warnings: fixing the file, standard input with -path and -mode=fix agree. Non-trivial: the fix differs from plain formatting", 3000, 100000, func(rt *rapid.T, c *vk.Case) {
		d.clear()
		d.put("MODULE.bazel", "")
		name := names[gen.Int(rt, len(names))]
		tx := draw(rt, name)
		plain, err := formatted("", name, tx)
		if err != nil {
			c.Skip("rejected")
		}
		flags := []string{"-lint=fix"}
		if gen.Pct(rt, 60) {
			flags = append(flags, "-warnings="+gen.Pick(rt, "all", "load", "load,unused-variable", "-load", "+native-build", "constant-glob,dict-concatenation,integer-division", "attr-cfg,print"))
		}
		c.Input(tx)
		c.Part("buildifier %q %s", flags, name)
		res := d.run(tx, append(append([]string{}, flags...), "-path="+name)...)
		d.put(name, tx)
		d.age(name)
		res2 := d.run("", append(append([]string{}, flags...), name)...)
		got := d.get(name)
		if res.out != got || res.rc != res2.rc || res2.out != "" {
			c.Fail("fix: exit %d\n%s\nstandard input: exit %d\n%s\n%s", res2.rc, got, res.rc, res.out, res.err)
		}
		if d.touched(name) != (got != tx) {
			c.Fail("written: %v, different: %v", d.touched(name), got != tx)
		}
		c.NonTrivial(got != plain)
	})
}
