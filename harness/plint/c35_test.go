package plint

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// categories whose findings are fixed one by one
var single = map[string]bool{"attr-cfg": true, "attr-non-empty": true, "attr-single-file": true, "ctx-actions": true, "ctx-args": true, "depset-iteration": true,
	"integer-division": true, "list-append": true, "native-build": true, "output-group": true, "package-name": true, "repository-name": true}

// addComment puts a comment on one line of the text: behind it, or on a line of
// its own before it (indented like it).
func addComment(rt *rapid.T, text string, line int, own bool, comment string) string {
	lines := strings.Split(text, "\n")
	l := lines[line]
	if own {
		ind := l[:len(l)-len(strings.TrimLeft(l, " "))]
		lines[line] = ind + comment + "\n" + l
	} else if strings.Contains(l, "#") {
		lines[line] = l + " " + comment
	} else {
		lines[line] = l + "  " + comment
	}
	return strings.Join(lines, "\n")
}

// attached returns the line ranges of the nodes that carry a comment with the text.
func attached(f *build.File, marker string) (ranges [][2]int) {
	astx.Each(f, func(e build.Expr) {
		if astx.IsNil(e) {
			return
		}
		cs := e.Comment()
		hit := false
		for _, l := range [][]build.Comment{cs.Before, cs.Suffix, cs.After} {
			for _, c := range l {
				if strings.Contains(c.Token, marker) {
					hit = true
				}
			}
		}
		if !hit {
			return
		}
		s, end := e.Span()
		lo, hi := s.Line, end.Line
		for _, c := range cs.Before {
			lo = min(lo, c.Start.Line)
		}
		for _, c := range cs.After {
			hi = max(hi, c.Start.Line)
		}
		ranges = append(ranges, [2]int{lo, hi})
	})
	return
}

// TestC35_Disable: a disabling comment removes the findings of its category in
// what it is attached to, nothing else, and keeps them from being fixed.
func TestC35_Disable(t *testing.T) {
	vk.Check(t, "programs as for C34 with one 'buildifier: disable=CATEGORY' or 'buildozer: disable=CATEGORY' comment (alone or followed by or behind other text, for the category of some finding, for one with a longer or shorter name, or for another), put behind or above any line, mostly near a finding; the reference is the same file with the word 'disable' replaced, without the findings of the category on the lines spanned by the nodes that carry the comment; then all findings are fixed: suppressed ones must still be there; non-trivial: a finding is suppressed", 30000, 1200000, func(rt *rapid.T, c *vk.Case) {
		typ := lintTypes[gen.Int(rt, len(lintTypes))]
		repo := gen.Int(rt, len(repoFiles))
		text := program(rt, typ, nil)
		c.Input(text)
		if _, err := lintFile(text, typ); err != nil {
			c.Skip("not accepted")
		}
		base := lint(text, typ, warn.AllWarnings, warn.ModeWarn, repo)
		var cat string
		line := gen.Int(rt, strings.Count(text, "\n"))
		if len(base) > 0 && !gen.Pct(rt, 10) {
			f := base[gen.Int(rt, len(base))]
			cat = f.Category
			// prefer rare categories
			for i := 0; i < 3 && (cat == "unused-variable" || cat == "load" || cat == "confusing-name"); i++ {
				f = base[gen.Int(rt, len(base))]
				cat = f.Category
			}
			if gen.Pct(rt, 80) {
				line = f.Start.Line - 1
				if gen.Pct(rt, 20) && line > 0 {
					line--
				}
			}
		} else {
			cat = warn.AllWarnings[gen.Int(rt, len(warn.AllWarnings))]
		}
		named := cat
		switch gen.Int(rt, 12) {
		case 0:
			named = cat + gen.Pick(rt, "s", "-2", "-info", "_x", "1")
		case 1:
			named = cat[:len(cat)-1]
		case 2:
			named = warn.AllWarnings[gen.Int(rt, len(warn.AllWarnings))]
		}
		tool := gen.Pick(rt, "buildifier", "buildozer")
		comment := func(word string) string {
			return fmt.Sprintf("# %s: %s=%s", tool, word, named)
		}
		pre, post := "", ""
		switch gen.Int(rt, 5) {
		case 0:
			post = gen.Pick(rt, " because", ", really", " (x)", ":")
		case 1:
			pre = "# see "
		}
		own := gen.Pct(rt, 50)
		marked := addComment(rt, text, line, own, pre+comment("disable")+post)
		// the comment itself must not mention the old name of the language in the reference
		neutral := addComment(rt, text, line, own, pre+strings.Replace(comment("ignored"), "skylark", "starlark", 1)+post)
		c.Input(marked)
		c.Part("type %v, repository %d, line %d", typ, repo, line+1)
		mf, err := lintFile(marked, typ)
		if err != nil || strings.Count(strings.Join(astx.AllComments(mf), "\n"), comment("disable")) != 1 {
			c.Skip("not a comment there")
		}
		nf, err := lintFile(neutral, typ)
		if err != nil {
			c.Skip("not a comment there")
		}
		ranges := attached(mf, comment("disable"))
		want := []string{}
		suppressed, fixSuppressed, others := 0, 0, 0
		for _, x := range warn.FileWarnings(nf, warn.AllWarnings, nil, warn.ModeWarn, reader(repo)) {
			hit := false
			for _, r := range ranges {
				if x.Category == named && x.Start.Line >= r[0] && x.Start.Line <= r[1] {
					hit = true
				}
			}
			if hit {
				suppressed++
				if x.AutoFixable {
					fixSuppressed++
				}
				continue
			}
			if x.Category == named && (x.AutoFixable || !single[named]) {
				others++
			}
			want = append(want, show(x))
		}
		mfind := warn.FileWarnings(mf, warn.AllWarnings, nil, warn.ModeWarn, reader(repo))
		// the comment cannot change anything but the findings of its category, except that
		// the load fix leaves out symbols marked themselves
		got := showAll(mfind)
		selfReport := strings.HasPrefix(named, "skylark") && named != "skylark-comment"
		if selfReport {
			// the comment itself mentions the word
			want, got = without(want, " skylark-comment "), without(got, " skylark-comment ")
		}
		if d := firstDiff(unfix(want), unfix(got)); d != "" {
			c.Fail("%s on nodes of lines %v: expected / found\n%s", comment("disable"), ranges, d)
		}
		c.Evals(1)
		c.LabelIf(suppressed > 0, named)
		c.NonTrivial(suppressed > 0)
		if suppressed == 0 || selfReport {
			return
		}
		// fixing
		known := false
		for _, w := range warn.AllWarnings {
			known = known || w == named
		}
		if !known {
			return
		}
		fix := func(s string) string {
			f, err := lintFile(s, typ)
			if err != nil {
				panic(err)
			}
			warn.FixWarnings(f, []string{named}, false, reader(repo))
			return string(build.FormatWithoutRewriting(f))
		}
		fixed := fix(marked)
		c.Evals(1)
		if others == 0 {
			f, _ := lintFile(marked, typ)
			if s := string(build.FormatWithoutRewriting(f)); s != fixed {
				c.Fail("all findings are suppressed, but fixing changes the file to\n%s\n--- from\n%s", fixed, s)
			}
		}
		if single[named] {
			left := 0
			for _, x := range lint(strings.Replace(fixed, comment("disable"), comment("ignored"), 1), typ, []string{named}, warn.ModeWarn, repo) {
				if x.AutoFixable {
					left++
				}
			}
			if left != fixSuppressed {
				c.Fail("%d findings with a fix were suppressed, but %d are left after fixing:\n%s", fixSuppressed, left, fixed)
			}
			c.LabelIf(others > 0, "others fixed")
		}
	})
}

// unfix leaves out whether a finding can be fixed.
func unfix(l []string) []string {
	var r []string
	for _, s := range l {
		r = append(r, strings.NewReplacer("fix=true", "", "fix=false", "").Replace(s))
	}
	return r
}

func without(l []string, sub string) []string {
	var r []string
	for _, s := range l {
		if !strings.Contains(s, sub) {
			r = append(r, s)
		}
	}
	return r
}
