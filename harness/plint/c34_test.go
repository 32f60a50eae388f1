package plint

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

func show(f *warn.Finding) string {
	return fmt.Sprintf("%d:%d-%d:%d %s fix=%v %s %s", f.Start.Line, f.Start.LineRune, f.End.Line, f.End.LineRune, f.Category, f.AutoFixable, f.URL, f.Message)
}

func showAll(fs []*warn.Finding) []string {
	r := []string{}
	for _, f := range fs {
		r = append(r, show(f))
	}
	return r
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(none)", "(none)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("  one: %s\n  two: %s", x, y)
		}
	}
	return ""
}

func setup(rt *rapid.T, c *vk.Case) (text string, typ build.FileType, repo int) {
	typ = lintTypes[gen.Int(rt, len(lintTypes))]
	repo = gen.Int(rt, len(repoFiles))
	text = drawSource(rt, typ)
	c.Input(text)
	c.Part("type %v, repository %d", typ, repo)
	if _, err := lintFile(text, typ); err != nil {
		c.Skip("not accepted")
	}
	return
}

func lint(text string, typ build.FileType, cats []string, mode warn.LintMode, repo int) []*warn.Finding {
	f, err := lintFile(text, typ)
	if err != nil {
		panic(err)
	}
	return warn.FileWarnings(f, cats, nil, mode, reader(repo))
}

// TestC34_Lint: linting is total, repeatable, and independent between categories;
// findings are well formed, in order and inside the file.
func TestC34_Lint(t *testing.T) {
	known := map[string]bool{}
	for _, w := range warn.AllWarnings {
		known[w] = true
	}
	vk.Check(t, "programs made of the patterns the linter looks for (all categories, in functions, comprehensions, lambdas, loops and at top level, with and without loads, shadowing and comments) or arbitrary generated programs, for the 5 file types, in repositories with and without readable neighbours; category subsets; every set is linted twice and every category on its own; non-trivial: findings of at least two categories", 12000, 500000, func(rt *rapid.T, c *vk.Case) {
		text, typ, repo := setup(rt, c)
		cats := drawCats(rt)
		lines := strings.Split(text, "\n")
		one := lint(text, typ, cats, warn.ModeWarn, repo)
		two := lint(text, typ, cats, warn.ModeWarn, repo)
		if d := firstDiff(showAll(one), showAll(two)); d != "" {
			c.Fail("linting twice gives different findings:\n%s", d)
		}
		seen := map[string]bool{}
		want := map[string]bool{}
		for _, w := range cats {
			want[w] = true
		}
		for i, f := range one {
			seen[f.Category] = true
			if !known[f.Category] || !want[f.Category] {
				c.Fail("finding of a category that was not asked for: %s", show(f))
			}
			if f.Message == "" || !strings.Contains(f.URL, "#"+f.Category) || f.Replacement != nil {
				c.Fail("malformed finding: %s %v", show(f), f.Replacement)
			}
			if i > 0 && one[i-1].Start.Line > f.Start.Line {
				c.Fail("findings out of order:\n%s\n%s", show(one[i-1]), show(f))
			}
			for _, p := range []build.Position{f.Start, f.End} {
				if p.Line < 1 || p.Line > len(lines) || p.LineRune < 0 || p.LineRune > len([]rune(lines[p.Line-1]))+1 {
					c.Fail("position %d:%d is outside the file (%d lines): %s", p.Line, p.LineRune, len(lines), show(f))
				}
			}
			if f.End.Line < f.Start.Line || f.End.Line == f.Start.Line && f.End.LineRune < f.Start.LineRune {
				c.Fail("the finding ends before it starts: %s", show(f))
			}
		}
		// every category on its own finds the same
		var single []string
		for _, w := range cats {
			single = append(single, showAll(lint(text, typ, []string{w}, warn.ModeWarn, repo))...)
		}
		all := showAll(one)
		sort.Strings(single)
		sort.Strings(all)
		if d := firstDiff(all, single); d != "" {
			c.Fail("findings depend on which other categories run (all / alone):\n%s", d)
		}
		c.Evals(2 + len(cats))
		c.LabelIf(len(one) > 0, "findings")
		c.NonTrivial(len(seen) > 1)
	})
}

// TestC33_Warn: linting without fixing leaves the tree as it was.
func TestC33_Warn(t *testing.T) {
	vk.Check(t, "programs and categories as for C34; in warn mode the tree with all comments and positions is compared before and after, and the formatted file with that of an unlinted copy; in suggest mode the formatted file is compared, and every suggestion is applied to it and must give a file that parses and differs; non-trivial: there are findings with a fix", 20000, 700000, func(rt *rapid.T, c *vk.Case) {
		text, typ, repo := setup(rt, c)
		cats := drawCats(rt)
		parse := func() *build.File {
			f, err := lintFile(text, typ)
			if err != nil {
				panic(err)
			}
			return f
		}
		f := parse()
		before := deep(f)
		found := warn.FileWarnings(f, cats, nil, warn.ModeWarn, reader(repo))
		if after := deep(f); after != before {
			c.Fail("warn mode changed the tree (categories %v):\nbefore %s\nafter  %s", cats, cut(before, after), cut(after, before))
		}
		plain := string(build.Format(parse()))
		if got := string(build.Format(f)); got != plain {
			c.Fail("the linted file is formatted differently:\n%s\n--- instead of\n%s", got, plain)
		}
		c.Evals(2)
		fixable := 0
		for _, x := range found {
			if x.AutoFixable {
				fixable++
			}
		}
		if gen.Pct(rt, 40) {
			c.Evals(1)
			g := parse()
			// Without the formatted contents FileWarnings formats the tree itself, and formatting
			// the same tree again indents docstrings again.
			formatted, want := []byte(plain), plain
			given := &formatted
			if gen.Pct(rt, 50) {
				given = nil
				h := parse()
				build.Format(h)
				want = string(build.Format(h))
			}
			sug := warn.FileWarnings(g, cats, given, warn.ModeSuggest, reader(repo))
			if got := string(build.Format(g)); got != want {
				c.Fail("suggest mode changed the file:\n%s\n--- instead of\n%s", got, want)
			}
			if d := firstDiff(positions(found), positions(sug)); d != "" {
				// build.Format may rewrite the tree before the linter runs; the findings are
				// still the same where rewriting changes nothing
				c.Label("suggest findings differ")
			}
			for _, x := range sug {
				if (x.Replacement != nil) != x.AutoFixable {
					c.Fail("suggestion present %v for %s", x.Replacement != nil, show(x))
				}
				if x.Replacement == nil {
					continue
				}
				r := x.Replacement
				if r.Start < 0 || r.End < r.Start || r.End > len(plain) {
					c.Fail("suggestion outside the file: %d-%d of %d", r.Start, r.End, len(plain))
				}
				s := plain[:r.Start] + r.Content + plain[r.End:]
				if _, err := lintFile(s, typ); err != nil {
					c.Fail("the suggestion for %s does not parse: %v\n%s", show(x), err, s)
				}
			}
		}
		c.NonTrivial(fixable > 0)
	})
}

func positions(fs []*warn.Finding) []string {
	var r []string
	for _, f := range fs {
		r = append(r, fmt.Sprintf("%d %s", f.Start.Line, f.Category))
	}
	return r
}

// cut shows a where it starts to differ from b.
func cut(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-80, i+200
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return "..." + a[lo:hi] + "..."
}
