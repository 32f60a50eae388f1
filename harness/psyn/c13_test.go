// Package psyn checks the syntax-level libraries: labels, positions, tree
// traversal and rule accessors.
package psyn

import (
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/labels"
	"github.com/bazelbuild/buildtools/tables"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

type lab struct{ repo, pkg, target string }

func word(rt *rapid.T, extra string) string {
	if gen.Pct(rt, 70) {
		return gen.Pick(rt, "a", "b", "foo", "bar", "foo.bar", "a-b", "x_y", "A", "m4", "foo+", "é", "a.b.c", "1")
	}
	const cs = "abcXYZ019_.-+=,"
	set := cs + extra
	var b strings.Builder
	for n := 1 + gen.Int(rt, 4); n > 0; n-- {
		b.WriteByte(set[gen.Int(rt, len(set))])
	}
	s := b.String()
	if strings.Trim(s, ".") == "" {
		return "d" + s
	}
	return s
}

func drawPkg(rt *rapid.T) string {
	n := gen.Int(rt, 4)
	var p []string
	for ; n > 0; n-- {
		p = append(p, word(rt, "~@"))
	}
	s := strings.Join(p, "/")
	return strings.TrimLeft(s, "@~")
}

func drawLab(rt *rapid.T) lab {
	l := lab{pkg: drawPkg(rt)}
	if strings.HasPrefix(l.pkg, "/") || strings.Contains(l.pkg, "//") || strings.HasSuffix(l.pkg, "/") {
		l.pkg = "p"
	}
	if gen.Pct(rt, 40) {
		l.repo = strings.Trim(word(rt, "~"), ".")
	}
	switch gen.Int(rt, 5) {
	case 0:
		l.target = l.pkg[strings.LastIndexByte(l.pkg, '/')+1:]
	case 1:
		l.target = l.repo
	case 2:
		l.target = word(rt, "") + "/" + word(rt, "")
	default:
		l.target = word(rt, "@~ ")
	}
	if l.target == "" {
		l.target = "t"
	}
	return l
}

// spellings lists the ways to write l in package pkg.
func (l lab) spellings(pkg string) (r []string) {
	p := ""
	if l.repo != "" {
		p = "@" + l.repo
		if l.pkg == "" && l.repo == l.target {
			r = append(r, p)
		}
	}
	r = append(r, p+"//"+l.pkg+":"+l.target)
	if l.pkg != "" && l.target == l.pkg[strings.LastIndexByte(l.pkg, '/')+1:] {
		r = append(r, p+"//"+l.pkg)
	}
	if l.repo == "" && l.pkg == pkg {
		r = append(r, ":"+l.target)
		if !strings.HasPrefix(l.target, "@") {
			r = append(r, l.target)
		}
	}
	return
}

func conv(l labels.Label) lab { return lab{l.Repository, l.Package, l.Target} }

// TestC13_Laws: parsing, formatting, shortening and comparing well-formed labels.
func TestC13_Laws(t *testing.T) {
	vk.Check(t, "pairs of (repository, package, target) triples over label characters incl. package-named and repository-named targets, in every spelling, relative to the own, another or the root package; non-trivial: the two labels are related (same target, or equal in two components)", 300000, 20000000, func(rt *rapid.T, c *vk.Case) {
		a := drawLab(rt)
		b := drawLab(rt)
		switch gen.Int(rt, 6) {
		case 0, 1:
			b = a
		case 2:
			b.repo, b.pkg = a.repo, a.pkg
		case 3:
			b.pkg, b.target = a.pkg, a.target
		}
		pkg := a.pkg
		switch gen.Int(rt, 4) {
		case 0:
			pkg = drawPkg(rt)
		case 1:
			pkg = ""
		}
		sa, sb := a.spellings(pkg), b.spellings(pkg)
		x, y := sa[gen.Int(rt, len(sa))], sb[gen.Int(rt, len(sb))]
		c.Input(x + "\n" + y + "\nin package " + pkg)
		c.NonTrivial(a == b || a.pkg == b.pkg)
		abs := func(s string) bool { return strings.HasPrefix(s, "@") || strings.HasPrefix(s, "//") }

		if got := conv(labels.ParseRelative(x, pkg)); got != a {
			c.Fail("%q parses to %q instead of %q", x, got, a)
		}
		if abs(x) {
			if got := conv(labels.Parse(x)); got != a {
				c.Fail("%q parses to %q instead of %q", x, got, a)
			}
		}
		l := labels.Label{Repository: a.repo, Package: a.pkg, Target: a.target}
		s := l.Format()
		if conv(labels.Parse(s)) != a {
			c.Fail("%q is formatted as %q, which is %q", a, s, conv(labels.Parse(s)))
		}
		for _, sp := range sa {
			if abs(sp) && len(sp) < len(s) {
				c.Fail("%q is formatted as %q, but %q is shorter", a, s, sp)
			}
		}
		rel := l.FormatRelative(pkg)
		if conv(labels.ParseRelative(rel, pkg)) != a {
			c.Fail("%q relative to %q is formatted as %q, which is %q", a, pkg, rel, conv(labels.ParseRelative(rel, pkg)))
		}
		sh := labels.Shorten(x, pkg)
		if conv(labels.ParseRelative(sh, pkg)) != a {
			c.Fail("%q shortened in %q is %q, another target", x, pkg, sh)
		}
		if len(sh) > len(x) {
			c.Fail("%q shortened in %q is longer: %q", x, pkg, sh)
		}
		if again := labels.Shorten(sh, pkg); again != sh {
			c.Fail("%q shortened in %q is %q, then %q", x, pkg, sh, again)
		}
		if abs(x) && a.repo == "" && a.pkg == pkg && sh != ":"+a.target {
			c.Fail("%q shortened in its own package is %q", x, sh)
		}
		if labels.Equal(x, y, pkg) != (a == b) || labels.Equal(y, x, pkg) != (a == b) {
			c.Fail("Equal(%q, %q, %q) is %v", x, y, pkg, labels.Equal(x, y, pkg))
		}
		if !labels.Equal(x, sh, pkg) || !edit.LabelsEqual(x, sh, pkg) {
			c.Fail("%q and its short form %q are not equal in %q", x, sh, pkg)
		}
		r1, p1, t1 := edit.ParseLabel(x)
		if abs(x) && (lab{r1, p1, t1}) != a {
			c.Fail("edit.ParseLabel(%q) is %q", x, []string{r1, p1, t1})
		}
		if e := edit.ShortenLabel(x, pkg); conv(labels.ParseRelative(e, pkg)) != a || e != sh && e != x {
			c.Fail("edit.ShortenLabel(%q, %q) is %q", x, pkg, e)
		}
		_ = tables.IsLabelArg
		c.LabelIf(a.repo != "", "external")
		c.LabelIf(a == b, "same")
		c.LabelIf(a.pkg == pkg, "own package")
	})
}

// TestC13_Total: any string at all is parsed, shortened and compared consistently.
func TestC13_Total(t *testing.T) {
	vk.Check(t, "arbitrary strings biased to @ / : and letters, arbitrary packages; non-trivial: contains at least two of the separators", 200000, 10000000, func(rt *rapid.T, c *vk.Case) {
		draw := func() string {
			var b strings.Builder
			for n := gen.Int(rt, 9); n > 0; n-- {
				b.WriteString(gen.Pick(rt, "@", "/", "//", ":", "a", "b", ".", "a/b", " ", "é", "\x00", "..", "a"))
			}
			return b.String()
		}
		x, y, pkg := draw(), draw(), strings.Trim(draw(), "/:@")
		c.Input(x + "\n" + y + "\n" + pkg)
		c.NonTrivial(strings.Count(x, "/")+strings.Count(x, ":")+strings.Count(x, "@") > 1)
		l := labels.Parse(x)
		s := l.Format()
		if abs := strings.HasPrefix(x, "@") || strings.HasPrefix(x, "//"); abs {
			if z := labels.Parse(s).Format(); z != s {
				c.Fail("%q is formatted as %q and then as %q", x, s, z)
			}
		} else {
			if sh := labels.Shorten(x, pkg); sh != x {
				c.Fail("%q, not an absolute label, is shortened to %q", x, sh)
			}
		}
		sh := labels.Shorten(x, pkg)
		if z := labels.Shorten(sh, pkg); z != sh {
			c.Fail("%q shortens to %q and then to %q", x, sh, z)
		}
		if !labels.Equal(x, x, pkg) || labels.Equal(x, y, pkg) != labels.Equal(y, x, pkg) {
			c.Fail("Equal is not an equivalence on %q %q in %q", x, y, pkg)
		}
		if labels.Equal(x, y, pkg) != (labels.ParseRelative(x, pkg) == labels.ParseRelative(y, pkg)) {
			c.Fail("Equal(%q, %q, %q) disagrees with ParseRelative", x, y, pkg)
		}
	})
}
