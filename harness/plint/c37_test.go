package plint

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

type loadedSym struct {
	from, to string
	mark     string // "", "unused" or "disable"
	tag      string
}

type loadSt struct {
	module string
	syms   []loadedSym
	mark   string
	tag    string
	line   int
	lines  []int // of the symbols
}

func (l loadSt) text(at int) (string, []int) {
	var b strings.Builder
	marks := map[string]string{"unused": " @unused", "disable": " buildifier: disable=load", "": ""}
	if l.tag != "" {
		b.WriteString("# " + l.tag + marks[l.mark] + "\n")
		at++
	}
	multi := false
	for _, s := range l.syms {
		multi = multi || s.tag != ""
	}
	var lines []int
	b.WriteString("load(")
	sep, first := ", ", ""
	if multi {
		sep, first = "\n    ", "\n    "
	}
	b.WriteString(first + `"` + l.module + `"`)
	if multi {
		b.WriteString(",")
		at++
	}
	for _, s := range l.syms {
		b.WriteString(sep)
		if multi {
			at++
		}
		lines = append(lines, at)
		if s.from == s.to {
			b.WriteString(`"` + s.to + `"`)
		} else {
			b.WriteString(s.to + ` = "` + s.from + `"`)
		}
		if multi {
			b.WriteString(",")
			if s.tag != "" {
				b.WriteString("  # " + s.tag + marks[s.mark])
			}
		}
	}
	if multi {
		b.WriteString("\n")
	}
	b.WriteString(")\n")
	return b.String(), lines
}

func (l loadSt) String() string {
	var p []string
	for _, s := range l.syms {
		p = append(p, s.to+"="+s.from)
	}
	sort.Strings(p)
	return l.module + " " + strings.Join(p, " ")
}

func showLoads(ls []loadSt) string {
	var r []string
	for _, l := range ls {
		r = append(r, l.String())
	}
	return strings.Join(r, "\n")
}

type origin struct{ module, from string }

// lintLoads says which symbols the linter reports ("line name kind") and what
// remains when the fix is applied once.
func lintLoads(ls []loadSt, used map[string]bool) (found []string, rest []loadSt) {
	seen := map[string]origin{}
	for _, l := range ls {
		keep := l
		keep.syms, keep.lines = nil, nil
		for i, s := range l.syms {
			old, dup := seen[s.to]
			seen[s.to] = origin{l.module, s.from}
			why := ""
			switch {
			case l.mark == "disable" || s.mark == "disable":
			case dup && old == origin{l.module, s.from}:
				why = "already"
			case dup:
				found = append(found, fmt.Sprintf("%d %s different", l.lines[i], s.to))
			case !used[s.to] && l.mark != "unused" && s.mark != "unused":
				why = "unused"
			}
			if why == "" {
				keep.syms = append(keep.syms, s)
				keep.lines = append(keep.lines, l.lines[i])
			} else {
				found = append(found, fmt.Sprintf("%d %s %s", l.lines[i], s.to, why))
			}
		}
		if len(keep.syms) > 0 {
			rest = append(rest, keep)
		}
	}
	sort.Strings(found)
	return found, rest
}

// ozLoads is buildozer's fix.
func ozLoads(ls []loadSt, used map[string]bool) (rest []loadSt) {
	seen := map[string]origin{}
	for _, l := range ls {
		if l.mark == "unused" {
			rest = append(rest, l)
			continue
		}
		keep := l
		keep.syms = nil
		for _, s := range l.syms {
			if !used[s.to] && s.mark != "unused" {
				continue
			}
			o := origin{l.module, s.from}
			if seen[s.to] == o {
				continue
			}
			seen[s.to] = o
			keep.syms = append(keep.syms, s)
		}
		if len(keep.syms) > 0 {
			rest = append(rest, keep)
		}
	}
	return rest
}

// split separates the load statements of a file from the lines of the rest.
func split(text string, typ build.FileType) (loads []loadSt, rest string, err error) {
	f, err := lintFile(text, typ)
	if err != nil {
		return nil, "", err
	}
	var other []build.Expr
	for _, s := range f.Stmt {
		l, ok := s.(*build.LoadStmt)
		if !ok {
			other = append(other, s)
			continue
		}
		ld := loadSt{module: l.Module.Value}
		for i := range l.From {
			ld.syms = append(ld.syms, loadedSym{from: l.From[i].Name, to: l.To[i].Name})
		}
		loads = append(loads, ld)
	}
	f.Stmt = other
	var lines []string
	for _, s := range strings.Split(string(build.FormatWithoutRewriting(f)), "\n") {
		if strings.TrimSpace(s) != "" && !strings.HasPrefix(s, "# L") {
			lines = append(lines, s)
		}
	}
	return loads, strings.Join(lines, "\n"), nil
}

var loadTag = regexp.MustCompile(`# [LS]\d+`)

var kinds = []struct{ re, kind string }{
	{`^Symbol "(.*)" has already been loaded on line \d+\.`, "already"},
	{`^A different symbol "(.*)" has already been loaded on line \d+\.`, "different"},
	{`^Loaded symbol "(.*)" is unused\.`, "unused"},
}

// TestC37_Loads: unused and repeated loads are found and removed exactly.
func TestC37_Loads(t *testing.T) {
	vk.Check(t, "files with load statements (aliases, repeated and conflicting symbols, several statements for a module, @unused and disabling comments on statements or symbols, comments to keep, anywhere in the file) and programs in which each loaded name is really used in some scope, or only occurs as a keyword, attribute, string or assigned name; names that only occur as a local of some scope aren't loaded; the findings, the loads left by the automatic fix and by buildozer's fix unusedLoads, the rest of the file and the comments are compared with a model; non-trivial: one symbol is removed and one is kept", 60000, 2500000, func(rt *rapid.T, c *vk.Case) {
		g := &cf{rt: rt, at: pos{1, 1}, expect: map[string]map[pos]bool{}, budget: gen.Int(rt, 16), mentioned: map[string]bool{}}
		g.extra = []string{"x", "y", "_z", "foo2"}
		g.typ = lintTypes[g.N(len(lintTypes))]
		g.sc = newScope(nil)
		g.st = state{map[string]bool{}, true}
		for i := g.N(4); i > 0; i-- {
			switch g.N(6) {
			case 0, 1:
				g.stmt(0, false)
			case 2:
				g.stmt(2, false)
			case 3:
				g.w(g.Pick("x", "y", "_z", "a") + " = 1\n")
			default:
				g.def(3)
			}
			g.st.reach = true
		}
		g.finish(g.sc)
		body := g.b.String()
		used := map[string]bool{}
		var names []string
		for _, n := range []string{"x", "y", "_z", "foo2", "a", "b", "c", "d", "nowhere", "nothere"} {
			if g.sc.used[n] {
				used[n] = true
				names = append(names, n)
			} else if !g.mentioned[n] {
				names = append(names, n)
			}
		}
		var loads []loadSt
		var text strings.Builder
		tags, line := 0, 1
		tag := func(p string) string {
			tags++
			return fmt.Sprintf("%s%d", p, tags)
		}
		after := g.P(15)
		n := 1 + g.N(4)
		for i := 0; i < n; i++ {
			if i == n-1 && after {
				text.WriteString(body)
				line += strings.Count(body, "\n")
			}
			l := loadSt{module: g.Pick(":a.bzl", ":a.bzl", "//b:b.bzl", "@c//:c.bzl")}
			for j := 1 + g.N(3); j > 0; j-- {
				s := loadedSym{to: g.Pick(names...)}
				s.from = s.to
				if g.P(25) {
					s.from = g.Pick("x", "y", "other")
				}
				// a name occurs once in a statement; the formatter merges repetitions
				again := false
				for _, o := range l.syms {
					again = again || o.to == s.to
				}
				if again {
					continue
				}
				if g.P(25) {
					s.tag = tag("S")
					if g.P(50) {
						s.mark = g.Pick("unused", "unused", "disable")
					}
				}
				l.syms = append(l.syms, s)
			}
			if g.P(30) {
				l.tag = tag("L")
				if g.P(40) {
					l.mark = g.Pick("unused", "unused", "disable")
				}
			}
			s, lines := l.text(line)
			l.lines = lines
			text.WriteString(s)
			line += strings.Count(s, "\n")
			if g.P(50) {
				text.WriteString("\n")
				line++
			}
			loads = append(loads, l)
		}
		if !after {
			text.WriteString("\n" + body)
		}
		src := text.String()
		c.Input(src + fmt.Sprintf("\n---\ntype %v", g.typ))
		_, rest, err := split(src, g.typ)
		if err != nil {
			panic(err)
		}

		want, once := lintLoads(loads, used)
		f, _ := lintFile(src, g.typ)
		var got []string
		for _, x := range warn.FileWarnings(f, []string{"load"}, nil, warn.ModeWarn, reader(0)) {
			s := "?" + x.Message
			for _, k := range kinds {
				if m := regexp.MustCompile(k.re).FindStringSubmatch(x.Message); m != nil {
					s = fmt.Sprintf("%d %s %s", x.Start.Line, m[1], k.kind)
				}
			}
			got = append(got, s)
		}
		sort.Strings(got)
		if d := firstDiff(want, got); d != "" {
			c.Fail("findings (expected / reported):\n%s", d)
		}

		// the automatic fix, until nothing changes
		left := once
		for {
			_, next := lintLoads(left, used)
			if showLoads(next) == showLoads(left) {
				break
			}
			left = next
		}
		same := func(who, out string, left []loadSt) {
			ls, after, err := split(out, g.typ)
			if err != nil {
				c.Fail("%s: the result does not parse: %v\n%s", who, err, out)
			}
			if showLoads(ls) != showLoads(left) {
				c.Fail("%s leaves the loads\n%s\ninstead of\n%s\n", who, showLoads(ls), showLoads(left))
			}
			if after != rest {
				c.Fail("%s changes other statements to\n%s", who, after)
			}
			have := map[string]int{}
			for _, s := range loadTag.FindAllString(out, -1) {
				have[s]++
			}
			for _, l := range left {
				if l.tag != "" && have["# "+l.tag] != 1 {
					c.Fail("%s: %d occurrences of comment %s\n%s", who, have["# "+l.tag], l.tag, out)
				}
				for _, s := range l.syms {
					if s.tag != "" && have["# "+s.tag] != 1 {
						c.Fail("%s: %d occurrences of comment %s\n%s", who, have["# "+s.tag], s.tag, out)
					}
				}
			}
		}
		f, _ = lintFile(src, g.typ)
		warn.FixWarnings(f, []string{"load"}, false, reader(0))
		same("the fix", string(build.FormatWithoutRewriting(f)), left)

		oz := ozLoads(loads, used)
		f, _ = lintFile(src, g.typ)
		if res := edit.FixFile(f, "pkg", []string{"unusedLoads"}); res != nil {
			f = res
		} else if showLoads(oz) != showLoads(loads) {
			c.Fail("buildozer says that there is nothing to fix")
		}
		same("buildozer", string(build.FormatWithoutRewriting(f)), oz)
		c.Evals(3)
		before, now := 0, 0
		for _, l := range loads {
			before += len(l.syms)
		}
		for _, l := range left {
			now += len(l.syms)
		}
		c.LabelIf(showLoads(left) != showLoads(once), "fixed in several steps")
		c.NonTrivial(now > 0 && now < before)
	})
}
