package plint

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// The reference model of the lint checks that follow load statements: a generated workspace of files
// that load each other knows for every function whether it can reach a rule.

// xsym is a top-level name of a file.
type xsym struct {
	name  string
	macro bool // a rule, or a rule can be reached from it
	depr  bool // a function with a docstring that has a section Deprecated
	def   bool
}

type xfile struct {
	pkg, label string
	broken     bool // can't be read or parsed
	syms       []xsym
	text       string
	want       []string
}

func (f *xfile) path() string {
	if f.pkg == "" {
		return f.label
	}
	return f.pkg + "/" + f.label
}

type xws struct {
	rt    *rapid.T
	files []*xfile
	n     int
	seen  map[string]bool
}

func (g *xws) N(n int) int              { return gen.Int(g.rt, n) }
func (g *xws) P(p int) bool             { return gen.Pct(g.rt, p) }
func (g *xws) Pick(xs ...string) string { return xs[g.N(len(xs))] }

// name is a new name of the current file; other files may have the same one.
func (g *xws) name(f string) string {
	for {
		g.n++
		if n := fmt.Sprintf(f, g.n); !g.seen[n] {
			g.seen[n] = true
			return n
		}
	}
}

// module is a label of f for a load statement in a file of pkg; a label of another repository isn't f.
func (g *xws) module(f *xfile, pkg string) (label string, same bool) {
	full := "//" + f.pkg + ":" + f.label
	switch g.N(12) {
	case 0:
		return "@other" + full, false
	case 1:
		return "@" + full, true
	case 2:
		return "@@" + full, true
	case 3, 4, 5:
		if f.pkg == pkg {
			return ":" + f.label, true
		}
	}
	return full, true
}

// mention is an expression that mentions a function without calling it.
func (g *xws) mention(n string) string {
	if !strings.Contains(n, ".") && g.P(10) {
		return "u1(%s = 1)"
	}
	return g.Pick("%s", "u1.%s()", "u1(%s)", "[%s]", `"%s()"`, "x = %s", "u1[%s]", "rule.%s()", "natives.%s()", "u1(a = %s)  # %s()")
}

// file generates the file fs[i], which may load the files before it.
func (g *xws) file(f *xfile, earlier []*xfile, bzl bool) {
	type item struct {
		text  string
		after string // must come after this name
		name  string
	}
	var loads []string
	var items []item
	env := []xsym{} // names that can be used
	seen := map[string]bool{}
	g.n, g.seen = 0, seen
	for i, n := 0, g.N(4); i < n && len(earlier) > 0; i++ {
		o := earlier[g.N(len(earlier))]
		mod, same := g.module(o, f.pkg)
		var args []string
		deps := map[string]bool{}
		for j, m := 0, 1+g.N(4); j < m; j++ {
			s := xsym{name: g.Pick("nosuch", "r", "loaded")}
			if len(o.syms) > 0 && g.P(90) {
				s = o.syms[g.N(len(o.syms))]
			}
			for _, x := range o.syms {
				if x.name == s.name {
					s = x
				}
			}
			if deps[s.name] || strings.HasPrefix(s.name, "_") {
				continue
			}
			deps[s.name] = true
			l := s.name
			if seen[l] || g.P(25) {
				l = g.name("as%d")
			}
			seen[l] = true
			if !same || o.broken || !s.def {
				s.depr = false
			}
			if !same || o.broken {
				s.macro = false
			}
			mark := ""
			if s.depr {
				mark = "\x01deprecated-function\x02"
			}
			if l == s.name {
				args = append(args, `"`+mark+s.name+`"`)
			} else {
				args = append(args, l+` = "`+mark+s.name+`"`)
			}
			env = append(env, xsym{name: l, macro: s.macro})
		}
		if len(args) == 0 {
			continue
		}
		sep := g.Pick(", ", ",\n    ")
		loads = append(loads, "load("+`"`+mod+`"`+sep+strings.Join(args, sep)+")\n")
	}
	if !bzl {
		f.text, f.want = unmark(strings.Join(loads, ""))
		return
	}
	for i, n := 0, 1+g.N(6); i < n; i++ {
		switch g.N(8) {
		case 0: // a rule, and what isn't one
			nm := g.name(g.Pick("r%d", "_r%d"))
			k := g.N(7)
			items = append(items, item{text: nm + []string{" = rule(a = 1)\n", " = rule(\n    implementation = u1,\n)\n", " = repository_rule(a = 1)\n", " = u1.rule()\n", " = [rule(a = 1)]\n", " = rule\n", " = rules()\n"}[k], name: nm})
			env = append(env, xsym{name: nm, macro: k < 2})
			f.syms = append(f.syms, xsym{name: nm, macro: k < 2})
		case 1: // an alias
			if len(env) == 0 {
				continue
			}
			e := env[g.N(len(env))]
			nm := g.name(g.Pick("al%d", "_al%d"))
			items = append(items, item{text: nm + " = " + e.name + "\n", after: e.name, name: nm})
			env = append(env, xsym{name: nm, macro: e.macro})
			f.syms = append(f.syms, xsym{name: nm, macro: e.macro})
		default:
			nm := g.name(g.Pick("f%d", "f%d", "f%d", "_f%d"))
			macro, named := false, false
			var b strings.Builder
			params := []string{}
			if g.P(50) {
				params = append(params, "p")
			}
			switch g.N(12) {
			case 0:
				params, named = append(params, "name"), true
			case 1:
				params, named = append(params, "name = None"), true
			case 2:
				params, named = append(params, "*", "name"), true
			case 3:
				params, named = append(params, "**kw"), true
			case 4:
				params, named = append(params, "*args", "q = 1", "**name"), true
			case 5:
				params = append(params, "*name2")
			case 6:
				params = append(params, "names = name", "q = {}")
			case 7:
				params = append(params, "*args")
			}
			// the docstring
			depr := false
			switch g.N(8) {
			case 0:
				depr = true
				b.WriteString("    \"\"\"Docs.\n\n    Deprecated:\n      Use another.\n    \"\"\"\n")
			case 1:
				depr = true
				b.WriteString("    \"\"\"Docs.\n\n    Args:\n      p: it\n    Deprecated:\n      Use another.\n\n    Returns:\n      it\n    \"\"\"\n")
			case 2:
				b.WriteString("    \"\"\"Docs.\n\n    Args:\n      Deprecated:\n        Use another.\n    \"\"\"\n")
			case 3:
				b.WriteString("    " + g.Pick("# Deprecated:", `"Docs."`, "\"\"\"Deprecated\n    \"\"\"", "\"\"\"Docs.\n\n    Not Deprecated:\n    \"\"\"") + "\n")
			case 4:
				b.WriteString("    x = 1\n    \"\"\"Docs.\n\n    Deprecated:\n      Use another.\n    \"\"\"\n")
			}
			for j, m := 0, 1+g.N(4); j < m; j++ {
				ind := "    "
				if g.P(25) {
					b.WriteString(ind + g.Pick("if p:", "for q in p:", "if u1:\n        pass\n    else:", "def inner():") + "\n")
					ind += "    "
				}
				callee, isMacro := "", false
				switch g.N(6) {
				case 0:
					callee = "native." + g.Pick("glob", "existing_rule", "existing_rules", "package_name", "repository_name", "exports_files")
					if g.P(30) {
						callee, isMacro = "native."+g.Pick("cc_library", "my_rule", "filegroup", "globs"), true
					}
				case 1:
					callee = g.Pick("u1", "rule", "select", "nosuch", "cc_library", "glob")
				default:
					if len(env) > 0 {
						e := env[g.N(len(env))]
						callee, isMacro = e.name, e.macro
					}
				}
				if callee == "" {
					b.WriteString(ind + "pass\n")
					continue
				}
				if g.P(30) {
					b.WriteString(ind + strings.ReplaceAll(g.mention(callee), "%s", callee) + "\n")
					continue
				}
				if strings.HasPrefix(callee, "native.") && g.P(10) {
					callee, isMacro = "u1."+callee, false
				}
				macro = macro || isMacro
				mark := ""
				if isMacro {
					mark = "\x01call " + nm + " " + callee + "\x02"
				}
				call := mark + callee + "(" + g.Pick("", "p", "name = p", "**u2", "\n"+ind+"    name = p,\n"+ind) + ")"
				b.WriteString(ind + strings.ReplaceAll(g.Pick("%s", "%s", "x = %s", "u1(%s)", "u1.f(a = %s)", "x = [%s for q in p]", "x = [q for q in %s]", "x = lambda: %s", "u2 += %s", "x = {1: %s}", "return %s", "%s.run()", "%s()", "x = 1 if %s else 2", "u1[%s] = 1"), "%s", call) + "\n")
			}
			mark := ""
			if macro && !named && !strings.HasPrefix(nm, "_") {
				mark = "\x01unnamed-macro " + nm + "\x02"
			}
			items = append(items, item{text: mark + "def " + nm + "(" + strings.Join(params, ", ") + "):\n" + b.String(), name: nm})
			env = append(env, xsym{name: nm, macro: macro})
			f.syms = append(f.syms, xsym{name: nm, macro: macro, depr: depr, def: true})
		}
	}
	if g.P(60) {
		// Functions may call functions defined further down.
		rest := items
		items = nil
		local, done := map[string]bool{}, map[string]bool{}
		for _, it := range rest {
			local[it.name] = true
		}
		for len(rest) > 0 {
			k := g.N(len(rest))
			it := rest[k]
			if local[it.after] && !done[it.after] {
				continue
			}
			done[it.name] = true
			items = append(items, it)
			rest = append(rest[:k:k], rest[k+1:]...)
		}
	}
	s := strings.Join(loads, "")
	for _, it := range items {
		s += it.text
		if g.P(30) {
			s += "\n"
		}
	}
	f.text, f.want = unmark(s)
}

var becauseRE = regexp.MustCompile(`it calls a rule or another macro "(.*)" on line (\d+)\.`)
var macroRE = regexp.MustCompile(`^The macro "(.*)" should have a keyword argument called "name"\.`)

// TestC43_Loads: unnamed-macro and deprecated-function follow loads, aliases and calls.
func TestC43_Loads(t *testing.T) {
	bin := vk.Bin(t, "buildifier")
	dir := vk.Scratch(t)
	cats := []string{"deprecated-function", "unnamed-macro"}
	vk.Check(t, "generated workspaces of 1 to 6 files in 4 packages that load each other (not in cycles), with rules, aliases, functions calling each other, loaded, local and native ones in all kinds of places, near misses, unreadable files, other repositories; every file linted, with a shared or a new reader; non-trivial: at least 3 files and an expected finding", 100000, 3000000, func(rt *rapid.T, c *vk.Case) {
		g := &xws{rt: rt}
		n := 1 + g.N(6)
		for i := 0; i < n; i++ {
			f := &xfile{pkg: g.Pick("", "a", "a", "a/b", "c"), label: fmt.Sprintf(g.Pick("f%d.bzl", "f%d.bzl", "sub/f%d.bzl"), i), broken: g.P(8)}
			if g.P(60) {
				f.label = g.Pick("x.bzl", "y.bzl") // the same name in several packages
			}
			for _, o := range g.files {
				if o.path() == f.path() {
					f.label = fmt.Sprintf("f%d.bzl", i)
				}
			}
			g.file(f, g.files, true)
			g.files = append(g.files, f)
		}
		if g.P(40) {
			f := &xfile{pkg: g.Pick("", "a", "a/b", "c"), label: g.Pick("BUILD", "BUILD.bazel", "x.star")}
			g.file(f, g.files, false)
			g.files = append(g.files, f)
		}
		missing := g.P(50) // unreadable files don't exist, or they contain an error
		byPath := map[string]*xfile{}
		var in strings.Builder
		expected, good := 0, 0
		for _, f := range g.files {
			if f.broken && !missing {
				f.text += "def (\n"
			}
			byPath[f.path()] = f
			note := ""
			if f.broken && missing {
				note = " (missing)"
			}
			fmt.Fprintf(&in, "--- %s%s\n%s", f.path(), note, f.text)
		}
		c.Input(in.String())
		reads := map[string]int{}
		read := func(p string) ([]byte, error) {
			reads[p]++
			f := byPath[p]
			if f == nil || f.broken && missing {
				return nil, errors.New("no such file")
			}
			return []byte(f.text), nil
		}
		shared := warn.NewFileReader(read)
		order := make([]*xfile, 0, len(g.files))
		for _, f := range g.files {
			k := g.N(len(order) + 1)
			order = append(order, nil)
			copy(order[k+1:], order[k:])
			order[k] = f
		}
		share := g.P(50)
		findings := map[string][]string{}
		for _, f := range order {
			if f.broken {
				continue
			}
			bf, err := build.Parse(f.path(), []byte(f.text))
			if err != nil {
				c.Fail("generator: %s: %v", f.path(), err)
			}
			bf.Pkg, bf.Label, bf.WorkspaceRoot = f.pkg, f.label, "/ws"
			reader := shared
			if !share {
				reader = warn.NewFileReader(read)
			}
			var want, got []string
			calls := map[string]bool{}
			for _, w := range f.want {
				if strings.HasPrefix(w, "call ") {
					var fn, callee, at string
					fmt.Sscanf(w, "call %s %s at %s", &fn, &callee, &at)
					calls[fn+" "+callee+" "+at[:strings.Index(at, ":")]] = true
					continue
				}
				want = append(want, w)
			}
			expected += len(want)
			good++
			for _, x := range warn.FileWarnings(bf, cats, nil, warn.ModeWarn, reader) {
				s := x.Category
				if x.Category == "unnamed-macro" {
					m, why := macroRE.FindStringSubmatch(x.Message), becauseRE.FindStringSubmatch(x.Message)
					if m == nil || why == nil {
						c.Fail("%s: message %q", f.path(), x.Message)
					}
					s += " " + m[1]
					if !calls[m[1]+" "+why[1]+" "+why[2]] {
						c.Fail("%s: %s doesn't call a macro %s on line %s", f.path(), m[1], why[1], why[2])
					}
				}
				got = append(got, fmt.Sprintf("%s at %d:%d", s, x.Start.Line, x.Start.LineRune))
			}
			sort.Strings(want)
			sort.Strings(got)
			findings[f.path()] = want
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				c.Fail("%s:\nfindings\n  %s\nexpected\n  %s", f.path(), strings.Join(got, "\n  "), strings.Join(want, "\n  "))
			}
		}
		if share {
			for p, k := range reads {
				if k > 1 {
					c.Fail("%s is read %d times", p, k)
				}
			}
		}
		c.LabelIf(share, "shared reader")
		if good > 0 && g.P(1) {
			// the command line
			ws := filepath.Join(dir, "ws")
			defer os.RemoveAll(ws)
			os.MkdirAll(ws, 0o755)
			os.WriteFile(filepath.Join(ws, "WORKSPACE"), nil, 0o644)
			var args []string
			for _, f := range order {
				if f.broken && missing {
					continue
				}
				p := filepath.Join(ws, f.path())
				os.MkdirAll(filepath.Dir(p), 0o755)
				// A directory is a package because of its BUILD file.
				if d := filepath.Join(ws, f.pkg, "BUILD"); f.label != "BUILD" && f.label != "BUILD.bazel" {
					if _, err := os.Stat(d); err != nil {
						os.WriteFile(d, nil, 0o644)
					}
				}
				if err := os.WriteFile(p, []byte(f.text), 0o644); err != nil {
					c.Fail("%v", err)
				}
				if !f.broken {
					args = append(args, f.path())
				}
			}
			cmd := exec.Command(bin, append([]string{"-config=off", "-lint=warn", "-mode=check", "-format=json", "-warnings=" + strings.Join(cats, ",")}, args...)...)
			cmd.Dir = ws
			out, _ := cmd.Output()
			dg := struct {
				Files []struct {
					Filename string
					Warnings []struct {
						Start struct {
							Line, Column int
						}
						Category string
						Message  string
					}
				}
			}{}
			if err := json.Unmarshal(out, &dg); err != nil || len(dg.Files) != len(args) {
				c.Fail("buildifier: %v\n%s", err, out)
			}
			for _, df := range dg.Files {
				var got []string
				for _, x := range df.Warnings {
					s := x.Category
					if m := macroRE.FindStringSubmatch(x.Message); m != nil {
						s += " " + m[1]
					}
					got = append(got, s+" at "+strconv.Itoa(x.Start.Line)+":"+strconv.Itoa(x.Start.Column))
				}
				sort.Strings(got)
				if want := findings[df.Filename]; strings.Join(got, "\n") != strings.Join(want, "\n") {
					c.Fail("buildifier: %s:\nfindings\n  %s\nexpected\n  %s", df.Filename, strings.Join(got, "\n  "), strings.Join(want, "\n  "))
				}
			}
			c.Label("command line")
		}
		c.NonTrivial(len(g.files) >= 3 && expected > 0)
	})
}
