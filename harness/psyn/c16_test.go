package psyn

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// A marg is one argument of a modelled call.
type marg struct {
	key  string // "" if positional
	text string // the value
	cmt  string // a comment above it
	suf  string // a comment after it
}

type mcall struct {
	kind  string // "" if not a rule
	head  string
	args  []marg
	cmt   string
	line  int
	stmt  bool // a top-level statement
	named bool // may have the implicit name
	other string
}

func (m *mcall) index(key string) int {
	for i, a := range m.args {
		if a.key != "" && a.key == key {
			return i
		}
	}
	return -1
}

func unquote(s string) (string, bool) {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' && strings.Count(s, `"`) == 2 {
		return s[1 : len(s)-1], true
	}
	return "", false
}

func (m *mcall) explicit() string {
	if i := m.index("name"); i >= 0 {
		s, _ := unquote(m.args[i].text)
		return s
	}
	return ""
}

func (m *mcall) write(b *strings.Builder, c *int) {
	line := func() int { return 1 + strings.Count(b.String(), "\n") }
	if m.cmt != "" {
		b.WriteString(m.cmt + "\n")
	}
	if m.other != "" {
		b.WriteString(m.other)
	}
	m.line = line()
	b.WriteString(m.head + "(")
	for _, a := range m.args {
		b.WriteString("\n    ")
		if a.cmt != "" {
			b.WriteString(a.cmt + "\n    ")
		}
		if a.key != "" {
			b.WriteString(a.key + " = ")
		}
		b.WriteString(a.text + ",")
		if a.suf != "" {
			b.WriteString("  " + a.suf)
		}
	}
	if len(m.args) > 0 {
		b.WriteString("\n")
	}
	b.WriteString(")")
}

var attrKeys = []string{"name", "srcs", "deps", "visibility", "x", "tags", "b", "_p"}

func drawValue(rt *rapid.T) string {
	return gen.Pick(rt, `"foo"`, `"a"`, `"b"`, `""`, `["a", "b"]`, `[]`, `["a", x]`, `foo`, `True`, `1`, `"a" + "b"`, `glob(["*.go"])`, `{"a": 1}`, `select({"c": ["d"]})`, `-1`, `None`, `[f(name = "in")]`, `("x")`)
}

func drawArgs(rt *rapid.T, n *int) []marg {
	var r []marg
	cm := func(p int) string {
		if gen.Pct(rt, p) {
			*n++
			return fmt.Sprintf("# c%d", *n)
		}
		return ""
	}
	for k := gen.Int(rt, 5); k > 0; k-- {
		a := marg{cmt: cm(15), suf: cm(15), text: drawValue(rt)}
		if gen.Pct(rt, 85) {
			a.key = attrKeys[gen.Int(rt, len(attrKeys))]
			if gen.Pct(rt, 30) {
				a.key = "name"
			}
		}
		if a.key == "name" && gen.Pct(rt, 80) {
			a.text = gen.Pick(rt, `"foo"`, `"a"`, `"b"`, `"c"`, `"d"`)
		}
		r = append(r, a)
	}
	return r
}

func drawFile(rt *rapid.T) ([]*mcall, string) {
	var calls []*mcall
	var b strings.Builder
	n := 0
	for k := 1 + gen.Int(rt, 7); k > 0; k-- {
		m := &mcall{head: gen.Pick(rt, "cc_library", "cc_library", "go_test", "package", "native.cc_library", "a.b.c", "exports_files", "licenses", "f()", "x[0]"), stmt: true}
		if !strings.ContainsAny(m.head, "([") {
			m.kind = m.head
		}
		m.args = drawArgs(rt, &n)
		if gen.Pct(rt, 20) {
			n++
			m.cmt = fmt.Sprintf("# c%d", n)
		}
		end := "\n"
		switch gen.Int(rt, 12) {
		case 0:
			m.other, m.stmt = "v = ", false
		case 1:
			m.other, m.stmt = "[", false
			end = " for i in j]\n"
		case 2:
			b.WriteString("v = 1\n")
		case 3:
			b.WriteString("load(\"a\", \"b\")\n")
		case 4:
			b.WriteString("\"string\"\n")
		case 5:
			m.other, m.stmt = "if c:\n    ", false
		}
		if m.other == "if c:\n    " {
			// keep the body simple
			for i := range m.args {
				m.args[i].cmt, m.args[i].suf = "", ""
			}
		}
		calls = append(calls, m)
		m.write(&b, &n)
		b.WriteString(end)
		if gen.Pct(rt, 40) {
			b.WriteString("\n")
		}
	}
	return calls, b.String()
}

func implicit(calls []*mcall, p string) string {
	dir := path.Dir(p)
	if dir == "." {
		return ""
	}
	unnamed := 0
	for _, m := range calls {
		m.named = m.stmt && m.kind != "" && m.explicit() == "" // the implicit name can only be this one's
		if !m.stmt || m.kind == "package" && len(m.args) == 0 {
			continue
		}
		if m.explicit() == path.Base(dir) {
			return ""
		}
		if m.kind != "" && m.explicit() == "" {
			unnamed++
		}
	}
	if unnamed == 1 {
		return path.Base(dir)
	}
	return ""
}

func (m *mcall) name(imp string) string {
	if e := m.explicit(); e != "" {
		return e
	}
	if m.kind == "package" || !m.named {
		return ""
	}
	return imp
}

func value(t *testing.T, s string) string {
	f, err := build.ParseDefault("v", []byte("("+s+")\n"))
	if err != nil {
		panic(err)
	}
	return astx.FromAST(f.Stmt[0].(*build.ParenExpr).X).String()
}

func valueExpr(s string) build.Expr {
	f, err := build.ParseDefault("v", []byte("x = "+s+"\n"))
	if err != nil {
		panic(err)
	}
	return f.Stmt[0].(*build.AssignExpr).RHS
}

// TestC16_Rule: reading and editing the attributes of rules, as on a map.
func TestC16_Rule(t *testing.T) {
	vk.Check(t, "generated BUILD files of up to 7 calls (dotted kinds, repeated and missing names, implicit names, positional and repeated arguments, comments) and sequences of up to 8 set, delete, read and kind changes on them, against lists of pairs; non-trivial: some call has an argument", 40000, 3000000, func(rt *rapid.T, c *vk.Case) {
		calls, text := drawFile(rt)
		c.Input(text)
		p := gen.Pick(rt, "BUILD", "a/BUILD", "x/foo/BUILD", "foo/BUILD.bazel", "b/BUILD")
		c.Part("path %s", p)
		f, err := build.ParseBuild(p, []byte(text))
		if err != nil {
			c.Fail("%v", err)
		}
		rules := f.Rules("")
		if len(rules) != len(calls) {
			c.Fail("%d rules instead of %d", len(rules), len(calls))
		}
		imp := implicit(calls, p)
		for i, r := range rules {
			m := calls[i]
			c.NonTrivial(len(m.args) > 0)
			if r.Kind() != m.kind || r.ExplicitName() != m.explicit() || r.Name() != m.name(imp) {
				c.Fail("rule %d is %q named %q (explicitly %q) instead of %q named %q (%q)", i, r.Kind(), r.Name(), r.ExplicitName(), m.kind, m.name(imp), m.explicit())
			}
		}
		check := func() {
			for i, r := range rules {
				m := calls[i]
				var keys []string
				for _, a := range m.args {
					if a.key != "" {
						keys = append(keys, a.key)
					}
				}
				if got := r.AttrKeys(); fmt.Sprint(got) != fmt.Sprint(keys) {
					c.Fail("rule %d has keys %q instead of %q", i, got, keys)
				}
				for _, k := range append(keys, "nope", "srcs") {
					j := m.index(k)
					v := r.Attr(k)
					if d := r.AttrDefn(k); (d == nil) != (j < 0) || d != nil && d.RHS != v {
						c.Fail("rule %d: definition and value of %s disagree", i, k)
					}
					if j < 0 {
						if v != nil || r.AttrString(k) != "" || r.AttrStrings(k) != nil || r.AttrLiteral(k) != "" {
							c.Fail("rule %d has a value for %s", i, k)
						}
						continue
					}
					tx := m.args[j].text
					if got, want := astx.FromAST(v).String(), value(t, tx); got != want {
						c.Fail("rule %d: %s is %s instead of %s", i, k, got, want)
					}
					s, _ := unquote(tx)
					if r.AttrString(k) != s {
						c.Fail("rule %d: string %s is %q instead of %q", i, k, r.AttrString(k), s)
					}
					lit := ""
					switch tx {
					case "foo", "True", "1", "None":
						lit = tx
					}
					if r.AttrLiteral(k) != lit {
						c.Fail("rule %d: literal %s is %q instead of %q", i, k, r.AttrLiteral(k), lit)
					}
					list := []string(nil)
					switch tx {
					case `["a", "b"]`:
						list = []string{"a", "b"}
					case `[]`:
						list = []string{}
					}
					if got := r.AttrStrings(k); fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", list) {
						c.Fail("rule %d: strings %s is %#v instead of %#v", i, k, got, list)
					}
				}
				// positional arguments and comments
				if len(r.Call.List) != len(m.args) {
					c.Fail("rule %d has %d arguments instead of %d", i, len(r.Call.List), len(m.args))
				}
				for j, a := range m.args {
					e := r.Call.List[j]
					if a.key == "" && astx.FromAST(e).String() != value(t, a.text) {
						c.Fail("rule %d: argument %d is %s instead of %s", i, j, astx.FromAST(e), a.text)
					}
					var cs []string
					for _, s := range astx.AllComments(e) {
						cs = append(cs, s)
					}
					var want []string
					for _, s := range []string{a.cmt, a.suf} {
						if s != "" {
							want = append(want, s)
						}
					}
					if strings.Join(sortedStrings(cs), " ") != strings.Join(sortedStrings(want), " ") {
						c.Fail("rule %d: argument %d has comments %q instead of %q", i, j, cs, want)
					}
				}
				if r.Kind() != m.kind {
					c.Fail("rule %d is a %q instead of a %q", i, r.Kind(), m.kind)
				}
			}
		}
		check()
		for k := 1 + gen.Int(rt, 8); k > 0; k-- {
			i := gen.Int(rt, len(rules))
			r, m := rules[i], calls[i]
			key := attrKeys[gen.Int(rt, len(attrKeys))]
			if len(m.args) > 0 && gen.Pct(rt, 60) {
				if kk := m.args[gen.Int(rt, len(m.args))].key; kk != "" {
					key = kk
				}
			}
			j := m.index(key)
			switch gen.Int(rt, 5) {
			case 0, 1:
				v := drawValue(rt)
				c.Part("rule %d: set %s to %s", i, key, v)
				r.SetAttr(key, valueExpr(v))
				if j < 0 {
					m.args = append(m.args, marg{key: key, text: v})
				} else {
					// a comment after the old value may go with it
					m.args[j].text = v
					if m.args[j].suf != "" {
						got := astx.AllComments(r.AttrDefn(key))
						found := false
						for _, s := range got {
							found = found || s == m.args[j].suf
						}
						if !found {
							m.args[j].suf = ""
						}
					}
				}
			case 2, 3:
				c.Part("rule %d: delete %s", i, key)
				old := r.DelAttr(key)
				if (old == nil) != (j < 0) {
					c.Fail("deleting %s returns %v", key, old)
				}
				if j >= 0 {
					if got := astx.FromAST(old).String(); got != value(t, m.args[j].text) {
						c.Fail("deleting %s returns %s instead of %s", key, got, m.args[j].text)
					}
					m.args = append(m.args[:j:j], m.args[j+1:]...)
				}
			case 4:
				kind := gen.Pick(rt, "py_test", "native.py_test", "a.b.c.d")
				c.Part("rule %d: kind %s", i, kind)
				r.SetKind(kind)
				m.kind = kind
			}
			check()
		}
		// the file still prints and parses, with the same calls
		out := build.FormatWithoutRewriting(f)
		g, err := build.ParseBuild(p, out)
		if err != nil {
			c.Fail("after the edits the file does not parse: %v\n%s", err, out)
		}
		for i, r := range g.Rules("") {
			if i >= len(calls) || r.Kind() != calls[i].kind || len(r.Call.List) != len(calls[i].args) {
				c.Fail("the printed file has other rules:\n%s", out)
			}
		}
	})
}

func sortedStrings(s []string) []string {
	s = append([]string(nil), s...)
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

// TestC16_Find: finding and deleting rules of a file.
func TestC16_Find(t *testing.T) {
	vk.Check(t, "the same files; listing by kind, finding by line and name, deleting by kind and name, by name, by kind and by rule, against the list of calls; non-trivial: something is found or deleted and something is not", 60000, 4000000, func(rt *rapid.T, c *vk.Case) {
		calls, text := drawFile(rt)
		c.Input(text)
		p := gen.Pick(rt, "BUILD", "a/BUILD", "x/foo/BUILD", "foo/BUILD.bazel", "b/BUILD")
		c.Part("path %s", p)
		f, err := build.ParseBuild(p, []byte(text))
		if err != nil {
			c.Fail("%v", err)
		}
		imp := implicit(calls, p)
		byCall := map[*build.CallExpr]int{}
		for i, r := range f.Rules("") {
			byCall[r.Call] = i
		}
		kind := gen.Pick(rt, "cc_library", "go_test", "package", "native.cc_library", "a.b.c", "cc", "")
		name := gen.Pick(rt, "foo", "a", "b", "c", "d", "nope")
		ids := func(rs []*build.Rule) string {
			var r []int
			for _, x := range rs {
				r = append(r, byCall[x.Call])
			}
			return fmt.Sprint(r)
		}
		sel := func(pred func(m *mcall) bool) []int {
			var r []int
			for i, m := range calls {
				if pred(m) {
					r = append(r, i)
				}
			}
			return r
		}
		if got, want := ids(f.Rules(kind)), fmt.Sprint(sel(func(m *mcall) bool { return kind == "" || m.kind == kind })); got != want {
			c.Fail("rules of kind %q are %s instead of %s", kind, got, want)
		}
		lines := strings.Count(text, "\n")
		line := 1 + gen.Int(rt, lines)
		if gen.Pct(rt, 60) {
			line = calls[gen.Int(rt, len(calls))].line
		}
		at := sel(func(m *mcall) bool { return m.line == line })
		r := f.RuleAt(line)
		if r == nil != (len(at) != 1) || r != nil && byCall[r.Call] != at[0] {
			c.Fail("the rule at line %d is %v instead of %v", line, r, at)
		}
		named := sel(func(m *mcall) bool { return m.name(imp) == name })
		r = f.RuleNamed(name)
		if r == nil != (len(named) != 1) || r != nil && byCall[r.Call] != named[0] {
			c.Fail("the rule named %q is %v instead of %v", name, r, named)
		}
		// the first top-level rule of the name
		top := sel(func(m *mcall) bool { return m.stmt && m.name(imp) == name })
		r = edit.FindRuleByName(f, name)
		if r == nil != (len(top) == 0) || r != nil && byCall[r.Call] != top[0] {
			c.Fail("the first rule named %q is %v instead of %v", name, r, top)
		}
		at = sel(func(m *mcall) bool { return m.stmt && m.line == line })
		r = edit.FindRuleByName(f, fmt.Sprintf("%%%d", line))
		if r == nil != (len(at) == 0) || r != nil && byCall[r.Call] != at[0] {
			c.Fail("the rule %%%d is %v instead of %v", line, r, at)
		}
		// deleting
		stmts := append([]build.Expr(nil), f.Stmt...)
		var drop func(m *mcall) bool
		n := -1
		what := ""
		var g *build.File
		switch gen.Int(rt, 4) {
		case 0:
			if gen.Pct(rt, 30) {
				name = ""
			} else if gen.Pct(rt, 50) {
				kind = ""
			}
			what = fmt.Sprintf("DelRules(%q, %q)", kind, name)
			n = f.DelRules(kind, name)
			g = f
			drop = func(m *mcall) bool {
				return m.stmt && (kind == "" || m.kind == kind) && (name == "" || m.name(imp) == name)
			}
		case 1:
			what = fmt.Sprintf("DeleteRuleByName(%q)", name)
			g = edit.DeleteRuleByName(f, name)
			drop = func(m *mcall) bool { return m.stmt && m.name(imp) == name }
		case 2:
			if strings.Contains(kind, ".") || kind == "" {
				kind = "cc_library"
			}
			what = fmt.Sprintf("DeleteRuleByKind(%q)", kind)
			g = edit.DeleteRuleByKind(f, kind)
			drop = func(m *mcall) bool { return m.stmt && m.kind == kind }
		case 3:
			i := gen.Int(rt, len(calls))
			what = fmt.Sprintf("DeleteRule(rule %d)", i)
			g = edit.DeleteRule(f, f.Rules("")[i])
			drop = func(m *mcall) bool { return m.stmt && m == calls[i] }
		}
		c.Part("%s", what)
		var want []build.Expr
		for _, s := range stmts {
			if call, ok := s.(*build.CallExpr); ok {
				if i, ok := byCall[call]; ok && drop(calls[i]) {
					continue
				}
			}
			want = append(want, s)
		}
		c.NonTrivial(len(want) < len(stmts) && len(want) > 0)
		ok := len(want) == len(g.Stmt) && (n < 0 || n == len(stmts)-len(want))
		for i := range want {
			ok = ok && g.Stmt[i] == want[i]
		}
		if !ok {
			c.Fail("%s (%d) leaves\n%s\nand should leave %d of %d statements", what, n, build.FormatWithoutRewriting(g), len(want), len(stmts))
		}
		if g.Path != f.Path || g.Type != f.Type {
			c.Fail("%s changes the file's path or type", what)
		}
	})
}
