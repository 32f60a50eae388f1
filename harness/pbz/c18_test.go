package pbz

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// chunk is a top-level statement with its text: from its first leading comment to
// the start of the next statement.
type chunk struct {
	stmt build.Expr
	text string
}

func chunks(c *vk.Case, text string) (head string, cs []chunk) {
	f := parseBuild(c, "a/b/BUILD", text)
	lines := strings.Split(text, "\n")
	var starts []int
	for _, s := range f.Stmt {
		p, _ := s.Span()
		l := p.Line
		for _, cm := range s.Comment().Before {
			if cm.Start.Line < l {
				l = cm.Start.Line
			}
		}
		starts = append(starts, l)
	}
	trim := func(ls []string) string { return strings.TrimRight(strings.Join(ls, "\n"), "\n ") }
	if len(starts) == 0 {
		return trim(lines), nil
	}
	head = trim(lines[:starts[0]-1])
	for i, s := range f.Stmt {
		end := len(lines) + 1
		if i+1 < len(starts) {
			end = starts[i+1]
		}
		cs = append(cs, chunk{s, trim(lines[starts[i]-1 : end-1])})
	}
	return
}

// named attributes of a command; all=true when it may change any attribute
func namedAttrs(k cmd) (names []string, all bool) {
	switch k[0] {
	case "delete", "new", "new_load", "replace_load", "substitute_load":
		return nil, true
	case "move", "rename":
		return []string{k[1], k[2]}, false
	case "comment":
		if len(k) > 2 {
			return []string{k[1]}, false
		}
		return nil, false
	case "remove_comment":
		if len(k) > 1 {
			return []string{k[1]}, false
		}
		return nil, false
	case "set":
		if k[1] == "kind" {
			return nil, false
		}
	case "print", "print_comment", "format":
		return nil, false
	}
	return []string{k[1]}, k[1] == "*"
}

// ruleComments lists the comments belonging to the rule as a whole.
func ruleComments(call *build.CallExpr) (r []string) {
	add := func(w string, cs []build.Comment) {
		for _, c := range cs {
			r = append(r, w+c.Token)
		}
	}
	add("before ", call.Before)
	add("suffix ", call.Suffix)
	add("after ", call.After)
	add("end ", call.End.Before)
	add("end ", call.End.Suffix)
	return
}

// attrText is an attribute with its comments and values; layout left out.
func attrText(a attr) string {
	return astx.FromAST(a.def).String() + "\n" + strings.Join(astx.AllComments(a.def), "\n")
}

// anyCmd draws any command that changes rules.
func anyCmd(rt *rapid.T, f *build.File, names []string, attrs []string, present map[string][]string) cmd {
	ident := func() string {
		return gen.Pick(rt, "deps", "my_dict", "my_attr", "size", "testonly", "env", "main", "tags", "new_attr", "copts", "my_label", "visibility")
	}
	if len(attrs) > 0 {
		old := ident
		ident = func() string {
			if gen.Pct(rt, 60) {
				return attrs[gen.Int(rt, len(attrs))]
			}
			return old()
		}
	}
	kv := func() string {
		return gen.Pick(rt, "k1", "k2", "K3", "x/y", "newkey") + ":" + gen.Pick(rt, "v", "//c:d", "w:z", ":x", "v2")
	}
	switch gen.Int(rt, 22) {
	case 0:
		return cmd{"rename", ident(), ident()}
	case 1:
		return cmd{"remove", ident()}
	case 2:
		return cmd{"copy", ident(), names[gen.Int(rt, len(names))]}
	case 3:
		return cmd{"copy_no_overwrite", ident(), names[gen.Int(rt, len(names))]}
	case 4:
		return cmd{"dict_add", gen.Pick(rt, "my_dict", "env", ident()), kv(), kv()}
	case 5:
		return cmd{"dict_set", gen.Pick(rt, "my_dict", "env", ident()), kv()}
	case 6:
		return cmd{"dict_remove", gen.Pick(rt, "my_dict", "env"), gen.Pick(rt, "k1", "k2", "K3", "none")}
	case 7:
		return cmd{"set", "kind", gen.Pick(rt, "new_kind", "cc_library", "m.k")}
	case 8:
		return cmd{"set_if_absent", gen.Pick(rt, "deps", "tags", "testonly", "size", "new_attr"), "1"}
	case 9:
		return cmd{"set_select", gen.Pick(rt, "deps", "tags", "my_x"), "//conf:a", ":x", "//conditions:default", ":y"}
	case 10:
		return cmd{"delete"}
	case 11:
		return cmd{"new", gen.Pick(rt, "cc_library", "zz_rule"), gen.Pick(rt, "fresh", "lib", "fresh2")}
	case 12:
		return cmd{"new", gen.Pick(rt, "cc_library", "zz_rule"), "fresh", gen.Pick(rt, "before", "after"), names[gen.Int(rt, len(names))]}
	case 13:
		return cmd{gen.Pick(rt, "new_load", "replace_load"), gen.Pick(rt, ":defs.bzl", "//t:d.bzl", "//n:n.bzl"), gen.Pick(rt, "my_rule", "x_rule", "q"), gen.Pick(rt, "r", "a=b")}
	case 14:
		return cmd{"comment", gen.Pick(rt, "hello", "hello world", `two\nlines`)}
	case 15:
		return cmd{"comment", ident(), gen.Pick(rt, "hello", "hello world", `two\nlines`)}
	case 16:
		return cmd{"remove_comment"}
	case 17:
		return cmd{"remove_comment", ident()}
	case 18:
		return cmd{"remove_if_equal", ident(), gen.Pick(rt, "True", "1", "//c:d", "small", ":x")}
	case 19:
		return cmd{"dict_list_add", gen.Pick(rt, "my_dict", "env"), gen.Pick(rt, "k1", "k2", "newkey"), "//c:d", "v"}
	case 20:
		return cmd{gen.Pick(rt, "print", "print_comment"), "deps"}
	default:
		return cmd{"format"}
	}
}

func TestC18_OnlyTargets(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated BUILD files with comments everywhere x one command out of all buildozer commands on one or several rules; statements, attributes and comments outside the target are compared with plain formatting, byte for byte. Non-trivial: the command changed the file beyond formatting it", 60000, 1200000, func(rt *rapid.T, c *vk.Case) {
		text, names := buildFile(rt, func(g *bg) { g.comments = gen.Pct(rt, 85); g.parens = true })
		f0, err := build.Parse("a/b/BUILD", []byte(text))
		if err != nil {
			c.Fail("generator: %v\n%s", err, text)
		}
		var attrs, lists []string
		present := map[string][]string{}
		for _, r := range rulesOf(f0) {
			if contains(names, r.name) {
				for _, a := range r.attrs {
					if a.name != "name" {
						attrs = append(attrs, a.name)
					}
					if isListAttr(a.name) {
						lists = append(lists, a.name)
					}
					astxEachString(a.def.RHS, func(s *build.StringExpr) {
						if s.Value != "" && !strings.HasPrefix(s.Value, "//cond") {
							present[a.name] = append(present[a.name], s.Value)
						}
					})
				}
			}
		}
		lists = append(lists, "deps", "tags")
		tn := names[gen.Int(rt, len(names))]
		tgt := []string{"//a/b:" + tn}
		on := []string{tn}
		if gen.Pct(rt, 25) && len(names) > 1 {
			on = append(on, names[0])
			if names[0] == tn {
				on[1] = names[1]
			}
			tgt = append(tgt, "//a/b:"+on[1])
		}
		var k cmd
		if gen.Pct(rt, 45) {
			k = listCmd(rt, lists, present, false)
		} else {
			k = anyCmd(rt, f0, names, attrs, present)
		}
		fl := flags{noEOL: gen.Pct(rt, 20), editVars: false}
		c.Input(text)
		c.Part("buildozer %s %q %q", fl, k.line(), tgt)
		w.put("a/b/BUILD", text)
		p := w.path("a/b/BUILD")
		formatted := plain(c, p, text)
		res := w.run(fl, append([]string{k.line()}, tgt...)...)
		now := w.get("a/b/BUILD")
		c.Label(k[0])
		if res.rc != 0 {
			if now != text {
				c.Fail("exit %d (stderr %q) but the file was written", res.rc, res.err)
			}
			c.LabelIf(res.rc == 2, "refused")
			return
		}
		if k[0] == "print" || k[0] == "print_comment" {
			if now != text {
				c.Fail("%s changed the file", k[0])
			}
			return
		}
		if now == formatted {
			return
		}
		c.NonTrivial(true)
		h0, c0 := chunks(c, formatted)
		h1, c1 := chunks(c, now)
		if h0 != h1 {
			c.Fail("text before the first statement differs: %q, plainly formatted %q\n%s", h1, h0, now)
		}
		isTarget := func(e build.Expr) bool {
			switch k[0] {
			case "new_load", "replace_load", "substitute_load":
				_, ok := e.(*build.LoadStmt)
				return ok
			case "new":
				r := ruleOf(0, e)
				return r != nil && r.name == k[2]
			}
			if r := ruleOf(0, e); r != nil && r.name != "" && contains(on, r.name) {
				return true
			}
			return false
		}
		rest := func(cs []chunk) (r []string, ts []chunk) {
			for _, x := range cs {
				if isTarget(x.stmt) {
					ts = append(ts, x)
					switch k[0] {
					case "new", "delete", "new_load", "replace_load", "substitute_load":
					default:
						r = append(r, "<target>")
					}
					continue
				}
				r = append(r, x.text)
			}
			return
		}
		names0, all := namedAttrs(k)
		if all && k[1:] != nil && len(k) > 1 && k[1] == "*" {
			// replace/substitute with * may rename the rule: compare by position
			if len(c0) != len(c1) {
				c.Fail("number of statements changed from %d to %d\n%s", len(c0), len(c1), now)
			}
			for i := range c0 {
				if !isTarget(c0[i].stmt) && c0[i].text != c1[i].text {
					c.Fail("statement %d differs from plain formatting:\n%s\n--- plainly formatted\n%s", i+1, c1[i].text, c0[i].text)
				}
			}
			return
		}
		r0, t0 := rest(c0)
		r1, t1 := rest(c1)
		if fmt.Sprint(r0) != fmt.Sprint(r1) {
			for i := 0; i < len(r0) || i < len(r1); i++ {
				a, b := "(none)", "(none)"
				if i < len(r0) {
					a = r0[i]
				}
				if i < len(r1) {
					b = r1[i]
				}
				if a != b {
					c.Fail("outside the target: statement %d differs from plain formatting:\n%s\n--- plainly formatted\n%s\n--- whole result\n%s", i+1, b, a, now)
				}
			}
		}
		c.Evals(1)
		switch k[0] {
		case "delete", "new", "new_load", "replace_load", "substitute_load":
			return
		}
		// blank lines between statements, too
		if mask(formatted, t0) != mask(now, t1) {
			c.Fail("outside the target the text differs from plain formatting:\n%s\n--- plainly formatted\n%s", mask(now, t1), mask(formatted, t0))
		}
		if len(t0) != len(t1) {
			c.Fail("number of targets changed:\n%s", now)
		}
		for i := range t0 {
			a, b := ruleOf(0, t0[i].stmt), ruleOf(0, t1[i].stmt)
			isRuleComment := (k[0] == "comment" && len(k) == 2) || (k[0] == "remove_comment" && len(k) == 1)
			if x, y := ruleComments(a.call), ruleComments(b.call); fmt.Sprint(x) != fmt.Sprint(y) && !isRuleComment {
				c.Fail("comments of the rule changed from %q to %q\n%s", x, y, now)
			}
			other := func(r *rule) (s []string) {
				for _, x := range r.attrs {
					if !contains(names0, x.name) {
						if k[0] == "set" && k[1] == "kind" { // formatting depends on the kind
							m := map[string]bool{}
							astxEachString(x.def.RHS, func(s *build.StringExpr) { m[norm(s.Value, pkg)] = true })
							for _, cm := range astx.AllComments(x.def) {
								m[cm] = true
							}
							s = append(s, x.name+" "+strings.Join(sortedKeys(m), " "))
							continue
						}
						s = append(s, attrText(x))
					}
				}
				for _, x := range r.call.List {
					if as, ok := x.(*build.AssignExpr); ok {
						if _, ok := as.LHS.(*build.Ident); ok {
							continue
						}
					}
					s = append(s, astx.FromAST(x).String())
				}
				return
			}
			x, y := other(a), other(b)
			if k[0] == "set" && k[1] == "kind" { // ... and their order, too
				sort.Strings(x)
				sort.Strings(y)
			}
			if fmt.Sprint(x) != fmt.Sprint(y) {
				for j := 0; j < len(x) || j < len(y); j++ {
					if j >= len(x) || j >= len(y) || x[j] != y[j] {
						c.Fail("attributes the command does not name changed in %s: %q\nnow:    %q\n%s", a.name, x[j:], y[j:], now)
					}
				}
			}
			c.Evals(1)
			// the call itself
			if k[0] != "set" || k[1] != "kind" {
				if astx.FromAST(a.call.X).String() != astx.FromAST(b.call.X).String() {
					c.Fail("kind of %s changed\n%s", a.name, now)
				}
			}
		}
	})
}

// mask replaces the targets' statements by a placeholder.
func mask(text string, ts []chunk) string {
	for _, t := range ts {
		text = strings.Replace(text, t.text, "<target>", 1)
	}
	return text
}
