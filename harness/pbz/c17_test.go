package pbz

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// cmd is one buildozer command in words.
type cmd []string

func (c cmd) line() string { return cmdline(append([]string{}, c...)...) }

// unparen removes parentheses.
func unparen(e build.Expr) build.Expr {
	for {
		p, ok := e.(*build.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// allItems lists the string elements of all lists in a value, branches included.
func allItems(e build.Expr, pkg string) map[string]bool {
	m := map[string]bool{}
	var rec func(e build.Expr)
	rec = func(e build.Expr) {
		switch e := unparen(e).(type) {
		case *build.ListExpr:
			for _, x := range e.List {
				if s, ok := x.(*build.StringExpr); ok {
					m[norm(s.Value, pkg)] = true
				}
			}
		case *build.BinaryExpr:
			if e.Op == "+" {
				rec(e.X)
				rec(e.Y)
			}
		case *build.CallExpr:
			for _, d := range selects(e) {
				for _, kv := range d.List {
					if l, ok := kv.Value.(*build.ListExpr); ok {
						rec(l)
					}
				}
			}
		}
	}
	if e != nil {
		rec(e)
	}
	return m
}

// onlyLists tells whether a value consists of list literals of strings and selects of these.
func onlyLists(e build.Expr) bool {
	switch e := unparen(e).(type) {
	case *build.ListExpr:
		for _, x := range e.List {
			if _, ok := x.(*build.StringExpr); !ok {
				return false
			}
		}
		return true
	case *build.BinaryExpr:
		return e.Op == "+" && onlyLists(e.X) && onlyLists(e.Y)
	case *build.CallExpr:
		ds := selects(e)
		for _, d := range ds {
			for _, kv := range d.List {
				if _, ok := kv.Value.(*build.ListExpr); !ok || !onlyLists(kv.Value) {
					return false
				}
			}
		}
		return len(ds) == 1
	}
	return false
}

// substitutions with their effect written by hand
var substs = []struct {
	re, tmpl string
	f        func(string) string
}{
	{`^//c(.*)$`, `//d${1}`, func(s string) string {
		if strings.HasPrefix(s, "//c") && !strings.Contains(s, "\n") {
			return "//d" + s[3:]
		}
		return s
	}},
	{`x`, `zz`, func(s string) string { return strings.Replace(s, "x", "zz", 1) }},
	{`\.cc$`, `.cpp`, func(s string) string {
		if strings.HasSuffix(s, ".cc") {
			return s[:len(s)-3] + ".cpp"
		}
		return s
	}},
	{`^:(?P<n>.)`, `:new_${n}`, func(s string) string {
		if len(s) > 1 && s[0] == ':' {
			return ":new_" + s[1:]
		}
		return s
	}},
	{`b`, `Q$0`, func(s string) string { return strings.Replace(s, "b", "Qb", 1) }},
	{`-(O|W)`, `/$1`, func(s string) string {
		i, j := strings.Index(s, "-O"), strings.Index(s, "-W")
		if i < 0 || j >= 0 && j < i {
			i = j
		}
		if i < 0 {
			return s
		}
		return s[:i] + "/" + s[i+1:]
	}},
}

// listCmd draws a list command for the attributes.
func listCmd(rt *rapid.T, attrs []string, present map[string][]string, noSubst bool) cmd {
	isWord := func(a string) bool {
		for _, w := range wordAttrs {
			if w == a {
				return true
			}
		}
		return false
	}
	a := attrs[gen.Int(rt, len(attrs))]
	val := func() string {
		if p := present[a]; len(p) > 0 && gen.Pct(rt, 40) {
			v := p[gen.Int(rt, len(p))]
			if isWord(a) {
				return v
			}
			for _, t := range targets { // in any spelling
				for _, x := range t {
					if norm(x, pkg) == norm(v, pkg) {
						return t[gen.Int(rt, len(t))]
					}
				}
			}
			return v
		}
		if isWord(a) {
			for {
				if w := words[gen.Int(rt, len(words)-1)]; w != "" {
					return w
				}
			}
		}
		return drawLabel(rt)
	}
	vals := func() (r []string) {
		for n := 1 + gen.Int(rt, 3); n > 0; n-- {
			r = append(r, val())
		}
		return
	}
	b := a
	for b == a {
		pool := listAttrs
		if isWord(a) {
			pool = wordAttrs
		}
		if gen.Pct(rt, 50) && len(attrs) > 1 {
			pool = attrs
		}
		b = pool[gen.Int(rt, len(pool))]
		if isWord(a) != isWord(b) {
			b = a
			if len(attrs) > 1 || true {
				if isWord(a) {
					b = wordAttrs[gen.Int(rt, len(wordAttrs))]
				} else {
					b = listAttrs[gen.Int(rt, len(listAttrs))]
				}
			}
		}
	}
	n := 14
	if noSubst {
		n = 12
	}
	switch gen.Int(rt, n) {
	case 0, 1, 2, 3:
		return append(cmd{"add", a}, vals()...)
	case 4, 5, 6:
		return append(cmd{"remove", a}, vals()...)
	case 7:
		if gen.Pct(rt, 40) {
			return cmd{"remove", a}
		}
		return append(cmd{"remove", "*"}, vals()...)
	case 8:
		return append(cmd{"move", a, b}, vals()...)
	case 9:
		return cmd{"move", a, b, "*"}
	case 10:
		if gen.Pct(rt, 20) {
			a = "*"
		} else if gen.Pct(rt, 30) {
			a = gen.Pick(rt, stringAttrs...)
		}
		return cmd{"replace", a, val(), val()}
	case 11:
		if !strings.HasPrefix(a, "my_") {
			return append(cmd{"set", a}, vals()...)
		}
		return append(cmd{"add", a}, vals()...)
	default:
		if gen.Pct(rt, 20) {
			a = "*"
		} else if gen.Pct(rt, 30) {
			a = gen.Pick(rt, stringAttrs...)
		}
		s := substs[gen.Int(rt, len(substs))]
		return cmd{"substitute", a, s.re, s.tmpl}
	}
}

// attributes that hold a string in generated files
var stringAttrs = []string{"main", "my_label", "toolchain", "size", "my_attr"}

// isListAttr: the attribute holds lists in generated files
func isListAttr(a string) bool {
	return contains(listAttrs, a) || contains(wordAttrs, a)
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// checkListStep compares the effect of one command on one rule (before r0, after r1)
// with the documented set operation. f0 and f1 are the whole files.
func checkListStep(c *vk.Case, f0, f1 *build.File, r0, r1 *rule, k cmd, fl flags) {
	varOf := func(f *build.File, e build.Expr) (string, build.Expr) {
		id, ok := e.(*build.Ident)
		if !ok || !fl.editVars {
			return "", nil
		}
		for i := len(f.Stmt) - 1; i >= 0; i-- {
			if as, ok := f.Stmt[i].(*build.AssignExpr); ok {
				if l, ok := as.LHS.(*build.Ident); ok && l.Name == id.Name {
					return id.Name, as.RHS
				}
			}
		}
		return "", nil
	}
	fail := func(a, why string, v0, v1 build.Expr, cfg map[string]bool) {
		show := func(e build.Expr) string {
			if e == nil {
				return "(absent)"
			}
			return build.FormatString(e)
		}
		c.Fail("%s on %s: attribute %s: %s (configuration %q)\nbefore: %s\nafter:  %s", k.line(), r0.name, a, why, cfgString(cfg), show(v0), show(v1))
	}
	// compare checks that under every configuration v1 has the elements op(v0).
	compare := func(a string, v0, v1 build.Expr, extra []build.Expr, op func(its []item) []string, free map[string]bool) {
		for _, cfg := range configs(pkg, append([]build.Expr{v0}, extra...)...) {
			c.Evals(1)
			its, _ := eval(v0, cfg, pkg)
			got, ok := eval(v1, cfg, pkg)
			if !ok {
				fail(a, "a select does not match any more", v0, v1, cfg)
			}
			want := map[string]bool{}
			for _, x := range op(its) {
				want[x] = true
			}
			g := counts(got, pkg)
			n0 := counts(its, pkg)
			for x := range want {
				if g[x] == 0 {
					fail(a, "element "+x+" is missing", v0, v1, cfg)
				}
			}
			for x, n := range g {
				if !want[x] {
					fail(a, "element "+x+" should not be there", v0, v1, cfg)
				}
				if n > 1 && n > n0[x] && !free[x] {
					fail(a, fmt.Sprintf("element %s occurs %d times, before %d", x, n, n0[x]), v0, v1, cfg)
				}
			}
		}
	}
	keys := func(its []item) (r []string) {
		for _, it := range its {
			r = append(r, it.key(pkg))
		}
		return
	}
	add := func(vals []string) func([]item) []string {
		return func(its []item) []string {
			r := keys(its)
			for _, v := range vals {
				r = append(r, norm(v, pkg))
			}
			return r
		}
	}
	remove := func(vals []string) func([]item) []string {
		return func(its []item) (r []string) {
			for _, it := range its {
				gone := false
				for _, v := range vals {
					if it.expr == "" && it.key(pkg) == norm(v, pkg) && !(fl.keepComments && it.comment) {
						gone = true
					}
				}
				if !gone {
					r = append(r, it.key(pkg))
				}
			}
			return
		}
	}
	same := func(its []item) []string { return keys(its) }
	// checkAdd: vals are added to attribute a (or to the variable it names)
	checkAdd := func(a string, vals []string) {
		v0, v1 := r0.attr(a), r1.attr(a)
		free := map[string]bool{}
		if fl.keepComments {
			for _, v := range vals {
				free[norm(v, pkg)] = true
			}
		}
		if name, x0 := varOf(f0, v0); name != "" {
			_, x1 := varOf(f1, v0)
			compare("variable "+name, x0, x1, nil, add(vals), free)
			compare(a, v0, v1, nil, same, nil)
			return
		}
		if v1 == nil && len(vals) > 0 {
			fail(a, "not there after adding", v0, v1, nil)
		}
		compare(a, v0, v1, nil, add(vals), free)
	}
	switch k[0] {
	case "add":
		checkAdd(k[1], k[2:])
	case "set":
		v1 := r1.attr(k[1])
		if v1 == nil {
			fail(k[1], "not there after set", r0.attr(k[1]), v1, nil)
		}
		for _, cfg := range configs(pkg, v1) {
			its, _ := eval(v1, cfg, pkg)
			var want []string
			for _, v := range k[2:] {
				want = append(want, norm(v, pkg))
			}
			if fmt.Sprint(sortedKeys(counts(its, pkg))) != fmt.Sprint(sortedKeys(set(want))) || !onlyLists(v1) {
				fail(k[1], "is not the value set", r0.attr(k[1]), v1, cfg)
			}
		}
	case "remove":
		if len(k) == 2 {
			if r1.attr(k[1]) != nil {
				fail(k[1], "still there after remove", r0.attr(k[1]), r1.attr(k[1]), nil)
			}
			return
		}
		for _, a := range r0.attrs {
			if k[1] != "*" && a.name != k[1] || !isListAttr(a.name) {
				continue
			}
			v0, v1 := r0.attr(a.name), r1.attr(a.name)
			compare(a.name, v0, v1, nil, remove(k[2:]), nil)
			left := false
			found := false
			for x := range allItems(v0, pkg) {
				hit := false
				for _, v := range k[2:] {
					if norm(v, pkg) == x {
						hit = true
					}
				}
				if hit {
					found = true
				} else {
					left = true
				}
			}
			if found && !left && onlyLists(v0) && !fl.keepComments && v1 != nil {
				fail(a.name, "is empty but still there", v0, v1, nil)
			}
			if !found && v1 == nil {
				fail(a.name, "disappeared although nothing was removed", v0, v1, nil)
			}
		}
		if k[1] != "*" && r0.attr(k[1]) == nil && r1.attr(k[1]) != nil {
			fail(k[1], "appeared", nil, r1.attr(k[1]), nil)
		}
	case "move":
		o0, o1, n0, n1 := r0.attr(k[1]), r1.attr(k[1]), r0.attr(k[2]), r1.attr(k[2])
		if k[3] == "*" {
			if n0 == nil { // a renaming
				if o1 != nil || n1 == nil {
					fail(k[1], "was not moved as a whole", o0, n1, nil)
				}
				compare(k[2], o0, n1, nil, same, nil)
				return
			}
			var vals []string
			its, _ := eval(o0, nil, pkg)
			for _, it := range its {
				vals = append(vals, it.key(pkg))
			}
			if o1 != nil {
				fail(k[1], "still there after moving all values", o0, o1, nil)
			}
			free := map[string]bool{}
			for _, it := range its {
				if it.expr != "" || fl.keepComments {
					free[it.key(pkg)] = true
				}
			}
			op := func(its []item) []string { return append(keys(its), vals...) }
			if name, x0 := varOf(f0, n0); name != "" {
				_, x1 := varOf(f1, n0)
				compare("variable "+name, x0, x1, nil, op, free)
				return
			}
			compare(k[2], n0, n1, nil, op, free)
			return
		}
		var moved []string
		all := allItems(o0, pkg)
		for _, v := range k[3:] {
			if !all[norm(v, pkg)] {
				continue
			}
			if fl.keepComments { // is there one without a comment of its own?
				ok := false
				astxEachString(o0, func(s *build.StringExpr) {
					if norm(s.Value, pkg) == norm(v, pkg) && len(s.Before)+len(s.Suffix) == 0 {
						ok = true
					}
				})
				if !ok {
					continue
				}
			}
			moved = append(moved, v)
		}
		compare(k[1], o0, o1, nil, remove(moved), nil)
		if l, ok := o0.(*build.ListExpr); ok && len(moved) > 0 && onlyLists(l) && o1 != nil {
			if its, _ := eval(o1, nil, pkg); len(its) == 0 {
				fail(k[1], "is empty but still there", o0, o1, nil)
			}
		}
		if len(moved) == 0 {
			if n0 == nil && n1 != nil {
				fail(k[2], "appeared", n0, n1, nil)
			}
			compare(k[2], n0, n1, nil, same, nil)
			return
		}
		checkAdd(k[2], moved)
	case "replace":
		for _, a := range r0.attrs {
			if k[1] != "*" && a.name != k[1] {
				continue
			}
			v0, v1 := r0.attr(a.name), r1.attr(a.name)
			if s, ok := v0.(*build.StringExpr); ok {
				want := norm(s.Value, pkg)
				if want == norm(k[2], pkg) {
					want = norm(k[3], pkg)
				}
				if s1, ok := v1.(*build.StringExpr); !ok || norm(s1.Value, pkg) != want {
					fail(a.name, "should be the string "+want, v0, v1, nil)
				}
				continue
			}
			if !isListAttr(a.name) {
				continue
			}
			free := map[string]bool{norm(k[3], pkg): true}
			compare(a.name, v0, v1, nil, func(its []item) []string {
				r := keys(its)
				for i := range r {
					if its[i].expr == "" && r[i] == norm(k[2], pkg) {
						r[i] = norm(k[3], pkg)
					}
				}
				return r
			}, free)
		}
	case "substitute":
		var f func(string) string
		for _, s := range substs {
			if s.re == k[2] {
				f = s.f
			}
		}
		for _, a := range r0.attrs {
			if k[1] != "*" && a.name != k[1] {
				continue
			}
			v0, v1 := r0.attr(a.name), r1.attr(a.name)
			if s, ok := v0.(*build.StringExpr); ok {
				if s1, ok := v1.(*build.StringExpr); !ok || norm(s1.Value, pkg) != norm(f(s.Value), pkg) {
					fail(a.name, "should be the string "+f(s.Value), v0, v1, nil)
				}
				continue
			}
			if !isListAttr(a.name) {
				continue
			}
			var free map[string]bool
			compare(a.name, v0, v1, nil, func(its []item) (r []string) {
				free = nil
				for _, it := range its {
					if it.expr != "" {
						r = append(r, it.key(pkg))
					} else {
						r = append(r, norm(f(it.raw), pkg))
					}
				}
				return
			}, everything{}.m(v0, f))
			_ = free
		}
	}
}

// everything: all results of a substitution may coincide with others.
type everything struct{}

func (everything) m(v build.Expr, f func(string) string) map[string]bool {
	m := map[string]bool{}
	astxEachString(v, func(s *build.StringExpr) { m[norm(f(s.Value), pkg)] = true })
	return m
}

func astxEachString(e build.Expr, f func(*build.StringExpr)) {
	astx.Each(e, func(x build.Expr) {
		if s, ok := x.(*build.StringExpr); ok {
			f(s)
		}
	})
}

func set(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// wantError: the command must fail on the rule.
func wantError(r0 *rule, k cmd) bool {
	if k[0] != "move" || k[3] != "*" {
		return false
	}
	o, n := r0.attr(k[1]), r0.attr(k[2])
	if o == nil {
		return true
	}
	if n == nil {
		return false
	}
	_, plain := o.(*build.ListExpr)
	return !plain
}

func TestC17_ListCommands(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated BUILD files (lists, concatenations, selects with default and other branches, variables, globs, parentheses, comments) x sequences of 1..4 list commands (add, remove, move, replace, substitute, set) over label spellings, run one by one and together, with -shorten_labels, -delete_with_comments, -edit-variables; the value of each attribute under every configuration before and after is compared with the set operation. Non-trivial: a command changed the file", 40000, 800000, func(rt *rapid.T, c *vk.Case) {
		fl := flags{noShorten: gen.Pct(rt, 15), keepComments: gen.Pct(rt, 15), editVars: gen.Pct(rt, 20)}
		text, names := buildFile(rt, func(g *bg) { g.parens = !fl.editVars; g.twoArgs = true })
		n := 1 + gen.Int(rt, 3)
		// prefer attributes the rules have
		f0, err := build.Parse("a/b/BUILD", []byte(text))
		if err != nil {
			c.Fail("generator: %v\n%s", err, text)
		}
		var attrs []string
		present := map[string][]string{}
		for _, r := range rulesOf(f0) {
			if contains(names, r.name) {
				for _, a := range r.attrs {
					if isListAttr(a.name) {
						attrs = append(attrs, a.name, a.name)
					}
					astxEachString(a.def.RHS, func(s *build.StringExpr) {
						if s.Value != "" && !strings.HasPrefix(s.Value, "//cond") {
							present[a.name] = append(present[a.name], s.Value)
						}
					})
				}
			}
		}
		attrs = append(attrs, "deps", "tags")
		var ks []cmd
		subst := false
		for i := 0; i < n; i++ {
			k := listCmd(rt, attrs, present, i > 0)
			if k[1] == "*" && k[0] != "remove" && i < n-1 {
				k = cmd{"add", "deps", "//c"} // may change names
			}
			subst = subst || k[0] == "substitute"
			ks = append(ks, k)
		}
		// targets
		tn := names[gen.Int(rt, len(names))]
		tgt := []string{"//a/b:" + tn}
		on := []string{tn}
		if gen.Pct(rt, 20) {
			tgt, on = nil, nil
			for _, x := range names {
				tgt = append(tgt, "//a/b:"+x)
				on = append(on, x)
			}
		} else if gen.Pct(rt, 10) && named(f0, tn).kind != "my_rule" {
			kind := named(f0, tn).kind
			tgt = []string{"//a/b:%" + kind}
			on = nil
			for _, r := range rulesOf(f0) {
				if r.kind == kind && r.name != "" {
					on = append(on, r.name)
				}
			}
		}
		var lines []string
		for _, k := range ks {
			lines = append(lines, k.line())
		}
		c.Input(text)
		c.Part("buildozer %s %q %q", fl, lines, tgt)
		w.put("a/b/BUILD", text)
		cur := text
		failed := false
		for i, k := range ks {
			fb := parseBuild(c, w.path("a/b/BUILD"), cur)
			res := w.run(fl, append([]string{lines[i]}, tgt...)...)
			now := w.get("a/b/BUILD")
			we := false
			for _, nm := range on {
				if wantError(named(fb, nm), k) {
					we = true
				}
			}
			if we {
				failed = true
				if res.rc != 2 || now != cur {
					c.Fail("%s should fail and leave the file alone: exit %d, stderr %q, file\n%s", lines[i], res.rc, res.err, now)
				}
				continue
			}
			if res.rc != 0 && res.rc != 3 {
				c.Fail("%s: exit %d, stderr %q, file\n%s", lines[i], res.rc, res.err, now)
			}
			if (res.rc == 0) != (now != cur) {
				c.Fail("%s: exit %d but changed=%v, stderr %q", lines[i], res.rc, now != cur, res.err)
			}
			fa := parseBuild(c, w.path("a/b/BUILD"), now)
			for _, nm := range on {
				r0, r1 := named(fb, nm), named(fa, nm)
				if a, b := rulesOf(fb), rulesOf(fa); k[1] == "*" && len(a) == len(b) { // the name may change
					for i := range a {
						if a[i].name == nm {
							r1 = b[i]
						}
					}
				}
				if r1 == nil {
					c.Fail("%s: rule %s is gone:\n%s", lines[i], nm, now)
				}
				if sharesVariable(fb, on, k, fl) {
					continue
				}
				checkListStep(c, fb, fa, r0, r1, k, fl)
			}
			if now != cur {
				c.NonTrivial(true)
			}
			c.LabelIf(now != cur, "changed by "+k[0])
			cur = now
		}
		// all commands in one invocation
		// (formatting may move comments)
		if len(ks) < 2 || failed || fl.keepComments || subst || ks[len(ks)-1][1] == "*" {
			return
		}
		c.Label("sequence")
		last := parseBuild(c, "a/b/BUILD", cur)
		w.put("a/b/BUILD", text)
		res := w.run(fl, append(append([]string{}, lines...), tgt...)...)
		if res.rc == 2 && strings.Contains(res.err, "is not a simple list") && strings.Contains(text, "(") {
			return // formatting in between removes parentheses around a list
		}
		if res.rc != 0 && res.rc != 3 {
			c.Fail("together: exit %d, stderr %q", res.rc, res.err)
		}
		fa := parseBuild(c, "a/b/BUILD", w.get("a/b/BUILD"))
		for _, nm := range on {
			a, b, orig := named(last, nm), named(fa, nm), named(f0, nm)
			if b == nil {
				c.Fail("together: rule %s is gone", nm)
			}
			for _, at := range append(append([]string{}, listAttrs...), wordAttrs...) {
				var all []build.Expr
				for _, x := range orig.attrs {
					if isListAttr(x.name) {
						all = append(all, x.def.RHS)
					}
				}
				cs := configs(pkg, append(all, a.attr(at), b.attr(at))...)
				if x, y := valueString(a.attr(at), cs, pkg), valueString(b.attr(at), cs, pkg); x != y {
					c.Fail("attribute %s of %s differs:\none by one: %s\ntogether:   %s\n--- one by one\n%s\n--- together\n%s", at, nm, x, y, cur, w.get("a/b/BUILD"))
				}
			}
		}
	})
}

// sharesVariable: with -edit-variables several targets may edit one variable.
func sharesVariable(f *build.File, on []string, k cmd, fl flags) bool {
	if !fl.editVars || len(on) < 2 {
		return false
	}
	n := 0
	for _, nm := range on {
		for _, a := range named(f, nm).attrs {
			if _, ok := a.def.RHS.(*build.Ident); ok && (a.name == k[1] || k[0] == "move" && a.name == k[2]) {
				n++
			}
		}
	}
	return n > 1
}
