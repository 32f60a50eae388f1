package plint

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// The generator writes a program statement by statement and at the same time
// interprets it: it keeps the set of variables that are initialised on every path
// to the current point, whether the point can be reached, and which names every
// scope binds and uses. It never looks at a buildtools tree.

type pos struct{ line, col int }

// A use is a mention of a name at a point that can be reached.
type use struct {
	name  string
	at    pos
	init  bool // initialised on every path
	maybe bool // evaluated later (lambda bodies): no verdict
}

type binding struct {
	at       pos
	suppress bool
}

type cfScope struct {
	parent *cfScope
	params map[string]binding
	locals map[string]binding
	funcs  map[string]binding
	used   map[string]bool
	uses   []use
	valued, dead,
	endReached bool
	bare []pos
	at   pos
}

func newScope(parent *cfScope) *cfScope {
	return &cfScope{parent: parent, params: map[string]binding{}, locals: map[string]binding{}, funcs: map[string]binding{}, used: map[string]bool{}}
}

type state struct {
	init  map[string]bool
	reach bool
}

func (s state) copy() state {
	m := map[string]bool{}
	for k := range s.init {
		m[k] = true
	}
	return state{m, s.reach}
}

// join is the state after two alternative paths.
func join(a, b state) state {
	if !a.reach {
		return b
	}
	if !b.reach {
		return a
	}
	m := map[string]bool{}
	for k := range a.init {
		if b.init[k] {
			m[k] = true
		}
	}
	return state{m, true}
}

type cf struct {
	rt     *rapid.T
	b      strings.Builder
	at     pos
	sc     *cfScope
	st     state
	budget int
	n, fn  int
	ind    string
	expect map[string]map[pos]bool // category → position → must be reported (else may)
	typ    build.FileType
	// names that may be loaded, and names that occur anywhere but as the name of a
	// keyword argument or attribute or the target of a plain assignment
	extra     []string
	mentioned map[string]bool
}

func (g *cf) N(n int) int              { return gen.Int(g.rt, n) }
func (g *cf) P(p int) bool             { return gen.Pct(g.rt, p) }
func (g *cf) Pick(xs ...string) string { return xs[g.N(len(xs))] }

func (g *cf) w(s string) {
	g.b.WriteString(s)
	for _, r := range s {
		if r == '\n' {
			g.at.line++
			g.at.col = 1
		} else {
			g.at.col++
		}
	}
}

func (g *cf) report(cat string, at pos, must bool) {
	if g.expect[cat] == nil {
		g.expect[cat] = map[pos]bool{}
	}
	g.expect[cat][at] = g.expect[cat][at] || must
}

func (g *cf) varName() string {
	if len(g.extra) > 0 && g.P(25) {
		return g.Pick(g.extra...)
	}
	if g.P(8) {
		return g.Pick("_u", "_v", "name")
	}
	return g.Pick("a", "b", "c", "d")
}

func (g *cf) see(names ...string) {
	if g.mentioned != nil {
		for _, n := range names {
			g.mentioned[n] = true
		}
	}
}

// mention writes a name that is read.
func (g *cf) mention(bound map[string]bool, later bool) {
	name := g.varName()
	if g.P(10) && g.fn > 0 {
		name = fmt.Sprintf("fn%d", g.N(g.fn)+1)
		if g.P(30) {
			name = "_" + name
		}
	}
	g.see(name)
	if !bound[name] {
		g.sc.used[name] = true
		if g.st.reach {
			g.sc.uses = append(g.sc.uses, use{name, g.at, g.st.init[name], later})
		}
	}
	g.w(name)
}

func with(bound map[string]bool, names ...string) map[string]bool {
	m := map[string]bool{}
	for k := range bound {
		m[k] = true
	}
	for _, n := range names {
		m[n] = true
	}
	return m
}

// break_ writes white space inside brackets.
func (g *cf) sp() {
	if g.P(5) {
		g.w("\n" + g.ind + "      ")
	}
}

func (g *cf) expr(depth int, bound map[string]bool, later bool) {
	if depth <= 0 {
		if g.P(70) {
			g.mention(bound, later)
		} else {
			g.w(g.Pick("1", `"s"`, "None"))
		}
		return
	}
	d := depth - 1
	switch g.N(16) {
	case 0, 1, 2, 3:
		g.mention(bound, later)
	case 4:
		g.w(g.Pick("0", "True", `"a"`))
	case 5:
		g.expr(0, bound, later)
		g.w(g.Pick(" + ", " == ", " and ", " in "))
		g.expr(0, bound, later)
	case 6, 7: // a call with keyword arguments
		switch g.N(3) {
		case 0:
			g.w("foo")
		case 1:
			g.mention(bound, later)
		case 2:
			g.w("native.bar")
		}
		g.w("(")
		g.sp()
		g.expr(d, bound, later)
		for i := g.N(3); i > 0; i-- {
			g.w(", ")
			g.sp()
			g.w(g.varName() + fmt.Sprint(" = "))
			g.expr(d, bound, later)
		}
		if g.P(10) {
			g.w(", *")
			g.expr(0, bound, later)
		}
		g.w(")")
	case 8:
		open, shut := "[", "]"
		if g.P(30) {
			open, shut = "(", ",)"
		}
		g.w(open)
		g.sp()
		g.expr(d, bound, later)
		g.w(", ")
		g.expr(d, bound, later)
		g.sp()
		g.w(shut)
	case 9, 10: // a comprehension
		n := 1 + g.N(2)
		var vars [][]string
		inner := bound
		for i := 0; i < n; i++ {
			vs := []string{g.varName()}
			if g.P(30) {
				vs = append(vs, g.varName())
			}
			vars = append(vars, vs)
			inner = with(inner, vs...)
			g.see(vs...)
		}
		dict := g.P(25)
		if dict {
			g.w("{")
			g.expr(0, inner, later)
			g.w(": ")
		} else {
			g.w("[")
		}
		g.sp()
		g.expr(d, inner, later)
		for i := 0; i < n; i++ {
			g.w(" for " + strings.Join(vars[i], ", ") + " in ")
			if i == 0 {
				// evaluated outside the comprehension
				g.expr(0, bound, later)
			} else {
				g.expr(0, inner, later)
			}
			if g.P(25) {
				g.w(" if ")
				g.expr(0, inner, later)
			}
		}
		g.w(map[bool]string{true: "}", false: "]"}[dict])
	case 11: // a lambda
		g.w("(lambda ")
		inner := bound
		n := g.N(4)
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			v := g.varName()
			if seen[v] {
				continue
			}
			if len(seen) > 0 {
				g.w(", ")
			}
			seen[v] = true
			inner = with(inner, v)
			g.see(v)
			if i == n-1 && g.P(40) {
				g.w(g.Pick("*", "**") + v)
				continue
			}
			g.w(v)
			if i > 0 || g.P(50) {
				g.w(" = ")
				g.expr(0, bound, later)
			}
		}
		g.w(": ")
		g.expr(d, inner, true)
		g.w(")")
	case 12:
		g.expr(0, bound, later)
		g.w(" if ")
		g.expr(0, bound, later)
		g.w(" else ")
		g.expr(0, bound, later)
	case 13:
		g.mention(bound, later)
		if g.P(50) {
			g.w("." + g.varName())
		} else {
			g.w("[")
			g.expr(d, bound, later)
			g.w("]")
		}
	case 14:
		g.w("{")
		g.expr(d, bound, later)
		g.w(": ")
		g.expr(d, bound, later)
		g.w("}")
	default:
		g.w(g.Pick("(", "not (", "-("))
		g.expr(d, bound, later)
		g.w(")")
	}
}

// target draws what is assigned to; the writer is called later, so that uses in it
// are recorded at the right place.
func (g *cf) target(loop bool) (names []string, write func(unused, loop bool)) {
	one := func(v string) func(bool) {
		return func(suppress bool) {
			if _, ok := g.sc.locals[v]; !ok {
				if _, ok := g.sc.params[v]; !ok {
					g.sc.locals[v] = binding{g.at, suppress}
				}
			}
			g.w(v)
		}
	}
	if !loop && g.P(12) { // x[i] = …
		return nil, func(bool, bool) {
			g.mention(nil, false)
			if g.P(50) {
				g.w(".x")
			} else {
				g.w("[")
				g.expr(1, nil, false)
				g.w("]")
			}
		}
	}
	n := 1
	if g.P(30) {
		n = 2 + g.N(2)
	}
	for i := 0; i < n; i++ {
		v := g.varName()
		if g.P(15) {
			v = g.Pick("_u", "_v")
		}
		names = append(names, v)
	}
	shape := g.N(4)
	return names, func(unused, loop bool) {
		under := true
		if n > 1 || loop {
			g.see(names...)
		}
		for _, v := range names {
			under = under && strings.HasPrefix(v, "_")
		}
		open, shut := "", ""
		if n > 1 || g.P(6) {
			switch shape {
			case 0:
				open, shut = "(", ")"
				g.see(names...)
			case 1:
				open, shut = "[", "]"
				g.see(names...)
			}
		}
		g.w(open)
		for i, v := range names {
			if i > 0 {
				g.w(", ")
			}
			if i == 1 && n == 3 && shape == 2 {
				g.w("(")
			}
			one(v)(unused || strings.HasPrefix(v, "_") && (loop || !under))
		}
		if n == 3 && shape == 2 {
			g.w(")")
		}
		g.w(shut)
	}
}

// block writes statements and tells whether anything but comments was written.
func (g *cf) block(depth int, loop bool) {
	entry := g.st.reach
	reported := false
	n := 1 + g.N(4)
	written := 0
	for i := 0; i < n || written == 0; i++ {
		if g.P(8) {
			g.n++
			g.w(fmt.Sprintf("%s# c%d\n", g.ind, g.n))
			if g.P(30) {
				g.w("\n")
			}
		}
		if g.P(8) {
			g.w("\n")
		}
		dead := !g.st.reach
		g.w(g.ind)
		if dead && entry && !reported && g.sc.parent != nil {
			g.report("unreachable", g.at, true)
			reported = true
		}
		if dead {
			g.sc.dead = true
		}
		g.stmt(depth, loop)
		written++
		g.budget--
		if g.budget < 0 || !g.st.reach && g.P(60) {
			break
		}
	}
	if g.P(6) {
		g.n++
		g.w(fmt.Sprintf("%s# c%d\n", g.ind, g.n))
	}
}

func (g *cf) nl() {
	if g.P(8) {
		g.n++
		g.w(fmt.Sprintf("  # c%d", g.n))
	}
	g.w("\n")
}

func (g *cf) body(depth int, loop bool) {
	if g.P(8) {
		g.w(" ")
		if !g.st.reach {
			g.sc.dead = true
		}
		g.simple(loop)
		return
	}
	g.w("\n")
	old := g.ind
	g.ind += "    "
	g.block(depth-1, loop)
	g.ind = old
}

func (g *cf) stmt(depth int, loop bool) {
	if depth <= 0 || g.budget <= 0 || g.P(55) {
		g.simple(loop)
		return
	}
	switch g.N(5) {
	case 0, 1, 2:
		before := g.st
		g.w("if ")
		g.expr(1, nil, false)
		g.w(":")
		g.st = before.copy()
		g.body(depth, loop)
		after := g.st
		for g.P(25) {
			g.w(g.ind + "elif ")
			g.st = before
			g.expr(1, nil, false)
			g.w(":")
			g.st = before.copy()
			g.body(depth, loop)
			after = join(after, g.st)
		}
		g.st = before.copy()
		if g.P(55) {
			g.w(g.ind + "else:")
			g.body(depth, loop)
		}
		g.st = join(after, g.st)
	case 3:
		names, write := g.target(true)
		g.w("for ")
		write(false, true)
		g.w(" in ")
		g.expr(1, nil, false)
		g.w(":")
		before := g.st.copy()
		for _, v := range names {
			g.st.init[v] = true
		}
		g.body(depth, true)
		g.st = before
	case 4:
		g.def(depth)
	}
}

func (g *cf) simple(loop bool) {
	inDef := g.sc.parent != nil
	switch k := g.N(20); {
	case k < 9: // an assignment
		names, write := g.target(false)
		op := " = "
		if len(names) == 1 && g.P(20) {
			op = " += "
		}
		unused := g.P(5)
		at := g.at
		write(unused, false)
		if op == " += " && g.sc.parent != nil {
			// reads the variable as well; either verdict is fine
			if g.st.reach && !g.st.init[names[0]] {
				g.sc.uses = append(g.sc.uses, use{names[0], at, false, true})
			}
		}
		if op == " += " {
			g.see(names...)
		}
		g.w(op)
		g.expr(2, nil, false)
		if unused {
			g.w("  # @unused")
		}
		g.w("\n")
		for _, v := range names {
			g.st.init[v] = true
		}
	case k < 13:
		if g.P(70) {
			g.w("print(")
			g.expr(2, nil, false)
			g.w(")")
		} else {
			g.expr(2, nil, false)
		}
		g.nl()
	case k == 13 && inDef:
		g.sc.bare = append(g.sc.bare, g.at)
		g.w("return")
		g.nl()
		g.st.reach = false
	case k < 16 && inDef:
		g.sc.valued = true
		g.w("return ")
		g.expr(2, nil, false)
		g.nl()
		g.st.reach = false
	case k == 16:
		g.w("fail(")
		g.expr(2, nil, false)
		g.w(")")
		g.nl()
		g.st.reach = false
	case k < 19 && loop:
		g.w(g.Pick("break", "continue"))
		g.nl()
		g.st.reach = false
	default:
		g.w("pass")
		g.nl()
	}
}

func (g *cf) def(depth int) {
	g.fn++
	name := fmt.Sprintf("fn%d", g.fn)
	if g.P(30) {
		name = "_" + name
	}
	at := g.at
	unused := g.P(5)
	if unused {
		// the comment goes before the statement
		s := g.b.String()
		cut := strings.LastIndex(s, "\n") + 1
		rest := s[cut:]
		g.b.Reset()
		g.b.WriteString(s[:cut])
		g.at = pos{at.line, 1}
		g.w(rest + "# @unused\n" + g.ind)
		// the report of an unreachable statement moves with it
		if must, ok := g.expect["unreachable"][at]; ok {
			delete(g.expect["unreachable"], at)
			g.report("unreachable", g.at, must)
		}
		at = g.at
	}
	outer, outerState := g.sc, g.st
	outer.funcs[name] = binding{at, unused}
	in := newScope(outer)
	in.at = at
	g.w("def " + name + "(")
	n := g.N(4)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		v := g.varName()
		if seen[v] {
			continue
		}
		if len(seen) > 0 {
			g.w(", ")
			g.sp()
		}
		seen[v] = true
		star := i == n-1 && g.P(30)
		if star {
			g.w(g.Pick("*", "**"))
		}
		g.see(v)
		in.params[v] = binding{g.at, strings.HasPrefix(v, "_") || v == "name"}
		g.w(v)
		if g.P(10) {
			g.w(": ")
			g.mention(nil, false)
		}
		if !star && (i > 0 || g.P(40)) {
			g.w(" = ")
			g.expr(1, nil, false)
		}
	}
	g.w(")")
	if g.P(10) {
		g.w(" -> ")
		g.mention(nil, false)
	}
	g.w(":")
	g.sc, g.st = in, state{map[string]bool{}, true}
	if g.P(10) {
		g.w("\n" + g.ind + "    \"\"\"doc\"\"\"\n")
		old := g.ind
		g.ind += "    "
		g.block(depth-1, false)
		g.ind = old
	} else {
		g.body(depth, false)
	}
	in.endReached = g.st.reach
	g.finish(in)
	g.sc, g.st = outer, outerState
	outer.dead = outer.dead || false
}

// finish derives what has to be reported about a function or file, and passes uses of
// names of outer scopes on to the parent.
func (g *cf) finish(s *cfScope) {
	exported := s.parent == nil && (g.typ == build.TypeBzl || g.typ == build.TypeDefault)
	binds := map[string]bool{}
	for i, m := range []map[string]binding{s.params, s.locals, s.funcs} {
		for name, b := range m {
			binds[name] = true
			if i == 1 {
				if _, ok := s.params[name]; ok {
					continue
				}
			}
			if s.used[name] || b.suppress || exported && !strings.HasPrefix(name, "_") {
				continue
			}
			g.report("unused-variable", b.at, true)
		}
	}
	for name := range s.used {
		if s.parent != nil && !binds[name] {
			s.parent.used[name] = true
		}
	}
	if s.parent == nil {
		return
	}
	for _, u := range s.uses {
		_, local := s.locals[u.name]
		_, param := s.params[u.name]
		if local && !param && !u.init {
			g.report("uninitialized", u.at, !u.maybe)
		}
	}
	if s.valued {
		for _, p := range s.bare {
			g.report("return-value", p, !s.dead)
		}
		if s.endReached || s.dead {
			g.report("return-value", s.at, !s.dead)
		}
	}
}

// TestC36_ControlFlow compares the control-flow findings with those of the interpreter above.
func TestC36_ControlFlow(t *testing.T) {
	cats := []string{"unreachable", "return-value", "uninitialized", "unused-variable"}
	vk.Check(t, "files with nested functions, branches, loops, returns, fail calls, break/continue, tuple and augmented assignments, comprehensions and lambdas that shadow names, default values and annotations, @unused comments; the generator tracks for every point whether it can be reached and which variables are initialised on every path, and per scope which names are bound and used; non-trivial: at least two of the four categories have something to report", 120000, 4000000, func(rt *rapid.T, c *vk.Case) {
		g := &cf{rt: rt, at: pos{1, 1}, expect: map[string]map[pos]bool{}, budget: 6 + gen.Int(rt, 25)}
		g.typ = lintTypes[gen.Int(rt, len(lintTypes))]
		g.sc = newScope(nil)
		g.st = state{map[string]bool{}, true}
		for i := 1 + g.N(4); i > 0; i-- {
			switch g.N(5) {
			case 0:
				g.stmt(0, false)
			case 1:
				g.stmt(2, false)
			default:
				g.def(4)
			}
			g.st.reach = true
		}
		g.finish(g.sc)
		text := g.b.String()
		c.Input(text + fmt.Sprintf("\n---\ntype %v", g.typ))
		f, err := lintFile(text, g.typ)
		if err != nil {
			panic(err)
		}
		found := map[string]map[pos]string{}
		for _, x := range warn.FileWarnings(f, cats, nil, warn.ModeWarn, reader(0)) {
			p := pos{x.Start.Line, x.Start.LineRune}
			if found[x.Category] == nil {
				found[x.Category] = map[pos]string{}
			}
			if old, ok := found[x.Category][p]; ok {
				c.Fail("reported twice: %s %v %q %q", x.Category, p, old, x.Message)
			}
			found[x.Category][p] = x.Message
		}
		some := 0
		for _, cat := range cats {
			var ps []pos
			all := map[pos]bool{}
			for p := range g.expect[cat] {
				all[p] = true
			}
			for p := range found[cat] {
				all[p] = true
			}
			for p := range all {
				ps = append(ps, p)
			}
			sort.Slice(ps, func(i, j int) bool {
				return ps[i].line < ps[j].line || ps[i].line == ps[j].line && ps[i].col < ps[j].col
			})
			must := false
			for _, p := range ps {
				m, ok := g.expect[cat][p]
				msg, got := found[cat][p]
				if got && !ok {
					c.Fail("%s: reported at %d:%d although the program gives no reason: %s", cat, p.line, p.col, msg)
				}
				if !got && m {
					c.Fail("%s: nothing reported at %d:%d", cat, p.line, p.col)
				}
				must = must || m
			}
			if must {
				some++
				c.Label(cat)
			}
		}
		c.NonTrivial(some >= 2)
	})
}
