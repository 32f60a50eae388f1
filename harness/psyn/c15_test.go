package psyn

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/bzlenv"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// shape dumps a tree below e with all plain fields; replacements stand in for the nodes they are keyed by.
func shape(b *strings.Builder, e build.Expr, repl map[build.Expr]func() build.Expr, inner bool) {
	if astx.IsNil(e) {
		b.WriteString("nil ")
		return
	}
	if !inner {
		if r, ok := repl[e]; ok {
			n := r()
			if p, ok := n.(*build.ParenExpr); ok && p.X == e {
				b.WriteString("(ParenExpr ")
				shape(b, e, repl, true)
				b.WriteString(")")
				return
			}
			shape(b, n, nil, false)
			return
		}
	}
	v := reflect.ValueOf(e).Elem()
	b.WriteString("(" + v.Type().Name() + " ")
	if _, ok := e.(*build.ParenExpr); !ok {
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i); f.Kind() {
			case reflect.String, reflect.Bool, reflect.Int:
				if v.Type().Field(i).IsExported() {
					fmt.Fprintf(b, "%v ", f.Interface())
				}
			}
		}
	}
	cm := e.Comment()
	fmt.Fprintf(b, "%d/%d/%d ", len(cm.Before), len(cm.Suffix), len(cm.After))
	for _, c := range astx.Children(e) {
		shape(b, c, repl, false)
	}
	b.WriteString(")")
}

func shapeOf(e build.Expr, repl map[build.Expr]func() build.Expr) string {
	var b strings.Builder
	shape(&b, e, repl, false)
	return strings.ReplaceAll(b.String(), "(ParenExpr 0/0/0 ", "(ParenExpr ")
}

type visit struct {
	node   build.Expr
	stack  []build.Expr
	parent build.Expr
}

func allVisits(root build.Expr) []visit {
	var out []visit
	var r2 func(e build.Expr, stk []build.Expr)
	r2 = func(e build.Expr, stk []build.Expr) {
		out = append(out, visit{node: e, stack: stk, parent: last(stk)})
		sub := append(append([]build.Expr(nil), stk...), e)
		for _, ch := range astx.Children(e) {
			r2(ch, sub)
		}
	}
	r2(root, nil)
	return out
}

func last(s []build.Expr) build.Expr {
	if len(s) == 0 {
		return nil
	}
	return s[len(s)-1]
}

func stackKey(n build.Expr, stk []build.Expr) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%p", n)
	for i := len(stk) - 1; i >= 0; i-- {
		fmt.Fprintf(&b, "<%p", stk[i])
	}
	return b.String()
}

// compareVisits requires the traversal to be the expected one, up to the order of siblings.
func compareVisits(c *vk.Case, what string, got, want []visit) {
	m := map[string]int{}
	for _, v := range want {
		m[stackKey(v.node, v.stack)]++
	}
	seen := map[build.Expr]bool{}
	var first build.Expr
	for i, v := range got {
		k := stackKey(v.node, v.stack)
		if m[k]--; m[k] < 0 {
			c.Fail("%s visits %s %q with a stack of %d, which is not expected (or a second time)", what, kindOf(v.node), clip(v.node), len(v.stack))
		}
		if i == 0 {
			first = v.node
		}
		if len(v.stack) > 0 && !seen[last(v.stack)] && first != nil && last(v.stack) != nil {
			if p := last(v.stack); inVisits(want, p) {
				c.Fail("%s visits %s before its parent %s", what, kindOf(v.node), kindOf(p))
			}
		}
		seen[v.node] = true
	}
	for _, v := range want {
		if m[stackKey(v.node, v.stack)] > 0 {
			c.Fail("%s does not visit %s %q below %s", what, kindOf(v.node), clip(v.node), kindOf(v.parent))
		}
	}
}

func inVisits(vs []visit, e build.Expr) bool {
	for _, v := range vs {
		if v.node == e {
			return true
		}
	}
	return false
}

func clip(e build.Expr) string {
	s := build.FormatString(e)
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func cp(stk []build.Expr) []build.Expr { return append([]build.Expr(nil), stk...) }

// replaceable tells whether any expression may stand in the place of the node.
func replaceable(v visit) bool {
	switch v.parent.(type) {
	case nil, *build.LoadStmt, *build.TypedIdent, *build.DictExpr:
		return false
	}
	switch v.node.(type) {
	case *build.ForClause, *build.IfClause, *build.CommentBlock, *build.TypedIdent:
		return false
	}
	return true
}

// TestC15_Walks: all traversals of a file.
func TestC15_Walks(t *testing.T) {
	vk.Check(t, "grammar-generated files of all constructs (annotations, lambdas, nested functions, loads, comprehensions, comment blocks); random sets of constructs to stop at or to replace by a name, by a wrapper, or by themselves; non-trivial: at least 10 constructs", 30000, 2000000, func(rt *rapid.T, c *vk.Case) {
		src := gen.File(rt, gen.Cfg{})
		if gen.Pct(rt, 20) {
			src.Text = snippets[gen.Int(rt, len(snippets))] + src.Text
		}
		pr := parsers[gen.Int(rt, len(parsers))]
		c.Input(src.Text)
		f, err := pr.parse(pr.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		want := allVisits(f)
		c.NonTrivial(len(want) >= 10)
		before := shapeOf(f, nil)

		var got []visit
		build.Walk(f, func(x build.Expr, stk []build.Expr) { got = append(got, visit{node: x, stack: cp(stk)}) })
		compareVisits(c, "Walk", got, want)
		got = nil
		build.WalkPointers(f, func(x *build.Expr, stk []build.Expr) { got = append(got, visit{node: *x, stack: cp(stk)}) })
		compareVisits(c, "WalkPointers", got, want)
		got = nil
		build.Edit(f, func(x build.Expr, stk []build.Expr) build.Expr {
			got = append(got, visit{node: x, stack: cp(stk)})
			if len(got)%2 == 0 {
				return nil
			}
			return x
		})
		compareVisits(c, "Edit", got, want)
		got = nil
		build.EditChildren(f, func(x build.Expr, stk []build.Expr) build.Expr {
			got = append(got, visit{node: x, stack: cp(stk)})
			return x
		})
		compareVisits(c, "EditChildren", got, want[1:])

		// the environment walk
		got = nil
		env := bzlenv.NewEnvironment()
		var ew func(e *build.Expr, env *bzlenv.Environment)
		ew = func(e *build.Expr, env *bzlenv.Environment) {
			if astx.IsNil(*e) {
				return
			}
			got = append(got, visit{node: *e, stack: cp(env.Stack)})
			bzlenv.WalkOnceWithEnvironment(*e, env, ew)
		}
		var root build.Expr = f
		ew(&root, env)
		compareVisits(c, "WalkOnceWithEnvironment", got, want)
		if len(env.Stack) != 0 || len(env.Blocks) != 1 {
			c.Fail("WalkOnceWithEnvironment leaves %d nodes and %d blocks", len(env.Stack), len(env.Blocks))
		}

		// direct children
		for k := 0; k < 3; k++ {
			n := want[gen.Int(rt, len(want))].node
			cnt := map[build.Expr]int{}
			for _, ch := range astx.Children(n) {
				cnt[ch]++
			}
			build.WalkOnce(n, func(x *build.Expr) {
				if !astx.IsNil(*x) {
					if cnt[*x]--; cnt[*x] < 0 {
						c.Fail("WalkOnce of %s visits %s %q", kindOf(n), kindOf(*x), clip(*x))
					}
				}
			})
			for ch, k := range cnt {
				if k > 0 {
					c.Fail("WalkOnce of %s does not visit %s %q", kindOf(n), kindOf(ch), clip(ch))
				}
			}
		}

		// stopping
		stop := map[build.Expr]bool{}
		for k := gen.Int(rt, 4); k > 0; k-- {
			stop[want[gen.Int(rt, len(want))].node] = true
		}
		var wantStop []visit
		for _, v := range want {
			ok := true
			for _, a := range v.stack {
				ok = ok && !stop[a]
			}
			if ok {
				wantStop = append(wantStop, v)
			}
		}
		got = nil
		build.WalkInterruptable(f, func(x build.Expr, stk []build.Expr) error {
			got = append(got, visit{node: x, stack: cp(stk)})
			if stop[x] {
				return &build.StopTraversalError{}
			}
			return nil
		})
		compareVisits(c, "WalkInterruptable", got, wantStop)

		// statements
		var wantStmt []visit
		for _, v := range want {
			ok := true
			for i, a := range v.stack {
				ok = ok && !stop[a]
				below := v.node
				if i+1 < len(v.stack) {
					below = v.stack[i+1]
				}
				switch x := a.(type) {
				case *build.File:
				case *build.DefStmt:
					ok = ok && has(below, x.Body)
				case *build.IfStmt:
					ok = ok && (has(below, x.True) || has(below, x.False))
				case *build.ForStmt:
					ok = ok && has(below, x.Body)
				default:
					ok = false
				}
			}
			if ok {
				wantStmt = append(wantStmt, v)
			}
		}
		got = nil
		build.WalkStatements(f, func(x build.Expr, stk []build.Expr) error {
			got = append(got, visit{node: x, stack: cp(stk)})
			if stop[x] {
				return &build.StopTraversalError{}
			}
			return nil
		})
		compareVisits(c, "WalkStatements", got, wantStmt)
		if s := shapeOf(f, nil); s != before {
			c.Fail("walking has changed the tree\n%s\n%s", before, s)
		}

		// replacing
		repl := map[build.Expr]func() build.Expr{}
		gone := map[build.Expr]bool{}
		wrapped := map[build.Expr]bool{}
		for k := 1 + gen.Int(rt, 3); k > 0; k-- {
			v := want[gen.Int(rt, len(want))]
			if !replaceable(v) || repl[v.node] != nil {
				continue
			}
			n := v.node
			switch gen.Int(rt, 3) {
			case 0, 1:
				repl[n] = func() build.Expr { return &build.Ident{Name: "REPLACED"} }
				gone[n] = true
			case 2:
				repl[n] = func() build.Expr { return &build.ParenExpr{X: n} }
				wrapped[n] = true
			}
		}
		expect := shapeOf(f, repl)
		mode := gen.Int(rt, 3)
		done := map[build.Expr]bool{}
		edit := func(x build.Expr, stk []build.Expr) build.Expr {
			for _, a := range stk {
				if gone[a] {
					c.Fail("%s %q is visited below the replaced %s", kindOf(x), clip(x), kindOf(a))
				}
			}
			if r := repl[x]; r != nil && !done[x] {
				done[x] = true
				return r()
			}
			return nil
		}
		what := ""
		switch mode {
		case 0:
			what = "Edit"
			build.Edit(f, edit)
		case 1:
			what = "EditChildren"
			build.EditChildren(f, edit)
		case 2:
			what = "WalkPointers"
			build.WalkPointers(f, func(x *build.Expr, stk []build.Expr) {
				if n := edit(*x, stk); n != nil {
					*x = n
				}
			})
		}
		if len(repl) > 0 {
			c.Label("replaced")
		}
		if s := shapeOf(f, nil); s != expect {
			c.Fail("%s with %d replacements gives\n%s\ninstead of\n%s", what, len(repl), s, expect)
		}
	})
}

func has(e build.Expr, list []build.Expr) bool {
	for _, x := range list {
		if x == e {
			return true
		}
	}
	return false
}

// TestC15_Deep: traversals reach the bottom of deep trees.
func TestC15_Deep(t *testing.T) {
	vk.Check(t, "towers of 20 to 3000 nested lists, parentheses, sums, calls, indexes or blocks; non-trivial: all", 300, 20000, func(rt *rapid.T, c *vk.Case) {
		n := 20 + gen.Int(rt, 300)
		if gen.Pct(rt, 10) {
			n *= 10
		}
		k := gen.Int(rt, 5)
		var s string
		switch k {
		case 0:
			s = "x = " + strings.Repeat("[", n) + "LEAF" + strings.Repeat("]", n) + "\n"
		case 1:
			s = "x = LEAF" + strings.Repeat(" + 1", n) + "\n"
		case 2:
			s = "LEAF" + strings.Repeat("()", n) + "\n"
		case 3:
			s = "x = LEAF" + strings.Repeat("[1]", n) + "\n"
		case 4:
			n = min(n, 150)
			for i := 0; i < n; i++ {
				s += strings.Repeat(" ", i) + "if a:\n"
			}
			s += strings.Repeat(" ", n) + "LEAF\n"
		}
		c.Input(s)
		c.NonTrivial(true)
		f, err := build.ParseDefault("x", []byte(s))
		if err != nil {
			c.Fail("%v", err)
		}
		found := 0
		build.Walk(f, func(x build.Expr, stk []build.Expr) {
			if id, ok := x.(*build.Ident); ok && id.Name == "LEAF" {
				found++
				if len(stk) < n {
					c.Fail("the leaf has only %d ancestors, not %d", len(stk), n)
				}
			}
		})
		if found != 1 {
			c.Fail("the leaf is visited %d times", found)
		}
	})
}
