package pfmt

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// An element of a generated list.
type lelem struct {
	str    bool
	v      string // string value, or source of another expression
	before []string
	suffix string
}

type llist struct {
	elems []lelem
	end   []string // comments before the closing bracket
	open  string   // comment after the opening bracket: a comment of the first element
}

// part of a value: a list, a select of lists, or another expression
type lpart struct {
	list *llist
	sel  []*llist // nil entries are other values
	expr string
}

var sortPool = []string{"a", "b", "B", "a.b", "a.cc", "a-b", "a_b", "ab", "a.b.c", "b.a", ":a", ":b", ":a.b", ":ab", "//a", "//b", "//a:b", "//a/b", "//a.b", "//a/b:c", "@r", "@a//b", "@a//b:c", "@@a//b", "", "10", "9", "z", "a:b", "a/b", "é", "a:", "a.", "A", "x/y", "x.y/z"}

type lgen struct {
	rt *rapid.T
	nc int
}

func (g *lgen) comment() string {
	g.nc++
	return fmt.Sprintf("# c%d", g.nc)
}

func (g *lgen) elems(commented bool) []lelem {
	var r []lelem
	pool := sortPool
	if gen.Pct(g.rt, 30) { // few distinct strings
		i := gen.Int(g.rt, len(sortPool)-4)
		pool = sortPool[i : i+4]
	}
	n := gen.Int(g.rt, 7)
	if gen.Pct(g.rt, 3) {
		n = 14 + gen.Int(g.rt, 30) // beyond the sizes sorts treat by insertion
	}
	for ; n > 0; n-- {
		e := lelem{str: true, v: pool[gen.Int(g.rt, len(pool))]}
		if gen.Pct(g.rt, 8) {
			e.str = false
			e.v = gen.Pick(g.rt, "X", `"a" + X`, `f("z")`, `("z" + "a")`, `X + "a"`, `["z"]`, "1", `x["z"]`)
		}
		if commented && gen.Pct(g.rt, 15) {
			e.before = append(e.before, g.comment())
		}
		if commented && gen.Pct(g.rt, 20) || gen.Pct(g.rt, 5) {
			e.suffix = g.comment()
		}
		r = append(r, e)
	}
	return r
}

func (g *lgen) list() *llist {
	commented := gen.Pct(g.rt, 35)
	l := &llist{elems: g.elems(commented)}
	if commented && gen.Pct(g.rt, 15) {
		l.end = append(l.end, g.comment())
	}
	marker := func() string {
		return gen.Pick(g.rt, "# keep sorted", "# Keep Sorted please", "# do not sort", "# DO NOT SORT", "# buildifier: leave-alone", "# keep  sorted", "# donotsort")
	}
	if len(l.elems) > 0 && gen.Pct(g.rt, 20) {
		l.elems[0].before = append(l.elems[0].before, marker())
	}
	if len(l.elems) > 0 && gen.Pct(g.rt, 8) {
		l.elems[0].suffix = marker()
	}
	if len(l.elems) > 0 && gen.Pct(g.rt, 8) {
		l.open = marker()
	}
	if len(l.elems) > 1 && gen.Pct(g.rt, 8) {
		i := 1 + gen.Int(g.rt, len(l.elems)-1)
		l.elems[i].before = append(l.elems[i].before, marker())
	}
	return l
}

func (l *llist) firstComments() []string {
	if len(l.elems) == 0 {
		return nil
	}
	e := l.elems[0]
	r := append([]string{}, e.before...)
	if l.open != "" {
		r = append(r, l.open)
	}
	if e.suffix != "" {
		r = append(r, e.suffix)
	}
	return r
}

func anyContains(cs []string, s string) bool {
	for _, c := range cs {
		if strings.Contains(strings.ToLower(c), s) {
			return true
		}
	}
	return false
}

func (l *llist) lineComments() bool {
	if len(l.end) > 0 || l.open != "" {
		return true
	}
	for _, e := range l.elems {
		if len(e.before) > 0 {
			return true
		}
	}
	return false
}

// expected elements as "value" or source, with the end-of-line comment of strings that occur once.
func (l *llist) want(mode string) []lelem {
	if len(l.elems) < 2 || mode == "keep" {
		return l.elems
	}
	dedup := func() []lelem {
		seen := map[string]bool{}
		var r []lelem
		for _, e := range l.elems {
			if e.str {
				if seen[e.v] {
					continue
				}
				seen[e.v] = true
			}
			r = append(r, e)
		}
		return r
	}
	if mode == "dedup" {
		return dedup()
	}
	if anyContains(l.firstComments(), "do not sort") {
		return dedup()
	}
	if l.lineComments() && !anyContains(l.firstComments(), "keep sorted") {
		return dedup()
	}
	var r []lelem
	for i := 0; i < len(l.elems); {
		if !l.elems[i].str {
			r = append(r, l.elems[i])
			i++
			continue
		}
		j := i + 1
		for j < len(l.elems) && l.elems[j].str && len(l.elems[j].before) == 0 {
			j++
		}
		run := append([]lelem{}, l.elems[i:j]...)
		sort.SliceStable(run, func(a, b int) bool { return refLess(run[a].v, run[b].v) })
		for k, e := range run {
			if k == 0 || e.v != run[k-1].v {
				r = append(r, e)
			}
		}
		i = j
	}
	return r
}

func (l *llist) render(ind string) string {
	var b strings.Builder
	b.WriteString("[")
	if l.open != "" {
		b.WriteString("  " + l.open)
	}
	b.WriteString("\n")
	for _, e := range l.elems {
		for _, c := range e.before {
			b.WriteString(ind + "    " + c + "\n")
		}
		b.WriteString(ind + "    ")
		if e.str {
			b.WriteString(`"` + e.v + `"`)
		} else {
			b.WriteString(e.v)
		}
		b.WriteString(",")
		if e.suffix != "" {
			b.WriteString("  " + e.suffix)
		}
		b.WriteString("\n")
	}
	for _, c := range l.end {
		b.WriteString(ind + "    " + c + "\n")
	}
	b.WriteString(ind + "]")
	return b.String()
}

// TestC07_Lists: which lists are sorted, into which order, and what survives.
func TestC07_Lists(t *testing.T) {
	vk.Check(t, "rule calls, assignments and dict entries holding string lists (plain, concatenated, in selects) with duplicates, non-strings, line and end-of-line comments and sort markers at every place, in the 5 file types; non-trivial: the reference orders or deduplicates at least one list", 300000, 12000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		g := &lgen{rt: rt}
		var parts []lpart
		for i := 1 + gen.Int(rt, 2); i > 0; i-- {
			switch gen.Int(rt, 10) {
			case 0:
				parts = append(parts, lpart{expr: gen.Pick(rt, "X", `glob(["z", "a"])`, `f(["b", "a", "b"])`, `["z", "a"] * 2`)})
			case 1, 2, 3:
				p := lpart{}
				for k := 1 + gen.Int(rt, 3); k > 0; k-- {
					p.sel = append(p.sel, g.list())
				}
				parts = append(parts, p)
			default:
				parts = append(parts, lpart{list: g.list()})
			}
		}
		marker := func(pct int) string {
			if !gen.Pct(rt, pct) {
				return ""
			}
			return gen.Pick(rt, "# keep sorted", "# Keep sorted, please", "# do not sort", "# do not sort", "# buildifier: leave-alone", "# other", "# keepsorted")
		}
		attr := gen.Pick(rt, "deps", "srcs", "srcs", "deps", "tags", "hdrs", "outs", "args", "copts", "my_list", "visibility", "data", "name2", "packages")
		kind := gen.Pick(rt, "cc_library", "cc_library", "genrule", "genrule", "foo", "native.genrule", "cc_embed_data", "x.y(1)", "package_group")
		where := gen.Int(rt, 10) // 0-6 attribute, 7 assignment, 8 dict entry, 9 nested call
		before, before2, suffix, callMark := marker(25), marker(8), marker(10), marker(6)

		var v strings.Builder
		ind := "    "
		if where == 7 {
			ind = ""
		}
		for i, p := range parts {
			if i > 0 {
				v.WriteString(" + ")
			}
			switch {
			case p.list != nil:
				v.WriteString(p.list.render(ind))
			case p.sel != nil:
				v.WriteString("select({\n")
				for k, l := range p.sel {
					fmt.Fprintf(&v, "%s    \":k%d\": %s,\n", ind, k, l.render(ind+"    "))
				}
				v.WriteString(ind + "})")
			default:
				v.WriteString(p.expr)
			}
		}
		var b strings.Builder
		line := func(ind, s string) {
			if s != "" {
				b.WriteString(ind + s + "\n")
			}
		}
		sfx := ""
		if suffix != "" {
			sfx = "  " + suffix
		}
		switch where {
		case 7:
			line("", before)
			line("", before2)
			fmt.Fprintf(&b, "LIST = %s%s\n", v.String(), sfx)
		case 8:
			b.WriteString("D = {\n")
			line(ind, before)
			line(ind, before2)
			fmt.Fprintf(&b, "    \"k\": %s,%s\n}\n", v.String(), sfx)
		default:
			line("", callMark)
			if where == 9 {
				fmt.Fprintf(&b, "outer([%s(\n", kind)
			} else {
				fmt.Fprintf(&b, "%s(\n", kind)
			}
			line(ind, before)
			line(ind, before2)
			fmt.Fprintf(&b, "    %s = %s,%s\n)", attr, v.String(), sfx)
			if where == 9 {
				b.WriteString("])")
			}
			b.WriteString("\n")
		}
		c.Input(b.String())

		mode := gen.Int(rt, 8)
		unsafe := true
		var apply func(f *build.File) []byte
		switch mode {
		case 0:
			apply = build.Format
			build.DisableRewrites = []string{"unsafesort"}
			unsafe = false
		case 1, 2, 3:
			apply = build.Format
		default:
			apply = func(f *build.File) []byte { return build.FormatWithRewriter(rewriter([]string{"listsort"}), f) }
		}
		defer func() { build.DisableRewrites = nil }()
		labels := mode < 4 && typ.typ&buildLike != 0 && tables.IsLabelArg[attr] && where != 7 && where != 8 && !anyContains([]string{before, before2, suffix, callMark}, "leave-alone")
		if labels {
			norm := func(l *llist) {
				for i := range l.elems {
					if l.elems[i].str {
						l.elems[i].v = refShorten(l.elems[i].v)
					}
				}
			}
			for _, p := range parts {
				if p.list != nil {
					norm(p.list)
				}
				for _, l := range p.sel {
					norm(l)
				}
			}
		}

		// what applies to the lists of the value
		marks := []string{before, before2, suffix}
		sortAll, dedupTop := false, false
		switch {
		case where == 7 || where == 8:
			sortAll = unsafe && anyContains(marks, "keep sorted")
		case anyContains(append(marks, callMark), "leave-alone"):
		case typ.typ&buildLike != 0:
			ctx := kind + "." + attr
			if strings.HasPrefix(kind, "x.y") {
				ctx = "." + attr
			}
			if tables.IsSortableListArg[attr] && !tables.SortableDenylist[ctx] {
				if anyContains(marks, "do not sort") {
					dedupTop = true
				} else {
					sortAll = true
				}
			}
		}
		if where != 7 && where != 8 && unsafe && anyContains(marks, "keep sorted") {
			sortAll = true // an attribute is an assignment, too
		}
		inner, outer := 0, 0
		for _, p := range parts {
			for _, l := range append(append([]*llist{}, p.sel...), p.list) {
				if l != nil && (anyContains(l.firstComments(), "keep sorted") || anyContains(l.firstComments(), "do not sort")) {
					inner++
				}
			}
		}
		for _, m := range []string{"keep sorted", "do not sort"} {
			if anyContains(marks, m) {
				outer++
			}
		}
		if outer > 1 || outer > 0 && inner > 0 {
			c.Skip("several markers for one list")
		}
		wantList := func(l *llist, top bool) string {
			m := "keep"
			if dedupTop && top {
				m = "dedup"
			}
			if sortAll || unsafe && anyContains(l.firstComments(), "keep sorted") {
				m = "sort"
			}
			n := map[string]int{}
			for _, e := range l.elems {
				if e.str {
					n[e.v]++
				}
			}
			w := l.want(m)
			if len(w) != len(l.elems) {
				c.NonTrivial(true)
			}
			var r []string
			for i, e := range w {
				if i < len(l.elems) && e.v != l.elems[i].v {
					c.NonTrivial(true)
				}
				if e.str {
					sx := e.suffix
					if n[e.v] > 1 {
						sx = "?"
					}
					r = append(r, fmt.Sprintf("%q %s", e.v, sx))
				} else {
					r = append(r, "other")
				}
			}
			c.Label(m)
			return strings.Join(r, "\n")
		}
		if suffix != "" && (len(parts) > 1 || where == 8) {
			// the suffix comment may belong to an operand or a value: out of the documentation
			c.Skip("suffix of a concatenation")
		}

		f, err := typ.parse(typ.name, []byte(b.String()))
		if err != nil {
			c.Fail("does not parse: %v", err)
		}
		out := apply(f)
		c.Part("type %s mode %d", typ.name, mode)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		var val build.Expr
		build.Walk(f2, func(e build.Expr, _ []build.Expr) {
			switch x := e.(type) {
			case *build.AssignExpr:
				if id, ok := x.LHS.(*build.Ident); ok && val == nil && (id.Name == attr || id.Name == "LIST") {
					val = x.RHS
				}
			case *build.KeyValueExpr:
				if val == nil && x.Key.(*build.StringExpr).Value == "k" {
					val = x.Value
				}
			}
		})
		if val == nil {
			c.Fail("the value disappeared")
		}
		var got []*build.ListExpr
		glob, call := astx.FromAST(mustExpr(`glob(["z", "a"])`)).String(), astx.FromAST(mustExpr(`f(["b", "a", "b"])`)).String()
		var collect func(e build.Expr)
		collect = func(e build.Expr) {
			switch x := e.(type) {
			case *build.ListExpr:
				got = append(got, x)
			case *build.BinaryExpr:
				collect(x.X)
				collect(x.Y)
			case *build.CallExpr:
				if id, ok := x.X.(*build.Ident); ok && id.Name == "select" {
					for _, kv := range x.List[0].(*build.DictExpr).List {
						collect(kv.Value)
					}
				} else if n := astx.FromAST(x).String(); n != glob && n != call {
					c.Fail("a list that is an argument changed: %s", build.FormatString(x))
				}
			}
		}
		collect(val)
		var ls []*llist
		var top []bool
		for _, p := range parts {
			if p.list != nil {
				ls = append(ls, p.list)
				top = append(top, len(parts) == 1)
			}
			for _, l := range p.sel {
				ls = append(ls, l)
				top = append(top, false)
			}
			if strings.HasPrefix(p.expr, "[") {
				ls = append(ls, nil)
				top = append(top, false)
			}
		}
		// `["z", "a"] * 2` is not sorted: its list hides below another operator
		k := 0
		for i, l := range ls {
			if l == nil {
				l = &llist{elems: []lelem{{str: true, v: "z"}, {str: true, v: "a"}}}
			}
			if k >= len(got) {
				c.Fail("%d lists became %d", len(ls), len(got))
			}
			want := "\"z\" \n\"a\" "
			if ls[i] != nil {
				want = wantList(l, top[i])
			}
			cnt := map[string]int{}
			for _, e := range l.elems {
				if e.str {
					cnt[e.v]++
				}
			}
			var r []string
			for _, e := range got[k].List {
				if s, ok := e.(*build.StringExpr); ok {
					sx := ""
					for _, cm := range s.Suffix {
						sx += cm.Token
					}
					if cnt[s.Value] > 1 {
						sx = "?"
					}
					r = append(r, fmt.Sprintf("%q %s", s.Value, sx))
				} else {
					r = append(r, "other")
				}
			}
			k++
			if strings.Join(r, "\n") != want {
				c.Fail("list %d is\n%s\nwant\n%s", i, strings.Join(r, "\n"), want)
			}
		}
	})
}

func mustExpr(s string) build.Expr {
	f, err := build.ParseBuild("x", []byte("_ = "+s+"\n"))
	if err != nil {
		panic(err)
	}
	return f.Stmt[0].(*build.AssignExpr).RHS
}
