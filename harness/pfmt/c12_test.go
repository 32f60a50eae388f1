package pfmt

import (
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

func rewriter(set []string) *build.Rewriter {
	return &build.Rewriter{
		RewriteSet: set, IsLabelArg: tables.IsLabelArg, LabelDenyList: tables.LabelDenylist,
		IsSortableListArg: tables.IsSortableListArg, SortableDenylist: tables.SortableDenylist,
		SortableAllowlist: tables.SortableAllowlist, NamePriority: tables.NamePriority,
	}
}

// rewriteCfg is a drawn selection of rewrites and a way to ask for it.
type rewriteCfg struct {
	name   string
	on     func(string) bool
	unsafe bool // "keep sorted" comments work
	apply  func(f *build.File) []byte
}

func drawRewrites(rt *rapid.T, typ build.FileType) rewriteCfg {
	pick := func(pct int) []string {
		r := []string{}
		for _, n := range rewriteNames {
			if gen.Pct(rt, pct) {
				r = append(r, n)
			}
		}
		return r
	}
	has := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	switch gen.Int(rt, 6) {
	default:
		return rewriteCfg{"default", func(s string) bool { return inScope(s, typ) }, true, build.Format}
	case 2, 3: // disabled by name
		var l []string
		switch gen.Int(rt, 4) {
		case 0:
			l = append(l, rewriteNames...)
		case 1:
			l = []string{rewriteNames[gen.Int(rt, len(rewriteNames))]}
		default:
			l = pick(40)
		}
		if gen.Pct(rt, 15) {
			l = append(l, "unsafesort")
		}
		return rewriteCfg{"disable " + strings.Join(l, ","), func(s string) bool { return inScope(s, typ) && !has(l, s) }, !has(l, "unsafesort"), func(f *build.File) []byte {
			build.DisableRewrites = l
			defer func() { build.DisableRewrites = nil }()
			return build.Format(f)
		}}
	case 4, 5: // an explicit set, used for every type of file
		var l []string
		switch gen.Int(rt, 4) {
		case 0:
			l = []string{}
		case 1:
			l = []string{rewriteNames[gen.Int(rt, len(rewriteNames))]}
		default:
			l = pick(40)
		}
		return rewriteCfg{"set " + strings.Join(l, ","), func(s string) bool { return has(l, s) }, true, func(f *build.File) []byte { return build.FormatWithRewriter(rewriter(l), f) }}
	}
}

// onlyLayout tells whether no enabled rewrite exists.
func (r rewriteCfg) nothing() bool {
	for _, n := range rewriteNames {
		if r.on(n) {
			return false
		}
	}
	return true
}

// TestC12_Model: what a full format makes of a file without comments is exactly
// what the documented rewrites that are enabled make of it.
func TestC12_Model(t *testing.T) {
	vk.Check(t, "comment-free grammar-generated files of the 5 types x drawn selections of rewrites (default, disabled by name, explicit set); non-trivial: the selected rewrites change the program according to the reference model", 200000, 8000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		bl := gen.Pct(rt, 40)
		if typ.typ&buildLike != 0 {
			bl = gen.Pct(rt, 80)
		}
		var hook func(*gen.G) bool
		if gen.Pct(rt, map[bool]int{true: 60, false: 8}[typ.typ == build.TypeModule]) {
			hook = moduleStmt
		}
		src := gen.File(rt, gen.Cfg{StmtHook: hook, NoComments: true, BuildLike: bl})
		cfg := drawRewrites(rt, typ.typ)
		c.Input(src.Text)
		c.Part("type %s rewrites %s", typ.name, cfg.name)
		f0, err := typ.parse(typ.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		f1, _ := typ.parse(typ.name, []byte(src.Text))
		before := astx.FromAST(f0)
		want := model(before, typ.typ, cfg.on, cfg.unsafe).String()
		out := cfg.apply(f1)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		if got := canon(astx.FromAST(f2), cfg.on).String(); got != want {
			c.Fail("the program differs from what the rewrites document:\n%s\nwant\n%s", got, want)
		}
		if cfg.nothing() {
			c.Label("no rewrites")
			if l := build.FormatWithoutRewriting(f0); string(l) != string(out) {
				c.Fail("no rewrite is enabled, but layout-only formatting gives\n%s", l)
			}
		}
		c.NonTrivial(want != canon(before, cfg.on).String())
		c.Label(strings.Fields(cfg.name)[0] + " " + typ.name)
	})
}

// weak is the program with everything the enabled rewrites may reorder, drop as
// a duplicate or respell made canonical; nothing else is.
func weak(f *astx.N, on func(string) bool, unclear map[string]bool) string {
	for _, s := range f.C {
		if s.K != "load" {
			continue
		}
		for _, sym := range s.C {
			if unclear[s.V+" "+sym.V] {
				sym.C = []*astx.N{{K: "unclear"}}
			}
		}
	}
	f = f.Copy()
	if on("label") {
		var join func(p **astx.N)
		join = func(p **astx.N) {
			for i := range (*p).C {
				join(&(*p).C[i])
			}
			n := *p
			if n.K == "bin" && n.V == "+" && n.C[0].K == "str" && n.C[1].K == "str" {
				n = &astx.N{K: "str", V: n.C[0].V + n.C[1].V}
				*p = n
			}
		}
		join(&f)
		f.Each(func(n *astx.N) {
			for n.K == "str" && refShorten(n.V) != n.V {
				n.V = refShorten(n.V)
			}
		})
	}
	str := func(n *astx.N) string { return n.String() }
	f.Each(func(n *astx.N) {
		if n.K == "call" && (on("reorderarguments") || on("callsort") || on("useRepoPositionalsSort")) {
			rank := map[string]int{"arg": 0, "kw": 1, "*": 2, "**": 3}
			sort.SliceStable(n.C[1:], func(i, j int) bool {
				a, b := n.C[1+i], n.C[1+j]
				if on("reorderarguments") && rank[a.K] != rank[b.K] {
					return rank[a.K] < rank[b.K]
				}
				if on("callsort") && a.K == "kw" && b.K == "kw" {
					return a.V < b.V
				}
				return false
			})
		}
		if n.K == "load" && on("loadsort") {
			n.C = sortSyms(n.C)
		}
		if n.K == "num" && (on("editoctal") || on("editfloat")) {
			n.V = numValue(n.V)
		}
		if n.K == "def" && on("formatdocstrings") && len(n.C[2].C) > 0 && n.C[2].C[0].K == "str" {
			n.C[2].C[0].V = strings.Join(strings.Fields(n.C[2].C[0].V), " ")
		}
	})
	if on("useRepoPositionalsSort") {
		f.Each(func(n *astx.N) {
			if n.K == "call" && isID(n.C[0], "use_repo") {
				var strs, rest []*astx.N
				seen := map[string]bool{}
				for _, a := range n.C[1:] {
					if a.K == "arg" && a.C[0].K == "str" {
						if !seen[a.C[0].V] {
							seen[a.C[0].V] = true
							strs = append(strs, a)
						}
					} else {
						rest = append(rest, a)
					}
				}
				sort.SliceStable(strs, func(i, j int) bool { return strs[i].C[0].V < strs[j].C[0].V })
				n.C = append(append(n.C[:1:1], strs...), rest...)
			}
		})
	}
	if on("listsort") {
		f.Each(func(n *astx.N) {
			if n.K == "list" {
				var strs, rest []*astx.N
				seen := map[string]bool{}
				for _, a := range n.C {
					if a.K == "str" {
						if !seen[a.V] {
							seen[a.V] = true
							strs = append(strs, a)
						}
					} else {
						rest = append(rest, a)
					}
				}
				sort.SliceStable(strs, func(i, j int) bool { return strs[i].V < strs[j].V })
				n.C = append(strs, rest...)
			}
		})
	}
	if on("loadTop") || on("sameOriginLoad") || on("sortLoadStatements") {
		var loads, rest []*astx.N
		by := map[string]*astx.N{}
		for _, s := range f.C {
			if s.K != "load" {
				rest = append(rest, s)
				continue
			}
			if p := by[s.V]; p != nil && on("sameOriginLoad") {
				p.C = append(p.C, s.C...)
				if on("loadsort") {
					p.C = sortSyms(p.C)
				}
				continue
			}
			by[s.V] = s
			loads = append(loads, s)
		}
		sort.SliceStable(loads, func(i, j int) bool { return loads[i].V < loads[j].V })
		f.C = append(loads, rest...)
	}
	return str(f)
}

// rebound returns the names that are loaded from the same module under the same name but stand for
// different symbols. If a comment keeps some of the load statements apart, such a file (which
// Bazel rejects) may get a different binding.
func rebound(f *astx.N) map[string]bool {
	from, res := map[string]string{}, map[string]bool{}
	for _, s := range f.C {
		if s.K != "load" {
			continue
		}
		for _, sym := range s.C {
			k := s.V + " " + sym.V
			if v, ok := from[k]; ok && v != sym.C[0].V {
				res[k] = true
			}
			from[k] = sym.C[0].V
		}
	}
	return res
}

// TestC12_Scope: with comments anywhere, only the selected rewrites act.
func TestC12_Scope(t *testing.T) {
	vk.Check(t, "grammar-generated files with comments of the 5 types x drawn selections of rewrites; the program before and after must agree once what the selected rewrites may reorder or respell is made canonical, and be the layout-only format when nothing is selected; non-trivial: a rewrite is selected and the output differs from the layout-only format", 80000, 5000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		bl := gen.Pct(rt, 40)
		if typ.typ&buildLike != 0 {
			bl = gen.Pct(rt, 80)
		}
		var hook func(*gen.G) bool
		if gen.Pct(rt, map[bool]int{true: 60, false: 8}[typ.typ == build.TypeModule]) {
			hook = moduleStmt
		}
		src := gen.File(rt, gen.Cfg{StmtHook: hook, BuildLike: bl, WildComment: gen.Pct(rt, 20)})
		cfg := drawRewrites(rt, typ.typ)
		c.Input(src.Text)
		c.Part("type %s rewrites %s", typ.name, cfg.name)
		f0, err := typ.parse(typ.name, []byte(src.Text))
		if err != nil {
			c.Label("rejected")
			return
		}
		f1, _ := typ.parse(typ.name, []byte(src.Text))
		unclear := map[string]bool{}
		if strings.Contains(src.Text, "disable=same-origin-load") {
			unclear = rebound(astx.FromAST(f0))
		}
		before := weak(astx.FromAST(f0), cfg.on, unclear)
		layout := string(build.FormatWithoutRewriting(f0))
		out := string(cfg.apply(f1))
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, []byte(out))
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		if cfg.nothing() && out != layout {
			c.Fail("no rewrite is enabled, but layout-only formatting gives\n%s", layout)
		}
		if after := weak(astx.FromAST(f2), cfg.on, unclear); before != after {
			c.Fail("the program is\n%s\nwas\n%s", after, before)
		}
		c.NonTrivial(!cfg.nothing() && out != layout)
		c.Label(strings.Fields(cfg.name)[0] + " " + typ.name)
	})
}
