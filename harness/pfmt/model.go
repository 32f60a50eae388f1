package pfmt

import (
	"math/big"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"

	"verif/astx"
)

// The reference model of the documented rewrites, for files without comments.

var rewriteNames = []string{"removeParens", "reorderarguments", "callsort", "label", "listsort", "multiplus", "loadTop", "sameOriginLoad", "sortLoadStatements", "loadsort", "useRepoPositionalsSort", "formatdocstrings", "editoctal", "editfloat", "collapseEmpty"}

const buildLike = build.TypeBuild | build.TypeWorkspace | build.TypeModule

// inScope tells whether a rewrite applies to a type of file by default.
func inScope(name string, typ build.FileType) bool {
	switch name {
	case "removeParens", "callsort", "label", "multiplus":
		return typ&buildLike != 0
	case "useRepoPositionalsSort":
		return typ == build.TypeModule
	}
	return true
}

func callKind(call *astx.N) string {
	var f func(x *astx.N) string
	f = func(x *astx.N) string {
		if x.P {
			return ""
		}
		switch x.K {
		case "id":
			return x.V
		case "dot":
			if s := f(x.C[0]); s != "" {
				return s + "." + x.V
			}
		}
		return ""
	}
	return f(call.C[0])
}

// model applies the enabled rewrites to the tree of a comment-free file.
func model(f *astx.N, typ build.FileType, on func(string) bool, unsafe bool) *astx.N {
	f = f.Copy()
	if on("removeParens") {
		f.Each(func(n *astx.N) { n.P = n.PM })
	}
	if on("reorderarguments") {
		f.Each(func(n *astx.N) {
			if n.K == "call" {
				rank := map[string]int{"arg": 0, "kw": 1, "*": 2, "**": 3}
				sort.SliceStable(n.C[1:], func(i, j int) bool { return rank[n.C[1+i].K] < rank[n.C[1+j].K] })
			}
		})
	}
	if on("callsort") {
		f.Each(func(n *astx.N) {
			if n.K == "call" {
				sortKeywords(n)
			}
		})
	}
	if on("label") {
		f.Each(func(n *astx.N) {
			if n.K != "call" {
				return
			}
			for _, a := range n.C[1:] {
				if a.K == "kw" && tables.IsLabelArg[a.V] && !tables.LabelDenylist[callKind(n)+"."+a.V] {
					labelValue(&a.C[0])
				}
			}
		})
	}
	if on("listsort") && typ&buildLike != 0 {
		f.Each(func(n *astx.N) {
			if n.K != "call" {
				return
			}
			for _, a := range n.C[1:] {
				if a.K != "kw" {
					continue
				}
				ctx := callKind(n) + "." + a.V
				if !tables.SortableDenylist[ctx] && (tables.IsSortableListArg[a.V] || tables.SortableAllowlist[ctx]) {
					eachStringList(a.C[0], func(l *astx.N) { l.C = sortRuns(l.C) })
				}
			}
		})
	}
	if on("useRepoPositionalsSort") {
		f.Each(func(n *astx.N) {
			if n.K == "call" && isID(n.C[0], "use_repo") && len(n.C) >= 4 {
				var l []*astx.N
				for _, a := range n.C[1:] {
					if a.K == "arg" && isStr(a.C[0]) {
						l = append(l, a.C[0])
					} else {
						l = append(l, a)
					}
				}
				l = sortRuns(l)
				n.C = n.C[:1:1]
				for _, a := range l {
					if a.K == "str" {
						a = &astx.N{K: "arg", C: []*astx.N{a}}
					}
					n.C = append(n.C, a)
				}
			}
		})
	}
	modelLoads(f, typ, on)
	if on("editoctal") || on("editfloat") {
		f.Each(func(n *astx.N) {
			if n.K == "num" {
				n.V = numValue(n.V)
			}
		})
	}
	if on("formatdocstrings") {
		f.Each(func(n *astx.N) {
			if n.K == "def" && len(n.C[2].C) > 0 && isStr(n.C[2].C[0]) && n.C[2].C[0].T {
				n.C[2].C[0].V = docWords(n.C[2].C[0].V)
			}
		})
	}
	return f
}

// canon makes what the enabled rewrites are free to choose comparable.
func canon(f *astx.N, on func(string) bool) *astx.N {
	return model(f, build.TypeBzl, func(s string) bool {
		return on(s) && (s == "editoctal" || s == "editfloat" || s == "formatdocstrings")
	}, false)
}

// docWords is a docstring with the indentation and trailing spaces of its lines dropped.
func docWords(s string) string {
	lines := strings.Split(s, "\n")
	for i := range lines {
		if i > 0 {
			lines[i] = strings.TrimLeft(lines[i], " ")
		}
		if i < len(lines)-1 {
			lines[i] = strings.TrimRight(lines[i], " ")
		}
	}
	return strings.Join(lines, "\n")
}

// numValue is kind and exact value of a numeric literal.
func numValue(tok string) string {
	t := strings.ToLower(tok)
	if strings.HasPrefix(t, "0x") {
		if v, ok := new(big.Int).SetString(t[2:], 16); ok {
			return "int " + v.String()
		}
		return "bad " + tok
	}
	if strings.ContainsAny(t, ".e") {
		m, e := t, "0"
		if i := strings.IndexByte(t, 'e'); i >= 0 {
			m, e = t[:i], t[i+1:]
		}
		if e == "" || strings.Count(m, ".") > 1 || strings.Trim(m, "0123456789.") != "" || m == "." || m == "" {
			return "bad " + tok
		}
		exp, ok := new(big.Int).SetString(strings.TrimPrefix(e, "+"), 10)
		if !ok || strings.HasPrefix(e, "+-") || strings.HasPrefix(e, "-+") || strings.HasPrefix(e, "++") {
			return "bad " + tok
		}
		frac := ""
		if i := strings.IndexByte(m, '.'); i >= 0 {
			frac = m[i+1:]
			m = m[:i]
		}
		digits := strings.TrimLeft(m+frac, "0")
		exp.Sub(exp, big.NewInt(int64(len(frac))))
		for strings.HasSuffix(digits, "0") {
			digits = digits[:len(digits)-1]
			exp.Add(exp, big.NewInt(1))
		}
		if digits == "" {
			return "float 0"
		}
		return "float " + digits + "e" + exp.String()
	}
	base := 10
	d := t
	if strings.HasPrefix(t, "0o") {
		base, d = 8, t[2:]
	} else if len(t) > 1 && t[0] == '0' {
		base, d = 8, t[1:]
	}
	if v, ok := new(big.Int).SetString(d, base); ok {
		return "int " + v.String()
	}
	return "bad " + tok
}

func sortKeywords(call *astx.N) {
	i := len(call.C)
	for i > 1 && call.C[i-1].K == "kw" {
		i--
	}
	tail := call.C[i:]
	rule := callKind(call)
	prio := func(a string) int {
		if p, ok := tables.NamePriority[rule+"."+a]; ok && rule != "" {
			return p
		}
		return tables.NamePriority[a]
	}
	sort.SliceStable(tail, func(i, j int) bool {
		p, q := prio(tail[i].V), prio(tail[j].V)
		if p != q {
			return p < q
		}
		return tail[i].V < tail[j].V
	})
}

// eachStringList visits the lists that make up an attribute value: the value
// itself, parts of a concatenation and branches of selects.
func eachStringList(v *astx.N, f func(*astx.N)) {
	if v.P {
		return
	}
	switch {
	case v.K == "list":
		f(v)
	case v.K == "bin" && v.V == "+":
		eachStringList(v.C[0], f)
		eachStringList(v.C[1], f)
	case v.K == "call" && isSelect(v):
		for _, kv := range v.C[1].C[0].C {
			eachStringList(kv.C[1], f)
		}
	}
}

// sortRuns sorts every run of strings of a list and drops duplicates in it.
func sortRuns(l []*astx.N) []*astx.N {
	var out, run []*astx.N
	flush := func() {
		sort.SliceStable(run, func(i, j int) bool { return refLess(run[i].V, run[j].V) })
		for i, s := range run {
			if i == 0 || s.V != run[i-1].V {
				out = append(out, s)
			}
		}
		run = nil
	}
	for _, s := range l {
		if isStr(s) {
			run = append(run, s)
			continue
		}
		flush()
		out = append(out, s)
	}
	flush()
	return out
}

// refLess is the documented order of strings in a sorted list.
func refLess(a, b string) bool {
	phase := func(s string) int {
		switch {
		case strings.HasPrefix(s, ":"):
			return 1
		case strings.HasPrefix(s, "//") || tables.StripLabelLeadingSlashes && !strings.HasPrefix(s, "@"):
			return 2
		case strings.HasPrefix(s, "@"):
			return 3
		}
		return 0
	}
	if p, q := phase(a), phase(b); p != q {
		return p < q
	}
	x, y := components(a), components(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	return a < b
}

func components(s string) []string {
	var r []string
	cur := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '.' || s[i] == ':' {
			r = append(r, cur)
			cur = ""
			continue
		}
		cur += string(s[i : i+1])
	}
	return append(r, cur)
}

// labelValue joins and shortens the labels of an attribute value.
func labelValue(v **astx.N) {
	fix := func(p **astx.N) {
		joinStrings(p)
		if isStr(*p) {
			(*p).V = refShorten((*p).V)
		}
	}
	n := *v
	if n.P {
		return
	}
	switch {
	case n.K == "list" || n.K == "set":
		for i := range n.C {
			fix(&n.C[i])
		}
	case n.K == "bin" && n.V == "+":
		joinStrings(v)
		n = *v
		if isStr(n) {
			n.V = refShorten(n.V)
			return
		}
		if n.K != "bin" {
			return
		}
		// the operands are lists or fragments of strings: fragments stay
		for i := range n.C {
			part := &n.C[i]
			if isStr(*part) {
				continue
			}
			labelConcat(part)
		}
	case n.K == "call" && isSelect(n):
		for _, kv := range n.C[1].C[0].C {
			labelValue(&kv.C[1])
		}
	case n.K == "str":
		n.V = refShorten(n.V)
	}
}

func labelConcat(v **astx.N) {
	n := *v
	if !n.P && n.K == "bin" && n.V == "+" {
		for i := range n.C {
			if !isStr(n.C[i]) {
				labelConcat(&n.C[i])
			}
		}
		return
	}
	labelValue(v)
}

// joinStrings folds "//x" + ":y" from the left.
func joinStrings(p **astx.N) {
	n := *p
	if n.P || n.K != "bin" || n.V != "+" {
		return
	}
	joinStrings(&n.C[0])
	a, b := n.C[0], n.C[1]
	if isStr(a) && isStr(b) && strings.HasPrefix(a.V, "//") && !strings.Contains(a.V+b.V, " ") {
		m := *a
		m.V = a.V + b.V
		*p = &m
	}
}

// modelDir is the directory of the file being modelled, as given to the parser.
var modelDir = "."

// refShorten is the documented shortening: //foo:foo is //foo, @foo//:foo is @foo.
func refShorten(s string) string {
	strip := tables.StripLabelLeadingSlashes
	if strip && strings.HasPrefix(s, "//") && (modelDir == "." || !strings.HasPrefix(s, "//:")) {
		s = s[2:]
	}
	if tables.ShortenAbsoluteLabelsToRelative {
		here := "//" + modelDir
		if strip {
			here = modelDir
		}
		if s == here {
			s = ":" + modelDir[strings.LastIndexByte(modelDir, '/')+1:]
		} else if strings.HasPrefix(s, here+":") {
			s = s[len(here):]
		}
	}
	i := strings.LastIndexByte(s, ':')
	if i < 0 {
		return s
	}
	head, target := s[:i], s[i+1:]
	j := strings.Index(head, "//")
	if strip && target != "" && head != "" && strings.Count(s, ":") == 1 && head[strings.LastIndexByte(head, '/')+1:] == target {
		return head
	}
	if j < 0 || target == "" {
		return s
	}
	repo, pkg := head[:j], head[j+2:]
	if repo != "" && (len(repo) < 2 || repo[0] != '@' || strings.IndexFunc(repo[1:], func(r rune) bool {
		return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
	}) >= 0) {
		return s
	}
	if strings.ContainsAny(s, "\n") || strings.Count(s, ":") > 1 {
		return s
	}
	last := pkg[strings.LastIndexByte(pkg, '/')+1:]
	if last != "" && last == target {
		return head
	}
	if pkg == "" && repo != "" && repo[1:] == target {
		return repo
	}
	return s
}

// modelLoads moves, merges and sorts load statements.
func modelLoads(f *astx.N, typ build.FileType, on func(string) bool) {
	isHead := func(n *astx.N) bool {
		return isStr(n) || n.K == "call" && !n.P && isID(n.C[0], "workspace")
	}
	if on("loadTop") && typ != build.TypeWorkspace {
		// everything up to the first other statement stays
		i := 0
		for i < len(f.C) && (f.C[i].K == "load" || isHead(f.C[i])) {
			i++
		}
		out := append([]*astx.N{}, f.C[:i]...)
		for _, s := range f.C[i:] {
			if s.K == "load" {
				out = append(out, s)
			}
		}
		for _, s := range f.C[i:] {
			if s.K != "load" {
				out = append(out, s)
			}
		}
		f.C = out
	}
	if on("sameOriginLoad") {
		first := map[string]*astx.N{}
		var out []*astx.N
		for _, s := range f.C {
			if s.K == "load" {
				if p := first[s.V]; p != nil {
					p.C = append(p.C, s.C...)
					continue
				}
				first[s.V] = s
			}
			out = append(out, s)
		}
		f.C = out
	}
	if on("sortLoadStatements") {
		for i := 0; i < len(f.C); {
			j := i
			for j < len(f.C) && f.C[j].K == "load" {
				j++
			}
			run := f.C[i:j]
			sort.SliceStable(run, func(a, b int) bool { return moduleLess(run[a].V, run[b].V) })
			i = j + 1
		}
	}
	if on("loadsort") {
		f.Each(func(n *astx.N) {
			if n.K == "load" {
				n.C = sortSyms(n.C)
			}
		})
	}
}

func sortSyms(l []*astx.N) []*astx.N {
	last := map[string]int{}
	for i, s := range l {
		last[s.V] = i
	}
	var out []*astx.N
	for i, s := range l {
		if last[s.V] == i {
			out = append(out, s)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if x, y := a.V == a.C[0].V, b.V == b.C[0].V; x != y {
			return x
		}
		return a.V < b.V
	})
	return out
}

// moduleLess: explicit repositories first, by repository; then by package (the
// root package first, relative labels last), then by target; paths compare by
// their components, ignoring case unless that is the only difference.
func moduleLess(a, b string) bool {
	type lab struct {
		explicit      bool
		repo, pkg, tg string
		relative      bool
	}
	split := func(s string) lab {
		var l lab
		l.explicit = strings.HasPrefix(s, "@")
		if l.explicit {
			i := strings.Index(s, "//")
			if i < 0 {
				l.repo = strings.TrimLeft(s, "@")
				l.tg = l.repo
				return l
			}
			l.repo = strings.TrimLeft(s[:i], "@")
			s = s[i:]
		}
		if strings.HasPrefix(s, "//") {
			s = s[2:]
			if i := strings.LastIndexByte(s, ':'); i >= 0 {
				l.pkg, l.tg = s[:i], s[i+1:]
			} else {
				l.pkg, l.tg = s, s[strings.LastIndexByte(s, '/')+1:]
			}
			return l
		}
		l.relative = true
		l.tg = strings.TrimPrefix(s, ":")
		return l
	}
	x, y := split(a), split(b)
	if x.explicit != y.explicit {
		return x.explicit
	}
	if x.repo != y.repo {
		return x.repo < y.repo
	}
	if x.relative != y.relative {
		return y.relative
	}
	if x.pkg != y.pkg {
		if (x.pkg == "") != (y.pkg == "") {
			return x.pkg == ""
		}
		return pathLess(x.pkg, y.pkg)
	}
	return pathLess(x.tg, y.tg)
}

func pathLess(a, b string) bool {
	x, y := strings.Split(strings.ToLower(a), "/"), strings.Split(strings.ToLower(b), "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	return a < b
}

func isStr(n *astx.N) bool { return n.K == "str" && !n.P }

func isID(n *astx.N, name string) bool { return n.K == "id" && n.V == name && !n.P }

func isSelect(n *astx.N) bool {
	return n.K == "call" && !n.P && isID(n.C[0], "select") && len(n.C) > 1 && n.C[1].K == "arg" && n.C[1].C[0].K == "dict" && !n.C[1].C[0].P
}
