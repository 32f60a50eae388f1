package plint

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// The reference model of the lint checks that look for particular constructs: every generated
// construct says where a check has to report it. "\x01category\x02" marks the place.

const (
	tBuild = build.TypeBuild
	tBzl   = build.TypeBzl
	tWs    = build.TypeWorkspace
	tMod   = build.TypeModule
	tDef   = build.TypeDefault
	tAll   = tBuild | tBzl | tWs | tMod | tDef
)

// kinds of files each modelled check applies to
var modelled = map[string]build.FileType{
	"attr-applicable_licenses": tBzl, "attr-cfg": tBzl, "attr-license": tBzl, "attr-licenses": tBzl,
	"attr-non-empty": tBzl, "attr-output-default": tBzl, "attr-single-file": tBzl,
	"build-args-kwargs": tBuild, "bzl-visibility": tAll, "confusing-name": tAll,
	"constant-glob": tBuild | tWs | tBzl, "ctx-actions": tBzl, "ctx-args": tBzl,
	"depset-items": tAll, "depset-iteration": tAll, "depset-union": tAll,
	"dict-concatenation": tAll, "dict-method-named-arg": tAll, "duplicated-name": tBuild | tWs,
	"filetype": tBzl, "function-docstring": tAll, "function-docstring-args": tAll,
	"function-docstring-header": tAll, "function-docstring-return": tAll,
	"git-repository": tBzl, "http-archive": tBzl, "integer-division": tAll,
	"keyword-positional-params": tAll, "list-append": tAll, "module-docstring": tBzl | tDef,
	"name-conventions": tAll, "native-build": tBuild, "native-package": tBzl, "output-group": tBzl,
	"overly-nested-depset": tAll, "package-name": tBzl, "package-on-top": tBuild | tBzl | tDef,
	"positional-args": tBuild, "print": tAll &^ tDef, "provider-params": tBzl, "repository-name": tBzl,
	"rule-impl-return": tBzl, "string-iteration": tAll, "unsorted-dict-items": tAll,
}

var nativeRules = map[string]string{
	"cc_binary": "native-cc-binary", "cc_import": "native-cc-import", "cc_library": "native-cc-library",
	"objc_import": "native-cc-objc-import", "objc_library": "native-cc-objc-library",
	"cc_shared_library": "native-cc-shared-library", "cc_test": "native-cc-test",
	"cc_toolchain": "native-cc-toolchain", "cc_toolchain_suite": "native-cc-toolchain-suite",
	"fdo_prefetch_hints": "native-cc-fdo-prefetch-hints", "fdo_profile": "native-cc-fdo-profile",
	"memprof_profile": "native-cc-memprof-profile", "propeller_optimize": "native-cc-propeller-optimize",
	"java_binary": "native-java-binary", "java_import": "native-java-import", "java_library": "native-java-library",
	"java_plugin": "native-java-plugin", "java_test": "native-java-test",
	"java_package_configuration": "native-java-package-config", "java_runtime": "native-java-runtime",
	"java_toolchain": "native-java-toolchain", "proto_library": "native-proto",
	"java_proto_library": "native-java-proto", "java_lite_proto_library": "native-java-lite-proto",
	"cc_proto_library": "native-cc-proto", "proto_lang_toolchain": "native-proto-lang-toolchain",
	"py_library": "native-py", "py_binary": "native-py", "py_test": "native-py", "py_runtime": "native-py",
	"sh_binary": "native-sh-binary", "sh_library": "native-sh-library", "sh_test": "native-sh-test",
	"android_binary": "native-android", "android_library": "native-android", "aar_import": "native-android",
	"android_local_test": "native-android", "git_repository": "git-repository", "new_git_repository": "git-repository",
	"http_archive": "http-archive",
}

var nativeSymbols = map[string]string{
	"cc_common": "native-cc-common", "DebugPackageInfo": "native-cc-debug-package-info", "CcInfo": "native-cc-info",
	"CcSharedLibraryInfo": "native-cc-shared-library-info", "CcSharedLibraryHintInfo": "native-cc-shared-library-hint-info",
	"java_common": "native-java-common", "JavaInfo": "native-java-info", "JavaPluginInfo": "native-java-plugin-info",
	"ProtoInfo": "native-proto-info", "proto_common": "native-proto-common",
	"ProtoLangToolchainInfo": "native-proto-lang-toolchain-info",
}

var ruleNames, symbolNames, modelledCats []string

func init() {
	for n, c := range nativeRules {
		ruleNames = append(ruleNames, n)
		if strings.HasPrefix(c, "native-") {
			modelled[c] = tBuild | tBzl
		}
	}
	for n, c := range nativeSymbols {
		symbolNames = append(symbolNames, n)
		modelled[c] = tBuild | tBzl
	}
	for c := range modelled {
		modelledCats = append(modelledCats, c)
	}
	sort.Strings(ruleNames)
	sort.Strings(symbolNames)
	sort.Strings(modelledCats)
}

// lbind is what the model knows about a name
type lbind struct{ kind string }

type lscope struct {
	names  map[string]*lbind
	parent *lscope
}

func (s *lscope) get(n string) *lbind {
	for ; s != nil; s = s.parent {
		if b := s.names[n]; b != nil {
			return b
		}
	}
	return nil
}

// reserved names are bound in some scopes (and then mean something else)
var shadowable = []string{"PACKAGE_NAME", "REPOSITORY_NAME", "FileType", "cc_library", "java_test", "py_binary", "CcInfo", "ProtoInfo", "http_archive", "sh_test"}

type lm struct {
	rt    *rapid.T
	typ   build.FileType
	n     int
	sc    *lscope
	inDef bool
	indef int      // depth of compound statements
	loop  int      // depth of for loops
	stmts int      // statements of the current function
	ret   bool     // the current function returns values
	impl  bool     // the current function is the implementation of a rule
	conf  bool     // the current scope has a confusing name
	vars  []string // names that can be used, of the current scopes
}

func (g *lm) N(n int) int              { return gen.Int(g.rt, n) }
func (g *lm) P(p int) bool             { return gen.Pct(g.rt, p) }
func (g *lm) Pick(xs ...string) string { return xs[g.N(len(xs))] }

// m marks the place of a finding.
func (g *lm) m(cat string) string {
	t, ok := modelled[cat]
	if !ok {
		panic(cat)
	}
	if g.typ&t == 0 {
		return ""
	}
	return "\x01" + cat + "\x02"
}

func (g *lm) mIf(cond bool, cat string) string {
	if cond {
		return g.m(cat)
	}
	return ""
}

// x is a generated expression: the kind, if known, and whether it can be an operand without parentheses.
type x struct {
	s, kind string
	atom    bool
	list    int  // elements of a list display, -1 otherwise
	str     bool // a string literal
}

func (g *lm) comma() string {
	switch g.N(10) {
	case 0:
		return ",\n        "
	case 1:
		return ","
	}
	return ", "
}

func (g *lm) join(l []string) string {
	var b strings.Builder
	for i, s := range l {
		if i > 0 {
			b.WriteString(g.comma())
		}
		b.WriteString(s)
	}
	if len(l) > 0 && g.P(5) {
		return "\n        " + b.String() + "\n    "
	}
	return b.String()
}

func at(s, kind string) x { return x{s: s, kind: kind, atom: true, list: -1} }

// op is e as an operand.
func (g *lm) op(e x) string {
	if e.atom {
		return e.s
	}
	return "(" + e.s + ")"
}

// shuffle puts keyword arguments into any order after the positional ones.
func (g *lm) args(pos []string, kw []string) string {
	for i := len(kw) - 1; i > 0; i-- {
		j := g.N(i + 1)
		kw[i], kw[j] = kw[j], kw[i]
	}
	return g.join(append(append([]string{}, pos...), kw...))
}

func (g *lm) someKw(names ...string) (kw []string) {
	for _, n := range names {
		if g.P(30) {
			kw = append(kw, n+" = "+g.e(0).s)
		}
	}
	return kw
}

func (g *lm) leaf() x {
	switch g.N(12) {
	case 0, 1:
		return x{s: g.Pick(`"a"`, `"b c"`, `""`, `'q'`), kind: "str", atom: true, list: -1, str: true}
	case 2, 3:
		return at(g.Pick("0", "1", "42", "0x1F", "0o17"), "int")
	case 4:
		return at(g.Pick("True", "False"), "bool")
	case 5:
		return at("None", "none")
	case 6, 7, 8:
		if len(g.vars) > 0 {
			n := g.vars[g.N(len(g.vars))]
			if b := g.sc.get(n); b != nil {
				return at(n, b.kind)
			}
		}
	case 9:
		if g.P(60) {
			return g.special()
		}
		return at("1.5", "float")
	}
	return at(g.Pick("u1", "u2", "u3.f", "u4[0]", "fn()"), "")
}

// special is a name with a meaning of its own, unless it's bound to something else.
func (g *lm) special() x {
	switch g.N(4) {
	case 0:
		return at(g.mIf(g.sc.get("PACKAGE_NAME") == nil, "package-name")+"PACKAGE_NAME", g.kindOf("PACKAGE_NAME"))
	case 1:
		return at(g.mIf(g.sc.get("REPOSITORY_NAME") == nil, "repository-name")+"REPOSITORY_NAME", g.kindOf("REPOSITORY_NAME"))
	}
	n := symbolNames[g.N(len(symbolNames))]
	if g.P(40) {
		n = g.Pick("CcInfo", "ProtoInfo")
	}
	mark := g.mIf(g.sc.get(n) == nil, nativeSymbols[n])
	if g.P(40) {
		return at(mark+n+".foo", "")
	}
	return at(mark+n, g.kindOf(n))
}

func (g *lm) kindOf(n string) string {
	if b := g.sc.get(n); b != nil {
		return b.kind
	}
	return ""
}

// typed is an expression of a given kind.
func (g *lm) typed(kind string, d int) x {
	for i := 0; i < 3; i++ {
		if g.P(50) && len(g.vars) > 0 {
			n := g.vars[g.N(len(g.vars))]
			if b := g.sc.get(n); b != nil && b.kind == kind {
				return at(n, kind)
			}
		}
	}
	if d > 0 && g.P(15) {
		e := g.typed(kind, d-1)
		return at("("+e.s+")", e.kind)
	}
	switch kind {
	case "str":
		if g.P(60) {
			return x{s: g.Pick(`"a"`, `"x y"`, `'q'`), kind: kind, atom: true, list: -1, str: true}
		}
		return at("str("+g.e(0).s+")", kind)
	case "int":
		if g.P(60) {
			return at(g.Pick("0", "1", "42", "0x1F", "0o17"), kind)
		}
		return at("int("+g.e(0).s+")", kind)
	case "dict":
		switch g.N(3) {
		case 0:
			return at("dict("+g.args(nil, g.someKw("a", "b"))+")", kind)
		case 1:
			return g.comp(d-1, true)
		}
		return g.dict(d)
	case "depset":
		if d <= 0 {
			return at("depset()", kind)
		}
		return g.depset(d)
	case "list":
		return g.listX(d)
	}
	return g.leaf()
}

func (g *lm) elems(d, n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, g.e(d-1).s)
	}
	return l
}

func (g *lm) listX(d int) x {
	n := g.N(3)
	return x{s: "[" + g.join(g.elems(d, n)) + "]", kind: "list", atom: true, list: n}
}

func keyLess(a, b string) bool {
	pa, pb := strings.HasPrefix(a, "_"), strings.HasPrefix(b, "_")
	if pa != pb {
		return pb
	}
	if pa {
		return a < b
	}
	const def = "//conditions:default"
	if a == def || b == def {
		return b == def && a != def
	}
	return a < b
}

func (g *lm) dict(d int) x {
	var items []string
	last, mark := "", ""
	for i, n := 0, g.N(4); i < n; i++ {
		if g.P(20) {
			k := g.e(0)
			for k.str || strings.Contains(k.s, "\x01") {
				k = g.e(0)
			}
			items = append(items, g.op(k)+": "+g.e(d-1).s)
			continue
		}
		k := g.Pick("a", "b", "c", "_a", "_b", "//conditions:default", "//a:b", "B", "licenses", "applicable_licenses", "package_metadata", "license", "ab", "a_b")
		m := ""
		if last != "" && keyLess(k, last) {
			m = g.m("unsorted-dict-items")
		}
		last = k
		switch k {
		case "licenses":
			mark += g.m("attr-licenses")
		case "applicable_licenses", "package_metadata":
			mark += g.m("attr-applicable_licenses")
		}
		items = append(items, m+`"`+k+`"`+g.Pick(": ", ":")+g.e(d-1).s)
	}
	return at(mark+"{"+g.join(items)+"}", "dict")
}

// iterMark is the mark of something that is iterated over.
func (g *lm) iterMark(kind string) string {
	switch kind {
	case "str":
		return g.m("string-iteration")
	case "depset":
		return g.m("depset-iteration")
	}
	return ""
}

// iterable is something to iterate over.
func (g *lm) iterable(d int) x {
	switch g.N(4) {
	case 0:
		return g.typed("str", d-1)
	case 1:
		return g.typed("depset", d-1)
	case 2:
		return g.listX(d - 1)
	}
	return g.e(d - 1)
}

// scoped runs f with new names bound to something unknown.
func (g *lm) scoped(names []string, f func()) {
	sc, vars := g.sc, g.vars
	g.sc = &lscope{map[string]*lbind{}, sc}
	for _, n := range names {
		g.sc.names[n] = &lbind{}
		g.vars = append(g.vars[:len(g.vars):len(g.vars)], n)
	}
	f()
	g.sc, g.vars = sc, vars
}

// newName is a name for a parameter or a loop variable, which may shadow something.
func (g *lm) newName() string {
	switch g.N(12) {
	case 0:
		return shadowable[g.N(len(shadowable))]
	case 1, 2:
		if len(g.vars) > 0 {
			return g.vars[g.N(len(g.vars))]
		}
	case 3:
		return g.Pick("l", "I", "O")
	}
	g.n++
	return fmt.Sprintf("p%d", g.n)
}

func confusing(n string) bool { return n == "l" || n == "I" || n == "O" }

func (g *lm) comp(d int, curly bool) x {
	v := g.newName()
	it := g.iterable(d)
	if g.sc.get(v) != nil || strings.Contains(it.s, v) {
		// The first iterable is evaluated outside.
		g.n++
		v = fmt.Sprintf("p%d", g.n)
	}
	clauses := " for " + g.mIf(confusing(v), "confusing-name") + v + " in " + g.iterMark(it.kind) + g.op(it)
	var body string
	g.scoped([]string{v}, func() {
		if g.P(20) {
			it2 := g.iterable(d - 1)
			g.n++
			w := fmt.Sprintf("p%d", g.n)
			clauses += " for " + w + " in " + g.iterMark(it2.kind) + g.op(it2)
		}
		if g.P(20) {
			clauses += " if " + g.op(g.e(d-1))
		}
		if curly {
			k := g.e(0)
			body = g.op(k) + ": " + g.op(g.e(d-1))
		} else {
			body = g.op(g.e(d - 1))
		}
	})
	if curly {
		return at("{"+body+clauses+"}", "dict")
	}
	return at("["+body+clauses+"]", "list")
}

func (g *lm) depset(d int) x {
	if g.P(20) {
		return at("depset("+g.args([]string{g.Pick("u1", "[u1]")}, g.someKw("transitive", "order"))+")", "depset")
	}
	var pos, kw []string
	mark := ""
	items := g.P(15)
	if g.P(50) {
		a := g.iterable(d - 1)
		kw = g.someKw("transitive", "order")
		if items {
			kw = append(kw, g.m("depset-items")+"items = "+g.e(d-1).s)
		} else if a.kind == "depset" {
			mark = g.m("depset-items")
		}
		if a.kind == "depset" && len(kw) == 0 {
			mark += g.m("depset-iteration")
		}
		pos = append(pos, mark+a.s)
	} else {
		kw = g.someKw("direct", "transitive", "order")
		if items {
			kw = append(kw, g.m("depset-items")+"items = "+g.e(d-1).s)
		}
	}
	return at("depset("+g.args(pos, kw)+")", "depset")
}

func known(k string) bool { return k != "" }

// binary is an operation with any operands.
func (g *lm) binary(d int) x {
	kinds := []string{"str", "int", "dict", "depset", "list", ""}
	pick := func() x {
		if k := kinds[g.N(len(kinds))]; k != "" {
			return g.typed(k, d-1)
		}
		return g.e(d - 1)
	}
	a, b := pick(), pick()
	if g.P(40) {
		b = g.typed(a.kind, d-1)
	}
	op := g.Pick("+", "+", "+", "-", "*", "/", "/", "//", "%", "|", "|", "in", "not in", "==", "<", "and", "or")
	mark, mark2, kind := "", "", ""
	switch op {
	case "in", "not in":
		mark2 = g.mIf(b.kind == "depset", "depset-iteration")
	case "+":
		mark = g.mIf(a.kind == "dict" || b.kind == "dict", "dict-concatenation")
		mark += g.mIf(a.kind == "depset" || b.kind == "depset", "depset-union")
	case "|":
		mark += g.mIf(a.kind == "depset" || b.kind == "depset", "depset-union")
	case "/":
		mark = g.mIf(a.kind == "int" && b.kind == "int", "integer-division")
	}
	switch op {
	case "in", "not in", "==", "<":
		kind = "bool"
	case "and", "or":
	default:
		if known(a.kind) {
			kind = a.kind
		} else if op != "%" || b.kind == "str" {
			kind = b.kind
		}
	}
	return x{s: mark + g.op(a) + " " + op + " " + mark2 + g.op(b), kind: kind, list: -1}
}

// star adds *args and **kwargs.
func (g *lm) star(l []string) []string {
	if g.P(10) {
		l = append(l, g.m("build-args-kwargs")+"*"+g.op(g.leaf()))
	}
	if g.P(10) {
		l = append(l, g.m("build-args-kwargs")+"**"+g.op(g.leaf()))
	}
	return l
}

// plainArgs are arguments without any special meaning.
func (g *lm) plainArgs(d int) string {
	l := g.elems(d, g.N(3))
	for i, n := 0, g.N(2); i < n; i++ {
		l = append(l, g.Pick("k1", "l", "FileType", "PACKAGE_NAME", "cfg", "CcInfo")+fmt.Sprint("")+" = "+g.e(d-1).s)
	}
	return g.join(g.star(l))
}

func (g *lm) e(d int) x {
	if d <= 0 {
		return g.leaf()
	}
	d--
	switch g.N(26) {
	case 0:
		return g.leaf()
	case 1:
		return g.listX(d)
	case 2:
		return g.dict(d)
	case 3:
		return g.comp(d, g.P(30))
	case 4, 5, 6:
		return g.binary(d)
	case 7:
		return x{s: g.op(g.e(d)) + " if " + g.op(g.e(d)) + " else " + g.op(g.e(d)), list: -1}
	case 8:
		return at("("+g.join(append(g.elems(d, 2), g.e(d).s))+")", "")
	case 9:
		p := g.newName()
		var body string
		if confusing(p) {
			p = "pp"
		}
		g.scoped([]string{p}, func() { body = g.op(g.e(d)) })
		return x{s: "lambda " + p + ": " + body, list: -1}
	case 10:
		return at(g.Pick("fn", "u1.go", "select", "fail", "glob2", "prints", "packages", "depsets", "native.glob")+"("+g.plainArgs(d)+")", "").nativeIn(g)
	case 11:
		return at(g.op(g.e(d))+"."+g.Pick("items()", "foo", "actions", "args()"), "").dotted(g)
	}
	return g.idiom(d)
}

// nativeIn marks native.xxx in BUILD files.
func (e x) nativeIn(g *lm) x {
	if strings.HasPrefix(e.s, "native.") {
		e.s = g.m("native-build") + e.s
	}
	return e
}

// dotted forgets about ctx.actions.args() and the like
func (e x) dotted(g *lm) x {
	if strings.HasPrefix(e.s, "ctx") || strings.Contains(e.s, "native") || strings.HasPrefix(e.s, "1") || strings.HasPrefix(e.s, "4") || strings.HasPrefix(e.s, "0") {
		return at("u1.foo", "")
	}
	return e
}

func (g *lm) idiom(d int) x {
	switch g.N(17) {
	case 0:
		return at(g.m("print")+"print("+g.plainArgs(d)+")", "")
	case 1: // glob
		var l []string
		done := false
		for i, n := 0, g.N(4); i < n; i++ {
			switch g.N(4) {
			case 0:
				l = append(l, g.Pick(`"*.cc"`, `"**/a"`, `"a*"`))
			case 1:
				l = append(l, g.Pick("u1", `"a" + u2`, "fn()"))
			default:
				l = append(l, g.mIf(!done, "constant-glob")+g.Pick(`"a.cc"`, `"b/?"`, `""`))
				done = true
			}
		}
		pats := "[" + g.join(l) + "]"
		plain := strings.NewReplacer("\x01constant-glob\x02", "").Replace(pats)
		other := g.Pick(`["x.cc"]`, `["*"]`, "u1")
		fn := g.Pick("glob", "glob", "glob", "globs", "g.glob")
		if fn != "glob" {
			return at(fn+"("+plain+")", "")
		}
		switch g.N(6) {
		case 0:
			return at("glob(include = "+pats+g.comma()+"exclude = "+other+")", "")
		case 1:
			return at("glob(exclude = "+other+g.comma()+"include = "+pats+")", "")
		case 2:
			return at("glob(exclude = "+plain+")", "")
		case 3:
			return at("glob("+plain+" + u1)", "")
		case 4:
			return at("glob("+pats+g.comma()+"exclude = "+other+")", "")
		}
		return at("glob("+pats+")", "")
	case 2: // attr.xxx()
		var kw []string
		fn := g.Pick("label", "label_list", "string", "output", "license")
		base := g.Pick("attr", "attr", "attr", "attr", "attr", "attrs")
		is := base == "attr"
		mark := g.mIf(is && fn == "license", "attr-license")
		if g.P(40) {
			switch g.N(3) {
			case 0:
				kw = append(kw, g.mIf(is, "attr-cfg")+"cfg = "+g.Pick(`"data"`, `"host"`))
			case 1:
				kw = append(kw, "cfg = "+g.Pick(`"exec"`, `u1`, `"target"`, `"hosts"`))
			}
		}
		if g.P(25) {
			kw = append(kw, g.mIf(is, "attr-non-empty")+"non_empty = "+g.op(g.e(d)))
		}
		if g.P(25) {
			kw = append(kw, g.mIf(is, "attr-single-file")+"single_file = "+g.e(d).s)
		}
		if g.P(30) {
			kw = append(kw, g.mIf(is && fn == "output", "attr-output-default")+"default = "+g.e(d).s)
		}
		kw = append(kw, g.someKw("allow_files", "mandatory", "allow_empty")...)
		return at(mark+base+"."+fn+"("+g.args(nil, kw)+")", "")
	case 3: // ctx.xxx()
		fn := g.Pick("new_file", "experimental_new_directory", "file_action", "action", "empty_action", "template_action", "actions.run", "expand_location", "new_files")
		old := !contains([]string{"actions.run", "expand_location", "new_files"}, fn)
		var a []string
		if fn == "new_file" {
			a = g.elems(d, 1+g.N(3))
		} else {
			a = g.someKw("executable", "command", "inputs", "content")
		}
		base := g.Pick("ctx", "ctx", "ctx", "c")
		return at(g.mIf(old && base == "ctx", "ctx-actions")+base+"."+fn+"("+g.join(a)+")", "")
	case 4:
		return at(g.mIf(g.sc.get("FileType") == nil, "filetype")+"FileType("+g.plainArgs(d)+")", "")
	case 5:
		base, mid, name := g.Pick("ctx", "ctx", "ctx", "c"), g.Pick("attr", "attr", "attr", "file"), g.Pick("output_group", "output_group", "output_groups")
		ok := base == "ctx" && mid == "attr" && name == "output_group"
		return at(g.mIf(ok, "output-group")+base+"."+mid+"."+g.Pick("dep", "deps")+"."+name, "")
	case 6:
		var pos, kw []string
		if g.P(40) {
			pos = append(pos, g.typed("str", 0).s)
		}
		if g.P(50) {
			kw = append(kw, "fields = "+g.e(d).s)
		}
		if g.P(30) {
			kw = append(kw, "doc = "+g.e(d).s)
		}
		kw = append(kw, g.someKw("init")...)
		hasF, hasD := false, len(pos) > 0
		for _, k := range kw {
			hasF = hasF || strings.HasPrefix(k, "fields =")
			hasD = hasD || strings.HasPrefix(k, "doc =")
		}
		return at(g.mIf(!hasF || !hasD, "provider-params")+"provider("+g.args(pos, kw)+")", "")
	case 7: // builtins with positional parameters
		fn := g.Pick("all", "any", "tuple", "list", "len", "str", "repr", "bool", "int", "dir", "type", "select")
		name := "x"
		if fn == "all" || fn == "any" {
			name = "elements"
		}
		right := g.P(70)
		k := name
		if !right {
			k = g.Pick("y", "elems", "l")
		}
		kind := map[string]string{"list": "list", "str": "str", "bool": "bool", "int": "int"}[fn]
		return at(fn+"("+g.mIf(right, "keyword-positional-params")+k+" = "+g.e(d).s+")", kind)
	case 8:
		fn := g.Pick("getattr", "hasattr", "native.getattr")
		if fn == "native.getattr" {
			fn = g.m("native-build") + fn
		}
		a := []string{g.e(d).s}
		switch g.N(5) {
		case 0, 1:
			a = append(a, g.m("keyword-positional-params")+"name = "+g.typed("str", 0).s)
		case 2:
			a = append(a, g.Pick("default", "nam", "x", "attr")+" = "+g.typed("str", 0).s)
		default:
			a = append(a, g.typed("str", 0).s)
		}
		if strings.HasSuffix(fn, "getattr") && g.P(50) {
			switch g.N(5) {
			case 0, 1:
				a = append(a, g.m("keyword-positional-params")+"default = "+g.e(0).s)
			case 2:
				a = append(a, g.Pick("name", "defaults", "x")+" = "+g.e(0).s)
			default:
				if !strings.Contains(a[1], " = ") || strings.Contains(a[1], "\x01") {
					a = append(a, g.e(0).s)
				}
			}
		}
		return at(fn+"("+g.join(a)+")", "")
	case 9, 10: // functions that iterate over their arguments
		fn := g.Pick("all", "any", "reversed", "max", "min", "len", "sorted", "list", "tuple", "zip", "enumerate")
		var l []x
		l = append(l, g.iterable(d))
		if fn == "zip" || g.P(15) {
			l = append(l, g.iterable(d))
		}
		var a []string
		for _, e := range l {
			mark := ""
			switch fn {
			case "zip":
				mark = g.iterMark(e.kind)
			case "all", "any", "max", "min":
				if len(l) == 1 {
					mark = g.iterMark(e.kind)
				}
			case "reversed":
				mark = g.mIf(len(l) == 1 && e.kind == "str", "string-iteration")
			case "len", "sorted", "list", "tuple":
				mark = g.mIf(len(l) == 1 && e.kind == "depset", "depset-iteration")
			}
			a = append(a, mark+e.s)
		}
		kind := ""
		if fn == "list" {
			kind = "list"
		}
		return at(fn+"("+g.join(a)+")", kind)
	case 11:
		a, b := g.iterable(d), g.iterable(d)
		if g.P(30) {
			return at(g.op(a)+".union()", "").dotted(g)
		}
		bad := a.kind == "depset" || b.kind == "depset"
		if c := a.s[0]; c >= '0' && c <= '9' {
			return at("(u1)", "")
		}
		return at(g.mIf(bad, "depset-union")+g.op(a)+".union("+b.s+")", "")
	case 12: // dict methods
		a := g.typed(g.Pick("dict", "dict", "list"), d)
		fn := g.Pick("get", "pop", "setdefault", "update")
		kw := g.P(60)
		args := []string{g.e(0).s}
		if kw {
			args = append(args, g.mIf(a.kind == "dict" && fn != "update", "dict-method-named-arg")+"default = "+g.e(d).s)
		} else {
			args = append(args, g.e(0).s)
		}
		return at(g.op(a)+"."+fn+"("+g.join(args)+")", "")
	case 13, 14: // rules that need to be loaded
		n := ruleNames[g.N(len(ruleNames))]
		if g.P(30) {
			n = g.Pick("cc_library", "java_test", "py_binary", "http_archive", "sh_test")
		}
		mark := g.mIf(g.sc.get(n) == nil, nativeRules[n])
		name := n
		switch g.N(4) {
		case 0:
			mark = g.m(nativeRules[n]) + g.m("native-build")
			name = "native." + n
		case 1:
			mark = ""
			name = g.Pick("rules.", "natives.") + n
		case 2:
			if g.P(30) {
				return at(n, g.kindOf(n)) // not a call
			}
		}
		return at(mark+name+"("+g.plainArgs(d)+")", "")
	case 15:
		if g.P(50) {
			return at(g.m("native-package")+g.m("native-build")+"native.package("+g.plainArgs(d)+")", "")
		}
		if g.P(40) {
			return at(g.Pick("u1", "natives", "fn()", "u3.native", "u4[0]")+".package("+g.plainArgs(d)+")", "")
		}
		return at(g.m("native-build")+"native."+g.Pick("package_name()", "existing_rules()", "foo", "package"), "")
	}
	if b := g.sc.get("ctx"); b != nil && b.kind == "ctx" {
		if g.P(50) {
			return at("ctx.actions.args()", "args")
		}
		return g.ctxArgs(at("ctx.actions.args()", "args"), d)
	}
	return g.ctxArgs(at("u1.actions.args()", ""), d)
}

// ctxArgs is a call of a method of ctx.actions.args()
func (g *lm) ctxArgs(a x, d int) x {
	kw := g.someKw("before_each", "join_with", "map_fn", "format")
	bad := false
	for _, k := range kw {
		bad = bad || !strings.HasPrefix(k, "format")
	}
	fn := g.Pick("add", "add", "add_all")
	return at(g.mIf(bad && a.kind == "args" && fn == "add", "ctx-args")+g.op(a)+"."+fn+"("+g.args([]string{g.e(0).s}, kw)+")", "")
}

// varName is a new name for a variable, with the mark for its style.
func (g *lm) varName() (mark, name string) {
	if !g.conf && g.P(5) {
		n := g.Pick("l", "I", "O")
		if g.sc.names[n] == nil {
			g.conf = true
			return g.m("confusing-name"), n
		}
	}
	g.n++
	name = g.Pick("v%d", "v%d", "v%d", "V%d", "foo_bar%d", "FOO_%d", "_x%d", "_Foo%dInfo", "Foo%dInfo", "!fooBar%d", "!Foo%d", "!Foo%d_Info", "!foo%dInfo", "!Foo_bar%d", "!_Foo%d", "!__Foo%dInfo", "L%d")
	bad := name[0] == '!'
	name = fmt.Sprintf(strings.TrimPrefix(name, "!"), g.n)
	return g.mIf(bad, "name-conventions"), name
}

func (g *lm) bind(name, kind string) {
	b := g.sc.names[name]
	if b == nil {
		b = &lbind{}
		g.sc.names[name] = b
		g.vars = append(g.vars[:len(g.vars):len(g.vars)], name)
	}
	if kind != "" {
		b.kind = kind
	}
}

// assign is a simple statement that binds a variable.
func (g *lm) assign() string {
	kinds := []string{"str", "int", "dict", "depset", "list", "", ""}
	if len(g.vars) > 0 && g.P(30) {
		// augmented assignment to a variable of this scope
		n := g.vars[g.N(len(g.vars))]
		b := g.sc.names[n]
		if b != nil && isVar(n) {
			var e x
			if k := kinds[g.N(len(kinds))]; k != "" {
				e = g.typed(k, 2)
			} else {
				e = g.e(2)
			}
			op := g.Pick("+=", "+=", "-=", "*=", "/=", "//=", "%=", "|=")
			mark := g.mIf(styleBad(n), "name-conventions")
			if confusing(n) {
				mark += g.m("confusing-name")
			}
			dep := b.kind == "depset" || e.kind == "depset"
			switch op {
			case "+=":
				mark += g.mIf(b.kind == "dict" || e.kind == "dict", "dict-concatenation")
				mark += g.mIf(dep, "depset-union")
				mark += g.mIf(e.list == 1, "list-append")
			case "|=":
				mark += g.mIf(dep, "depset-union")
			case "/=":
				mark += g.mIf(b.kind == "int" && e.kind == "int", "integer-division")
			}
			if e.kind != "" && (op != "%=" || e.kind == "str") {
				b.kind = e.kind
			}
			return mark + n + " " + op + " " + e.s
		}
	}
	var e x
	if g.P(12) {
		if b := g.sc.get("ctx"); b != nil && b.kind == "ctx" {
			e = at("ctx.actions.args()", "args")
		}
	}
	if e.s == "" {
		if k := kinds[g.N(len(kinds))]; k != "" {
			e = g.typed(k, 2)
		} else {
			e = g.e(3)
		}
	}
	if g.P(15) {
		// a tuple
		m1, n1 := g.varName()
		m2, n2 := g.varName()
		if n1 == n2 {
			return "pass"
		}
		g.bind(n1, "")
		g.bind(n2, "")
		return m1 + n1 + ", " + m2 + n2 + " = " + g.op(e)
	}
	if g.P(5) {
		return g.Pick("u1.fooBar", "u2[0]", "u3.Foo") + " = " + e.s
	}
	m, n := g.varName()
	if g.loop > 0 && g.P(30) {
		// depset(transitive = [n, ...]) in a loop
		l := g.elems(1, g.N(2))
		same := g.P(70)
		if same {
			l = append(l, n)
		} else {
			l = append(l, "u1")
		}
		kw := g.someKw("direct", "order")
		fn := g.Pick("depset", "depset", "depset", "my_depset")
		arg := g.Pick("transitive", "transitive", "transitive", "other")
		kw = append(kw, arg+" = ["+g.join(l)+"]")
		mark := g.mIf(same && fn == "depset" && arg == "transitive", "overly-nested-depset")
		kind := ""
		if fn == "depset" {
			kind = "depset"
		}
		g.bind(n, kind)
		return m + mark + n + " = " + fn + "(" + g.args(nil, kw) + ")"
	}
	g.bind(n, e.kind)
	return m + n + " = " + e.s
}

// isVar tells whether a name was made by varName.
func isVar(n string) bool { return !strings.HasPrefix(n, "p") && n != "ctx" }

func styleBad(n string) bool {
	if n == strings.ToLower(n) || n == strings.ToUpper(n) {
		return false
	}
	t := strings.TrimPrefix(n, "_")
	return !(strings.HasSuffix(n, "Info") && !strings.Contains(t, "_") && t[0] >= 'A' && t[0] <= 'Z')
}

// stmt writes a statement of a function or of the file.
func (g *lm) stmt(ind string, depth int) string {
	g.stmts++
	r := g.N(100)
	switch {
	case r < 45:
		return ind + g.assign() + "\n"
	case r < 60 || depth <= 0 || !g.inDef:
		if g.inDef && (g.P(20) || g.impl && g.P(30)) {
			g.ret = true
			if g.P(40) || g.impl && g.P(60) {
				fn := g.Pick("struct", "struct", "structs")
				return ind + g.mIf(g.impl && fn == "struct", "rule-impl-return") + "return " + fn + "(" + g.plainArgs(1) + ")\n"
			}
			if g.P(5) {
				return ind + "return [struct()]\n"
			}
			return ind + "return " + g.e(2).s + "\n"
		}
		// a call, but not of a name which makes it a rule
		if g.P(30) {
			if len(g.vars) > 0 {
				n := g.vars[g.N(len(g.vars))]
				if b := g.sc.get(n); b != nil && b.kind == "args" {
					return ind + g.ctxArgs(at(n, "args"), 1).s + "\n"
				}
			}
		}
		if g.P(50) {
			if e := g.idiom(2); e.atom && !strings.HasPrefix(e.s, "\"") {
				return ind + e.s + "\n"
			}
		}
		return ind + "u1.run(" + g.plainArgs(2) + ")\n"
	case r < 75:
		s := ind + "if " + g.op(g.e(2)) + ":\n" + g.body(ind+"    ", depth-1)
		if g.P(40) {
			s += ind + "else:\n" + g.body(ind+"    ", depth-1)
		}
		return s
	case r < 95:
		it := g.iterable(2)
		m := ""
		v := ""
		if !g.conf && g.P(10) {
			v = g.Pick("l", "I", "O")
			if g.sc.names[v] == nil {
				m = g.m("confusing-name")
				g.conf = true
			} else {
				v = ""
			}
		}
		if v == "" {
			g.n++
			v = fmt.Sprintf("%s%d", g.Pick("p", "p", "pX"), g.n)
		}
		g.bind(v, "")
		g.loop++
		s := ind + "for " + m + v + " in " + g.iterMark(it.kind) + g.op(it) + ":\n" + g.body(ind+"    ", depth-1)
		g.loop--
		return s
	}
	return ind + "pass\n"
}

func (g *lm) body(ind string, depth int) string {
	s := ""
	for i, n := 0, 1+g.N(2); i < n; i++ {
		s += g.stmt(ind, depth)
	}
	return s
}

func (g *lm) def() string {
	g.n++
	name := g.Pick("f%d", "f%d", "_f%d", "fooBar%d")
	name = fmt.Sprintf(name, g.n)
	return g.defNamed(name, false)
}

func (g *lm) defNamed(name string, impl bool) string {
	sc, vars := g.sc, g.vars
	g.sc = &lscope{map[string]*lbind{}, sc}
	g.inDef, g.stmts, g.ret, g.impl, g.conf = true, 0, false, impl, false

	var params []lparam
	var ptext []string
	addParam := func(star, n, def string) {
		if g.sc.names[n] != nil {
			return
		}
		if confusing(n) {
			g.conf = true
		}
		kind := ""
		if n == "ctx" {
			kind = "ctx"
		}
		switch strings.Trim(def, " =") {
		case "None":
			kind = "none"
		case "3":
			kind = "int"
		case "{}":
			kind = "dict"
		case "[]":
			kind = "list"
		}
		g.sc.names[n] = &lbind{kind: kind}
		g.vars = append(g.vars[:len(g.vars):len(g.vars)], n)
		params = append(params, lparam{star, n})
		ptext = append(ptext, g.mIf(confusing(n), "confusing-name")+star+n+def)
	}
	if impl || g.P(40) {
		addParam("", "ctx", "")
	}
	for i, n := 0, g.N(3); i < n; i++ {
		addParam("", g.newName(), "")
	}
	for i, n := 0, g.N(2); i < n; i++ {
		addParam("", g.newName(), g.Pick(" = None", " = 3", " = {}", "=[]"))
	}
	if g.P(15) {
		addParam("*", g.newName(), "")
	}
	if g.P(15) {
		addParam("**", g.newName(), "")
	}
	hasDoc := g.P(50)
	nst := 1 + g.N(6)
	var b strings.Builder
	for i := 0; i < nst; i++ {
		b.WriteString(g.stmt("    ", 2))
	}
	stmts := g.stmts
	if hasDoc {
		stmts++
	}
	required := !strings.HasPrefix(name, "_") && stmts >= 5
	mark, doc := "", ""
	if required && !hasDoc {
		mark = g.m("function-docstring")
	}
	if hasDoc {
		start := ""
		header := g.P(70)
		first := g.P(20) // the text starts on the second line
		if first {
			doc += "\n    "
		}
		doc += "Does something."
		if !header {
			doc += "\n    And more."
			start += g.m("function-docstring-header")
		}
		sections := [][2]string{}
		documented := map[string]bool{}
		if g.P(60) {
			s := ""
			ndoc := 0
			for _, p := range params {
				if g.P(75) {
					full := p.star + p.name
					if p.star != "" && g.P(20) {
						full = p.name
						if !contains(params2(params), full) {
							s += "\n      " + g.m("function-docstring-args") + full + ": desc"
							documented[full] = true
							ndoc++
						}
						continue
					}
					if documented[full] {
						continue
					}
					s += "\n      " + full + g.Pick("", "", " (int)", " (list, string)") + ": desc"
					if g.P(20) {
						s += "\n        more: of it"
					}
					documented[full] = true
					ndoc++
				}
			}
			if g.P(20) {
				s += "\n      " + g.m("function-docstring-args") + "nosuch: desc"
				documented["nosuch"] = true
				ndoc++
			}
			if g.P(10) {
				s += "\n      just some text"
			}
			head := "Args:"
			if g.P(20) {
				head = g.m("function-docstring-args") + "Arguments:"
			}
			sections = append(sections, [2]string{head, s})
		}
		returns := g.P(50)
		if returns {
			sections = append(sections, [2]string{"Returns:", "\n      a value: or not"})
		}
		if g.P(10) {
			sections = append(sections, [2]string{"Deprecated:", "\n      use: something"})
		}
		for i := len(sections) - 1; i > 0; i-- {
			j := g.N(i + 1)
			sections[i], sections[j] = sections[j], sections[i]
		}
		for _, s := range sections {
			doc += "\n"
			if g.P(70) || strings.Count(doc, "\n") < 3 {
				doc += "\n"
			}
			doc += "    " + s[0] + s[1]
		}
		missing := false
		for _, p := range params {
			if !documented[p.star+p.name] {
				missing = true
			}
		}
		if missing && (required || len(documented) > 0) {
			start += g.m("function-docstring-args")
		}
		if required && g.ret && !returns {
			start += g.m("function-docstring-return")
		}
		if strings.Contains(doc, "\n") {
			doc += "\n    "
		}
		doc = "    " + start + `"""` + doc + `"""` + "\n"
	}
	g.sc, g.vars = sc, vars
	g.inDef, g.impl = false, false
	cm := g.mIf(confusing(name), "confusing-name")
	return mark + cm + "def " + name + "(" + g.join(ptext) + "):\n" + doc + b.String()
}

type lparam struct{ star, name string }

func params2(ps []lparam) (l []string) {
	for _, p := range ps {
		l = append(l, p.star+p.name)
	}
	return l
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// file writes a whole file.
func (g *lm) file() string {
	g.sc = &lscope{map[string]*lbind{}, nil}
	var loads []string
	used := map[string]bool{}
	pkgs := []string{"//a/internal:x.bzl", "//a/private/b:x.bzl", "//pkg/internal:x.bzl", "//pkg/private:x.bzl", "//a:internal.bzl", "//internal:x.bzl", "@r//a/internal:x.bzl", "@r//pkg/private:y.bzl", "//a/internals:x.bzl", "//other/pkg/private/z:x.bzl", ":x.bzl", "//pkg/sub/internal/z:a.bzl"}
	for i, n := 0, g.N(3); i < n; i++ {
		mod := pkgs[g.N(len(pkgs))]
		var syms []string
		for j, k := 0, 1+g.N(2); j < k; j++ {
			s := shadowable[g.N(len(shadowable))]
			if g.P(50) {
				g.n++
				s = fmt.Sprintf("s%d", g.n)
			}
			if !used[s] {
				used[s] = true
				g.sc.names[s] = &lbind{}
				syms = append(syms, `"`+s+`"`)
			}
		}
		if len(syms) == 0 {
			continue
		}
		loads = append(loads, "load("+g.mIf(hidden(mod), "bzl-visibility")+`"`+mod+`", `+strings.Join(syms, ", ")+")\n")
	}
	// functions and globals are visible everywhere in the file, but have no kind before their assignment
	var parts []string
	names := map[string]bool{}
	rulesSeen, pkgStop := false, false
	impls := 0
	build_ := g.typ == tBuild || g.typ == tWs
	for i, n := 0, 1+g.N(6); i < n; i++ {
		r := g.N(100)
		switch {
		case r < 25 && (g.typ != tBuild || g.P(30)):
			g.conf = true // at the top level a confusing name may be used once; keep it simple
			parts = append(parts, g.assign()+"\n")
			pkgStop = true
		case r < 60 && !build_:
			if g.P(25) {
				impls++
				name := fmt.Sprintf("_impl%d", impls)
				isRule := g.P(70)
				d := g.defNamed(name, isRule)
				call := "rule(implementation = " + name + g.comma() + "attrs = " + g.dict(1).s + ")"
				if g.P(30) {
					call = "rule(" + name + g.comma() + "attrs = " + g.dict(1).s + ")"
				}
				if !isRule {
					call = "my_rule(implementation = " + name + ")"
				}
				g.n++
				rn := fmt.Sprintf("r%d", g.n)
				decl := rn + " = " + call + "\n"
				g.bind(rn, "")
				if g.P(50) {
					parts = append(parts, d, decl)
				} else {
					parts = append(parts, decl, d)
				}
				pkgStop = true
				rulesSeen = true
			} else {
				parts = append(parts, g.def())
				rulesSeen = true
			}
		case build_ || g.P(30):
			// rules
			fn := g.Pick("my_rule", "my_rule", "other_rule", "exports_files", "licenses", "vardef", "register_toolchains", "package_group", "a.rule", "package", "print")
			var args []string
			first := true
			positional := g.P(20) || fn == "exports_files" && g.P(80)
			exempt := strings.Contains(fn, ".") || contains([]string{"exports_files", "licenses", "print", "register_toolchains", "vardef"}, fn)
			mark := ""
			if fn == "print" {
				mark = g.m("print")
			}
			if fn == "package" && g.typ != tWs && g.typ != tMod {
				if !pkgStop && rulesSeen {
					mark = g.m("package-on-top")
				}
			} else if fn == "package" || fn != "licenses" && fn != "package_group" {
				rulesSeen = true
			}
			posMark := func() string {
				if !exempt && first {
					first = false
					return g.m("positional-args")
				}
				return ""
			}
			if positional {
				pm := posMark()
				args = append(args, pm+g.e(1).s)
			}
			if g.P(60) {
				nm := g.Pick("n1", "n2", "n3", "n4")
				q := `"` + nm + `"`
				if g.P(15) {
					q = "u1"
				} else if names[nm] {
					q = g.m("duplicated-name") + q
				} else {
					names[nm] = true
				}
				args = append(args, "name = "+q)
			}
			args = append(args, g.someKw("deps", "srcs", "visibility")...)
			if g.P(5) {
				pm := posMark()
				args = append(args, g.m("build-args-kwargs")+pm+"**u1")
			}
			parts = append(parts, mark+fn+"("+g.join(args)+")\n")
		default:
			s := ""
			switch g.N(3) {
			case 0:
				s = "u1.run(" + g.plainArgs(3) + ")\n"
				rulesSeen = true
			case 1:
				// a rule in a comprehension
				s = "[my_rule(" + g.m("positional-args") + "p) for p in u1]\n"
				rulesSeen = true
			default:
				s = "[my_rule(name = p) for p in u1]\n"
				rulesSeen = true
			}
			parts = append(parts, s)
		}
	}
	out := ""
	if g.P(30) {
		out += "# A comment.\n\n"
	}
	if g.P(50) {
		out += `"""Docs."""` + "\n"
	} else {
		all := append(append([]string{}, loads...), parts...)
		if len(all) > 0 {
			out += g.m("module-docstring")
		}
	}
	return out + strings.Join(loads, "") + strings.Join(parts, "")
}

// hidden tells whether a module is private to other directories than //pkg.
func hidden(mod string) bool {
	if strings.HasPrefix(mod, "@") {
		mod = mod[strings.Index(mod, "//"):]
	}
	for i := range mod {
		for _, d := range []string{"/internal", "/private"} {
			if strings.HasPrefix(mod[i:], d) && i+len(d) < len(mod) && (mod[i+len(d)] == '/' || mod[i+len(d)] == ':') {
				return !strings.HasPrefix("//pkg", mod[:i]) || mod[:i] == "//pk"
			}
		}
	}
	return false
}

// unmark removes the marks and tells what they mean.
func unmark(s string) (text string, want []string) {
	var b strings.Builder
	line, col := 1, 1
	for i := 0; i < len(s); {
		if s[i] == 1 {
			j := i + strings.IndexByte(s[i:], 2)
			want = append(want, fmt.Sprintf("%s at %d:%d", s[i+1:j], line, col))
			i = j + 1
			continue
		}
		b.WriteByte(s[i])
		if s[i] == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
		i++
	}
	return b.String(), want
}

// TestC42_Findings: the findings are exactly the marked constructs.
func TestC42_Findings(t *testing.T) {
	vk.Check(t, "generated files of the 5 types, from constructs that lint checks document and similar ones that they don't, nested, with typed variables, shadowing and loads; non-trivial: at least 3 expected findings of at least 2 categories", 200000, 6000000, func(rt *rapid.T, c *vk.Case) {
		g := &lm{rt: rt, typ: []build.FileType{tBzl, tBuild, tBzl, tDef, tWs, tBuild, tMod}[gen.Int(rt, 7)]}
		text, want := unmark(g.file())
		c.Input(text)
		c.Part("type %v", g.typ)
		f, err := lintFile(text, g.typ)
		if err != nil {
			c.Fail("generator: %v", err)
		}
		var got []string
		seen := map[string]bool{}
		for _, w := range want {
			seen[w[:strings.IndexByte(w, ' ')]] = true
		}
		for _, x := range warn.FileWarnings(f, modelledCats, nil, warn.ModeWarn, reader(0)) {
			got = append(got, fmt.Sprintf("%s at %d:%d", x.Category, x.Start.Line, x.Start.LineRune))
		}
		sort.Strings(got)
		sort.Strings(want)
		c.Part("expected:\n%s", strings.Join(want, "\n"))
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("findings differ: %s", diffLists(want, got))
		}
		for s := range seen {
			c.Label(s)
		}
		c.NonTrivial(len(want) >= 3 && len(seen) >= 2)
	})
}

func diffLists(want, got []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, w := range got {
		n[w]--
	}
	var l []string
	for w, k := range n {
		if k > 0 {
			l = append(l, "missing "+w)
		} else if k < 0 {
			l = append(l, "unexpected "+w)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}
