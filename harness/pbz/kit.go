// Package pbz checks buildozer: commands are run in-process (edit.Buildozer) or
// through the command line tool on scratch workspaces, and the outcome is compared
// with reference models working on parsed copies of the files.
package pbz

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// ws is a scratch workspace.
type ws struct{ dir string }

func newWS(t *testing.T) *ws {
	d := vk.Scratch(t)
	if err := os.WriteFile(filepath.Join(d, "MODULE.bazel"), nil, 0o644); err != nil {
		t.Fatal(err)
	}
	rootName = filepath.Base(d)
	return &ws{d}
}

func (w *ws) path(rel string) string { return filepath.Join(w.dir, rel) }

func (w *ws) put(rel, text string) {
	p := w.path(rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

func (w *ws) get(rel string) string {
	b, err := os.ReadFile(w.path(rel))
	if err != nil {
		return "<unreadable>"
	}
	return string(b)
}

// flags are the options of a run.
type flags struct {
	noShorten, keepComments, editVars, keepGoing, stdout, noEOL, json, proto bool
	types                                                                    []string
	files                                                                    []string
	numIO                                                                    int
}

func (f flags) String() string {
	var r []string
	add := func(b bool, s string) {
		if b {
			r = append(r, s)
		}
	}
	add(f.noShorten, "-shorten_labels=false")
	add(f.keepComments, "-delete_with_comments=false")
	add(f.editVars, "-edit-variables")
	add(f.keepGoing, "-k")
	add(f.stdout, "-stdout")
	add(f.noEOL, "-eol-comments=false")
	add(f.json, "-output_json")
	add(f.proto, "-output_proto")
	if len(f.types) > 0 {
		r = append(r, "-types="+strings.Join(f.types, ","))
	}
	if f.numIO > 0 {
		r = append(r, fmt.Sprintf("-numio=%d", f.numIO))
	}
	for _, x := range f.files {
		r = append(r, "-f", x)
	}
	return strings.Join(r, " ")
}

type result struct {
	rc       int
	out, err string
}

// buffer is a bytes.Buffer for several writers at once, as a file is.
type buffer struct {
	mu sync.Mutex
	bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.Buffer.Write(p)
}

func (w *ws) run(f flags, args ...string) result {
	var out, errb buffer
	opts := edit.NewOpts()
	opts.NumIO = 2
	if f.numIO > 0 {
		opts.NumIO = f.numIO
	}
	opts.RootDir = w.dir
	opts.OutWriter, opts.ErrWriter = &out, &errb
	opts.EditVariables, opts.KeepGoing, opts.Stdout = f.editVars, f.keepGoing, f.stdout
	opts.PreferEOLComments = !f.noEOL
	opts.IsPrintingJSON, opts.IsPrintingProto = f.json, f.proto
	opts.FilterRuleTypes = f.types
	opts.CommandsFiles = f.files
	edit.ShortenLabelsFlag = !f.noShorten
	edit.DeleteWithComments = !f.keepComments
	if f.noShorten {
		build.DisableRewrites = []string{"label"}
	}
	defer func() {
		edit.ShortenLabelsFlag, edit.DeleteWithComments = true, true
		build.DisableRewrites = nil
	}()
	for _, a := range args { // buildozer would end this process
		if ws := edit.SplitOnSpaces(a); len(ws) > 0 {
			if ci, ok := edit.AllCommands[ws[0]]; ok && (len(ws)-1 < ci.MinArg || ci.MaxArg >= 0 && len(ws)-1 > ci.MaxArg) {
				panic("harness: bad number of arguments: " + a)
			}
		}
	}
	rc := edit.Buildozer(opts, args)
	return result{rc, out.String(), errb.String()}
}

// esc escapes a command argument.
func esc(s string) string { return strings.ReplaceAll(s, " ", `\ `) }

// cmdline joins command words.
func cmdline(words ...string) string {
	for i := range words {
		words[i] = esc(words[i])
	}
	return strings.Join(words, " ")
}

func parseBuild(c *vk.Case, path, text string) *build.File {
	f, err := build.Parse(path, []byte(text))
	if err != nil {
		c.Fail("not a valid file: %v\n%s", err, text)
	}
	return f
}

// plain is what plain formatting of the file gives.
func plain(c *vk.Case, path, text string) string {
	f := parseBuild(c, path, text)
	return string(build.Format(f))
}

// ---- rules of a parsed file, without using the repository's accessors

type attr struct {
	name string
	def  *build.AssignExpr
}

type rule struct {
	idx   int // statement index
	call  *build.CallExpr
	kind  string
	name  string // explicit name
	attrs []attr
}

func (r *rule) attr(name string) build.Expr {
	if r == nil {
		return nil
	}
	for _, a := range r.attrs {
		if a.name == name {
			return a.def.RHS
		}
	}
	return nil
}

func (r *rule) keys() (k []string) {
	for _, a := range r.attrs {
		k = append(k, a.name)
	}
	return
}

func kindOf(e build.Expr) string {
	switch e := e.(type) {
	case *build.Ident:
		return e.Name
	case *build.DotExpr:
		if k := kindOf(e.X); k != "" {
			return k + "." + e.Name
		}
	case *build.ParenExpr:
		return ""
	}
	return ""
}

func ruleOf(i int, e build.Expr) *rule {
	call, ok := e.(*build.CallExpr)
	if !ok {
		return nil
	}
	r := &rule{idx: i, call: call, kind: kindOf(call.X)}
	for _, x := range call.List {
		as, ok := x.(*build.AssignExpr)
		if !ok {
			continue
		}
		id, ok := as.LHS.(*build.Ident)
		if !ok {
			continue
		}
		r.attrs = append(r.attrs, attr{id.Name, as})
		if s, ok := as.RHS.(*build.StringExpr); ok && id.Name == "name" && r.name == "" {
			r.name = s.Value
		}
	}
	return r
}

// rulesOf lists the top-level calls.
func rulesOf(f *build.File) (rs []*rule) {
	for i, s := range f.Stmt {
		if r := ruleOf(i, s); r != nil {
			rs = append(rs, r)
		}
	}
	return
}

func named(f *build.File, name string) *rule {
	for _, r := range rulesOf(f) {
		if r.name == name {
			return r
		}
	}
	return nil
}

// ---- labels

// norm is the canonical form of a label or other string seen from package pkg.
func norm(s, pkg string) string {
	repo, rest := "", s
	if strings.HasPrefix(s, "@") {
		i := strings.Index(s, "//")
		if i < 0 { // @repo
			repo = strings.TrimLeft(s, "@")
			return "@" + repo + "//:" + repo
		}
		repo = strings.TrimLeft(s[:i], "@")
		rest = s[i:]
	}
	if !strings.HasPrefix(rest, "//") {
		return "//" + pkg + ":" + strings.TrimPrefix(s, ":")
	}
	rest = rest[2:]
	p, t, ok := strings.Cut(rest, ":")
	if !ok {
		t = p[strings.LastIndexByte(p, '/')+1:]
		if p == "" {
			t = repo
		}
	}
	r := ""
	if repo != "" {
		r = "@" + repo
	}
	return r + "//" + p + ":" + t
}

// dump with labels canonicalised: formatting may shorten labels and sort lists.
func dumpNorm(e build.Expr, pkg string) string {
	return astx.Dump(e, astx.Opt{String: func(v string) string { return norm(v, pkg) }})
}

// ---- configurable values

// item is one element of a list value in one configuration.
type item struct {
	raw     string // string elements
	expr    string // other elements: dump
	comment bool   // has a comment of its own
}

func (it item) key(pkg string) string {
	if it.expr != "" {
		return "expr " + it.expr
	}
	return norm(it.raw, pkg)
}

const defaultKey = "//conditions:default"

// selects lists the dictionaries of the selects concatenated in e.
func selects(e build.Expr) (ds []*build.DictExpr) {
	switch e := e.(type) {
	case *build.ParenExpr:
		return selects(e.X)
	case *build.BinaryExpr:
		if e.Op == "+" {
			return append(selects(e.X), selects(e.Y)...)
		}
	case *build.CallExpr:
		if id, ok := e.X.(*build.Ident); ok && id.Name == "select" && len(e.List) > 0 {
			if d, ok := e.List[0].(*build.DictExpr); ok {
				return []*build.DictExpr{d}
			}
		}
	}
	return nil
}

func branchKey(kv *build.KeyValueExpr, pkg string) string {
	s, ok := kv.Key.(*build.StringExpr)
	if !ok {
		return ""
	}
	return norm(s.Value, pkg)
}

// configs lists the configurations (sets of true condition labels) to try for the
// values; in each one every select of e has at most one true condition and at
// least a default otherwise.
func configs(pkg string, es ...build.Expr) (cs []map[string]bool) {
	keys := map[string]bool{}
	var ds []*build.DictExpr
	for _, e := range es {
		if e == nil {
			continue
		}
		ds = append(ds, selects(e)...)
	}
	for _, d := range ds {
		for _, kv := range d.List {
			if k := branchKey(kv, pkg); k != norm(defaultKey, pkg) {
				keys[k] = true
			}
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for m := 0; m < 1<<len(ks); m++ {
		c := map[string]bool{}
		for i, k := range ks {
			if m&(1<<i) != 0 {
				c[k] = true
			}
		}
		ok := true
		for _, d := range ds {
			n, def := 0, false
			for _, kv := range d.List {
				k := branchKey(kv, pkg)
				if c[k] {
					n++
				}
				if k == norm(defaultKey, pkg) {
					def = true
				}
			}
			if n > 1 || n == 0 && !def {
				ok = false
			}
		}
		if ok {
			cs = append(cs, c)
		}
	}
	return cs
}

// eval returns the elements of the value under configuration c; parts that are not
// list literals (variables, globs, ...) become one opaque element each. Returns
// ok=false if a select does not match.
func eval(e build.Expr, c map[string]bool, pkg string) (its []item, ok bool) {
	switch e := e.(type) {
	case nil:
		return nil, true
	case *build.ParenExpr:
		return eval(e.X, c, pkg)
	case *build.ListExpr:
		for _, x := range e.List {
			if s, ok := x.(*build.StringExpr); ok {
				its = append(its, item{raw: s.Value, comment: len(s.Before)+len(s.Suffix) > 0})
			} else {
				its = append(its, item{expr: "elem " + dumpNorm(x, pkg)})
			}
		}
		return its, true
	case *build.BinaryExpr:
		if e.Op == "+" {
			a, ok1 := eval(e.X, c, pkg)
			b, ok2 := eval(e.Y, c, pkg)
			return append(append(its, a...), b...), ok1 && ok2
		}
	case *build.CallExpr:
		if ds := selects(e); len(ds) == 1 {
			var def build.Expr
			for _, kv := range ds[0].List {
				k := branchKey(kv, pkg)
				if c[k] {
					return eval(kv.Value, c, pkg)
				}
				if k == norm(defaultKey, pkg) {
					def = kv.Value
				}
			}
			if def != nil {
				return eval(def, c, pkg)
			}
			return nil, false
		}
	}
	return []item{{expr: "value " + dumpNorm(e, pkg)}}, true
}

// counts of the canonical elements.
func counts(its []item, pkg string) map[string]int {
	m := map[string]int{}
	for _, it := range its {
		m[it.key(pkg)]++
	}
	return m
}

func sortedKeys[V any](m map[string]V) (k []string) {
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return
}

func cfgString(c map[string]bool) string { return strings.Join(sortedKeys(c), "+") }

// valueString shows a value under every configuration (order-insensitive).
func valueString(e build.Expr, cs []map[string]bool, pkg string) string {
	var b strings.Builder
	for _, c := range cs {
		its, ok := eval(e, c, pkg)
		if !ok {
			b.WriteString(cfgString(c) + ": no match; ")
			continue
		}
		fmt.Fprintf(&b, "%s: %s; ", cfgString(c), strings.Join(sortedKeys(counts(its, pkg)), " "))
	}
	return b.String()
}

var _ = rapid.Check
var _ = gen.Pick

func removeFile(p string) { os.Remove(p) }
