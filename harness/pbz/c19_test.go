package pbz

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// amap is the reference model of a rule: its attributes as canonical values.
type amap struct {
	vals map[string]*astx.N
}

// canonN makes a value comparable: labels in one spelling (if short), lists of
// strings as sorted sets.
func canonN(n *astx.N, short bool) *astx.N {
	n = n.Copy()
	n.Each(func(m *astx.N) {
		m.Line, m.Col, m.T, m.Tok, m.P, m.PM = 0, 0, false, "", false, false
		if m.K == "str" && short {
			m.V = norm(m.V, pkg)
		}
	})
	n.Each(func(m *astx.N) {
		if m.K != "list" {
			return
		}
		var strs, r []*astx.N
		for _, x := range m.C {
			strs = append(strs, x)
		}
		sort.SliceStable(strs, func(i, j int) bool { return strs[i].String() < strs[j].String() })
		for i, x := range strs {
			if i == 0 || x.String() != strs[i-1].String() {
				r = append(r, x)
			}
		}
		m.C = r
	})
	return n
}

func modelOf(r *rule) *amap {
	m := &amap{map[string]*astx.N{}}
	for _, a := range r.attrs {
		if _, ok := m.vals[a.name]; !ok {
			m.vals[a.name] = astx.FromAST(a.def.RHS)
		}
	}
	return m
}

func (m *amap) show(short bool) string {
	var b strings.Builder
	for _, k := range sortedKeys(m.vals) {
		fmt.Fprintf(&b, "%s = %s\n", k, canonN(m.vals[k], short))
	}
	return b.String()
}

func str(v string) *astx.N { return &astx.N{K: "str", V: v} }

func listN(vs ...string) *astx.N {
	n := &astx.N{K: "list"}
	for _, v := range vs {
		n.C = append(n.C, str(v))
	}
	return n
}

// rawN is the value of an attribute of no known type.
func rawN(c *vk.Case, s string) *astx.N {
	e, err := build.ParseBuild("x", []byte("_ = "+s))
	if err != nil {
		c.Fail("harness: bad value %q", s)
	}
	return astx.FromAST(e.Stmt[0].(*build.AssignExpr).RHS)
}

// attribute types used with set
var setTypes = map[string]string{
	"deps": "list", "srcs": "list", "tags": "list", "copts": "list", "visibility": "list", "data": "list",
	"runtime_deps": "list", "exports": "list", "hdrs": "list", "args": "list", "licenses": "list",
	"main": "str", "size": "str", "cmd": "str", "toolchain": "str",
	"testonly": "raw", "shard_count": "raw", "new_attr": "raw", "my_attr": "raw", "my_dict": "raw", "my_bool": "raw",
}

func (m *amap) typed(c *vk.Case, attr string, vals []string) *astx.N {
	switch setTypes[attr] {
	case "list":
		return listN(vals...)
	case "str":
		if len(vals) == 0 {
			return rawN(c, "None")
		}
		return str(vals[0])
	}
	if len(vals) == 0 {
		return rawN(c, "None")
	}
	return rawN(c, vals[0])
}

func dictGet(d *astx.N, key string) *astx.N {
	for _, kv := range d.C {
		if kv.C[0].K == "str" && kv.C[0].V == key {
			return kv
		}
	}
	return nil
}

const (
	okStep    = 0
	mustFail  = 1
	mayFail   = 2
	undefined = 3
)

// apply applies the command to the model.
func (m *amap) apply(c *vk.Case, k cmd, others map[string]*amap) int {
	a := ""
	if len(k) > 1 {
		a = k[1]
	}
	cur := m.vals[a]
	isDict := cur != nil && cur.K == "dict"
	dict := func() *astx.N {
		if isDict {
			return cur.Copy()
		}
		return &astx.N{K: "dict"}
	}
	split := func(s string) (string, string) {
		x, y, _ := strings.Cut(s, ":")
		return x, y
	}
	switch k[0] {
	case "set":
		m.vals[a] = m.typed(c, a, k[2:])
	case "set_if_absent":
		if cur == nil {
			m.vals[a] = m.typed(c, a, k[2:])
		}
	case "rename":
		if cur == nil || m.vals[k[2]] != nil {
			return mustFail
		}
		m.vals[k[2]] = cur
		delete(m.vals, a)
	case "remove":
		if a == "*" {
			for x := range m.vals {
				if x != "name" {
					delete(m.vals, x)
				}
			}
			break
		}
		delete(m.vals, a)
	case "remove_if_equal":
		if cur == nil {
			break
		}
		if cur.K == "str" && norm(cur.V, pkg) == norm(k[2], pkg) || cur.K == "id" && cur.V == k[2] {
			delete(m.vals, a)
		}
	case "copy", "copy_no_overwrite":
		if k[0] == "copy_no_overwrite" && cur != nil {
			break
		}
		o := others[k[2]]
		if o == nil || o.vals[a] == nil {
			return mustFail
		}
		m.vals[a] = o.vals[a].Copy()
	case "dict_add", "dict_set":
		if cur != nil && !isDict {
			return undefined
		}
		d := dict()
		for _, x := range k[2:] {
			if !strings.Contains(x, ":") {
				return mustFail
			}
			key, v := split(x)
			if kv := dictGet(d, key); kv != nil {
				if k[0] == "dict_set" {
					kv.C[1] = str(v)
				}
				continue
			}
			d.C = append(d.C, &astx.N{K: "kv", C: []*astx.N{str(key), str(v)}})
		}
		m.vals[a] = d
	case "dict_remove":
		if !isDict {
			break
		}
		if len(cur.C) == 0 {
			return undefined
		}
		d := dict()
		var rest []*astx.N
		for _, kv := range d.C {
			if kv.C[0].K == "str" && contains(k[2:], kv.C[0].V) {
				continue
			}
			rest = append(rest, kv)
		}
		d.C = rest
		m.vals[a] = d
		if len(rest) == 0 {
			delete(m.vals, a)
		}
	case "dict_replace_if_equal":
		if !isDict {
			break
		}
		d := dict()
		kv := dictGet(d, k[2])
		if kv == nil {
			return mayFail
		}
		v := kv.C[1]
		if v.K == "str" && norm(v.V, pkg) == norm(k[3], pkg) || v.K == "id" && v.V == k[3] {
			kv.C[1] = str(k[4])
		}
		m.vals[a] = d
	case "dict_list_add":
		if cur != nil && !isDict {
			return undefined
		}
		d := dict()
		kv := dictGet(d, k[2])
		if kv == nil {
			kv = &astx.N{K: "kv", C: []*astx.N{str(k[2]), listN()}}
			d.C = append(d.C, kv)
		}
		if kv.C[1].K != "list" {
			return undefined
		}
		for _, x := range k[3:] {
			found := false
			for _, y := range kv.C[1].C {
				if y.K == "str" && norm(y.V, pkg) == norm(x, pkg) {
					found = true
				}
			}
			if !found {
				for _, y := range kv.C[1].C {
					if y.K != "str" {
						return undefined // the place among other elements is free
					}
				}
				kv.C[1].C = append(kv.C[1].C, str(x))
			}
		}
		m.vals[a] = d
	case "set_select":
		if len(k)%2 != 0 {
			return mustFail
		}
		d := &astx.N{K: "dict"}
		for i := 2; i < len(k); i += 2 {
			kv := dictGet(d, k[i])
			if kv == nil {
				kv = &astx.N{K: "kv", C: []*astx.N{str(k[i]), nil}}
				d.C = append(d.C, kv)
			}
			if setTypes[a] == "list" {
				if kv.C[1] == nil {
					kv.C[1] = listN()
				}
				kv.C[1].C = append(kv.C[1].C, str(k[i+1]))
			} else {
				kv.C[1] = str(k[i+1])
			}
		}
		sel := rawN(c, "select({})")
		sel.C[1].C[0] = d
		m.vals[a] = sel
	}
	return okStep
}

func drawMapCmd(rt *rapid.T, names, attrs []string) cmd {
	var all []string
	for _, a := range sortedKeys(setTypes) {
		all = append(all, a)
	}
	all = append(all, attrs...)
	all = append(all, attrs...)
	a := all[gen.Int(rt, len(all))]
	val := func(a string) []string {
		switch setTypes[a] {
		case "list":
			var r []string
			for n := gen.Int(rt, 4); n > 0; n-- {
				r = append(r, drawLabel(rt))
			}
			return r
		case "str":
			if gen.Pct(rt, 5) {
				return nil
			}
			return []string{gen.Pick(rt, "small", "//c:d", ":x", "a b", "x.py", "//a/b:x", "large")}
		}
		if gen.Pct(rt, 5) {
			return nil
		}
		return []string{gen.Pick(rt, "True", "False", "3", "VAR_A", `"text"`, `"//c:d"`, `["a"]`, `{"k1":"v"}`, "f(1)", `glob(["*"])`, "x.y", "None")}
	}
	settable := func() string {
		if _, ok := setTypes[a]; ok {
			return a
		}
		return sortedKeys(setTypes)[gen.Int(rt, len(setTypes))]
	}
	key := func() string { return gen.Pick(rt, "k1", "k2", "K3", "x/y", "k 5", "newkey", "//c:d") }
	dattr := func() string {
		var ds []string
		for _, x := range attrs {
			if strings.Contains(x, "dict") || x == "env" || x == "substitutions" {
				ds = append(ds, x, x)
			}
		}
		ds = append(ds, "my_dict", "env", "fresh_dict")
		return ds[gen.Int(rt, len(ds))]
	}
	kv := func() string {
		k := key()
		for strings.Contains(k, ":") {
			k = key()
		}
		return k + ":" + gen.Pick(rt, "v", "//c:d", "w:z", ":x", "a b", "")
	}
	switch gen.Int(rt, 16) {
	case 0, 1:
		s := settable()
		return append(cmd{"set", s}, val(s)...)
	case 2:
		s := settable()
		return append(cmd{"set_if_absent", s}, val(s)...)
	case 3, 4:
		b := all[gen.Int(rt, len(all))]
		return cmd{"rename", a, b}
	case 5:
		if gen.Pct(rt, 15) {
			a = "*"
		}
		return cmd{"remove", a}
	case 6:
		if gen.Pct(rt, 50) && len(attrs) > 0 {
			a = gen.Pick(rt, "testonly", "main", "my_label", "my_attr", "size", "toolchain", "my_bool", "deps")
		}
		return cmd{"remove_if_equal", a, gen.Pick(rt, "True", "FLAG", "small", "//c:d", ":x", "x", "//a/b:x", "VAR_A", "1", "//c", "3")}
	case 7, 8:
		return cmd{"copy", a, names[gen.Int(rt, len(names))]}
	case 9:
		return cmd{"copy_no_overwrite", a, names[gen.Int(rt, len(names))]}
	case 10:
		return cmd{"dict_add", dattr(), kv(), kv()}
	case 11:
		k := cmd{"dict_set", dattr(), kv(), kv()}
		if gen.Pct(rt, 10) {
			k[3] = "nocolon"
		}
		return k
	case 12:
		return cmd{"dict_remove", dattr(), key(), key()}
	case 13:
		return cmd{"dict_replace_if_equal", dattr(), key(), gen.Pick(rt, append([]string{"True", "VAR_A"}, targets[gen.Int(rt, len(targets))]...)...), gen.Pick(rt, "new", "//c:d", ":x")}
	case 14:
		return cmd{"dict_list_add", dattr(), key(), gen.Pick(rt, "//c:d", ":x", "p"), gen.Pick(rt, "q", "x", "//c")}
	default:
		k := cmd{"set_select", a}
		for n := 1 + gen.Int(rt, 3); n > 0; n-- {
			k = append(k, gen.Pick(rt, "//conf:a", "//conf:b", "//conditions:default"), gen.Pick(rt, "p", "//c:d", ":x"))
		}
		if gen.Pct(rt, 8) {
			k = k[:len(k)-1]
			if len(k) < 3 {
				k = append(k, "//conf:z")
			}
		}
		return k
	}
}

func TestC19_MapModel(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated BUILD files x sequences of 1..4 of set, set_if_absent, rename, copy, copy_no_overwrite, remove, remove_if_equal, dict_add, dict_set, dict_remove, dict_replace_if_equal, dict_list_add, set_select on a rule, one by one and together; the attributes are compared with a key-value model after each command. Non-trivial: the attributes changed", 40000, 1000000, func(rt *rapid.T, c *vk.Case) {
		text, names := buildFile(rt, func(g *bg) { g.parens = true })
		if gen.Pct(rt, 20) { // values spread over lines
			text = strings.Replace(text, `"x" + "y"`, gen.Pick(rt, "(\"x\" +\n     \"y\")", "\"x\" +\n        \"y\"", "\"x\" + f(1) +\n # note\n        \"y\"", "\"x\" if y else\n  z"), 1)
		}
		f0, err := build.Parse("a/b/BUILD", []byte(text))
		if err != nil {
			c.Fail("generator: %v\n%s", err, text)
		}
		var attrs []string
		for _, r := range rulesOf(f0) {
			if contains(names, r.name) {
				for _, a := range r.keys() {
					if a != "name" {
						attrs = append(attrs, a)
					}
				}
			}
		}
		tn := names[gen.Int(rt, len(names))]
		fl := flags{noShorten: gen.Pct(rt, 20)}
		var ks []cmd
		var lines []string
		for n := 1 + gen.Int(rt, 4); n > 0; n-- {
			k := drawMapCmd(rt, names, attrs)
			ks = append(ks, k)
			lines = append(lines, k.line())
		}
		c.Input(text)
		c.Part("buildozer %s %q //a/b:%s", fl, lines, tn)
		w.put("a/b/BUILD", text)
		cur := text
		clean := true
		models := func(text string) map[string]*amap {
			ms := map[string]*amap{}
			for _, r := range rulesOf(parseBuild(c, w.path("a/b/BUILD"), text)) {
				if r.name != "" && ms[r.name] == nil {
					ms[r.name] = modelOf(r)
				}
			}
			return ms
		}
		for i, k := range ks {
			ms := models(cur)
			m := ms[tn]
			if m == nil {
				c.Fail("rule %s is gone:\n%s", tn, cur)
			}
			before := m.show(!fl.noShorten)
			st := m.apply(c, k, ms)
			if _, ok := m.vals["name"]; !ok || k[1] == "name" {
				return
			}
			res := w.run(fl, lines[i], "//a/b:"+tn)
			now := w.get("a/b/BUILD")
			c.Label(k[0])
			if res.rc == 2 && now != cur {
				c.Fail("%s failed (%s) but changed the file", lines[i], res.err)
			}
			switch {
			case st == mustFail:
				c.Label("must fail")
				clean = false
				if res.rc != 2 {
					c.Fail("%s should fail: exit %d\n%s", lines[i], res.rc, now)
				}
				continue
			case st == undefined:
				c.Label("undefined")
				clean = false
				cur = now
				continue
			case st == mayFail && res.rc == 2:
				clean = false
				continue
			}
			if res.rc != 0 && res.rc != 3 {
				c.Fail("%s: exit %d, stderr %q\n%s", lines[i], res.rc, res.err, now)
			}
			got := models(now)[tn]
			if got == nil {
				c.Fail("%s: rule %s is gone:\n%s", lines[i], tn, now)
			}
			want := m.show(!fl.noShorten)
			if g := got.show(!fl.noShorten); g != want {
				c.Fail("%s on %s:\n--- attributes\n%s--- model\n%s--- file\n%s", lines[i], tn, g, want, now)
			}
			c.Evals(1)
			if want != before {
				c.NonTrivial(true)
				c.Label("changed by " + k[0])
			}
			cur = now
		}
		if !clean || len(ks) < 2 {
			return
		}
		want := models(cur)[tn].show(!fl.noShorten)
		w.put("a/b/BUILD", text)
		res := w.run(fl, append(append([]string{}, lines...), "//a/b:"+tn)...)
		if res.rc != 0 && res.rc != 3 {
			c.Fail("together: exit %d, stderr %q", res.rc, res.err)
		}
		now := w.get("a/b/BUILD")
		ms := models(now)
		if ms[tn] == nil {
			c.Fail("together: rule is gone\n%s", now)
		}
		if g := ms[tn].show(!fl.noShorten); g != want {
			c.Fail("together:\n--- attributes\n%s--- one by one\n%s--- file\n%s", g, want, now)
		}
		c.Label("sequence")
	})
}
