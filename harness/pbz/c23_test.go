package pbz

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"

	apipb "github.com/bazelbuild/buildtools/api_proto"
	"github.com/bazelbuild/buildtools/build"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

func fromProto(c *vk.Case, s string) (o output) {
	var m apipb.Output
	if err := proto.Unmarshal([]byte(s), &m); err != nil {
		c.Fail("output is not a protobuf: %v", err)
	}
	for _, r := range m.Records {
		var fs []field
		for _, f := range r.Fields {
			x := field{Quote: f.QuoteWhenPrinting}
			switch v := f.Value.(type) {
			case *apipb.Output_Record_Field_Text:
				x.Text = &v.Text
			case *apipb.Output_Record_Field_Number:
				n := int(v.Number)
				x.Number = &n
			case *apipb.Output_Record_Field_Error:
				e := v.Error.String()
				x.Error = &e
			case *apipb.Output_Record_Field_List:
				x.List = &struct {
					Strings []string `json:"strings"`
				}{v.List.Strings}
			}
			fs = append(fs, x)
		}
		o.Records = append(o.Records, struct {
			Fields []field `json:"fields"`
		}{fs})
	}
	return
}

// textLine is a record in the text output.
func textLine(fs []field) string {
	var r []string
	for _, f := range fs {
		switch {
		case f.Text != nil && f.Quote && strings.Contains(*f.Text, " "):
			r = append(r, fmt.Sprintf("%q", *f.Text))
		case f.Text != nil:
			r = append(r, *f.Text)
		case f.Number != nil:
			r = append(r, fmt.Sprint(*f.Number))
		case f.Error != nil && *f.Error == "MISSING":
			r = append(r, "(missing)")
		case f.Error != nil && *f.Error == "UNKNOWN":
			r = append(r, "(unknown)")
		case f.Error != nil:
			r = append(r, "")
		case f.List != nil:
			r = append(r, "["+strings.Join(f.List.Strings, " ")+"]")
		default:
			r = append(r, "")
		}
	}
	return strings.Join(r, " ")
}

func TestC23_Print(t *testing.T) {
	w := newWS(t)
	vk.Check(t, "generated BUILD files x print of random attributes (present, absent, special) of one rule, a kind or all rules, in text, JSON and protobuf; each field is compared with the value in the file (expressions by parsing the printed text), the three outputs with each other. Non-trivial: at least one present attribute printed", 50000, 600000, func(rt *rapid.T, c *vk.Case) {
		dir := gen.Pick(rt, "a/b", "", "a")
		text := richFile(rt, dir)
		for _, d := range []string{"a/b", "", "a"} {
			removeFile(w.path(path.Join(d, "BUILD")))
		}
		rel := path.Join(dir, "BUILD")
		p := w.path(rel)
		f := parseBuild(c, p, text)
		all := callsOf(f, dir)
		if len(all) == 0 {
			c.Skip("no rules")
		}
		x := all[gen.Int(rt, len(all))]
		what := gen.Pick(rt, "*", "%"+x.kind)
		if x.top >= 0 && x.name != "" && gen.Pct(rt, 60) {
			what = x.name
		}
		sel, ok := selectRules(f, dir, what)
		if !ok {
			c.Skip("not found")
		}
		var keys []string
		for _, y := range sel {
			for _, a := range ruleOf(0, y.call).attrs {
				keys = append(keys, a.name)
			}
		}
		var fields []string
		for n := gen.Int(rt, 5); n > 0; n-- {
			if len(keys) > 0 && gen.Pct(rt, 60) {
				fields = append(fields, keys[gen.Int(rt, len(keys))])
			} else {
				fields = append(fields, gen.Pick(rt, "name", "kind", "label", "rule", "startline", "endline", "path", "attrs", "deps", "missing_attr"))
			}
		}
		k := cmd(append([]string{"print"}, fields...))
		target := "//" + dir + ":" + what
		twice := gen.Pct(rt, 15)
		c.Input(text)
		c.Part("%s: buildozer %q %s", rel, k.line(), target)
		w.put(rel, text)
		args := []string{k.line(), target}
		if twice {
			args = []string{k.line(), "print name", target}
		}
		js := w.run(flags{json: true}, args...)
		tx := w.run(flags{}, args...)
		pb := w.run(flags{proto: true}, args...)
		if w.get(rel) != text {
			c.Fail("print changed the file:\n%s", w.get(rel))
		}
		for _, r := range []result{js, tx, pb} {
			if r.rc != 0 {
				c.Fail("exit %d: %s", r.rc, r.err)
			}
		}
		o := decode(c, js.out)
		if a, b := fmt.Sprint(o), fmt.Sprint(fromProto(c, pb.out)); strs(o) != strs(fromProto(c, pb.out)) {
			c.Fail("JSON %s, protobuf %s", a, b)
		}
		var lines []string
		for _, r := range o.Records {
			lines = append(lines, textLine(r.Fields)+"\n")
		}
		if strings.Join(lines, "") != tx.out {
			c.Fail("text output %q, expected from JSON %q", tx.out, lines)
		}
		if len(fields) == 0 {
			fields = []string{"name", "kind"}
		}
		ri := 0
		warned := 0
		expect := func(sel []callAt, fields []string) {
			for _, y := range sel {
				r := ruleOf(0, y.call)
				if contains(fields, "label") && y.name == "" {
					for _, fl := range fields { // warnings come up to the label
						if fl == "label" {
							break
						}
						if !special(fl) && r.attr(fl) == nil {
							warned++
						}
					}
					continue
				}
				if ri >= len(o.Records) {
					c.Fail("only %d records for %d rules", len(o.Records), len(sel))
				}
				rec := o.Records[ri].Fields
				ri++
				if len(rec) != len(fields) {
					c.Fail("%d fields instead of %d", len(rec), len(fields))
				}
				for i, name := range fields {
					got := rec[i].String()
					want := ""
					switch name {
					case "name":
						want = "text " + y.name
					case "kind":
						want = "text " + y.kind
					case "label":
						want = "text //" + dir + ":" + y.name
						if dir != "" && y.name == path.Base(dir) {
							want = "text //" + dir
						}
					case "startline":
						want = fmt.Sprintf("number %d", y.call.ListStart.Line)
					case "endline":
						want = fmt.Sprintf("number %d", y.call.End.Pos.Line)
					case "path":
						want = "text " + p
					case "attrs":
						want = fmt.Sprintf("list %q", r.keys())
					case "rule":
						if rec[i].Text == nil {
							c.Fail("rule is printed as %s", got)
						}
						g, err := build.ParseBuild(p, []byte(*rec[i].Text))
						if err != nil || len(g.Stmt) != 1 || astx.FromAST(g.Stmt[0]).String() != astx.FromAST(y.call).String() {
							c.Fail("rule is printed as\n%s", *rec[i].Text)
						}
						if a, b := astx.AllComments(g), astx.AllComments(y.call); strings.Join(trimAll(a), "\n") != strings.Join(trimAll(b), "\n") {
							c.Fail("rule is printed with comments %q instead of %q:\n%s", a, b, *rec[i].Text)
						}
						continue
					default:
						v := r.attr(name)
						switch v := v.(type) {
						case nil:
							want = "error MISSING"
							warned++
						case *build.LiteralExpr:
							want = "text " + v.Token
						case *build.Ident:
							want = "text " + v.Name
						case *build.StringExpr:
							want = "text " + v.Value
						default:
							c.NonTrivial(true)
							if l, ok := v.(*build.ListExpr); ok {
								ss := []string{}
								for _, e := range l.List {
									if s, ok := e.(*build.StringExpr); ok {
										ss = append(ss, s.Value)
									}
								}
								if len(ss) == len(l.List) {
									want = fmt.Sprintf("list %q", ss)
									break
								}
							}
							if rec[i].Text == nil {
								c.Fail("%s is printed as %s", name, got)
							}
							g, err := build.ParseBuild(p, []byte("x = ("+*rec[i].Text+"\n)\n"))
							if err != nil || len(g.Stmt) != 1 || astx.Dump(g.Stmt[0].(*build.AssignExpr).RHS, astx.Opt{}) != astx.Dump(v, astx.Opt{}) {
								c.Fail("%s is printed as\n%s\n%v", name, *rec[i].Text, err)
							}
							continue
						}
						if v != nil {
							c.NonTrivial(true)
						}
					}
					if got != want {
						c.Fail("%s of %s %q: printed %q, expected %q", name, y.kind, y.name, got, want)
					}
					c.Evals(1)
				}
			}
		}
		expect(sel, fields)
		if twice {
			expect(sel, []string{"name"})
		}
		if ri != len(o.Records) {
			c.Fail("%d records, expected %d", len(o.Records), ri)
		}
		if n := strings.Count(tx.err, "has no attribute"); n != warned {
			c.Fail("%d warnings about missing attributes, expected %d: %s", n, warned, tx.err)
		}
		c.LabelIf(warned > 0, "missing attribute")
		c.LabelIf(len(sel) > 1, "several rules")
	})
}

func special(name string) bool {
	switch name {
	case "name", "kind", "label", "rule", "startline", "endline", "path", "attrs":
		return true
	}
	return false
}

func strs(o output) string {
	var b strings.Builder
	for _, r := range o.Records {
		for _, f := range r.Fields {
			fmt.Fprintf(&b, "%s %v;", f, f.Quote)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func trimAll(xs []string) (r []string) {
	for _, x := range xs {
		r = append(r, strings.TrimSpace(x[strings.Index(x, "#"):]))
	}
	return
}
