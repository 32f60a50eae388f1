package pbf

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// malformed draws a text the parser rejects.
func malformed(rt *rapid.T, name string) string {
	tx := draw(rt, name)
	switch gen.Int(rt, 4) {
	case 0:
		tx = gen.Mutate(rt, tx)
	case 1:
		tx += "\n" + gen.Pick(rt, "foo(", "x = = 1", "def f(:\n", "\"", "'''", "]", "a b", "for x:\n  pass", "if x\n  y", "\\", "$", "x = [1, 2", "  indented = 1\nback")
		tx += "\n"
	case 2:
		if i := strings.LastIndexAny(tx, ")]}"); i >= 0 {
			tx = tx[:i]
		}
	}
	if _, err := parse("", name, tx); err == nil {
		tx += "\n)\n"
		if _, err := parse("", name, tx); err == nil {
			return ")"
		}
	}
	return tx
}

type entry struct {
	name, kind, text, want string
	mode                   os.FileMode
}

// canDrop reports whether the tool can be run as another user.
func (d *dir) canDrop() bool {
	cmd := exec.Command("/bin/sh", "-c", "test -r "+d.path("probe")+" || echo no")
	os.WriteFile(d.path("probe"), nil, 0)
	os.Chmod(d.path("probe"), 0)
	defer os.Remove(d.path("probe"))
	cmd.Dir = d.dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	out, err := cmd.Output()
	if err != nil || string(out) != "no\n" {
		return false
	}
	d.put("x.bzl", "x = 1\n")
	d.cred = &syscall.Credential{Uid: 65534, Gid: 65534}
	res := d.run("", "-mode=check", "x.bzl")
	d.cred = nil
	return res.rc == 0 && res.err == ""
}

// lay creates the entry.
func (d *dir) lay(e entry) {
	p := d.path(e.name)
	d.put(e.name, "")
	switch e.kind {
	case "missing":
		os.Remove(p)
	case "directory":
		os.Remove(p)
		os.Mkdir(p, 0o755)
		os.WriteFile(p+"/inner.bzl", []byte("x=1\n"), 0o644)
	case "dangling":
		os.Remove(p)
		os.Symlink("nowhere", p)
	case "loop":
		os.Remove(p)
		os.Symlink(p, p)
	default:
		os.WriteFile(p, []byte(e.text), 0o666)
		if d.cred != nil {
			os.Chown(p, int(d.cred.Uid), int(d.cred.Gid))
		}
		os.Chmod(p, e.mode)
		d.age(e.name)
	}
}

// state describes what is there after a run.
func (d *dir) state(e entry) string {
	p := d.path(e.name)
	fi, err := os.Lstat(p)
	if err != nil {
		return "absent"
	}
	switch {
	case fi.Mode()&os.ModeSymlink != 0:
		l, _ := os.Readlink(p)
		return "link " + l
	case fi.IsDir():
		b, _ := os.ReadFile(p + "/inner.bzl")
		es, _ := os.ReadDir(p)
		return fmt.Sprintf("directory %d %q", len(es), b)
	}
	return fmt.Sprintf("%v written=%v\n%s", fi.Mode(), d.touched(e.name), d.get(e.name))
}

func (d *dir) tree() (r []string) {
	cmd := exec.Command("find", ".")
	cmd.Dir = d.dir
	out, _ := cmd.Output()
	return sorted(lines(string(out)))
}

var position = regexp.MustCompile(`^\d+:\d+: .`)

func TestC29_Bad(t *testing.T) {
	d := newDir(t)
	drop := d.canDrop()
	cred := &syscall.Credential{Uid: 65534, Gid: 65534}
	vk.Check(t, "1..6 (sometimes 12..30) files, some malformed, missing, directories, dangling or circular links, unreadable or read-only for the user (of their own uid), in random order x check (plain, text, JSON), diff, print_if_changed, fix, -lint: the outcome of every file (contents, mode, messages, output, diagnostics) is what the same command gives for that file alone; damaged files stay as they are and are named in an error; the exit status is not 0; nothing else is left behind. Non-trivial: there are both a file that cannot be processed and one to reformat", 1400, 60000, func(rt *rapid.T, c *vk.Case) {
		d.cred = nil
		d.clear()
		if drop && gen.Pct(rt, 60) {
			d.cred = cred
		}
		n := 1 + gen.Int(rt, 6)
		if gen.Pct(rt, 6) {
			n = 12 + gen.Int(rt, 18)
		}
		mode := gen.Pick(rt, "check", "check", "text", "json", "diff", "print", "fix", "fix", "lintfix", "checklint", "jsonlint")
		if mode == "print" {
			n = 1
		}
		var args []string
		switch mode {
		case "check":
			args = []string{"-mode=check"}
		case "checklint":
			args = []string{"-mode=check", "-lint=warn"}
		case "text":
			args = []string{"-mode=check", "-format=text"}
		case "json":
			args = []string{"-mode=check", "-format=json"}
		case "jsonlint":
			args = []string{"-mode=check", "-format=json", "-lint=warn", "-warnings=all"}
		case "diff":
			args = []string{"-mode=diff", "-diff_command=cat"}
		case "print":
			args = []string{"-mode=print_if_changed"}
		case "lintfix":
			args = []string{"-lint=fix", "-warnings=all"}
		}
		if gen.Pct(rt, 30) {
			args = append(args, "-v")
		}
		writes := mode == "fix" || mode == "lintfix"
		start := gen.Int(rt, len(names))
		var es []entry
		bad, todo := 0, 0
		for i := 0; i < n; i++ {
			name := names[(start+i)%len(names)]
			if i >= len(names) {
				name = fmt.Sprintf("more%d/BUILD", i)
			}
			e := entry{name: name, kind: gen.Pick(rt, "good", "todo", "todo", "todo", "malformed", "malformed", "missing", "directory", "dangling", "loop", "unreadable", "unreadable", "readonly", "empty"), mode: []os.FileMode{0o644, 0o644, 0o600, 0o755, 0o664}[gen.Int(rt, 5)]}
			if d.cred == nil && (e.kind == "unreadable" || e.kind == "readonly") {
				e.kind = "todo"
			}
			switch e.kind {
			case "unreadable":
				e.mode = 0
			case "readonly":
				e.mode = 0o444
			}
			if e.kind != "malformed" {
				e.text = draw(rt, name)
				w, err := formatted("", name, e.text)
				if err != nil {
					e.text, w = "x=1", "x = 1\n"
				}
				e.want = w
				if e.kind == "good" {
					e.text = w
				}
				if e.kind == "todo" && e.text == w {
					e.text = w + "\n"
				}
			} else {
				e.text = malformed(rt, name)
			}
			if e.kind == "empty" {
				e.text, e.want = "", ""
			}
			switch e.kind {
			case "todo":
				todo++
			case "good", "empty", "readonly":
			default:
				bad++
			}
			es = append(es, e)
			c.Part("%s (%s %v)\n%s", e.name, e.kind, e.mode, e.text)
		}
		c.Part("buildifier %q as %v", args, d.cred)
		c.NonTrivial(bad > 0 && todo > 0)
		c.Label(mode)
		c.LabelIf(d.cred != nil, "unprivileged")

		reset := func() {
			d.clear()
			for _, e := range es {
				d.lay(e)
			}
			if d.cred != nil {
				os.Chmod(d.dir, 0o755)
			}
		}
		// alone
		reset()
		tree := fmt.Sprint(d.tree())
		type outcome struct {
			rc    int
			out   string
			err   []string
			files []json.RawMessage
			state string
		}
		alone := make([]outcome, n)
		raw := func(s string) []json.RawMessage {
			var x struct {
				Files []json.RawMessage `json:"files"`
			}
			if err := json.Unmarshal([]byte(s), &x); err != nil {
				c.Fail("no JSON: %v\n%s", err, s)
			}
			return x.Files
		}
		js := strings.HasPrefix(mode, "json")
		before := make([]string, n)
		anyErr := false
		var outs, errs []string
		var files []json.RawMessage
		c.Evals(n + 1)
		for i, e := range es {
			before[i] = d.state(e)
			res := d.run("", append(append([]string{}, args...), e.name)...)
			o := outcome{rc: res.rc, out: res.out, err: lines(res.err), state: d.state(e)}
			if js {
				o.files, o.out = raw(res.out), ""
			}
			if mode == "diff" && n > 1 && e.kind != "malformed" && o.rc == 0 && o.out != "" {
				o.err = append(o.err, e.name+":") // the name of the changed file
			}
			alone[i] = o
			outs = append(outs, o.out)
			errs = append(errs, o.err...)
			files = append(files, o.files...)
			failed := false
			switch e.kind {
			case "malformed":
				failed = true
				ok := false
				for _, l := range o.err {
					if r, f := strings.CutPrefix(l, e.name+":"); f && position.MatchString(r) {
						ok = true
					}
				}
				if !ok {
					c.Fail("%s is malformed, the message is %q", e.name, res.err)
				}
			case "missing", "directory", "dangling", "loop", "unreadable":
				failed = true
				if !strings.Contains(res.err, e.name) {
					c.Fail("%s is %s, the message is %q", e.name, e.kind, res.err)
				}
			case "readonly":
				if writes && e.want != e.text && mode == "fix" {
					failed = true
				}
			case "todo":
				if mode == "fix" && d.get(e.name) != e.want {
					c.Fail("%s is not formatted, but\n%s", e.name, o.state)
				}
			}
			if failed {
				anyErr = true
				if o.state != before[i] || o.out != "" && mode != "text" {
					c.Fail("%s (%s) has become %s, was %s\nprinted %q", e.name, e.kind, o.state, before[i], o.out)
				}
				if (o.rc == 0) == (mode != "text" && !js) {
					c.Fail("%s (%s): exit %d", e.name, e.kind, o.rc)
				}
				if js {
					if dg := decode(c, res.out); dg.Success || len(dg.Files) != 1 || dg.Files[0].Filename != e.name || dg.Files[0].Valid || dg.Files[0].Formatted {
						c.Fail("%s (%s): prints\n%s", e.name, e.kind, res.out)
					}
				}
			} else if (!writes || e.kind != "todo" && e.kind != "readonly" && mode != "lintfix") && o.state != before[i] {
				c.Fail("%s (%s) has become %s, was %s", e.name, e.kind, o.state, before[i])
			}
			if e.kind == "readonly" && strings.TrimPrefix(o.state, "-r--r--r-- written=false\n") != e.text {
				c.Fail("%s (%s) has become %s", e.name, e.kind, o.state)
			}
		}
		if x := fmt.Sprint(d.tree()); x != tree {
			c.Fail("files were %s, are %s", tree, x)
		}
		if n == 1 {
			return
		}
		// together
		reset()
		all := append([]string{}, args...)
		for _, e := range es {
			all = append(all, e.name)
		}
		res := d.run("", all...)
		got := res.out
		if js {
			dg := decode(c, got)
			ok := true
			for _, f := range dg.Files {
				ok = ok && f.Valid && f.Formatted && len(f.Warnings) == 0
			}
			if dg.Success != ok || ok && anyErr {
				c.Fail("success: %v\n%s\n%s", dg.Success, got, res.err)
			}
			g := raw(got)
			if len(g) != len(files) {
				c.Fail("%d files in the diagnostics, expected %d\n%s", len(g), len(files), got)
			}
			for i := range g {
				if string(g[i]) != string(files[i]) {
					c.Fail("file %d: %s, alone %s", i, g[i], files[i])
				}
			}
		} else if want := strings.Join(outs, ""); got != want {
			c.Fail("prints\n%s\nexpected\n%s", got, want)
		}
		if g, w := fmt.Sprintf("%q", sorted(lines(res.err))), fmt.Sprintf("%q", sorted(errs)); g != w {
			c.Fail("messages %s\nof single files %s", g, w)
		}
		for i, e := range es {
			if x := d.state(e); x != alone[i].state {
				c.Fail("%s (%s) has become\n%s\nalone it becomes\n%s", e.name, e.kind, x, alone[i].state)
			}
		}
		worst := 0
		for _, o := range alone {
			if o.rc != 0 {
				worst = 1
			}
		}
		if (res.rc != 0) != (worst != 0) {
			c.Fail("exit %d, of the single files: %v", res.rc, alone)
		}
		if x := fmt.Sprint(d.tree()); x != tree {
			c.Fail("files were %s, are %s", tree, x)
		}
		if l := d.left(); len(l) > 0 {
			c.Fail("leaves temporary files %q", l)
		}
	})
}

func TestC29_Output(t *testing.T) {
	d := newDir(t)
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		t.Skip("no /dev/full")
	}
	defer full.Close()
	vk.Check(t, "standard input: a malformed text prints nothing but an error with its position; an output that cannot be written, and a directory for temporary files that does not exist, are reported and change no file. Non-trivial: the text is longer than a line", 1200, 60000, func(rt *rapid.T, c *vk.Case) {
		d.clear()
		d.env = nil
		name := names[gen.Int(rt, len(names))]
		var args []string
		if gen.Pct(rt, 80) {
			args = append(args, "-path="+name)
		} else {
			name = ""
		}
		mode := gen.Pick(rt, "", "", "check", "diff", "print_if_changed", "fix")
		if mode != "" {
			args = append(args, "-mode="+mode)
		}
		if mode == "diff" {
			args = append(args, "-diff_command=cat")
		}
		if gen.Pct(rt, 50) {
			tx := malformed(rt, name)
			c.Input(tx)
			c.Part("buildifier %q", args)
			c.NonTrivial(strings.Count(tx, "\n") > 1)
			c.Label("malformed")
			res := d.run(tx, args...)
			prefix := name + ":"
			if name == "" {
				prefix = "<stdin>:"
			}
			r, ok := strings.CutPrefix(res.err, prefix)
			if name == "" && !ok {
				r, ok = strings.CutPrefix(res.err, ":")
			}
			if res.rc == 0 || res.out != "" || !ok || !position.MatchString(r) {
				c.Fail("exit %d, prints %q, %q", res.rc, res.out, res.err)
			}
			return
		}
		tx := draw(rt, name)
		want, err := formatted("", name, tx)
		if err != nil {
			c.Skip("rejected")
		}
		if name == "" {
			if want, err = formatted("default", "", tx); err != nil {
				c.Skip("rejected")
			}
		}
		c.Input(tx)
		c.NonTrivial(strings.Count(tx, "\n") > 1)
		if gen.Pct(rt, 60) {
			c.Label("full")
			c.Part("buildifier %q >/dev/full", args)
			res := d.runTo(full, tx, args...)
			writes := (mode == "" || mode == "fix") && want != "" || mode == "print_if_changed" && want != tx
			if writes && res.rc == 0 {
				c.Fail("exit 0, though nothing could be written: %q", res.err)
			}
			return
		}
		c.Label("tmp")
		d.env = []string{"TMPDIR=" + d.path("nowhere")}
		d.put("f/BUILD", tx)
		d.put("f/x.bzl", "x=1\n")
		d.age("f/BUILD")
		res := d.run("", "-mode=diff", "-diff_command=cat", "f/BUILD", "f/x.bzl")
		d.env = nil
		c.Part("buildifier -mode=diff, no directory for temporary files")
		if res.rc == 0 || d.touched("f/BUILD") || d.get("f/BUILD") != tx || d.get("f/x.bzl") != "x=1\n" || !strings.Contains(res.err, "nowhere") {
			c.Fail("exit %d: %q %q", res.rc, res.out, res.err)
		}
	})
}
