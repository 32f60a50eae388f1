// Package pud checks unused_deps with a stand-in for the build tool.
package pud

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	depspb "github.com/bazelbuild/buildtools/deps_proto"
	eapb "github.com/bazelbuild/buildtools/extra_actions_base_proto"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// label is a target.
type label struct{ repo, pkg, name string }

func (l label) String() string {
	r := ""
	if l.repo != "" {
		r = "@" + l.repo
	}
	return r + "//" + l.pkg + ":" + l.name
}

// resolve reads a label in the package of another target.
func resolve(s string, in label) (l label, absolute bool) {
	l = label{in.repo, in.pkg, ""}
	if strings.HasPrefix(s, "@") {
		i := strings.Index(s, "//")
		if i < 0 {
			n := strings.TrimLeft(s, "@")
			return label{n, "", n}, true
		}
		l.repo = strings.TrimLeft(s[:i], "@")
		s = s[i:]
	}
	if strings.HasPrefix(s, "//") {
		s = s[2:]
		if i := strings.IndexByte(s, ':'); i >= 0 {
			return label{l.repo, s[:i], s[i+1:]}, true
		}
		return label{l.repo, s, s[strings.LastIndexByte(s, '/')+1:]}, true
	}
	l.name = strings.TrimPrefix(s, ":")
	return l, false
}

var (
	repos    = []string{"", "", "", "ext", "rules~1~maven"}
	pkgs     = []string{"", "a", "a", "a/b", "java/com/x"}
	names    = []string{"foo", "lib", "libfoo", "b", "a", "sub/foo", "x-y.z", "q+r", "a_b"}
	fragment = []string{"bazel-out/k8-fastbuild/bin", "bazel-out/k8-fastbuild/bin", "bazel-out/k8-fastbuild-ST-1/bin"}
)

func drawLabel(rt *rapid.T) label {
	return label{gen.Pick(rt, repos...), gen.Pick(rt, pkgs...), gen.Pick(rt, names...)}
}

// spell writes a label for use in a BUILD file.
func spell(rt *rapid.T, l, in label) string {
	head := "//"
	if l.repo != "" {
		head = "@" + l.repo + "//"
		if gen.Pct(rt, 15) {
			head = "@" + head
		}
		if l.repo == in.repo && gen.Pct(rt, 60) {
			head = "//"
		}
	} else if in.repo != "" {
		head = gen.Pick(rt, "@//", "@@//")
	} else if gen.Pct(rt, 10) {
		head = gen.Pick(rt, "@//", "@@//")
	}
	if l.repo == in.repo && l.pkg == in.pkg && gen.Pct(rt, 60) {
		return gen.Pick(rt, ":", "") + l.name
	}
	if l.pkg[strings.LastIndexByte(l.pkg, '/')+1:] == l.name && gen.Pct(rt, 60) {
		return head + l.pkg
	}
	return head + l.pkg + ":" + l.name
}

func pick[T any](rt *rapid.T, xs ...T) T { return xs[gen.Int(rt, len(xs))] }

type jar struct {
	path  string
	label label
	known bool // its manifest tells the label
}

// manifest writes a manifest with the label.
func manifest(rt *rapid.T, value string) string {
	nl := gen.Pick(rt, "\n", "\r\n", "\r\n", "\r")
	var b strings.Builder
	header := func(k, v string) {
		s := k + ": " + v
		w := 70
		if gen.Pct(rt, 30) {
			w = 14 + gen.Int(rt, 60) // at least the key and a character
		}
		w = max(w, len(k)+2)
		for len(s) > w {
			b.WriteString(s[:w] + nl + " ")
			s = s[w:]
			w = max(1, w-1)
		}
		b.WriteString(s + nl)
	}
	header("Manifest-Version", "1.0")
	if gen.Pct(rt, 30) {
		header("Created-By", "bazel")
	}
	if gen.Pct(rt, 15) {
		header("Original-Target-Label", "//wrong:one")
	}
	if gen.Pct(rt, 10) {
		header("Note", "see Target-Label: //wrong:two")
	}
	if value != "" {
		header("Target-Label", value)
	}
	if gen.Pct(rt, 40) {
		header("Injecting-Rule-Kind", "java_proto_library")
	}
	if gen.Pct(rt, 30) {
		b.WriteString(nl)
	}
	return b.String()
}

func zipped(files ...string) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	for i := 0; i+1 < len(files); i += 2 {
		w, err := z.Create(files[i])
		if err == nil {
			w.Write([]byte(files[i+1]))
		}
	}
	z.Close()
	return buf.Bytes()
}

func put(p string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic("VERIF-ERROR " + err.Error())
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		panic("VERIF-ERROR " + err.Error())
	}
}

// drawJar writes the jar of a dependency below the directory that "bazel-out" stands for.
func drawJar(rt *rapid.T, c *vk.Case, out string, l label, i int, style string) jar {
	p := gen.Pick(rt, fragment...)
	if l.repo != "" {
		p += "/external/" + l.repo
	}
	j := jar{path: fmt.Sprintf("%s/%s/lib%s%s-hjar.jar", p, l.pkg, l.name, strings.Repeat("2", i)), label: l}
	j.path = strings.ReplaceAll(j.path, "//", "/")
	file := filepath.Join(out, strings.TrimPrefix(j.path, "bazel-out"))
	text := l.String()
	if style != "" {
		text = "@" + text
		if l.repo == "" {
			text = style + "//" + l.pkg + ":" + l.name
		}
	}
	state := gen.Pick(rt, "ok", "ok", "ok", "ok", "ok", "ok", "missing", "no manifest", "no label", "no zip")
	switch state {
	case "ok":
		put(file, zipped("x/Y.class", "class", "META-INF/MANIFEST.MF", manifest(rt, text)))
		j.known = true
	case "no manifest":
		put(file, zipped("META-INF/OTHER", manifest(rt, text)))
	case "no label":
		put(file, zipped("META-INF/MANIFEST.MF", manifest(rt, "")))
	case "no zip":
		put(file, []byte("not a zip file"))
	}
	c.Part("jar %s: %s, labelled %s", j.path, state, text)
	return j
}

func drawJars(rt *rapid.T, c *vk.Case, out string, deps []label) map[label][]jar {
	jars := map[label][]jar{}
	style := gen.Pick(rt, "", "", "@", "@@") // that of the version of the build tool
	for _, d := range deps {
		for i := pick(rt, 1, 1, 1, 1, 2, 0); i > 0; i-- {
			jars[d] = append(jars[d], drawJar(rt, c, out, d, i, style))
		}
	}
	return jars
}

// drawParams writes a file with the arguments of a compiler.
func drawParams(rt *rapid.T, c *vk.Case, file string, direct []jar) (given []jar, ok bool) {
	if gen.Pct(rt, 6) {
		c.Part("no %s", filepath.Base(file))
		return nil, false
	}
	var b strings.Builder
	b.WriteString("--output\nbazel-out/x.jar\n")
	if gen.Pct(rt, 70) {
		b.WriteString("--classpath\n" + strings.Repeat("bazel-out/k8-fastbuild/bin/other.jar\n", 1+gen.Int(rt, 3)))
	}
	if len(direct) > 0 && gen.Pct(rt, 97) || gen.Pct(rt, 30) {
		b.WriteString("--direct_dependencies\n")
		for _, j := range direct {
			b.WriteString(j.path + "\n")
		}
		given = direct
	}
	if gen.Pct(rt, 70) {
		b.WriteString(gen.Pick(rt, "--experimental_fix_deps_tool\nadd_dep\n", "--reduce_classpath_mode\nBAZEL_REDUCED\n", "--target_label\n//x:y\n"))
	}
	text := b.String()
	if gen.Pct(rt, 10) {
		text = strings.TrimSuffix(text, "\n")
	}
	put(file, []byte(text))
	c.Part("%s:\n%s", filepath.Base(file), text)
	return given, true
}

// drawUses writes the compiler's information about dependencies; used are the jars used explicitly.
func drawUses(rt *rapid.T, c *vk.Case, file string, l label, direct []jar) (used map[string]bool, ok bool) {
	used = map[string]bool{}
	switch {
	case gen.Pct(rt, 5):
		c.Part("no %s", filepath.Base(file))
		return nil, false
	case gen.Pct(rt, 4):
		put(file, []byte{0xff, 1, 2, 3})
		c.Part("%s: damaged", filepath.Base(file))
		return nil, false
	}
	d := &depspb.Dependencies{}
	add := func(path string) {
		k := depspb.Dependency_Kind(pick(rt, 0, 0, 1, 2, 3))
		d.Dependency = append(d.Dependency, &depspb.Dependency{Path: proto.String(path), Kind: k.Enum()})
		if k == depspb.Dependency_EXPLICIT {
			used[path] = true
		}
		c.Part("%s: %s %v", filepath.Base(file), path, k)
	}
	for _, j := range direct {
		if gen.Pct(rt, 65) {
			add(j.path)
		}
		if gen.Pct(rt, 10) {
			add("bazel-out/k8-fastbuild/bin/transitive.jar")
		}
	}
	if gen.Pct(rt, 50) {
		d.RuleLabel = proto.String(l.String())
		d.Success = proto.Bool(true)
	}
	data, err := proto.Marshal(d)
	if err != nil {
		panic("VERIF-ERROR " + err.Error())
	}
	put(file, data)
	return used, true
}

func unusedOf(given []jar, used map[string]bool) map[label]bool {
	unused := map[label]bool{}
	for _, j := range given {
		if j.known {
			unused[j.label] = true
		}
	}
	for _, j := range given {
		if j.known && used[j.path] {
			delete(unused, j.label)
		}
	}
	return unused
}

type elem struct {
	dep     label
	text    string
	runtime bool
}

// drawDeps writes the value of a deps attribute; elems are those of its unconditional lists.
func drawDeps(rt *rapid.T, in label, pool []label) (text string, elems []elem) {
	seen := map[label]bool{}
	list := func(plain bool) string {
		var b strings.Builder
		b.WriteString("[\n")
		for i := gen.Int(rt, 4); i > 0; i-- {
			if gen.Pct(rt, 5) {
				b.WriteString("        OTHER,\n")
				continue
			}
			d := pick(rt, pool...)
			if plain && seen[d] && gen.Pct(rt, 90) {
				continue
			}
			s := spell(rt, d, in)
			comment := gen.Pick(rt, "", "", "", "", "  # needed", "  # runtime", "  # Used at RUNTIME only", "  # run time")
			b.WriteString(fmt.Sprintf("        %q,%s\n", s, comment))
			if plain {
				seen[d] = true
				elems = append(elems, elem{d, s, strings.Contains(strings.ToLower(comment), "runtime")})
			}
		}
		b.WriteString("    ]")
		return b.String()
	}
	switch gen.Int(rt, 10) {
	case 0:
		return "DEPS", nil
	case 1:
		return list(true) + " + DEPS", elems
	case 2:
		return list(true) + " + select({\"//c:x\": " + list(false) + ", \"//conditions:default\": []})", elems
	case 3:
		return list(true) + " + " + list(true), elems
	case 4:
		return "(" + list(true) + " + [\"//never:used\"])", elems
	}
	return list(true), elems
}

type tool struct {
	dir string
	out string
	bin string
}

func newTool(t *testing.T, dir string) *tool {
	return &tool{dir: dir, out: filepath.Join(dir, "execroot/bazel-out"), bin: vk.Bin(t, "unused_deps")}
}

func (x *tool) clear() {
	os.RemoveAll(x.dir)
	for _, d := range []string{"ws", "tmp", "base", "execroot"} {
		if err := os.MkdirAll(filepath.Join(x.dir, d), 0o755); err != nil {
			panic("VERIF-ERROR " + err.Error())
		}
	}
	script := "#!/bin/sh\necho \"$*\" >> " + x.dir + "/log\ncase $1 in\nquery|cquery) cat " + x.dir + "/query ;;\ninfo) case $2 in\nbazel-bin) echo " + x.out + "/k8-fastbuild/bin ;;\noutput_path) echo " + x.out + " ;;\noutput_base) echo " + x.dir + "/base ;;\n*) exit 2 ;;\nesac ;;\nbuild) exit " + "0" + " ;;\n*) exit 2 ;;\nesac\n"
	put(filepath.Join(x.dir, "tool"), []byte(script))
	os.Chmod(filepath.Join(x.dir, "tool"), 0o755)
}

func (x *tool) run(wd string, args ...string) (stdout, stderr string, rc int) {
	cmd := exec.Command(x.bin, args...)
	cmd.Dir = filepath.Join(x.dir, wd)
	cmd.Env = append(os.Environ(), "TMPDIR="+filepath.Join(x.dir, "tmp"))
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic("VERIF-ERROR " + err.Error())
		}
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// snapshot lists the files with their contents.
func snapshot(dirs ...string) string {
	var b strings.Builder
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				data, _ := os.ReadFile(p)
				fmt.Fprintf(&b, "%s %v %d %x\n", p, fi.Mode(), fi.ModTime().UnixNano(), data)
			}
			return nil
		})
	}
	return b.String()
}

var (
	addLine    = regexp.MustCompile(`^buildozer "add deps \$\((\S+) query 'labels\(exports, (\S+)\)' \| tr '\\n' ' '\)" (\S+)$`)
	removeLine = regexp.MustCompile(`^buildozer 'remove deps (\S+)' (\S+)$`)
	moveLine   = regexp.MustCompile(`^buildozer 'move deps runtime_deps (\S+)' (\S+)$`)
)

func TestC40_Suggest(t *testing.T) {
	x := newTool(t, filepath.Join(vk.Scratch(t), "c"))
	vk.Check(t, "workspaces of 1..4 Java targets (main and external repositories, targets in subdirectories, names starting with lib) with deps in lists, concatenations, selects and all spellings of labels, with runtime comments; parameter files, jars and dependency information of all kinds, present, missing or damaged; a stand-in for the build tool. The commands printed are the ones of a model, their labels mean the same anywhere, nothing is edited or left behind. Non-trivial: there are both an unused and a used direct dependency", 4000, 150000, func(rt *rapid.T, c *vk.Case) {
		x.clear()
		c.Input("")
		var pool []label
		for i := 2 + gen.Int(rt, 5); i > 0; i-- {
			pool = append(pool, drawLabel(rt))
		}
		pool = dedup(pool)
		jars := drawJars(rt, c, x.out, pool)

		type target struct {
			label
			text   string
			expect []string
		}
		var targets []*target
		build := map[string]string{} // texts of BUILD files
		buildName := map[string]string{}
		taken := map[label]bool{}
		someUnused, someUsed := false, false
		for i := 1 + gen.Int(rt, 4); i > 0; i-- {
			l := drawLabel(rt)
			if taken[l] {
				continue
			}
			taken[l] = true
			tg := &target{label: l, text: l.String()}
			if l.repo != "" && gen.Pct(rt, 50) {
				tg.text = "@" + tg.text
			}
			targets = append(targets, tg)
			c.Part("target %s", tg.text)

			var direct []jar
			var directLabels []label
			for _, d := range pool {
				if d != l && gen.Pct(rt, 60) {
					direct = append(direct, jars[d]...)
					directLabels = append(directLabels, d)
				}
			}
			bin := filepath.Join(x.out, "k8-fastbuild/bin")
			if l.repo != "" {
				bin = filepath.Join(bin, "external", l.repo)
			}
			given, ok1 := drawParams(rt, c, filepath.Join(bin, l.pkg, l.name+".javac_params"), direct)
			base := filepath.Base(l.name)
			if gen.Pct(rt, 75) || strings.HasPrefix(base, "lib") {
				base = "lib" + base // a library
			}
			used, ok2 := drawUses(rt, c, filepath.Join(bin, l.pkg, filepath.Dir(l.name), base+".jdeps"), l, direct)
			unused := map[label]bool{}
			if ok1 && ok2 {
				unused = unusedOf(given, used)
			}

			dir := filepath.Join(x.dir, "ws", l.pkg)
			if l.repo != "" {
				dir = filepath.Join(x.dir, "base/external", l.repo, l.pkg)
			}
			if buildName[dir] == "" {
				buildName[dir] = gen.Pick(rt, "BUILD", "BUILD", "BUILD.bazel")
				build[dir] = gen.Pick(rt, "", "load(\":x.bzl\", \"OTHER\", \"DEPS\")\n\n", "# comment\n\n")
			}
			if len(directLabels) == 0 || gen.Pct(rt, 20) {
				directLabels = pool
			}
			deps, elems := drawDeps(rt, l, directLabels)
			switch {
			case gen.Pct(rt, 3):
				elems = nil
				c.Part("not in a BUILD file")
			case gen.Pct(rt, 3):
				elems = nil
				build[dir] += fmt.Sprintf("java_library(\n    name = %q,\n)\n\n", l.name)
			default:
				build[dir] += fmt.Sprintf("java_library(\n    name = %q,\n    deps = %s,\n)\n\n", l.name, deps)
			}
			for _, e := range elems {
				if e.dep == l {
					continue
				}
				if !unused[e.dep] {
					someUsed = true
					continue
				}
				someUnused = true
				if e.runtime {
					tg.expect = append(tg.expect, "move "+e.dep.String())
				} else {
					tg.expect = append(tg.expect, "remove "+e.dep.String())
				}
			}
		}
		var dirs []string
		for d := range build {
			dirs = append(dirs, d)
		}
		sort.Strings(dirs)
		for _, d := range dirs {
			if gen.Pct(rt, 4) {
				what := gen.Pick(rt, "missing", "malformed")
				c.Part("%s/%s is %s", d, buildName[d], what)
				if what == "malformed" {
					put(filepath.Join(d, buildName[d]), []byte(build[d]+"\njava_library(\n"))
				}
				for _, tg := range targets {
					dir := filepath.Join(x.dir, "ws", tg.pkg)
					if tg.repo != "" {
						dir = filepath.Join(x.dir, "base/external", tg.repo, tg.pkg)
					}
					if dir == d {
						tg.expect = nil
					}
				}
				continue
			}
			put(filepath.Join(d, buildName[d]), []byte(build[d]))
			c.Part("%s/%s:\n%s", strings.TrimPrefix(d, x.dir), buildName[d], build[d])
		}
		put(filepath.Join(x.dir, "ws", gen.Pick(rt, "WORKSPACE", "MODULE.bazel")), nil)
		put(filepath.Join(x.dir, "ws/WORKSPACE"), nil)

		cquery := gen.Pct(rt, 30)
		var q strings.Builder
		var patterns []string
		for _, tg := range targets {
			q.WriteString(tg.text)
			if cquery {
				q.WriteString(gen.Pick(rt, " (8f3a1c2)", " (null)"))
			}
			q.WriteString("\n")
			patterns = append(patterns, tg.text)
		}
		none := gen.Pct(rt, 2)
		if none {
			q.Reset()
		}
		put(filepath.Join(x.dir, "query"), []byte(q.String()))
		toolPath := filepath.Join(x.dir, "tool")
		args := []string{"--build_tool=" + toolPath}
		if cquery {
			args = append(args, "--cquery")
		}
		flags := ""
		if gen.Pct(rt, 20) {
			args = append(args, "--extra_build_flags=--foo, --bar=1")
			flags = " --foo --bar=1"
		}
		if gen.Pct(rt, 20) {
			patterns = []string{"//..."}
		} else {
			args = append(args, patterns...)
		}
		before := snapshot(filepath.Join(x.dir, "ws"), filepath.Join(x.dir, "base"), filepath.Join(x.dir, "execroot"))
		stdout, stderr, rc := x.run("ws", args...)
		c.Part("stdout:\n%sstderr:\n%s", stdout, stderr)
		if after := snapshot(filepath.Join(x.dir, "ws"), filepath.Join(x.dir, "base"), filepath.Join(x.dir, "execroot")); after != before {
			c.Fail("files were changed")
		}
		if left, _ := os.ReadDir(filepath.Join(x.dir, "tmp")); len(left) > 0 {
			c.Fail("left behind: %s", left[0].Name())
		}
		if strings.Contains(stderr, "goroutine ") {
			c.Fail("crashed")
		}
		log, _ := os.ReadFile(filepath.Join(x.dir, "log"))
		calls := strings.Split(strings.TrimSpace(string(log)), "\n")
		if none {
			if rc == 0 || stdout != "" || len(calls) != 1 {
				c.Fail("there are no targets, but exit status %d, calls %q", rc, calls)
			}
			return
		}
		if rc != 0 {
			c.Fail("exit status %d", rc)
		}
		kind := "query "
		if cquery {
			kind = "cquery "
		}
		if !strings.HasPrefix(calls[0], kind) || !strings.HasSuffix(calls[0], "kind('(kt|java|android)_*', "+strings.Join(patterns, " + ")+")") {
			c.Fail("wrong query: %s", calls[0])
		}
		if len(calls) < 2 || !strings.HasPrefix(calls[1], "build ") || !strings.HasSuffix(calls[1], flags+" "+strings.Join(patterns, " ")) {
			c.Fail("wrong build: %q", calls)
		}
		for _, call := range calls[2:] {
			if !strings.HasPrefix(call, "info ") {
				c.Fail("unexpected call of the build tool: %s", call)
			}
		}

		// the commands printed, per target
		byText := map[string]*target{}
		for _, tg := range targets {
			byText[tg.text] = tg
		}
		got := map[string][]string{}
		lines := strings.Split(strings.TrimSuffix(stdout, "\n"), "\n")
		if stdout == "" {
			lines = nil
		}
		order := -1
		for i := 0; i < len(lines); i++ {
			var dep, to, what, exports string
			if m := addLine.FindStringSubmatch(lines[i]); m != nil {
				if m[1] != toolPath {
					c.Fail("another build tool: %s", lines[i])
				}
				exports = m[2]
				to = m[3]
				i++
				if i == len(lines) {
					c.Fail("nothing is removed after %s", lines[i-1])
				}
				r := removeLine.FindStringSubmatch(lines[i])
				if r == nil || r[2] != to {
					c.Fail("%s isn't followed by the removal", lines[i-1])
				}
				dep, what = r[1], "remove"
			} else if m := moveLine.FindStringSubmatch(lines[i]); m != nil {
				dep, to, what = m[1], m[2], "move"
			} else {
				c.Fail("unexpected output: %s", lines[i])
			}
			tg := byText[to]
			if tg == nil {
				c.Fail("a command for %s", to)
			}
			d, _ := resolve(dep, tg.label)
			if what == "remove" {
				if e, abs := resolve(exports, label{}); !abs || e != d {
					c.Fail("exports are those of %s instead of %s", exports, d)
				}
			}
			got[to] = append(got[to], what+" "+d.String())
			for k, y := range targets {
				if y == tg {
					if k < order {
						c.Fail("commands aren't in the order of the targets")
					}
					order = k
				}
			}
		}
		for _, tg := range targets {
			g, w := uniq(got[tg.text]), uniq(tg.expect)
			if strings.Join(g, "\n") != strings.Join(w, "\n") {
				c.Fail("commands for %s:\n%s\nexpected:\n%s", tg.text, strings.Join(g, "\n"), strings.Join(w, "\n"))
			}
		}
		if strings.Contains(stderr, "No unused deps found.") != (len(lines) == 0) {
			c.Fail("wrong summary")
		}
		c.NonTrivial(someUnused && someUsed)
	})
}

func TestC40_ExtraAction(t *testing.T) {
	x := newTool(t, filepath.Join(vk.Scratch(t), "c"))
	vk.Check(t, "extra action files with a Java compilation (or none, or damaged), with the parameter file, jars and dependency information next to its output: the labels written are those of the unused direct dependencies, each once; non-trivial: there are both an unused and a used one", 3000, 100000, func(rt *rapid.T, c *vk.Case) {
		x.clear()
		c.Input("")
		pool := dedup([]label{drawLabel(rt), drawLabel(rt), drawLabel(rt), drawLabel(rt)})
		jars := drawJars(rt, c, x.out, pool)
		var direct []jar
		for _, d := range pool {
			if gen.Pct(rt, 70) {
				direct = append(direct, jars[d]...)
			}
		}
		stem := gen.Pick(rt, "bazel-out/k8-fastbuild/bin/a/libfoo", "bazel-out/my.jars/libfoo", "libx", "bazel-out/bin/a.jar.d/lib.y")
		root := filepath.Join(x.dir, "execroot")
		given, ok1 := drawParams(rt, c, filepath.Join(root, stem+".jar-2.params"), direct)
		used, ok2 := drawUses(rt, c, filepath.Join(root, stem+".jdeps"), label{}, direct)

		info := &eapb.ExtraActionInfo{}
		state := gen.Pick(rt, "ok", "ok", "ok", "ok", "ok", "ok", "ok", "no java", "damaged", "missing")
		if state == "ok" {
			if err := proto.SetExtension(info, eapb.E_JavaCompileInfo_JavaCompileInfo, &eapb.JavaCompileInfo{Outputjar: proto.String(stem + ".jar")}); err != nil {
				panic("VERIF-ERROR " + err.Error())
			}
		}
		info.Owner = proto.String("//a:foo")
		data, err := proto.Marshal(info)
		if err != nil {
			panic("VERIF-ERROR " + err.Error())
		}
		if state == "damaged" {
			data = []byte{0xff, 1}
		}
		if state != "missing" {
			put(filepath.Join(root, "x.xa"), data)
		}
		c.Part("output %s.jar, extra action %s", stem, state)
		stdout, stderr, rc := x.run("execroot", "--extra_action_file=x.xa", "--output_file="+filepath.Join(x.dir, "result"))
		c.Part("stdout:\n%sstderr:\n%s", stdout, stderr)
		res, err := os.ReadFile(filepath.Join(x.dir, "result"))
		c.Part("result:\n%s", res)
		if stdout != "" || strings.Contains(stderr, "goroutine ") {
			c.Fail("unexpected output")
		}
		if log, _ := os.ReadFile(filepath.Join(x.dir, "log")); len(log) > 0 {
			c.Fail("calls of the build tool: %s", log)
		}
		if state != "ok" {
			if rc == 0 || err == nil || stderr == "" {
				c.Fail("the extra action is %s, but exit status %d", state, rc)
			}
			return
		}
		if rc != 0 || err != nil {
			c.Fail("exit status %d, %v", rc, err)
		}
		unused := map[label]bool{}
		if ok1 && ok2 {
			unused = unusedOf(given, used)
		}
		var want, got []string
		for l := range unused {
			want = append(want, l.String())
		}
		if len(res) > 0 {
			for _, s := range strings.Split(strings.TrimSuffix(string(res), "\n"), "\n") {
				l, abs := resolve(s, label{})
				if !abs {
					c.Fail("%s is no label", s)
				}
				got = append(got, l.String())
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, " ") != strings.Join(got, " ") {
			c.Fail("unused: %q, expected %q", got, want)
		}
		c.NonTrivial(len(unused) > 0 && len(used) > 0)
	})
}

func dedup(l []label) (r []label) {
	seen := map[label]bool{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func uniq(l []string) (r []string) {
	l = append([]string{}, l...)
	sort.Strings(l)
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			r = append(r, s)
		}
	}
	return r
}
