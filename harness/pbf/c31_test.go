package pbf

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/wspace"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// typeOf is the documented type of a file name.
func typeOf(name string) build.FileType {
	if name == "" {
		return build.TypeDefault
	}
	n := strings.ToLower(name[strings.LastIndex(name, "/")+1:])
	n = strings.TrimSuffix(n, ".oss")
	if n == "module.bazel" || strings.HasSuffix(n, ".module.bazel") {
		return build.TypeModule
	}
	stem, ext := n, ""
	if i := strings.LastIndex(n, "."); i >= 0 {
		stem, ext = n[:i], n[i:]
	}
	is := func(kind string) bool {
		return ext == "."+kind || stem == kind || strings.HasPrefix(stem, kind+".")
	}
	switch {
	case ext == ".bzl":
		return build.TypeBzl
	case ext == ".sky":
		return build.TypeDefault
	case is("build"):
		return build.TypeBuild
	case is("workspace"):
		return build.TypeWorkspace
	}
	return build.TypeDefault
}

var stems = []string{"BUILD", "WORKSPACE", "MODULE", "foo", "build", "Build", "x", "a.b", "workspace", "third_party", "my-rule", "BUILDER", "WORKSPACES", "foo.MODULE", "MODULE2", "", "REPO", "BUILD.foo", "WORKSPACE.foo"}
var exts = []string{"", "", ".bazel", ".bazel", ".bzl", ".sky", ".star", ".build", ".BUILD", ".workspace", ".WORKSPACE", ".txt", ".oss", ".bazel.oss", ".bzl.oss", ".MODULE.bazel", ".Bzl", ".bazel.bak", ".md", ".foo.bazel", ".py", ".bzlmod"}

func drawName(rt *rapid.T) string {
	n := stems[gen.Int(rt, len(stems))] + exts[gen.Int(rt, len(exts))]
	if n == "" || n == "." {
		return "BUILD"
	}
	return n
}

func TestC31_Type(t *testing.T) {
	vk.Check(t, "paths from recognised and near-miss stems, extensions and directories: the type chosen by build.Parse is the documented one; every parser that fixes the type keeps it for any name. Non-trivial: the type is not the default one", 100000, 3000000, func(rt *rapid.T, c *vk.Case) {
		name := drawName(rt)
		for n := gen.Int(rt, 3); n > 0; n-- {
			name = drawName(rt) + "/" + name
		}
		if gen.Pct(rt, 20) {
			name = "/" + name
		}
		if gen.Pct(rt, 2) {
			name = ""
		}
		c.Input(name)
		text := []byte(gen.Pick(rt, "", "x = 1\n", "# c\n"))
		f, err := build.Parse(name, text)
		if err != nil {
			c.Fail("%v", err)
		}
		want := typeOf(name)
		if f.Type != want || f.Path != name {
			c.Fail("type %v, path %q; expected %v", f.Type, f.Path, want)
		}
		c.NonTrivial(want != build.TypeDefault)
		for typ, w := range map[string]build.FileType{"build": build.TypeBuild, "bzl": build.TypeBzl, "workspace": build.TypeWorkspace, "module": build.TypeModule, "default": build.TypeDefault} {
			if f, err := parse(typ, name, string(text)); err != nil || f.Type != w {
				c.Fail("%s parser: %v %v", typ, f, err)
			}
		}
	})
}

// a random tree of directories with markers
type tree struct {
	dirs    []string // relative; "" is the root
	markers map[string][]string
	text    []string
}

func (d *dir) drawTree(rt *rapid.T) *tree {
	t := &tree{dirs: []string{""}, markers: map[string][]string{}}
	for n := 1 + gen.Int(rt, 7); n > 0; n-- {
		p := t.dirs[gen.Int(rt, len(t.dirs))]
		x := strings.TrimPrefix(p+"/"+gen.Pick(rt, "a", "b", "ab", "BUILD.d", "java", "x.y"), "/")
		t.dirs = append(t.dirs, x)
	}
	ws := []string{"WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "REPO.bazel", ".buckconfig", "pants"}
	pk := []string{"BUILD", "BUILD.bazel"}
	for _, x := range t.dirs {
		os.MkdirAll(d.path(x), 0o755)
	}
	mark := func(x, m, kind string) {
		p := filepath.Join(d.path(x), m)
		switch kind {
		case "dir":
			os.MkdirAll(p, 0o755)
		case "link":
			os.WriteFile(p+".target", nil, 0o644)
			if m == "pants" {
				os.Chmod(p+".target", 0o755)
			}
			os.Symlink(m+".target", p)
		case "dangling":
			os.Symlink("nowhere", p)
		case "exec":
			os.WriteFile(p, nil, 0o755)
			os.Chmod(p, 0o755)
		default:
			os.WriteFile(p, nil, 0o644)
			os.Chmod(p, 0o644)
		}
		t.text = append(t.text, x+"/"+m+" "+kind)
	}
	done := map[string]bool{}
	add := func(x, m string, real bool) {
		if done[x+"/"+m] {
			return
		}
		done[x+"/"+m] = true
		kinds := []string{"file", "file", "file", "exec", "link"}
		if m == "pants" {
			kinds = []string{"exec", "link"}
		}
		if !real {
			kinds = []string{"dir", "dangling"}
			if m == "pants" {
				kinds = []string{"dir", "file"}
			}
		} else {
			t.markers[x] = append(t.markers[x], m)
		}
		mark(x, m, kinds[gen.Int(rt, len(kinds))])
	}
	for _, x := range t.dirs {
		if gen.Pct(rt, 20) {
			add(x, ws[gen.Int(rt, len(ws))], true)
		}
		if gen.Pct(rt, 10) {
			add(x, ws[gen.Int(rt, len(ws))], false)
		}
		if gen.Pct(rt, 35) {
			add(x, pk[gen.Int(rt, len(pk))], true)
		}
		if gen.Pct(rt, 10) {
			add(x, pk[gen.Int(rt, len(pk))], false)
		}
	}
	return t
}

func (t *tree) has(x string, workspace bool) bool {
	for _, m := range t.markers[x] {
		if strings.HasPrefix(m, "BUILD") != workspace {
			return true
		}
	}
	return false
}

func parent(x string) string {
	if i := strings.LastIndex(x, "/"); i >= 0 {
		return x[:i]
	}
	return ""
}

// locate finds the workspace, the package and the rest of the path of a file.
func (t *tree) locate(file string) (root, pkg, label string, ok bool) {
	root = parent(file)
	for !t.has(root, true) {
		if root == "" {
			return "", "", "", false
		}
		root = parent(root)
	}
	p := parent(file)
	for p != root && !t.has(p, false) {
		p = parent(p)
	}
	cut := func(s, pre string) string { return strings.TrimPrefix(strings.TrimPrefix(s, pre), "/") }
	return root, cut(p, root), cut(file, p), true
}

func TestC31_Split(t *testing.T) {
	d := newDir(t)
	bin := d.bin
	_ = bin
	vk.Check(t, "random trees with workspace and package markers of all kinds (files, executables, links; directories, dangling links and plain 'pants' files do not count), nested: workspace root, package and label of files, and the rest of a directory, against a model. Non-trivial: there are nested candidates", 6000, 300000, func(rt *rapid.T, c *vk.Case) {
		d.clear()
		tr := d.drawTree(rt)
		c.Input(strings.Join(tr.dirs, "\n"))
		c.Part("%s", strings.Join(tr.text, "\n"))
		c.Evals(len(tr.dirs))
		roots := 0
		for _, x := range tr.dirs {
			if tr.has(x, true) {
				roots++
			}
			file := strings.TrimPrefix(x+"/"+gen.Pick(rt, "BUILD", "x.bzl", "BUILD.bazel", "missing/y.bzl"), "/")
			for _, f := range []string{file} {
				root, pkg, label, ok := tr.locate(f)
				g1, g2, g3 := wspace.SplitFilePath(d.path(f))
				if !ok {
					if g1 != "" || g2 != "" || g3 != "" {
						c.Fail("%s: %q %q %q, but there is no workspace", f, g1, g2, g3)
					}
				} else if g1 != filepath.Clean(d.path(root)) || g2 != pkg || g3 != label {
					c.Fail("%s: %q %q %q, expected %q %q %q", f, g1, g2, g3, d.path(root), pkg, label)
				}
			}
			gr, rest := wspace.FindWorkspaceRoot(filepath.Clean(d.path(x)))
			root, _, _, ok := tr.locate(strings.TrimPrefix(x+"/f", "/"))
			if !ok {
				if gr != "" || rest != "" {
					c.Fail("%s: root %q, rest %q, but there is no workspace", x, gr, rest)
				}
			} else if gr != filepath.Clean(d.path(root)) || rest != strings.TrimPrefix(strings.TrimPrefix(x, root), "/") {
				c.Fail("%s: root %q, rest %q, expected %q", x, gr, rest, d.path(root))
			}
		}
		c.NonTrivial(roots > 1)
	})
}

func TestC31_Tool(t *testing.T) {
	d := newDir(t)
	vk.Check(t, "random trees; buildifier -lint=warn reports the canonical path of a file that must not load an internal module, for relative and absolute names, from several working directories and with -path. Non-trivial: the file is in a package below the root", 900, 60000, func(rt *rapid.T, c *vk.Case) {
		d.clear()
		tr := d.drawTree(rt)
		x := tr.dirs[gen.Int(rt, len(tr.dirs))]
		file := strings.TrimPrefix(x+"/"+gen.Pick(rt, "f.bzl", "sub/g.bzl"), "/")
		os.MkdirAll(d.path(parent(file)), 0o755)
		const text = "load(\"//zzz/internal:m.bzl\", \"x\")\n\ny = x\n"
		os.WriteFile(d.path(file), []byte(text), 0o644)
		wd := tr.dirs[gen.Int(rt, len(tr.dirs))]
		abs := gen.Pct(rt, 30)
		arg := d.path(file)
		if !abs {
			arg, _ = filepath.Rel(d.path(wd), d.path(file))
		}
		args := []string{"-lint=warn", "-warnings=bzl-visibility", "-mode=check"}
		in := ""
		switch gen.Int(rt, 3) {
		case 0:
			args = append(args, "-path="+arg)
			in = text
		case 1:
			args = append(args, "-path="+arg, d.path("other"))
			d.put("other", text)
		default:
			args = append(args, arg)
		}
		c.Input(strings.Join(tr.dirs, "\n"))
		c.Part("%s\nfile %s, in %s: buildifier %q", strings.Join(tr.text, "\n"), file, wd, args)
		top := d.dir
		d.dir = d.path(wd)
		res := d.run(in, args...)
		d.dir = top
		root, pkg, label, ok := tr.locate(file)
		_ = root
		if !ok {
			if res.err != "" || res.rc != 0 {
				c.Fail("no workspace, but exit %d %q", res.rc, res.err)
			}
			return
		}
		canon := "//" + label
		if pkg != "" {
			canon = "//" + pkg + "/" + label
		}
		if res.rc != 4 || !strings.Contains(res.err, fmt.Sprintf("not from %q", canon)) || !strings.HasPrefix(res.err, arg+":1: bzl-visibility: ") {
			c.Fail("exit %d %q, expected %s", res.rc, res.err, canon)
		}
		c.NonTrivial(pkg != "")
	})
}

func recognised(name string) bool {
	for _, s := range []string{".bzl", ".sky", ".star"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	if name == "BUILD" || name == "WORKSPACE" {
		return true
	}
	for _, p := range []string{"BUILD.", "WORKSPACE.", "MODULE."} {
		if strings.HasPrefix(name, p) && (strings.HasSuffix(name, ".bazel") || strings.HasSuffix(name, ".oss")) {
			return true
		}
	}
	return false
}

func TestC31_Recursive(t *testing.T) {
	d := newDir(t)
	vk.Check(t, "random trees of directories (some named like files, some .git) and files with recognised and near-miss names: -r with one to three files or directories reports, or fixes, exactly the recognised files below and the files named, each once. Non-trivial: some files are visited and some are not", 1500, 80000, func(rt *rapid.T, c *vk.Case) {
		d.clear()
		dirs := []string{"."}
		isDir := map[string]bool{".": true}
		for n := gen.Int(rt, 6); n > 0; n-- {
			p := dirs[gen.Int(rt, len(dirs))]
			name := gen.Pick(rt, "a", "b", "c", ".git", "x.bzl", "BUILD", ".github", "d.git", "node_modules", ".hidden")
			p = filepath.Join(p, name)
			if !isDir[p] {
				isDir[p] = true
				dirs = append(dirs, p)
				os.MkdirAll(d.path(p), 0o755)
			}
		}
		var files []string
		seen := map[string]bool{}
		for n := 1 + gen.Int(rt, 10); n > 0; n-- {
			p := filepath.Join(dirs[gen.Int(rt, len(dirs))], drawName(rt))
			if gen.Pct(rt, 5) {
				p = filepath.Join(dirs[gen.Int(rt, len(dirs))], ".git")
			}
			if isDir[p] || seen[p] {
				continue
			}
			seen[p] = true
			files = append(files, p)
			d.put(p, "x=1\n")
		}
		var args []string
		var want []string
		used := map[string]bool{}
		for n := 1 + gen.Int(rt, 3); n > 0; n-- {
			if gen.Pct(rt, 30) && len(files) > 0 {
				f := files[gen.Int(rt, len(files))]
				if !used[f] {
					used[f] = true
					args = append(args, f)
					want = append(want, f)
				}
				continue
			}
			x := dirs[gen.Int(rt, len(dirs))]
			ok := true
			for _, a := range args { // no overlaps
				if a == x || strings.HasPrefix(a+"/", x+"/") || strings.HasPrefix(x+"/", a+"/") || a == "." || x == "." {
					ok = false
				}
			}
			if !ok {
				continue
			}
			args = append(args, x)
			if filepath.Base(x) == ".git" {
				continue // not visited either
			}
			var below []string
		file:
			for _, f := range files {
				rel, err := filepath.Rel(x, f)
				if err != nil || strings.HasPrefix(rel, "..") {
					continue
				}
				parts := strings.Split(rel, "/")
				for _, p := range parts[:len(parts)-1] {
					if p == ".git" {
						continue file
					}
				}
				if recognised(parts[len(parts)-1]) {
					below = append(below, f)
				}
			}
			sort.Slice(below, func(i, j int) bool { // as a walk meets them
				a, b := strings.Split(below[i], "/"), strings.Split(below[j], "/")
				for k := 0; k < len(a) && k < len(b); k++ {
					if a[k] != b[k] {
						return a[k] < b[k]
					}
				}
				return len(a) < len(b)
			})
			want = append(want, below...)
		}
		if len(args) == 0 {
			c.Skip("nothing")
		}
		for _, a := range args {
			for _, b := range args {
				if a != b && (strings.HasPrefix(b+"/", a+"/") || a == ".") {
					c.Skip("overlap")
				}
			}
		}
		c.Input(strings.Join(files, "\n"))
		c.Part("buildifier -r %q, expected %q", args, want)
		res := d.run("", append([]string{"-r", "-mode=check"}, args...)...)
		var got []string
		for _, l := range lines(res.err) {
			x, ok := strings.CutSuffix(l, " # reformat")
			if !ok {
				c.Fail("%s", res.err)
			}
			got = append(got, x)
		}
		if fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
			c.Fail("visits %q, expected %q", got, want)
		}
		rc := 0
		if len(want) > 0 {
			rc = 4
		}
		if res.rc != rc {
			c.Fail("exit %d", res.rc)
		}
		res = d.run("", append([]string{"-r"}, args...)...)
		visited := map[string]bool{}
		for _, f := range want {
			visited[f] = true
		}
		for _, f := range files {
			if (d.get(f) == "x = 1\n") != visited[f] {
				c.Fail("%s: fixed %v, expected %v (exit %d %s)", f, !visited[f], visited[f], res.rc, res.err)
			}
		}
		c.NonTrivial(len(want) > 0 && len(want) < len(files))
	})
}
