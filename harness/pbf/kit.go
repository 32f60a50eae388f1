// Package pbf checks the buildifier command line tool on scratch directories.
package pbf

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/vk"
)

// dir is a scratch directory to run buildifier in.
type dir struct {
	dir, tmp, bin string
	cred          *syscall.Credential // run as this user
	env           []string
}

func newDir(t *testing.T) *dir {
	d := vk.Scratch(t)
	for p := d; p != "/" && p != "."; p = filepath.Dir(p) {
		if fi, err := os.Stat(p); err == nil && fi.Mode().Perm()&0o055 != 0o055 && strings.Contains(p, "verif-") {
			os.Chmod(p, 0o755)
		}
	}
	x := &dir{dir: filepath.Join(d, "ws"), tmp: filepath.Join(d, "tmp"), bin: vk.Bin(t, "buildifier")}
	os.MkdirAll(x.tmp, 0o777)
	os.Chmod(x.tmp, 0o777)
	x.clear()
	return x
}

// clear empties the directory.
func (d *dir) clear() {
	filepath.Walk(d.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	if err := os.RemoveAll(d.dir); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(d.dir, 0o755); err != nil {
		panic(err)
	}
}

func (d *dir) path(rel string) string { return filepath.Join(d.dir, rel) }

func (d *dir) put(rel, text string) {
	p := d.path(rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(text), 0o666); err != nil {
		panic(err)
	}
}

func (d *dir) get(rel string) string {
	b, err := os.ReadFile(d.path(rel))
	if err != nil {
		return "<unreadable>"
	}
	return string(b)
}

var long = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// age sets an old modification time.
func (d *dir) age(rel string) { os.Chtimes(d.path(rel), long, long) }

// touched reports whether the file was written since age.
func (d *dir) touched(rel string) bool {
	fi, err := os.Stat(d.path(rel))
	return err != nil || !fi.ModTime().Equal(long)
}

type result struct {
	rc       int
	out, err string
}

func (d *dir) run(stdin string, args ...string) result { return d.runTo(nil, stdin, args...) }

func (d *dir) runTo(stdout *os.File, stdin string, args ...string) result {
	cmd := exec.Command(d.bin, args...)
	cmd.Dir = d.dir
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "TMPDIR=" + d.tmp, "HOME=" + d.tmp, "LANG=C.UTF-8"}, d.env...)
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if stdout != nil {
		cmd.Stdout = stdout
	}
	if d.cred != nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: d.cred}
	}
	err := cmd.Run()
	rc := 0
	if err != nil {
		rc = -1
		if ee, ok := err.(*exec.ExitError); ok {
			rc = ee.ExitCode()
		} else {
			errb.WriteString(err.Error())
		}
	}
	return result{rc, out.String(), errb.String()}
}

// left lists the files left in the directory for temporary files.
func (d *dir) left() (r []string) {
	es, _ := os.ReadDir(d.tmp)
	for _, e := range es {
		r = append(r, e.Name())
	}
	return
}

// parsers by -type
func parse(typ, name, text string) (*build.File, error) {
	p := build.Parse
	switch typ {
	case "build":
		p = build.ParseBuild
	case "bzl":
		p = build.ParseBzl
	case "workspace":
		p = build.ParseWorkspace
	case "module":
		p = build.ParseModule
	case "default":
		p = build.ParseDefault
	}
	return p(name, []byte(text))
}

// formatted is what the file should become.
func formatted(typ, name, text string) (string, error) {
	f, err := parse(typ, name, text)
	if err != nil {
		return "", err
	}
	return string(build.Format(f)), nil
}

// pipes of JSON diagnostics
type diagnostics struct {
	Success bool `json:"success"`
	Files   []struct {
		Filename  string `json:"filename"`
		Formatted bool   `json:"formatted"`
		Valid     bool   `json:"valid"`
		Warnings  []struct {
			Start, End  struct{ Line, Column int }
			Category    string
			Actionable  bool
			AutoFixable bool
			Message     string
			URL         string
		} `json:"warnings"`
	} `json:"files"`
}

func decode(c *vk.Case, s string) (d diagnostics) {
	dec := json.NewDecoder(strings.NewReader(s))
	if err := dec.Decode(&d); err != nil {
		c.Fail("no JSON: %v\n%s", err, s)
	}
	return
}

var names = []string{"BUILD", "a/BUILD.bazel", "a/x.bzl", "WORKSPACE", "MODULE.bazel", "a/deps.MODULE.bazel", "y.star", "a/b/c.sky", "prelude", "a/b.build", "BUILD.foo", "a/b/BUILD", "z.bzl", "b/third.BUILD", "w.workspace", "BUILD.bazel.oss", "some file.bzl", "é.bzl"}

// draw draws the contents of a file.
func draw(rt *rapid.T, name string) string {
	bl := !strings.HasSuffix(name, ".bzl") && gen.Pct(rt, 70)
	t := gen.File(rt, gen.Cfg{BuildLike: bl, MaxStmts: 4, SaneComment: true, WildComment: gen.Pct(rt, 15)}).Text
	switch gen.Int(rt, 30) {
	case 0:
		return ""
	case 1:
		return "# only a comment\n"
	case 2:
		return strings.TrimRight(t, "\n")
	case 3:
		return t + "\n\n"
	}
	return t
}

func sorted(xs []string) []string {
	r := append([]string{}, xs...)
	sort.Strings(r)
	return r
}

func lines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}
