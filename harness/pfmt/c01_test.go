package pfmt

import (
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

type ft struct {
	name  string
	typ   build.FileType
	parse func(string, []byte) (*build.File, error)
}

var fileTypes = []ft{
	{"foo/BUILD", build.TypeBuild, build.ParseBuild},
	{"foo/x.bzl", build.TypeBzl, build.ParseBzl},
	{"foo/x.star", build.TypeDefault, build.ParseDefault},
	{"WORKSPACE", build.TypeWorkspace, build.ParseWorkspace},
	{"MODULE.bazel", build.TypeModule, build.ParseModule},
}

func drawType(rt *rapid.T) ft {
	return fileTypes[gen.Int(rt, len(fileTypes))]
}

// asciiCode tells whether everything outside comments is ASCII. Non-ASCII
// bytes in re-quoted strings are printed as octal escapes, which Bazel (byte
// strings) and Starlark-Go (UTF-8 strings) read differently.
func asciiCode(s *gen.Src) bool {
	txt := s.Text
	for _, c := range s.Comments {
		txt = strings.Replace(txt, c, "", 1)
	}
	for i := 0; i < len(txt); i++ {
		if txt[i] >= 0x80 {
			return false
		}
	}
	return true
}

func reset() {
	build.DisableRewrites = nil
	build.AllowSort = nil
}

// TestC01_Layout: the layout-only formatter prints the same program.
func TestC01_Layout(t *testing.T) {
	vk.Check(t, "grammar-generated files of the 5 types with random layout and comments; non-trivial: at least two syntax features and output differs from input", 200000, 8000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		typ := drawType(rt)
		sg := gen.Pct(rt, 50)
		src := gen.File(rt, gen.Cfg{StarlarkGo: sg, WildComment: gen.Pct(rt, 50), BuildLike: gen.Pct(rt, 40)})
		c.Input(src.Text)
		c.Part("type %s", typ.name)
		f, err := typ.parse(typ.name, []byte(src.Text))
		if err != nil {
			if sg {
				if _, e2 := astx.ParseSG(src.Text); e2 == nil {
					c.Fail("valid program rejected: %v", err)
				}
			}
			c.Label("rejected")
			return
		}
		before := astx.Dump(f, astx.Opt{})
		out := build.FormatWithoutRewriting(f)
		c.Part("output:\n%s", out)
		f2, err := typ.parse(typ.name, out)
		if err != nil {
			c.Fail("formatted output does not parse: %v", err)
		}
		after := astx.Dump(f2, astx.Opt{})
		if before != after {
			c.Fail("program changed\nbefore: %s\nafter:  %s", before, after)
		}
		if s1, e1 := astx.ParseSG(src.Text); e1 == nil && asciiCode(src) {
			c.Label("starlark-go")
			s2, e2 := astx.ParseSG(string(out))
			if e2 != nil {
				c.Fail("formatted output is not valid Starlark: %v", e2)
			}
			d1, d2 := astx.DumpSG(s1), astx.DumpSG(s2)
			if d1 != d2 {
				c.Fail("program changed (Starlark-Go)\nbefore: %s\nafter:  %s", d1, d2)
			}
		}
		for _, x := range src.Feats() {
			c.Label(x)
		}
		c.NonTrivial(len(src.Feat) >= 2 && strings.TrimSpace(string(out)) != strings.TrimSpace(src.Text))
	})
}
