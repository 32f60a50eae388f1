package pfmt

import (
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/convertast"
	"go.starlark.net/syntax"
	"pgregory.net/rapid"

	"verif/astx"
	"verif/gen"
	"verif/vk"
)

// TestC39_Convert: a Starlark-Go tree, converted and printed, is the same program.
func TestC39_Convert(t *testing.T) {
	vk.Check(t, "grammar-generated files that Starlark-Go accepts (statements, functions, loads, comprehensions, lambdas, slices, big integers, strings of all forms), with and without comments; parsed by Starlark-Go, converted, printed and parsed again: the same tree up to positions and parentheses, which buildtools' parser reads like the source itself; the comments are those of the source; non-trivial: at least two syntax features", 100000, 4000000, func(rt *rapid.T, c *vk.Case) {
		reset()
		noComments := gen.Pct(rt, 40)
		src := gen.File(rt, gen.Cfg{StarlarkGo: true, ASCII: true, NoComments: noComments, BuildLike: gen.Pct(rt, 40)})
		c.Input(src.Text)
		if !asciiCode(src) {
			// printed as octal escapes, which Bazel reads as bytes and Starlark-Go doesn't accept
			c.Skip("non-ASCII string")
		}
		mode := syntax.Mode(0)
		if !noComments {
			mode = syntax.RetainComments
		}
		f, err := syntax.Parse("f.star", src.Text, mode)
		if err != nil {
			c.Label("rejected")
			return
		}
		before := astx.DumpSG(f)
		conv := convertast.ConvFile(f)
		out := string(build.FormatWithoutRewriting(conv))
		c.Part("output:\n%s", out)
		if d := astx.DumpSG(f); d != before {
			c.Fail("the conversion changed its argument")
		}
		f2, err := astx.ParseSG(out)
		if err != nil {
			c.Fail("the printed program isn't accepted by Starlark-Go: %v", err)
		}
		if after := astx.DumpSG(f2); after != before {
			c.Fail("program changed\nbefore: %s\nafter:  %s", before, after)
		}
		num := func(s string) bool { return s == "editoctal" }
		b0, err := build.ParseDefault("f.star", []byte(src.Text))
		if err != nil {
			c.Fail("buildtools rejects the source: %v", err)
		}
		b1, err := build.ParseDefault("f.star", []byte(out))
		if err != nil {
			c.Fail("buildtools rejects the printed program: %v", err)
		}
		if x, y := canon(astx.FromAST(b0), num).String(), canon(astx.FromAST(b1), num).String(); x != y {
			c.Fail("program changed (buildtools)\nbefore: %s\nafter:  %s", x, y)
		}
		if !noComments {
			a, z := sgComments(f), splitComments(astx.ScanComments(out))
			sort.Strings(a)
			sort.Strings(z)
			if x, y := strings.Join(a, "\n"), strings.Join(z, "\n"); x != y {
				c.Fail("comments changed:\n%s\nwere\n%s", y, x)
			}
		}
		for _, x := range src.Feats() {
			c.Label(x)
		}
		c.NonTrivial(len(src.Feat) >= 2)
	})
}

// sgComments returns the comments that a Starlark-Go tree keeps.
func sgComments(f *syntax.File) []string {
	var all []string
	seen := map[syntax.Node]bool{}
	syntax.Walk(f, func(n syntax.Node) bool {
		if n == nil || n.Comments() == nil || seen[n] {
			return true
		}
		seen[n] = true // a loaded symbol may be the same node as its name
		for _, l := range [][]syntax.Comment{n.Comments().Before, n.Comments().Suffix, n.Comments().After} {
			for _, c := range l {
				all = append(all, strings.TrimSpace(c.Text))
			}
		}
		return true
	})
	return all
}

// splitComments separates the end-of-line comments which end up on the same line.
func splitComments(list []string) []string {
	return strings.Split(strings.ReplaceAll(strings.Join(list, "\n"), "  #", "\n#"), "\n")
}
