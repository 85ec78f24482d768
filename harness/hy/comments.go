package hy

import (
	"strings"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

var skeletons = [][]string{
	{"a:", "  b: 1", "  c:", "  - x", "  - y:", "    - z", "d: 2"},
	{"a: {}", "b: []", "c:", "  {}", "d:", "  []", "e: ''"},
	{"a: {b: 1}", "c:", "  [1, 2]", "d:", "- {}", "- []", "- [[1], {}]"},
	{"- a: 1", "  b: 2", "- - c", "  - d", "- e"},
	{"a: |", "  b", "c: >", "  d", "  e", "f: \"g\\nh\"", "i: j"},
	{"? a", ": b", "? - c", ": d", "e:", "f:"},
	{"a: &x", "  b: 1", "c: *x", "d: &y e", "f: [*y, *x]"},
	{"{a: b,", " c: [d,", "  e], f: {},", " g: h}"},
	{"a: &x", "  b: 1", "  c: !t", "    d: [1]", "e: &y", "  f"},
	{"- &x", "  1", "- !t", "  []", "- *x", "- g:", "    *x"},
	{"{}: a", "[1]: [b]", "? - c", ": - d"},
	{"a:", "- [b]", "", "- {c: d}", "", "- {}", "- e: []"},
	{"&x a: b", "*x : c", "d:", "  e"},
}

const sign = "QZ"

// commented is a document with comments at some places.
func commented(n int) (style string) {
	start()
	style = styles[sym.Choice(len(styles))]
	viper.Set("outputStyle", []string{style})
	lines := append([]string{}, skeletons[sym.Choice(len(skeletons))]...)
	last := 2*len(lines) + 1
	for i := 0; i < n; i++ {
		last = sym.Choice(last)
		c := "#" + sym.Str(1, "c# :") + sign
		k := last / 2
		if last%2 != 0 {
			lines[k] += " " + c
			continue
		}
		if k < len(lines) {
			c = lines[k][:len(lines[k])-len(strings.TrimLeft(lines[k], " "))] + c
		}
		lines = append(lines[:k:k], append([]string{c}, lines[k:]...)...)
		last++
	}
	vfs.AddText(source, strings.Join(lines, "\n")+"\n")
	return style
}

// kept is whether the output has all comments that the reader found, some of which may be lines of a text.
func kept(in []*yaml.Node) bool {
	n := 0
	for _, d := range in {
		for _, v := range gen.Nodes(d) {
			n += strings.Count(v.Value, sign) + strings.Count(v.HeadComment, sign) + strings.Count(v.LineComment, sign) + strings.Count(v.FootComment, sign)
		}
	}
	return strings.Count(textOf(output), sign) == n
}

// Comment is a document with a comment at any place.
//
//verif:check C28
//verif:use vfs yamltext
//verif:reach good
func Comment() {
	style := commented(1)
	if in, ok := check("comment", style, plain); ok {
		sym.Assert("C28", "comment-kept", kept(in))
	}
}

// Comments is a document with comments at several places.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick n=2
//verif:opt weight=4
//verif:thorough n=3
//verif:reach good
func Comments() {
	if in, ok := check("comments", commented(sym.Param("n", 2)), plain); ok {
		sym.Assert("C28", "comments-kept", kept(in))
	}
}
