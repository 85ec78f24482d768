// Package hy holds the harnesses in which files are text: YAML is read and written by the library itself, executed from
// its source.
package hy

import (
	"os"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

const (
	source = "w/a.yaml"
	output = "w/output/a.yaml"
	plain  = "yamlFiles:\n- path: a.yaml\n"
)

// start begins a run with no files and the default settings.
func start() {
	vfs.Reset()
	vfs.Plain = true
	viper.Set("instructionsDir", "")
	viper.Set("instructionDir", "")
	viper.Set("outputDirectory", "./output")
	viper.Set("stdout", false)
	viper.Set("removeComments", false)
	viper.Set("indentLevel", 2)
	viper.Set("outputStyle", []string{"normal"})
	viper.Set("defaultOnMissingAction", "ignore")
}

// run executes instructions.
func run(text string) error {
	vfs.AddText("w/i.yaml", text)
	vfs.Ready()
	return instructions.Execute(&instructions.Config{InstructionsFile: "i.yaml"})
}

// textOf is the text of a file.
func textOf(p string) string {
	b, err := os.ReadFile(vfs.Abs(p))
	if err != nil {
		return ""
	}
	return string(b)
}

var styles = []string{"normal", "tagged", "flow", "doubleQuoted", "singleQuoted", "literal", "folded"}

// sameDocs compares the data of documents. In the styles that quote everything a scalar loses the type it would have
// without quotes.
func sameDocs(a, b []*yaml.Node, types bool) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, same(a[i], b[i], types))
	}
	return r
}

func same(a, b *yaml.Node, types bool) bool {
	if a.Kind != b.Kind || len(a.Content) != len(b.Content) {
		return false
	}
	null := sym.And(a.Tag == "!!null", b.Tag == "!!null")
	r := sym.And(sym.Or(a.Value == b.Value, null), a.Anchor == b.Anchor)
	if types || a.Kind != yaml.ScalarNode {
		r = sym.And(r, a.Tag == b.Tag)
	}
	for i := range a.Content {
		r = sym.And(r, same(a.Content[i], b.Content[i], types))
	}
	return r
}

// check runs instructions on the source that change no data and compares it with the output.
func check(id, style, text string) (in []*yaml.Node, ok bool) {
	in, ok = vfs.Docs(source)
	err := run(text)
	sym.Assert("C28", id+"-reported", ok == (err == nil))
	if !ok || err != nil {
		sym.Reach("bad")
		return nil, false
	}
	if len(in) == 0 {
		sym.Reach("empty")
		sym.Assert("C22", id+"-empty-omitted", len(vfs.Written()) == 0)
		return nil, false
	}
	sym.Reach("good")
	out, ok := vfs.Docs(output)
	sym.Assert("C28", id+"-readable", ok)
	sym.Assert("C22", id+"-every-document", ok && len(in) == len(out))
	if !ok {
		return nil, false
	}
	types := style == "normal" || style == "tagged" || style == "flow"
	sym.Assert("C28", id+"-same", sameDocs(in, out, types))
	return in, true
}

// Value is a file with any text for a value.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=3
//verif:thorough len=4
//verif:reach good bad
func Value() {
	start()
	vfs.AddText(source, "a: "+sym.Str(sym.Param("len", 3), "")+"\n")
	check("value", "normal", plain)
}

// Whole is a file of any text.
//
//verif:check C28 C22
//verif:use vfs yamltext
//verif:quick len=4
//verif:thorough len=5
//verif:reach good bad empty
func Whole() {
	start()
	vfs.AddText(source, sym.Str(sym.Param("len", 4), "\n \ta:#-?{[]},.&*"))
	check("whole", "normal", plain)
}

// Documents is a file of two documents with any text between them.
//
//verif:check C28 C22
//verif:use vfs yamltext
//verif:quick len=3
//verif:thorough len=4
//verif:reach good bad
func Documents() {
	start()
	vfs.AddText(source, "a: b\n---\nc:"+sym.Str(sym.Param("len", 3), "\n \ta:#-?{[]},.&*")+"d\n---\n- e\n")
	check("documents", "normal", plain)
}

// Styled has text of any kind in every style and indentation.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=2
//verif:thorough len=3
//verif:reach good
func Styled() {
	start()
	style := styles[sym.Choice(len(styles))]
	viper.Set("outputStyle", []string{style})
	viper.Set("indentLevel", sym.Choice(2)*3+2)
	styled(style)
}

// Pairs has two styles.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=2
//verif:thorough len=3
//verif:reach good
func Pairs() {
	start()
	k := sym.Choice(len(styles) - 1)
	one, two := styles[k], styles[k+1+sym.Choice(len(styles)-1-k)]
	viper.Set("outputStyle", []string{one, two})
	styled(two)
}

// Indents has every indentation.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=1
//verif:thorough len=2
//verif:reach good
func Indents() {
	start()
	viper.Set("indentLevel", sym.Choice(12))
	style := styles[sym.Choice(4)*2]
	viper.Set("outputStyle", []string{style})
	styled(style)
}

func styled(style string) {
	v := gen.S(sym.Str(sym.Param("len", 2), "\n\t a:#-'\"\\{1~<!|>&*"))
	v.Style = yaml.DoubleQuotedStyle
	var doc *yaml.Node
	switch sym.Choice(5) {
	case 0:
		doc = gen.M(gen.S("a"), v, gen.S("z"), gen.S("y"))
	case 1:
		doc = gen.Q(v, gen.S("y"))
	case 2:
		doc = gen.M(v, gen.S("y"), gen.S("zz"), gen.S("y"))
	case 3:
		doc = v
	case 4:
		doc = gen.M(gen.S("a"), gen.Q(gen.Q(v)), gen.S("z"), gen.S("y"))
	}
	vfs.Add(source, gen.Doc(doc))
	in, ok := check("styled", style, plain)
	if ok {
		sym.Assert("C28", "styled-written", gen.Eq(in[0].Content[0], doc))
	}
}

// Inserted is an overlay with any text for its value.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=3
//verif:thorough len=4
//verif:reach good bad
func Inserted() {
	start()
	vfs.AddText(source, "a: b\nc: d\n")
	action := []string{"replace", "merge"}[sym.Choice(2)]
	text := "commonOverlays:\n- query: a\n  action: " + action + "\n  value: " + sym.Str(sym.Param("len", 3), gen.Text) + "\n" + plain
	vfs.AddText("w/read.yaml", text)
	read, ok := vfs.Docs("w/read.yaml")
	err := run(text)
	sym.Assert("C28", "inserted-reported", ok == (err == nil))
	if !ok || err != nil {
		sym.Reach("bad")
		return
	}
	sym.Reach("good")
	value := at(at(read[0].Content[0], "commonOverlays").Content[0], "value")
	for _, n := range gen.Nodes(value) {
		n.Anchor = ""
	}
	out, ok := vfs.Docs(output)
	sym.Assert("C28", "inserted-readable", ok)
	if ok {
		sym.Assert("C28", "inserted-same", sameDocs([]*yaml.Node{gen.Doc(gen.M(gen.S("a"), value, gen.S("c"), gen.S("d")))}, out, true))
	}
}

func at(n *yaml.Node, key string) *yaml.Node { return n.Content[gen.Find(n, key)+1] }
