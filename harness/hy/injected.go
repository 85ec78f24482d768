package hy

import (
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// Injected is a path with any text for a name that the source does not have, given with the command line.
//
//verif:check C28 C12
//verif:use vfs yamltext
//verif:quick len=2
//verif:thorough len=3
//verif:reach new known
func Injected() {
	start()
	viper.Set("defaultOnMissingAction", "inject")
	known := []string{"null", "''", "'1'", "k"}[sym.Choice(4)]
	vfs.AddText(source, "x:\n  "+known+": old\n")
	vfs.AddText("w/i.yaml", plain)
	name := sym.Str(sym.Choice(sym.Param("len", 2)+1), "")
	quoted, comma, quote := "", false, false
	for i := 0; i < len(name); i++ {
		if name[i] == '\'' || name[i] == '\\' {
			quoted += "\\"
		}
		quoted += name[i : i+1]
		comma = sym.Or(comma, name[i] == ',')
		quote = sym.Or(quote, sym.Or(name[i] == '\'', name[i] == '"'))
	}
	// the library that reads paths cuts a name with both in two
	sym.Assume(!sym.And(comma, quote))
	cfg := &instructions.Config{InstructionsFile: "i.yaml"}
	if cfg.Overlay.Query.Set("x['"+quoted+"']") != nil {
		sym.Assert("C12", "injected-query", false)
		return
	}
	cfg.Overlay.Action = actions.Replace
	cfg.Value = "new"
	vfs.Ready()
	before, _ := vfs.Docs(source)
	err := instructions.Execute(cfg)
	sym.Assert("C12", "injected-done", err == nil)
	if err != nil {
		return
	}
	out, ok := vfs.Docs(output)
	sym.Assert("C28", "injected-readable", ok && len(out) == 1)
	if !ok || len(out) != 1 {
		return
	}
	got := at(out[0].Content[0], "x")
	want := at(before[0].Content[0], "x")
	if want.Content[0].Value == name {
		sym.Reach("known")
		sym.Assert("C12", "injected-known", sym.And(len(got.Content) == 2, got.Content[1].Value == "new"))
		return
	}
	sym.Reach("new")
	sym.Assert("C12", "injected-new", sym.And(len(got.Content) == 4, got.Content[1].Value == "old"))
	if len(got.Content) != 4 {
		return
	}
	key, value := got.Content[2], got.Content[3]
	sym.Assert("C12", "injected-value", sym.And(value.Kind == yaml.ScalarNode, value.Value == "new"))
	sym.Assert("C28", "injected-name", sym.And(key.Kind == yaml.ScalarNode, key.Value == name))
	sym.Assert("C28", "injected-text", sym.And(key.ShortTag() == "!!str", gen.Eq(want.Content[0], got.Content[0])))
}

// InsertedEntry is an overlay with any text for an entry of its value, in block and flow style.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=2
//verif:thorough len=3
//verif:reach good bad
func InsertedEntry() {
	start()
	vfs.AddText(source, "a: {}\nc: d\n")
	how := []string{"query: a\n  action: replace", "query: a\n  action: merge", "query: a.b\n  onMissing:\n    action: inject"}[sym.Choice(3)]
	form := [][2]string{{"\n    ", "\n"}, {" {", "}\n"}}[sym.Choice(2)]
	text := "commonOverlays:\n- " + how + "\n  value:" + form[0] + sym.Str(sym.Param("len", 2), gen.Text) + ": x" + form[1] + plain
	vfs.AddText("w/read.yaml", text)
	read, ok := vfs.Docs("w/read.yaml")
	err := run(text)
	sym.Assert("C28", "entry-reported", ok == (err == nil))
	if !ok || err != nil {
		sym.Reach("bad")
		return
	}
	sym.Reach("good")
	value := at(at(read[0].Content[0], "commonOverlays").Content[0], "value")
	for _, n := range gen.Nodes(value) {
		n.Anchor = ""
	}
	// keys of equal text and different tags are one key to merge
	if len(value.Content) == 4 {
		sym.Assume(value.Content[0].Value != value.Content[2].Value)
	}
	if how[7:10] == "a.b" {
		value = gen.M(gen.S("b"), value)
	}
	out, ok := vfs.Docs(output)
	sym.Assert("C28", "entry-readable", ok)
	if ok {
		sym.Assert("C28", "entry-same", sameDocs([]*yaml.Node{gen.Doc(gen.M(gen.S("a"), value, gen.S("c"), gen.S("d")))}, out, true))
	}
}
