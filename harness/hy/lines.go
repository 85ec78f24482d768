package hy

import (
	"strings"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
)

// InsertedLines is a text of several lines put in the place of one that comments surround.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=3
//verif:thorough len=4
//verif:reach good
func InsertedLines() {
	start()
	style := styles[sym.Choice(len(styles))]
	viper.Set("outputStyle", []string{style})
	src := []string{
		"a: b\n\n# QZ\n\nc: d\n",
		"# QZ\na: b # QZ\n# QZ\n",
		"c: d\nx:\n- e\na: 'b'\n\n# QZ\n",
		"c: d # QZ\na: >\n  b\n# QZ\n\nx: {}\n",
	}[sym.Choice(4)]
	vfs.AddText(source, src)
	t, quoted := sym.Str(1+sym.Choice(sym.Param("len", 3)), "a\n #"), ""
	for i := 0; i < len(t); i++ {
		if sym.Decide(t[i] == '\n') {
			quoted += "\\n"
		} else {
			quoted += t[i : i+1]
		}
	}
	action := []string{"replace", "merge", "combine"}[sym.Choice(3)]
	before, _ := vfs.Docs(source)
	want := before[0].Content[0]
	old := at(want, "a")
	if action == "combine" {
		t = old.Value + t
	}
	err := run("commonOverlays:\n- query: a\n  action: " + action + "\n  value: \"" + quoted + "\"\n" + plain)
	sym.Assert("C28", "lines-done", err == nil)
	out, ok := vfs.Docs(output)
	sym.Assert("C28", "lines-readable", ok && len(out) == 1)
	if err != nil || !ok || len(out) != 1 {
		return
	}
	old.Value = t
	sym.Observe("text", textOf(output))
	sym.Assert("C28", "lines-same", same(want, out[0].Content[0], false))
	if style == "normal" || style == "tagged" || style == "flow" {
		sym.Assert("C28", "lines-text", at(out[0].Content[0], "a").ShortTag() == gen.S("").Tag)
	}
	sym.Assert("C28", "lines-comments", strings.Count(textOf(output), sign) == strings.Count(src, sign))
	sym.Reach("good")
}
