package hy

import (
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
)

// Kinds is a file of documents of every kind, among them ones without content.
//
//verif:check C28 C22
//verif:use vfs yamltext
//verif:quick n=2
//verif:thorough n=3
//verif:reach good empty
func Kinds() {
	start()
	style := styles[sym.Choice(len(styles))]
	viper.Set("outputStyle", []string{style})
	text := []string{"", "---\n"}[sym.Choice(2)]
	for i := 1 + sym.Choice(sym.Param("n", 2)); i > 0; i-- {
		text += []string{"", "null\n", "~\n", "# " + sym.Str(1, "a -") + "\n", "{}\n", "''\n", "- " + sym.Str(1, "a ") + "\n", "a: b\n"}[sym.Choice(8)]
		if i > 1 {
			text += []string{"---\n", "...\n---\n"}[sym.Choice(2)]
		}
	}
	vfs.AddText(source, text)
	check("kinds", style, plain)
}

// IndentLevels has every indentation and looks at where the lines start.
//
//verif:check C19 C28
//verif:use vfs yamltext
//verif:reach written
func IndentLevels() {
	start()
	level := sym.Choice(10)
	viper.Set("indentLevel", level)
	c := sym.Str(1, "ab")
	vfs.AddText(source, "a:\n "+c+": c\n d:\n - e\n")
	if run(plain) != nil {
		return
	}
	sym.Reach("written")
	in := "         "[:level]
	want := "---\na:\n" + in + c + ": c\n" + in + "d:\n" + in + in + "- e\n"
	if level > 1 {
		sym.Assert("C19", "indent-effective", textOf(output) == want)
	}
	_, ok := vfs.Docs(output)
	sym.Assert("C28", "indent-readable", ok)
}
