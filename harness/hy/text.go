package hy

import (
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// Block is a file with a block of text, at the end or before something else.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick head=1 len=3
//verif:thorough head=2 len=5
//verif:reach good bad
func Block() {
	start()
	block("normal")
}

// BlockStyled is written in another style.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick head=1 len=2
//verif:thorough head=1 len=4
//verif:reach good bad
func BlockStyled() {
	start()
	style := styles[1+sym.Choice(len(styles)-1)]
	viper.Set("outputStyle", []string{style})
	block(style)
}

func block(style string) {
	text := []string{"|", ">"}[sym.Choice(2)] + sym.Str(sym.Param("head", 1), "+-12 #") + "\n " + sym.Str(sym.Param("len", 4), " \nx#:")
	switch sym.Choice(4) {
	case 0:
		text = "a: " + text
	case 1:
		text = "a: " + text + "\nb: c\n"
	case 2:
		text = "- " + text + "\n- c\n"
	case 3:
		text = "a:\n  - b: " + text
	}
	vfs.AddText(source, text)
	check("block", style, plain)
}

// Lines is a scalar of several lines without block style.
//
//verif:check C28
//verif:use vfs yamltext
//verif:quick len=4
//verif:thorough len=6
//verif:reach good bad
func Lines() {
	start()
	body := sym.Str(sym.Param("len", 4), " \n\\x'\"")
	switch sym.Choice(3) {
	case 0:
		body = "\"" + body + "y\""
	case 1:
		body = "'" + body + "y'"
	case 2:
		body = "x" + body + "y"
	}
	vfs.AddText(source, "a: "+body+"\nb: c\n")
	check("lines", "normal", plain)
}

var runes = []string{"\u00e9", "\u65e5", "\U0001f600", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufeff", "\ufffd", "\u0001", "\u007f", "\u0000", "\ue000", "\r", "\b"}

// Runes is text with characters that are not printable ASCII, in every style.
//
//verif:check C28
//verif:use vfs yamltext
//verif:reach good
func Runes() {
	start()
	style := styles[sym.Choice(len(styles))]
	viper.Set("outputStyle", []string{style})
	r := runes[sym.Choice(len(runes))]
	c := sym.Str(1, "\n a:#\"")
	v := gen.S([]string{r, r + c, c + r, r + c + "x", "x" + c + r}[sym.Choice(5)])
	v.Style = yaml.DoubleQuotedStyle
	doc := gen.M(gen.S("a"), v, gen.S("z"), gen.S("y"))
	if sym.Bool() {
		doc = gen.M(v, gen.Q(v))
	}
	vfs.Add(source, gen.Doc(gen.Clone(doc)))
	in, ok := check("runes", style, plain)
	if ok {
		sym.Assert("C28", "runes-written", gen.Eq(in[0].Content[0], doc))
	}
}
