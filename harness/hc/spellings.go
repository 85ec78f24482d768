package hc

import (
	"strings"

	"github.com/op/go-logging"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/commands"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
)

// named is a documented value of a setting: all its names and what it does.
type named struct {
	setting int
	names   string
	want    func(e effects) bool
}

func styled(s string) func(effects) bool { return func(e effects) bool { return e.style == s } }

func logged(l logging.Level) func(effects) bool { return func(e effects) bool { return e.level == l } }

func injected(b bool) func(effects) bool { return func(e effects) bool { return e.inject == b } }

func gone(b bool) func(effects) bool { return func(e effects) bool { return e.gone == b } }

func printed(b bool) func(effects) bool { return func(e effects) bool { return (e.dir == "") == b } }

// The first word is a name as documented, each further one another name for it.
var documented = []named{
	{6, "critical crit c", logged(logging.CRITICAL)},
	{6, "error err e", logged(logging.ERROR)},
	{6, "warning warn w", logged(logging.WARNING)},
	{6, "notice note n", logged(logging.NOTICE)},
	{6, "info i", logged(logging.INFO)},
	{6, "debug d verbose v", logged(logging.DEBUG)},
	{4, "normal n", styled("plain")},
	{4, "tagged tag t", styled("tagged")},
	{4, "doubleQuoted doubleQuote double dq", styled("double")},
	{4, "singleQuoted singleQuote single sq", styled("single")},
	{4, "literal l", styled("literal")},
	{4, "folded fold fo", styled("folded")},
	{4, "flow fl", styled("flow")},
	{3, "ignore", injected(false)},
	{3, "inject", injected(true)},
	{2, "true", gone(true)},
	{2, "false", gone(false)},
	{1, "true", printed(true)},
	{1, "false", printed(false)},
}

// Spellings gives a setting each of its documented values, by any name, in any letter case, from any source.
//
//verif:check C24
//verif:use vfs yaml enumflag cobra viper
//verif:quick
//verif:reach flag env file
func Spellings() {
	begin()
	d := documented[sym.Choice(len(documented))]
	s := settings[d.setting]
	names := strings.Split(d.names, " ")
	name := names[sym.Choice(len(names))]
	switch sym.Choice(3) {
	case 1:
		name = strings.ToUpper(name)
	case 2:
		name = strings.ToUpper(name[:1]) + strings.ToLower(name[1:])
	}
	var args []string
	switch sym.Choice(4) {
	case 0:
		sym.Reach("flag")
		if s.key == "logLevel" || s.key == "removeComments" || s.key == "stdout" || s.short == "" {
			args = []string{"--" + s.flag + "=" + name}
		} else {
			args = []string{"-" + s.short, name}
		}
	case 1:
		sym.Reach("flag")
		args = []string{"--" + s.flag + "=" + name}
	case 2:
		sym.Reach("env")
		vfs.Setenv(s.env, name)
	case 3:
		sym.Reach("file")
		if len(name) == 1 { // n is a boolean in YAML 1.1
			name = "\"" + name + "\""
		}
		if s.key == "outputStyle" {
			name = "[" + name + "]"
		}
		vfs.AddText("w/yot.config", s.key+": "+name+"\n")
	}
	root := commands.New()
	root.Command.SetArgs(append(args, "-i", "i.yaml"))
	vfs.Ready()
	err := root.Command.Execute()
	sym.Assert("C24", "spelling-accepted", err == nil)
	e, ok := observe()
	sym.Observe("dir", e.dir)
	sym.Observe("style", e.style)
	sym.ObserveInt("level", int(e.level))
	sym.ObserveBool("inject", e.inject)
	sym.Assert("C24", "spelling-meaning", ok && d.want(e))
}

// AnyValue gives a setting any text from any source: the command ends in an orderly way.
//
//verif:check C24
//verif:use vfs yaml enumflag cobra viper
//verif:quick len=4
//verif:thorough len=7
//verif:reach fine refused
func AnyValue() {
	begin()
	s := settings[sym.Choice(len(settings))]
	name := sym.Str(1+sym.Choice(sym.Param("len", 2)), "-0123456789abcdefghijklmnopqrstuvwxyz")
	var args []string
	switch sym.Choice(3) {
	case 0:
		if s.key == "defaultOnMissingAction" { // read as YAML
			words := []string{"7", "1.5", "~", "[a]", "{a", "", "a: b", "-", "# a"}
			name = sym.Str(len(name), gen.Letters)
			if i := sym.Choice(len(words) + 1); i > 0 {
				name = words[i-1]
			}
		}
		args = []string{"--" + s.flag + "=" + name}
	case 1:
		vfs.Setenv(s.env, name)
	case 2:
		vfs.AddText("w/yot.config", s.key+": \""+name+"\"\n")
	}
	vfs.Ready()
	code := cli(append(args, "-i", "i.yaml")...)
	sym.ObserveInt("code", code)
	sym.Assert("C24", "any-value-status", code == 0 || code == 1)
	ok := true
	if code == 0 {
		sym.Reach("fine")
		if len(vfs.Written()) > 0 {
			docs, found := vfs.Docs(vfs.Written()[0])
			ok = found && len(docs) == 1 && text(docs[0], "k") != "?"
		}
	} else {
		sym.Reach("refused")
		ok = len(vfs.Written()) == 0
	}
	sym.Assert("C24", "any-value-result", ok)
}
