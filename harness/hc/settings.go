// Package hc holds the harnesses of the commands package: the command line, environment and configuration file.
package hc

import (
	"strings"
	_ "unsafe" // for linkname

	"github.com/op/go-logging"
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/commands"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

//go:linkname initializers github.com/spf13/cobra.initializers
var initializers []func()

func begin() {
	vfs.Reset()
	vfs.Setenv("HOME", vfs.Abs("home"))
	viper.Reset()
	initializers = nil
	draw()
	// a file with a comment, and an overlay that matches nothing
	k := gen.S("k")
	k.HeadComment = "#src"
	v := gen.S("b")
	vfs.Add("w/in/a.yaml", gen.Doc(gen.M(k, gen.M(gen.S("x"), v))))
	vfs.Add("w/i.yaml", gen.M(
		gen.S("commonOverlays"), gen.Q(gen.M(gen.S("query"), gen.S("new"), gen.S("value"), gen.S("c"))),
		gen.S("yamlFiles"), gen.Q(gen.M(gen.S("path"), gen.S("in/a.yaml")))))
}

// effects are what the settings did.
type effects struct {
	dir    string // where the output is, "" for standard output
	gone   bool   // comments were removed
	inject bool
	style  string // of scalars
	indent int
	level  logging.Level
}

// setting is a documented setting with three values that can be told apart; the first is the default.
type setting struct {
	key, env, flag, short string
	text                  []string
	want                  func(*effects, int)
}

var settings []setting

// draw chooses the values the settings may have; directories and digits are arbitrary.
func draw() {
	outs := []string{"output", "a" + sym.Str(1, "ab"), "beta/" + sym.Str(1, "ab")}
	digits := []string{"2", sym.Str(1, "23456789"), sym.Str(1, "23456789")}
	settings = []setting{
		{"outputDirectory", "YOT_OUTPUT_DIRECTORY", "output-directory", "o", []string{"./output", outs[1], "./" + outs[2] + "/"},
			func(e *effects, v int) { e.dir = outs[v] }},
		{"stdout", "YOT_STDOUT", "stdout", "s", []string{"false", "true"},
			func(e *effects, v int) {
				if v == 1 {
					e.dir = ""
				}
			}},
		{"removeComments", "YOT_REMOVE_COMMENTS", "remove-comments", "", []string{"false", "true"},
			func(e *effects, v int) { e.gone = v == 1 }},
		{"defaultOnMissingAction", "YOT_DEFAULT_ON_MISSING_ACTION", "default-on-missing-action", "", []string{"ignore", "inject"},
			func(e *effects, v int) { e.inject = v == 1 }},
		{"outputStyle", "YOT_OUTPUT_STYLE", "output-style", "S", []string{"normal", "dq", "singleQuoted"},
			func(e *effects, v int) { e.style = []string{"plain", "double", "single"}[v] }},
		{"indentLevel", "YOT_INDENT_LEVEL", "indent-level", "I", digits,
			func(e *effects, v int) { e.indent = int(digits[v][0] - '0') }},
		{"logLevel", "YOT_LOG_LEVEL", "log-level", "v", []string{"", "critical", "notice"},
			func(e *effects, v int) { e.level = []logging.Level{-1, logging.CRITICAL, logging.NOTICE}[v] }},
	}
}

// observe finds out what the settings did.
func observe() (e effects, ok bool) {
	w := vfs.Written()
	var docs []*yaml.Node
	switch {
	case len(w) == 0:
		docs, ok = vfs.OutDocs()
	case len(w) == 1 && strings.HasPrefix(w[0], "w/") && strings.HasSuffix(w[0], "/a.yaml"):
		e.dir = strings.TrimSuffix(w[0][2:], "/a.yaml")
		docs, ok = vfs.Docs(w[0])
	}
	if !ok || len(docs) != 1 || len(docs[0].Content) != 1 {
		return e, false
	}
	m := docs[0].Content[0]
	i := gen.Find(m, "k")
	if i < 0 || m.Content[i+1].Kind != yaml.MappingNode || len(m.Content[i+1].Content) != 2 {
		return e, false
	}
	e.gone = true
	for _, n := range gen.Nodes(docs[0]) {
		if strings.Contains(n.HeadComment, "#src") {
			e.gone = false
		}
	}
	e.inject = gen.Find(m, "new") >= 0
	in := m.Content[i+1]
	scalar := yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle | yaml.TaggedStyle
	switch in.Content[1].Style&scalar | in.Style&yaml.FlowStyle {
	case 0:
		e.style = "plain"
	case yaml.DoubleQuotedStyle:
		e.style = "double"
	case yaml.SingleQuotedStyle:
		e.style = "single"
	case yaml.LiteralStyle:
		e.style = "literal"
	case yaml.FoldedStyle:
		e.style = "folded"
	case yaml.TaggedStyle:
		e.style = "tagged"
	case yaml.FlowStyle:
		e.style = "flow"
	}
	e.indent = vfs.Indent()
	e.level = logging.GetLevel("cmd")
	return e, true
}

// where a configuration file may be.
var places = []string{"yot.config", "home/.yot", "flag", "env", "both"}

// sources draws where a setting is set and to what; -1 is not at all.
func sources(s setting) (flag, env, file int) {
	return sym.Choice(len(s.text)+1) - 1, sym.Choice(len(s.text)+1) - 1, sym.Choice(len(s.text)+1) - 1
}

func line(s setting, v int) string {
	t := s.text[v]
	if s.key == "outputStyle" {
		t = "[" + t + "]"
	}
	return s.key + ": " + t + "\n"
}

// run runs the command and compares the effects.
func run(args []string, chosen []setting, vals []int) {
	root := commands.New()
	root.Command.SetArgs(append(args, "-i", "i.yaml"))
	vfs.Ready()
	err := root.Command.Execute()
	sym.Assert("C19", "settings-run", err == nil)
	got, ok := observe()
	sym.Assert("C19", "settings-output", ok)
	var want effects
	for _, s := range settings {
		s.want(&want, 0)
	}
	for i, s := range chosen {
		if s.key != "stdout" {
			s.want(&want, vals[i])
		}
	}
	for i, s := range chosen {
		if s.key == "stdout" {
			s.want(&want, vals[i])
		}
	}
	if want.level == -1 {
		got.level = -1
	}
	sym.Observe("dir", got.dir)
	sym.Observe("style", got.style)
	sym.ObserveInt("indent", got.indent)
	sym.ObserveInt("level", int(got.level))
	sym.ObserveBool("gone", got.gone)
	sym.ObserveBool("inject", got.inject)
	sym.Assert("C19", "setting-output-directory", got.dir == want.dir)
	sym.Assert("C19", "setting-remove-comments", got.gone == want.gone)
	sym.Assert("C19", "setting-on-missing", got.inject == want.inject)
	sym.Assert("C19", "setting-style", got.style == want.style)
	sym.Assert("C19", "setting-indent", got.indent == want.indent)
	sym.Assert("C19", "setting-log-level", got.level == want.level)
}

// option is the command line for a value.
func option(s setting, v int, short bool) []string {
	t := s.text[v]
	switch {
	case s.key == "logLevel" && short, s.key == "stdout" && short && t == "false", s.key == "removeComments" && short:
		return []string{"--" + s.flag + "=" + t}
	case s.key == "stdout" && short:
		return []string{"-s"}
	case short && s.short != "":
		return []string{"-" + s.short, t}
	}
	return []string{"--" + s.flag + "=" + t}
}

// Precedence sets one setting in any of its three sources, the configuration file being in any of its places.
//
//verif:check C19
//verif:use vfs yaml enumflag cobra viper
//verif:quick
//verif:reach flag env file default
//verif:opt weight=2
func Precedence() {
	begin()
	s := settings[sym.Choice(len(settings))]
	flag, env, file := sources(s)
	var args []string
	val := 0
	if s.text[0] == "" {
		sym.Assume(flag != 0 && env != 0 && file != 0)
	}
	if file >= 0 {
		val = file
		text := line(s, file)
		switch places[sym.Choice(len(places))] {
		case "yot.config":
			vfs.AddText("w/yot.config", text)
		case "home/.yot":
			vfs.AddText("home/.yot/yot.config", text)
		case "flag":
			vfs.AddText("w/mine.yaml", text)
			args = append(args, "--config", "mine.yaml")
		case "env":
			vfs.AddText("w/mine.cfg", text)
			vfs.Setenv("YOT_CONFIG_FILE", "mine.cfg")
		case "both":
			vfs.AddText("w/mine.cfg", text)
			vfs.AddText("w/other.cfg", line(settings[0], 1)+line(settings[5], 1))
			vfs.Setenv("YOT_CONFIG_FILE", "other.cfg")
			args = append(args, "--config=mine.cfg")
		}
	}
	if env >= 0 {
		val = env
		vfs.Setenv(s.env, s.text[env])
	}
	if flag >= 0 {
		val = flag
		args = append(args, option(s, flag, sym.Choice(2) == 1)...)
	}
	switch {
	case flag >= 0:
		sym.Reach("flag")
	case env >= 0:
		sym.Reach("env")
	case file >= 0:
		sym.Reach("file")
	default:
		sym.Reach("default")
	}
	run(args, []setting{s}, []int{val})
}

// Independence sets two settings from different sources.
//
//verif:check C19
//verif:use vfs yaml enumflag cobra viper
//verif:quick
//verif:reach ran
func Independence() {
	begin()
	i := sym.Choice(len(settings))
	j := sym.Choice(len(settings))
	sym.Assume(i != j)
	var args []string
	text := ""
	chosen := []setting{settings[i], settings[j]}
	vals := make([]int, 2)
	for k, s := range chosen {
		vals[k] = 1
		switch sym.Choice(3) {
		case 0:
			text += line(s, 1)
		case 1:
			vfs.Setenv(s.env, s.text[1])
		case 2:
			args = append(args, option(s, 1, true)...)
		}
	}
	vfs.AddText("w/yot.config", text)
	run(args, chosen, vals)
	sym.Reach("ran")
}

// Env runs the env command, which shows the values in effect.
//
//verif:check C19
//verif:use vfs yaml enumflag cobra viper
//verif:quick
//verif:reach all one
func Env() {
	begin()
	shown := []string{"./output", "false", "false", "ignore", "[normal]", "2", "warning"}
	var want []string
	text := ""
	k := sym.Choice(len(settings)) // the one to vary; the next one is in the file
	for i, s := range settings {
		v := shown[i]
		switch i {
		case k:
			switch sym.Choice(3) {
			case 1:
				v = s.text[1]
				vfs.Setenv(s.env, v)
			case 2:
				v = s.text[2%len(s.text)]
				text += line(s, 1)
				vfs.Setenv(s.env, v)
			}
		case (k + 1) % len(settings):
			if sym.Choice(2) == 1 {
				v = s.text[1]
				text += line(s, 1)
				if s.key == "outputStyle" {
					v = "[" + v + "]"
				}
			}
		}
		want = append(want, s.env+"=\""+v+"\"\n")
	}
	vfs.AddText("w/yot.config", text)
	args := []string{"env"}
	if sym.Choice(2) == 1 {
		args = append(args, settings[k].env)
		want = want[k : k+1]
		sym.Reach("one")
	} else {
		sym.Reach("all")
	}
	root := commands.New()
	root.Command.SetArgs(args)
	vfs.Ready()
	err := root.Command.Execute()
	sym.Assert("C19", "env-succeeds", err == nil)
	out := vfs.Out()
	lines := strings.SplitAfter(out, "\n")
	for _, w := range want {
		found := false
		for _, l := range lines {
			found = sym.Or(found, l == w)
		}
		sym.Assert("C19", "env-shows", found)
	}
	if len(want) == 1 {
		sym.Assert("C19", "env-shows-one", len(lines) == 2)
	}
}
