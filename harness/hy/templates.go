package hy

import (
	"strings"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
)

// parts are lines of a list of overlays that a template makes, and what they come to; an empty second part means that the
// template cannot be read or executed. A and B stand for the values.
var parts = [][2]string{
	{"  - {query: t, action: replace, value: <{{ .a }}>}\n", "  - {query: t, action: replace, value: <A>}\n"},
	{"{{ range .l }}\n  - {query: t, action: merge, value: '%v<{{ . }}>'}\n{{ end }}\n", "  - {query: t, action: merge, value: '%v<A>'}\n  - {query: t, action: merge, value: '%v<B>'}\n"},
	{"{{- range .l }}\n  - {query: t, action: merge, value: '%v{{ . }}{{ $.m.b }}'}\n{{- end }}\n", "  - {query: t, action: merge, value: '%vAB'}\n  - {query: t, action: merge, value: '%vBB'}\n"},
	{"{{- if eq .a \"x\" }}\n  - {query: t, action: replace, value: x}\n{{- else }}\n  - {query: t, action: replace, value: {{ .a | quote }}}\n{{- end }}\n", "?"},
	{"{{ with .m }}\n  - query: t\n    action: replace\n    value:\n      {{ .b }}: {{ $.a }}\n{{ end }}\n", "  - query: t\n    action: replace\n    value:\n      B: A\n"},
	{"  - query: t\n    action: replace\n    value: {{ .m | toJson | nindent 6 }}\n", "  - query: t\n    action: replace\n    value: {\"b\": \"B\"}\n"},
	{"# {{ .a }}\n{{/* none */}}\n", "\n"},
	{"{{ if .none }}\n  - {query: t, action: {{ nope }}}\n{{ end }}\n", ""},
	{"{{ if not .none }}\n  - {query: t, action: {{ .n }}, value: '{{ default \"d\" .none }}'}\n{{ end }}\n", "  - {query: t, action: replace, value: 'd'}\n"},
	{"# {{ .a.b }}\n", ""},
	{"# {{ .none.b.c }}\n", ""},
	{"# {{ upper .l }}\n", ""},
	{"# {{ end }}\n", ""},
	{"# {{ if .a }}\n", ""},
	{"# {{ .a\n", ""},
	{"# {{ none .a }}\n", ""},
}

// TemplateText has templates that make YAML, and templates that fail where the text until then is a complete file.
//
//verif:check C27
//verif:use vfs yamltext template
//verif:reach rendered failed
//verif:opt samples=300
func TemplateText() {
	start()
	a, b := sym.Str(1, "xyz"), sym.Str(1, "pqr")
	vfs.AddText("w/v.yaml", "a: \""+a+"\"\nm:\n  b: \""+b+"\"\nl:\n- \""+a+"\"\n- \""+b+"\"\n")
	vfs.AddText("w/w.yaml", "n: replace\n")
	vfs.AddText(source, "t: old\n")
	text := "yamlFiles:\n- path: a.yaml\n  overlays:\n  - {query: none, action: delete}\n"
	want, fails := text, false
	last := 0
	for i := 0; i < 2; i++ {
		k := sym.Choice(len(parts))
		if last == 13 && k == 12 { // together these make sense
			sym.Assume(false)
		}
		last = k
		p := parts[k]
		w := p[1]
		if w == "?" {
			w = "  - {query: t, action: replace, value: \"A\"}\n"
			if a == "x" {
				w = "  - {query: t, action: replace, value: x}\n"
			}
		}
		fails = fails || w == ""
		text += p[0]
		want += strings.Replace(strings.Replace(w, "B", b, -1), "A", a, -1)
	}
	vfs.AddText("w/i.yaml", text)
	vfs.Ready()
	err := instructions.Execute(&instructions.Config{InstructionsFile: "i.yaml", ValueFiles: []string{"v.yaml", "w.yaml"}})
	sym.Assert("C27", "text-fails", (err != nil) == fails)
	if fails || err != nil {
		sym.Assert("C27", "text-nothing-written", len(vfs.Written()) == 0)
		sym.Reach("failed")
		return
	}
	got, ok := vfs.Docs(output)
	if err := run(want); err != nil {
		sym.Assert("C27", "text-accepted", false)
		return
	}
	plainly, also := vfs.Docs(output)
	sym.Assert("C27", "text-rendered", ok && also)
	sym.Assert("C27", "text-rendered", sameDocs(got, plainly, true))
	sym.Observe("out", gen.Show(got[0]))
	sym.Reach("rendered")
}
