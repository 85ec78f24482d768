package hi

import (
	"strings"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

var templateTexts = []string{
	"{{.a}}", "<{{ .a }}>{{.a}}", "{{.m.b}}", "{{.none}}", "{{upper .a}}", "{{.a | upper}}", "{{.none | default \"d\"}}", "{{default \"d\" .a}}",
	"{{if .none}}y{{else}}n{{end}}", "{{if .a}}{{.a}}{{end}}z", "{{range .l}}<{{.}}>{{end}}", "{{range .none}}x{{end}}e", "{{with .m}}{{.b}}{{end}}",
	"{{.m.b | upper | quote}}", "{{.m | toJson}}", "{{.l | toJson}}", "plain", "{ {.a} }", "{{range .l}}{{if .}}{{.}}{{end}}{{end}}",
	"{{nope .a}}", "{{.a", "{{end}}", "{{if .a}}", "{{.a.b}}", "{{.a.b.c}}", "{{.none.b}}",
}

// Templates renders instructions with values: every action prints what the template language says, and text between
// actions stays. Templates that make no sense fail the run. Without values files the instructions stay as they are.
//
//verif:check C27
//verif:use vfs yaml template
//verif:quick texts=2
//verif:thorough texts=2
//verif:reach rendered failed static
//verif:opt samples=500
func Templates() {
	start()
	a, b, c := sym.Str(1, "abz"), sym.Str(1, gen.Letters), sym.Str(1, gen.Letters)
	if sym.Choice(2) == 1 {
		a = "{{.m}}" // what a value says is not a template
	}
	vfs.Add("w/v.yaml", gen.Doc(gen.M(gen.S("a"), gen.S(a), gen.S("m"), gen.M(gen.S("b"), gen.S(b)), gen.S("l"), gen.Q(gen.S(b), gen.S(c)))))
	vfs.Add("w/f.yaml", gen.Doc(mapping("id", "k", "t", ".", "u", ".")))
	var items []*yaml.Node
	want := map[string]string{"t": ".", "u": "."}
	fails := false
	cfg := &instructions.Config{InstructionsFile: "i.yaml"}
	static := sym.Choice(2) == 0
	if !static {
		cfg.ValueFiles = []string{"v.yaml"}
	}
	for i, k := range []string{"t", "u"} {
		if i >= sym.Param("texts", 2) {
			break
		}
		n := sym.Choice(len(templateTexts))
		if i > 0 && (n > 5 && n < 19 || n == 21) { // an end here would end what the first text began
			sym.Assume(false)
		}
		t := templateTexts[n]
		items = append(items, mapping("query", k, "action", "replace", "value", t))
		want[k] = t
		if static {
			continue
		}
		switch n {
		case 0, 7:
			want[k] = a
		case 1:
			want[k] = "<" + a + ">" + a
		case 2, 12:
			want[k] = b
		case 3:
			want[k] = "<no value>"
		case 4, 5:
			want[k] = strings.ToUpper(a)
		case 6:
			want[k] = "d"
		case 8:
			want[k] = "n"
		case 9:
			want[k] = a + "z"
		case 10:
			want[k] = "<" + b + "><" + c + ">"
		case 11:
			want[k] = "e"
		case 13:
			want[k] = "\"" + strings.ToUpper(b) + "\""
		case 14:
			want[k] = "{\"b\":\"" + b + "\"}"
		case 15:
			want[k] = "[\"" + b + "\",\"" + c + "\"]"
		case 18:
			want[k] = b + c
		}
		fails = fails || n >= 19
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", "f.yaml", "overlays", gen.Q(items...)))))
	vfs.Ready()
	err := instructions.Execute(cfg)
	sym.ObserveInt("failed", failed(err))
	sym.Assert("C27", "template-fails", (err != nil) == fails)
	written := vfs.Written()
	if err != nil {
		sym.Assert("C27", "template-nothing-written", len(written) == 0)
		sym.Reach("failed")
		return
	}
	docs, ok := vfs.Docs("w/output/f.yaml")
	sym.Assert("C27", "template-output", ok && len(docs) == 1)
	if !ok || len(docs) != 1 {
		return
	}
	sym.Observe("t", field(docs[0], "t"))
	sym.Observe("u", field(docs[0], "u"))
	sym.Assert("C27", "template-rendered", sym.And(field(docs[0], "t") == want["t"], field(docs[0], "u") == want["u"]))
	if static {
		sym.Reach("static")
	} else {
		sym.Reach("rendered")
	}
}

func failed(err error) int {
	if err != nil {
		return 1
	}
	return 0
}
