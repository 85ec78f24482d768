// Package hi holds the harnesses of the instructions package: whole runs of the tool.
package hi

import (
	"strconv"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// start begins a run with no files and the default settings.
func start() {
	vfs.Reset()
	viper.Set("instructionsDir", "")
	viper.Set("instructionDir", "")
	viper.Set("outputDirectory", "./output")
	viper.Set("stdout", false)
	viper.Set("removeComments", false)
	viper.Set("indentLevel", 2)
	viper.Set("outputStyle", []string{"normal"})
	viper.Set("defaultOnMissingAction", "ignore")
}

// mapping builds a map from texts and nodes.
func mapping(kv ...interface{}) *yaml.Node {
	m := gen.M()
	for _, x := range kv {
		switch v := x.(type) {
		case string:
			m.Content = append(m.Content, gen.S(v))
		case *yaml.Node:
			m.Content = append(m.Content, v)
		}
	}
	return m
}

func num(i int) *yaml.Node { return gen.T("!!int", strconv.Itoa(i)) }

// step is an overlay that appends a letter to the trace of a document.
func step(letter string) *yaml.Node {
	return mapping("query", "t", "action", "combine", "value", letter)
}

// letter is an arbitrary letter.
func letter() string { return sym.Str(1, gen.Letters) }

// traced is a document whose trace is empty.
func traced(id string) *yaml.Node { return gen.Doc(mapping("id", id, "t", ".")) }

// run executes the instructions in file name.
func run(name string) error {
	cfg := &instructions.Config{InstructionsFile: name}
	return instructions.Execute(cfg)
}

// field is the text under a key of a document, "?" when there is none.
func field(doc *yaml.Node, key string) string {
	if doc == nil || len(doc.Content) == 0 {
		return "?"
	}
	i := gen.Find(doc.Content[0], key)
	if i < 0 {
		return "?"
	}
	return doc.Content[0].Content[i+1].Value
}

// indexed restricts an overlay to some document indices or not; the result says which it is about.
func indexed(o *yaml.Node) func(int) bool {
	n := sym.Choice(sym.Param("idx", 1) + 1)
	if n == 0 {
		return func(int) bool { return true }
	}
	q := gen.Q()
	var at []string
	for i := 0; i < n; i++ {
		d := sym.Str(1, "0123")
		at = append(at, d)
		q.Content = append(q.Content, gen.T("!!int", d))
	}
	o.Content = append(o.Content, gen.S("documentIndex"), q)
	return func(i int) bool {
		any := false
		for _, d := range at {
			any = sym.Or(any, d == strconv.Itoa(i))
		}
		return any
	}
}

// Scope runs instructions with common overlays, file overlays and document overlays over several files; the trace in
// each document says which overlays reached it and in which order.
//
//verif:check C09
//verif:use vfs yaml
//verif:quick common=2 own=1 idx=2
//verif:thorough common=2 own=2 idx=2
//verif:reach adhoc plain
func Scope() {
	start()
	const nfiles = 2
	var cset []func(int) bool
	var cname []string
	commons := gen.Q()
	nc := sym.Choice(sym.Param("common", 2) + 1)
	for i := 0; i < nc; i++ {
		cname = append(cname, letter())
		o := step(cname[i])
		if i == 0 {
			cset = append(cset, indexed(o))
		} else {
			cset = append(cset, func(int) bool { return true })
		}
		commons.Content = append(commons.Content, o)
	}
	list := gen.Q()
	want := make([][][2]string, nfiles) // what is before and after an overlay given on the command line
	type scoped struct {
		letter string
		on     func(int) bool
	}
	for f := 0; f < nfiles; f++ {
		name := "f" + strconv.Itoa(f)
		ndocs := 2 - f
		var docs []*yaml.Node
		for d := 0; d < ndocs; d++ {
			docs = append(docs, traced(name+strconv.Itoa(d)))
		}
		vfs.Add("w/in/"+name+".yaml", docs...)
		entry := mapping("path", "in/"+name+".yaml")
		var own, perdoc []scoped
		no := sym.Choice(sym.Param("own", 1) + 1)
		os := gen.Q()
		for i := 0; i < no; i++ {
			l := letter()
			o := step(l)
			on := func(int) bool { return true }
			if f == 0 && i == 0 {
				on = indexed(o)
			}
			os.Content = append(os.Content, o)
			own = append(own, scoped{l, on})
		}
		if no > 0 {
			entry.Content = append(entry.Content, gen.S("overlays"), os)
		}
		nd := 0
		if f == 0 {
			nd = sym.Choice(3)
		}
		ds := gen.Q()
		for i := 0; i < nd; i++ {
			l, m := letter(), letter()
			at := sym.Str(1, "012")
			ds.Content = append(ds.Content, mapping("path", gen.T("!!int", at), "overlays", gen.Q(step(l), step(m))))
			on := func(d int) bool { return at == strconv.Itoa(d) }
			perdoc = append(perdoc, scoped{l, on}, scoped{m, on})
		}
		if nd > 0 {
			entry.Content = append(entry.Content, gen.S("documents"), ds)
		}
		list.Content = append(list.Content, entry)
		for d := 0; d < ndocs; d++ {
			t, u := ".", ""
			for i := 0; i < nc; i++ {
				if sym.Decide(cset[i](d)) {
					t += cname[i]
				}
			}
			for _, s := range append(own, perdoc...) {
				if sym.Decide(s.on(d)) {
					u += s.letter
				}
			}
			want[f] = append(want[f], [2]string{t, u})
		}
	}
	vfs.Add("w/i.yaml", mapping("commonOverlays", commons, "yamlFiles", list))
	cfg := &instructions.Config{InstructionsFile: "i.yaml"}
	extra := ""
	if sym.Choice(2) == 1 {
		extra = letter()
		cfg.Overlay.Name = "z"
		if err := cfg.Overlay.Query.Set("t"); err != nil {
			panic(err)
		}
		cfg.Overlay.Action = actions.Combine
		cfg.Value = extra
		sym.Reach("adhoc")
	} else {
		sym.Reach("plain")
	}
	vfs.Ready()
	err := instructions.Execute(cfg)
	sym.Assert("C09", "scope-succeeds", err == nil)
	for f := range want {
		name := "output/f" + strconv.Itoa(f) + ".yaml"
		docs, ok := vfs.Docs("w/" + name)
		sym.Assert("C09", "scope-all-documents", ok && len(docs) == len(want[f]))
		for d, doc := range docs {
			if d >= len(want[f]) {
				break
			}
			w := want[f][d][0] + extra + want[f][d][1]
			sym.Observe(name, field(doc, "t"))
			sym.Assert("C09", "scope-order", sym.And(field(doc, "t") == w, field(doc, "id") == "f"+strconv.Itoa(f)+strconv.Itoa(d)))
		}
	}
}

var _ = overlays.Overlay{}
