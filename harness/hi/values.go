package hi

import (
	"sort"
	"strconv"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// value draws what a values file has under a key.
func value(depth int) *yaml.Node {
	n := 3
	if depth > 0 {
		n = 5
	}
	switch sym.Choice(n) {
	case 0:
		// format markers mean nothing here
		return gen.S("%" + letter())
	case 1:
		return gen.T("!!int", sym.Str(1, "123456789"))
	case 2:
		return gen.Q(gen.S(letter()))
	case 3:
		return values(depth - 1)
	}
	return gen.Q(gen.T("!!int", sym.Str(1, "123456789")), gen.S(letter()))
}

// values draws a map over the keys a and b.
func values(depth int) *yaml.Node {
	m := gen.M()
	if sym.Choice(2) == 1 {
		m.Content = append(m.Content, gen.S("b"), value(depth))
	}
	if depth > 0 && sym.Choice(2) == 1 {
		m.Content = append(m.Content, gen.S("a"), gen.S(letter()))
	}
	return m
}

// asJSON is a tree as JSON.
func asJSON(n *yaml.Node) string {
	t := ""
	switch n.Kind {
	case yaml.DocumentNode:
		return asJSON(n.Content[0])
	case yaml.MappingNode:
		var keys []string
		for i := 0; i < len(n.Content); i += 2 {
			keys = append(keys, n.Content[i].Value)
		}
		sort.Strings(keys)
		for i, k := range keys {
			if i > 0 {
				t += ","
			}
			t += "\"" + k + "\":" + asJSON(n.Content[gen.Find(n, k)+1])
		}
		return "{" + t + "}"
	case yaml.SequenceNode:
		for i, c := range n.Content {
			if i > 0 {
				t += ","
			}
			t += asJSON(c)
		}
		return "[" + t + "]"
	}
	if n.Tag == "!!str" {
		return "\"" + n.Value + "\""
	}
	return n.Value
}

// Values renders instructions with values files: the values they see are the later files merged over the earlier ones.
//
//verif:check C01 C27
//verif:use vfs yaml template
//verif:quick files=3 depth=1
//verif:thorough files=3 depth=2
//verif:reach one several
func Values() {
	start()
	n := 1 + sym.Choice(sym.Param("files", 2))
	var names []string
	var want *yaml.Node
	for i := 0; i < n; i++ {
		doc := gen.Doc(values(sym.Param("depth", 1)))
		name := "v" + strconv.Itoa(i) + ".yaml"
		vfs.Add("w/"+name, doc)
		names = append(names, name)
		if want == nil {
			want = doc
		} else {
			want = ref.Merge(want, doc)
		}
	}
	vfs.Add("w/f.yaml", gen.Doc(mapping("id", "k", "t", ".")))
	list := gen.Q(mapping("path", "f.yaml", "overlays", gen.Q(mapping("query", "t", "action", "replace", "value", vfs.All))))
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	vfs.Ready()
	err := instructions.Execute(&instructions.Config{InstructionsFile: "i.yaml", ValueFiles: names})
	sym.Assert("C01", "values-succeeds", err == nil)
	docs, ok := vfs.Docs("w/output/f.yaml")
	sym.Assert("C01", "values-output", ok && len(docs) == 1)
	if !ok || len(docs) != 1 {
		return
	}
	sym.Observe("t", field(docs[0], "t"))
	ok = sym.And(field(docs[0], "t") == asJSON(want), field(docs[0], "id") == "k")
	sym.Assert("C01", "values-merged", ok)
	sym.Assert("C27", "values-merged", ok)
	if n > 1 {
		sym.Reach("several")
	} else {
		sym.Reach("one")
	}
}
