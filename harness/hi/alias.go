package hi

import (
	"strconv"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// anchoredDoc draws a document with anchors and aliases.
func anchoredDoc() *yaml.Node {
	var x *yaml.Node
	switch sym.Choice(4) {
	case 0:
		x = gen.S(letter())
	case 1:
		x = mapping("k", letter())
	case 2:
		y := gen.Anchored("y", gen.S(letter()))
		x = mapping("k", y, "l", gen.A(y))
	case 3:
		x = gen.Q(gen.S(letter()))
	}
	gen.Anchored("x", x)
	root := mapping("a", x, "b", gen.A(x))
	switch sym.Choice(4) {
	case 1:
		root.Content = append(root.Content, gen.S("c"), mapping("k", gen.A(x)))
	case 2:
		// the name is given anew
		z := gen.Anchored("x", gen.S(letter()))
		root.Content = append(root.Content, gen.S("c"), mapping("k", z), gen.S("d"), gen.A(z))
	case 3:
		if x.Kind == yaml.MappingNode && len(x.Content) == 4 {
			root.Content = append(root.Content, gen.S("c"), mapping("k", gen.A(x.Content[1])))
		}
	}
	return gen.Doc(root)
}

// slot finds the place a path of keys leads to, aliases are not followed.
func slot(root *yaml.Node, keys []string) (parent *yaml.Node, at int) {
	parent, at = &yaml.Node{Content: []*yaml.Node{root}}, 0
	for _, k := range keys {
		n := parent.Content[at]
		if n.Kind != yaml.MappingNode {
			return nil, 0
		}
		i := gen.Find(n, k)
		if i < 0 {
			return nil, 0
		}
		parent, at = n, i+1
	}
	return parent, at
}

// mergeInto merges in place, so that aliases of o stand for the result.
func mergeInto(o, n *yaml.Node) {
	if o.Kind == yaml.AliasNode {
		*o = *gen.Expand(o)
	}
	if n.Kind == yaml.ScalarNode {
		o.Kind, o.Tag, o.Value, o.Content = n.Kind, n.Tag, n.Value, nil
		return
	}
	if o.Kind != n.Kind {
		o.Kind, o.Tag, o.Value, o.Content = n.Kind, n.Tag, "", nil
	}
	if n.Kind == yaml.SequenceNode {
		for _, c := range n.Content {
			o.Content = append(o.Content, gen.Clone(c))
		}
		return
	}
	for i := 0; i < len(n.Content); i += 2 {
		if j := gen.Find(o, n.Content[i].Value); j >= 0 {
			mergeInto(o.Content[j+1], n.Content[i+1])
		} else {
			o.Content = append(o.Content, gen.Clone(n.Content[i]), gen.Clone(n.Content[i+1]))
		}
	}
}

// aliasValue draws an overlay value, which may have anchors and aliases of its own.
func aliasValue(shared *yaml.Node) *yaml.Node {
	switch sym.Choice(5) {
	case 0:
		return gen.S(letter())
	case 1:
		return mapping("k", letter())
	case 2:
		return gen.A(shared)
	case 3:
		y := gen.Anchored("y", gen.S(letter()))
		return mapping("k", y, "m", gen.A(y), "n", gen.Q(gen.A(y)))
	}
	return gen.Q(gen.A(shared))
}

// Aliases changes documents that have anchors and aliases: an alias stands for what its anchored node has become, or for
// its last value when the node is gone; overlay values mean the same wherever they are used.
//
//verif:check C25
//verif:use vfs yaml
//verif:quick overlays=1
//verif:thorough overlays=2
//verif:reach merge replace delete combine missing
func Aliases() {
	start()
	shared := gen.Anchored("x", mapping("k", letter()))
	if sym.Choice(2) == 1 {
		gen.Anchored("x", shared.Content[1])
		shared.Anchor = ""
		shared = shared.Content[1]
	}
	doc := anchoredDoc()
	want := gen.Clone(doc)
	gen.Link(want)
	// the first overlay only defines the anchor
	os := gen.Q(mapping("query", "none", "value", shared))
	n := sym.Choice(sym.Param("overlays", 1)) + 1
	fails := false
	for i := 0; i < n; i++ {
		at := [][]string{{"a"}, {"b"}, {"a", "k"}, {"c", "k"}, {"c"}, {"b", "k"}, {}}[sym.Choice(7)]
		action := []string{"merge", "replace", "delete", "combine"}[sym.Choice(4)]
		query := "$"
		for _, k := range at {
			query += "." + k
		}
		if len(at) == 0 && action != "merge" {
			continue
		}
		o := mapping("query", query, "action", action)
		var v *yaml.Node
		if action != "delete" {
			v = aliasValue(shared)
			o.Content = append(o.Content, gen.S("value"), v)
			v = gen.Expand(v)
		}
		os.Content = append(os.Content, o)
		p, s := slot(want.Content[0], at)
		if p == nil {
			sym.Reach("missing")
			continue
		}
		if fails {
			continue
		}
		sym.Reach(action)
		t := p.Content[s]
		switch action {
		case "merge":
			if len(at) == 0 {
				mergeInto(want.Content[0], v)
			} else {
				mergeInto(t, v)
			}
		case "replace":
			*t = *gen.Clone(v)
		case "delete":
			p.Content = append(p.Content[:s-1:s-1], p.Content[s+1:]...)
		case "combine":
			if t.Kind == yaml.AliasNode {
				*t = *gen.Expand(t)
			}
			if t.Kind != yaml.ScalarNode || v.Kind != yaml.ScalarNode {
				fails = true
				continue
			}
			t.Value += v.Value
		}
	}
	second := gen.Doc(mapping("id", "z", "none", gen.Anchored("x", gen.S(letter())), "r", gen.S("q")))
	second.Content[0].Content[5] = gen.A(second.Content[0].Content[3])
	vfs.Add("w/in/a.yaml", doc)
	vfs.Add("w/in/b.yaml", second)
	vfs.Add("w/i.yaml", mapping("commonOverlays", gen.Q(os.Content[0]), "yamlFiles", gen.Q(
		mapping("path", "in/a.yaml", "overlays", gen.Q(os.Content[1:]...)), mapping("path", "in/b.yaml"))))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C25", "alias-refused-exactly", (err != nil) == fails)
	if err != nil {
		return
	}
	got, ok := vfs.Docs("w/output/a.yaml")
	empty := len(want.Content) == 0
	sym.Assert("C25", "alias-readable", ok)
	if !ok || empty {
		return
	}
	sym.Assert("C25", "alias-documents", len(got) == 1)
	if len(got) != 1 {
		return
	}
	sym.Assert("C25", "alias-meaning", gen.Eq(gen.Expand(got[0]), gen.Expand(want)))
	two, ok := vfs.Docs("w/output/b.yaml")
	sym.Assert("C25", "alias-other-readable", ok && len(two) == 1)
	if !ok || len(two) != 1 {
		return
	}
	e := gen.Clone(second)
	gen.Link(e)
	mergeInto(e.Content[0].Content[3], gen.Expand(shared))
	sym.Assert("C25", "alias-other-meaning", gen.Eq(gen.Expand(two[0]), gen.Expand(e)))
}

// AliasConditions compares aliases with condition values, which may be aliases themselves.
//
//verif:check C25
//verif:use vfs yaml
//verif:quick
//verif:reach applied skipped
func AliasConditions() {
	start()
	shared := gen.Anchored("x", mapping("k", letter()))
	doc := anchoredDoc()
	key := []string{"a", "b"}[sym.Choice(2)]
	var v *yaml.Node
	switch sym.Choice(3) {
	case 0:
		v = gen.A(shared)
	case 1:
		v = gen.S(letter())
	case 2:
		y := gen.Anchored("x", gen.S(letter()))
		v = mapping("k", y, "l", gen.A(y))
	}
	p, s := slot(doc.Content[0], []string{key})
	equal := gen.Eq(gen.Expand(p.Content[s]), gen.Expand(v))
	doc.Content[0].Content = append(doc.Content[0].Content, gen.S("t"), gen.S("."))
	vfs.Add("w/in/a.yaml", doc)
	vfs.Add("w/i.yaml", mapping(
		"commonOverlays", gen.Q(mapping("query", "none", "value", shared)),
		"yamlFiles", gen.Q(mapping("path", "in/a.yaml", "overlays", gen.Q(
			mapping("query", "t", "value", "y", "action", "combine", "documentQuery", gen.Q(
				mapping("conditions", gen.Q(mapping("query", key, "value", v))))))))))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C25", "alias-condition-runs", err == nil)
	if err != nil {
		return
	}
	got, ok := vfs.Docs("w/output/a.yaml")
	sym.Assert("C25", "alias-condition-readable", ok && len(got) == 1)
	if !ok || len(got) != 1 {
		return
	}
	if sym.Decide(equal) {
		sym.Reach("applied")
		sym.Assert("C25", "alias-condition-applied", field(got[0], "t") == ".y")
	} else {
		sym.Reach("skipped")
		sym.Assert("C25", "alias-condition-skipped", field(got[0], "t") == ".")
	}
}

// AliasComments removes the comments of documents with aliases, even of what an alias stood for.
//
//verif:check C14 C25
//verif:use vfs yaml
//verif:quick
func AliasComments() {
	start()
	viper.Set("removeComments", true)
	x := mapping("k", letter())
	gen.Anchored("x", x)
	x.Content[0].HeadComment = "# h"
	x.Content[1].LineComment = "# l"
	al := gen.A(x)
	al.LineComment = "# a"
	doc := gen.Doc(mapping("a", x, "b", al, "c", "d"))
	o := mapping("query", "a", "action", "delete")
	if sym.Choice(2) == 1 {
		o = mapping("query", "b", "value", mapping("n", letter()))
	}
	vfs.Add("w/in/a.yaml", doc)
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", "in/a.yaml", "overlays", gen.Q(o)))))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C25", "alias-comments-runs", err == nil)
	if err != nil {
		return
	}
	got, ok := vfs.Docs("w/output/a.yaml")
	sym.Assert("C25", "alias-comments-readable", ok && len(got) == 1)
	if !ok {
		return
	}
	for _, d := range got {
		for _, n := range gen.Nodes(d) {
			sym.Assert("C14", "alias-comments-removed", sym.And(n.HeadComment == "", sym.And(n.LineComment == "", n.FootComment == "")))
		}
	}
}

// ValuesAliases merges values files that have anchors and aliases.
//
//verif:check C25 C01
//verif:use vfs yaml template
//verif:quick
//verif:reach merged alone
func ValuesAliases() {
	start()
	one := func() *yaml.Node {
		var x *yaml.Node
		switch sym.Choice(3) {
		case 0:
			x = gen.S(letter())
		case 1:
			x = mapping("k", letter())
		case 2:
			x = gen.Q(gen.S(letter()))
		}
		gen.Anchored("x", x)
		if sym.Choice(2) == 1 {
			return mapping("a", x, "b", gen.A(x))
		}
		return mapping("b", x, "a", mapping("l", gen.A(x)))
	}
	vs := []*yaml.Node{one()}
	if sym.Choice(2) == 1 {
		sym.Reach("merged")
		vs = append(vs, one())
	} else {
		sym.Reach("alone")
	}
	want := gen.M()
	var names []string
	for i, v := range vs {
		name := "v" + strconv.Itoa(i) + ".yaml"
		vfs.Add("w/"+name, gen.Doc(v))
		names = append(names, name)
		mergeInto(want, gen.Expand(v))
	}
	vfs.Add("w/f.yaml", gen.Doc(mapping("id", "k", "t", ".")))
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", "f.yaml", "overlays", gen.Q(
		mapping("query", "t", "action", "replace", "value", vfs.All))))))
	vfs.Ready()
	err := instructions.Execute(&instructions.Config{InstructionsFile: "i.yaml", ValueFiles: names})
	sym.Assert("C25", "alias-values-succeeds", err == nil)
	if err != nil {
		return
	}
	docs, ok := vfs.Docs("w/output/f.yaml")
	sym.Assert("C25", "alias-values-output", ok && len(docs) == 1)
	if !ok || len(docs) != 1 {
		return
	}
	sym.Assert("C01", "alias-values-merged", field(docs[0], "t") == asJSON(want))
}

// Recursive has values that contain themselves: the run ends, what it writes can be read.
//
//verif:check C21 C25
//verif:use vfs yaml
//verif:quick
//verif:reach refused written
func Recursive() {
	start()
	cyclic := func() *yaml.Node {
		x := gen.Anchored("x", gen.M())
		x.Content = append(x.Content, gen.S("k"), gen.A(x))
		if sym.Choice(2) == 1 {
			x.Content[1] = gen.Q(gen.S(letter()), gen.A(x))
		}
		return x
	}
	x := cyclic()
	doc := gen.Doc(mapping("a", x, "b", gen.A(x), "t", "."))
	at := []string{"a", "b", "a.k", "t", "..", "$", "a.k[0]"}[sym.Choice(7)]
	action := []string{"merge", "replace", "delete", "combine"}[sym.Choice(4)]
	o := mapping("query", at, "action", action)
	switch sym.Choice(3) {
	case 0:
		o.Content = append(o.Content, gen.S("value"), mapping("k", letter()))
	case 1:
		o.Content = append(o.Content, gen.S("value"), cyclic())
	case 2:
		o.Content = append(o.Content, gen.S("value"), gen.S(letter()), gen.S("documentQuery"),
			gen.Q(mapping("conditions", gen.Q(mapping("query", "b", "value", letter())))))
	}
	vfs.Add("w/in/a.yaml", doc)
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", "in/a.yaml", "overlays", gen.Q(o)))))
	vfs.Ready()
	err := run("i.yaml")
	if err != nil {
		sym.Reach("refused")
		sym.Assert("C25", "recursive-nothing-written", len(vfs.Written()) == 0)
		return
	}
	sym.Reach("written")
	for _, w := range vfs.Written() {
		_, ok := vfs.Docs(w)
		sym.Assert("C25", "recursive-readable", ok)
	}
}
