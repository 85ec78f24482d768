package ha

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// Delete deletes any combination of nodes, in any order, repeated and nested ones included.
//
//verif:check C04
//verif:quick depth=2 kids=2 picks=2
//verif:thorough depth=2 kids=2 picks=3
//verif:reach deleted
//verif:opt weight=3
func Delete() {
	g := &gen.G{Kids: sym.Param("kids", 2), Len: 1}
	doc := gen.Doc(g.Tree(sym.Param("depth", 2)))
	deleteFrom(doc, sym.Param("picks", 2))
}

// DeleteWide deletes from a map or sequence of more entries.
//
//verif:check C04
//verif:quick kids=5 picks=2
//verif:thorough kids=6 picks=4
//verif:reach deleted
func DeleteWide() {
	k := yaml.MappingNode
	if sym.Bool() {
		k = yaml.SequenceNode
	}
	g := &gen.G{Kids: sym.Param("kids", 5), Len: 1}
	t := g.Of(k, 1)
	// equal siblings (same text) are told apart by identity only
	deleteFrom(gen.Doc(t), sym.Param("picks", 2))
}

func deleteFrom(doc *yaml.Node, picks int) {
	all := gen.Nodes(doc)[1:]
	for i, n := range all {
		n.HeadComment = "#h" + string(rune('a'+i))
		n.LineComment = "#l" + string(rune('a'+i))
		n.FootComment = "#f" + string(rune('a'+i))
	}
	var gone []*yaml.Node
	for i := 0; i < 1+sym.Choice(picks); i++ {
		gone = append(gone, all[sym.Choice(len(all))])
	}
	want := ref.Remove(doc, gone)
	for _, n := range gone {
		actions.DeleteNode(doc, n)
	}
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C04", "delete-result", gen.EqC(doc, want))
	sym.Reach("deleted")
}

// DeleteAbsent deletes a node that is not in the document: nothing changes.
//
//verif:check C04
//verif:quick depth=2 kids=2
//verif:reach deleted
func DeleteAbsent() {
	g := &gen.G{Kids: sym.Param("kids", 2)}
	doc := gen.Doc(g.Tree(sym.Param("depth", 2)))
	twin := gen.Clone(doc)
	want := gen.Clone(doc)
	all := gen.Nodes(twin)
	actions.DeleteNode(doc, all[sym.Choice(len(all))])
	sym.Assert("C04", "delete-absent", gen.EqAll(doc, want))
	sym.Reach("deleted")
}
