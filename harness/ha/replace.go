package ha

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// Replace replaces any node of a document by any value.
//
//verif:check C05 C02
//verif:quick depth=2 kids=2 vdepth=1 vkids=2
//verif:thorough depth=2 kids=2 vdepth=2 vkids=2
//verif:reach replaced
//verif:opt weight=2
func Replace() {
	g := &gen.G{Kids: sym.Param("kids", 2)}
	doc := gen.Doc(g.Tree(sym.Param("depth", 2)))
	all := gen.Nodes(doc)[1:]
	k := sym.Choice(len(all))
	g.Kids = sym.Param("vkids", 2)
	g.Tags = true
	v := g.Tree(sym.Param("vdepth", 1))
	// leftovers must not survive: the old node is anchored and styled, the new one differs
	all[k].Anchor = "a"
	v.Style = yaml.DoubleQuotedStyle
	want := gen.Clone(doc)
	wn := gen.Nodes(want)[1+k]
	wc := gen.Clone(v)
	*wn = *wc
	v0 := gen.Clone(v)
	err := actions.ReplaceNode(all[k], v)
	sym.Assert("C05", "replace-no-error", err == nil)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C05", "replace-result", gen.Eq(doc, want))
	sym.Assert("C05", "replace-style", all[k].Style == v.Style)
	sym.Assert("C02", "replace-overlay-unchanged", gen.EqAll(v, v0))
	sym.Assert("C02", "replace-shares-nothing", sym.And(gen.Disjoint(doc, v), gen.Unique(doc)))
	sym.Reach("replaced")
}

// ReplaceComments says which comments a replaced node has.
//
//verif:check C05 C06 C02
//verif:quick
//verif:reach replaced
func ReplaceComments() {
	g := &gen.G{Kids: 1, Comments: true}
	var o, v *yaml.Node
	switch sym.Choice(3) {
	case 0:
		o, v = g.Scalar(), g.Scalar()
	case 1:
		o, v = gen.Q(g.Scalar()), g.Scalar()
	default:
		p := &gen.G{Kids: 1}
		o, v = g.Scalar(), gen.M(p.Scalar(), g.Scalar())
	}
	want := gen.Clone(v)
	want.HeadComment, want.LineComment, want.FootComment = o.HeadComment, o.LineComment, o.FootComment
	ref.Override(want, v)
	v0 := gen.Clone(v)
	err := actions.ReplaceNode(o, v)
	sym.Assert("C02", "replace-overlay-unchanged", gen.EqAll(v, v0))
	sym.Assert("C05", "replace-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C05", "replace-comments", gen.EqC(o, want))
	sym.Assert("C06", "replace-keeps-comments", gen.EqC(o, want))
	sym.Reach("replaced")
}

// odd draws a node with any tag: a scalar of any length, or a map or sequence of at most one entry.
func odd() *yaml.Node {
	var n *yaml.Node
	switch sym.Choice(3) {
	case 0:
		return word(2)
	case 1:
		n = gen.M()
		if sym.Choice(2) == 1 {
			n.Content = append(n.Content, gen.S(sym.Str(sym.Choice(2), "")), word(1))
		}
	default:
		n = gen.Q()
		if sym.Choice(2) == 1 {
			n.Content = append(n.Content, word(1))
		}
	}
	if sym.Choice(2) == 1 {
		n.Tag = "!" + sym.Str(1, gen.Letters)
	}
	return n
}

// ReplaceOdd replaces values of any tag and length, empty ones included, by such values.
//
//verif:check C05 C02
//verif:quick
//verif:reach replaced
func ReplaceOdd() {
	o, v := odd(), odd()
	doc := gen.Doc(gen.M(gen.S("a"), o, gen.S("b"), gen.S("x")))
	o.Style = []yaml.Style{0, yaml.FlowStyle, yaml.TaggedStyle}[sym.Choice(3)]
	v0 := gen.Clone(v)
	want := gen.Doc(gen.M(gen.S("a"), gen.Clone(v), gen.S("b"), gen.S("x")))
	err := actions.ReplaceNode(o, v)
	sym.Assert("C05", "replace-no-error", err == nil)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C05", "replace-result", gen.Eq(doc, want))
	sym.Assert("C02", "replace-overlay-unchanged", gen.EqAll(v, v0))
	sym.Assert("C02", "replace-shares-nothing", sym.And(gen.Disjoint(doc, v), gen.Unique(doc)))
	sym.Reach("replaced")
}
