package ho

import (
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// same compares kind, type, text and structure; anchors, comments, style and position do not matter.
func same(a, b *yaml.Node) bool {
	if a.Kind != b.Kind || len(a.Content) != len(b.Content) {
		return false
	}
	r := sym.And(a.Tag == b.Tag, a.Value == b.Value)
	for i := range a.Content {
		r = sym.And(r, same(a.Content[i], b.Content[i]))
	}
	return r
}

// holds is the reference for one condition.
func holds(doc *yaml.Node, texts []string, v *yaml.Node) bool {
	if len(doc.Content) == 0 {
		return false
	}
	ms := matches(doc, texts)
	r := len(ms) > 0
	if v != nil {
		for _, m := range ms {
			r = sym.And(r, same(m, v))
		}
	}
	return r
}

// decorate gives every node below n comments, a style and a position of its own.
func decorate(n *yaml.Node) {
	for i, x := range gen.Nodes(n) {
		x.Line, x.Column = 10+i, 3*i
		x.LineComment, x.HeadComment = "#l", "#h"
		if x.Kind == yaml.ScalarNode {
			x.Style = yaml.DoubleQuotedStyle
		} else {
			x.Style = yaml.FlowStyle
		}
	}
}

var condTexts = []string{"x", "x.y", "*", "..y", "nothing", "x[*]"}

// condition draws a condition: the texts of its queries and the value it names, if any.
func condition(d *drawn) ([]string, *yaml.Node) {
	var ts []string
	ts = append(ts, condTexts[sym.Choice(len(condTexts))])
	if d.lists && sym.Choice(2) == 1 {
		ts = append(ts, "y")
	}
	switch sym.Choice(5) {
	case 1:
		return ts, gen.T("!!"+tag(), sym.Str(1, "0123ab"))
	case 2:
		return ts, gen.M(gen.S("y"), gen.S(sym.Str(1, "ab")))
	case 3:
		return ts, gen.M()
	case 4:
		return ts, gen.Q(gen.S(sym.Str(1, "ab")))
	}
	return ts, nil
}

type drawn struct{ lists bool }

func tag() string {
	t := sym.Str(3, "instr")
	sym.Assume(sym.Or(t == "str", t == "int"))
	return t
}

// qualify applies an overlay with the given groups and compares with the reference.
func qualify(doc *yaml.Node, groups [][]cond) {
	o := &overlays.Overlay{Query: queries("m"), Value: *gen.S("applied"), Action: actions.Replace}
	o.OnMissing.Action = onMissingAction("ignore")
	want := len(groups) == 0
	for _, g := range groups {
		dq := &overlays.DocumentQuery{}
		ok := true
		for _, c := range g {
			oc := &overlays.Condition{Query: queries(c.texts...)}
			if c.value != nil {
				oc.Value = *gen.Clone(c.value)
			}
			dq.Conditions = append(dq.Conditions, oc)
			ok = sym.And(ok, holds(doc, c.texts, c.value))
		}
		want = sym.Or(want, ok)
		o.DocumentQuery = append(o.DocumentQuery, dq)
	}
	before := gen.Clone(doc)
	err := o.Apply(doc)
	sym.Assert("C08", "docquery-no-error", err == nil)
	sym.Observe("doc", gen.Show(doc))
	if len(doc.Content) == 0 {
		return
	}
	marker := doc.Content[0].Content[len(doc.Content[0].Content)-1]
	applied := marker.Value == "applied"
	sym.Assert("C08", "docquery-applies", sym.Iff(applied, want))
	rest, rb := gen.Clone(doc), gen.Clone(before)
	rest.Content[0].Content = rest.Content[0].Content[:len(rest.Content[0].Content)-2]
	rb.Content[0].Content = rb.Content[0].Content[:len(rb.Content[0].Content)-2]
	sym.Assert("C08", "docquery-rest-unchanged", gen.EqAll(rest, rb))
	sym.Assert("C08", "docquery-unchanged", sym.Or(want, gen.EqAll(doc, before)))
	if sym.Decide(applied) {
		sym.Reach("applied")
	} else {
		sym.Reach("skipped")
	}
}

type cond struct {
	texts []string
	value *yaml.Node
}

func qualifiedDoc(depth int) *yaml.Node {
	g := &gen.G{Kids: sym.Param("kids", 2), Keys: "xy", Vals: "0123ab", Len: 1, Tags: true}
	root := g.Of(yaml.MappingNode, depth)
	root.Content = append(root.Content, gen.S("m"), gen.S("untouched"))
	doc := gen.Doc(root)
	if sym.Choice(2) == 1 {
		decorate(doc)
		for _, n := range gen.Nodes(doc) {
			if n.Kind != yaml.ScalarNode && len(n.Content) == 0 {
				n.Content = []*yaml.Node{} // what a delete of the last entry leaves
			}
		}
	}
	return doc
}

// DocumentQuery decides one condition against the reference, on any document.
//
//verif:check C08
//verif:quick kids=2 depth=2
//verif:thorough kids=2 depth=3
//verif:opt weight=2
//verif:reach applied skipped
func DocumentQuery() {
	doc := qualifiedDoc(sym.Param("depth", 2))
	ts, v := condition(&drawn{lists: true})
	qualify(doc, [][]cond{{{ts, v}}})
}

// DocumentQueryGroups decides up to two groups of up to two conditions each against the reference.
//
//verif:check C08
//verif:quick kids=1 depth=1 groups=2 conds=2
//verif:thorough kids=1 depth=1 groups=3 conds=2
//verif:reach applied skipped
func DocumentQueryGroups() {
	doc := gen.Doc(gen.M(gen.S("x"), gen.S(sym.Str(1, "ab")), gen.S("y"), gen.S(sym.Str(1, "ab")), gen.S("m"), gen.S("untouched")))
	if sym.Choice(8) == 0 {
		doc.Content = nil
	}
	var groups [][]cond
	ng := sym.Choice(sym.Param("groups", 2) + 1)
	for i := 0; i < ng; i++ {
		var cs []cond
		nc := sym.Choice(sym.Param("conds", 2) + 1)
		for j := 0; j < nc; j++ {
			c := cond{texts: []string{[]string{"x", "y", "nothing"}[sym.Choice(3)]}}
			if sym.Choice(2) == 1 {
				c.value = gen.S(sym.Str(1, "ab"))
			}
			cs = append(cs, c)
		}
		groups = append(groups, cs)
	}
	qualify(doc, groups)
}

// DocumentQueryIgnored says that anchors, comments, style and position of a value do not matter.
//
//verif:check C08
//verif:quick
//verif:reach applied skipped
func DocumentQueryIgnored() {
	v := gen.M(gen.S("y"), gen.Q(gen.S(sym.Str(1, "ab"))), gen.S("x"), gen.M())
	w := gen.M(gen.S("y"), gen.Q(gen.S(sym.Str(1, "ab"))), gen.S("x"), gen.M())
	if sym.Choice(2) == 1 {
		w.Content[3].Content = []*yaml.Node{}
	}
	doc := gen.Doc(gen.M(gen.S("x"), w, gen.S("m"), gen.S("untouched")))
	ns := gen.Nodes(w)
	n := ns[sym.Choice(len(ns))]
	switch sym.Choice(7) {
	case 0:
		n.HeadComment = "#" + sym.Str(1, gen.Letters)
	case 1:
		n.LineComment = "#" + sym.Str(1, gen.Letters)
	case 2:
		n.FootComment = "#" + sym.Str(1, gen.Letters)
	case 3:
		n.Style = yaml.Style(sym.Int(0, 63))
	case 4:
		n.Line = sym.Int(0, 1000)
	case 5:
		n.Column = sym.Int(0, 1000)
	case 6:
		n.Anchor = sym.Str(1, gen.Letters)
	}
	qualify(doc, [][]cond{{{[]string{"x"}, v}}})
}

// read is a tree as the parser would yield it: every node says what it is, and nothing is an alias.
func read(n *yaml.Node) *yaml.Node {
	c := gen.Expand(n)
	for _, x := range gen.Nodes(c) {
		x.Tag = x.ShortTag()
	}
	return c
}

// DocumentQueryAfter has a condition that compares what an earlier overlay has left behind.
//
//verif:check C08
//verif:quick kids=1 full=0
//verif:thorough kids=1 full=1
//verif:reach applied part
func DocumentQueryAfter() {
	viper.Set("defaultOnMissingAction", "ignore")
	doc := crashDoc()
	if crashOverlay(sym.Param("full", 0) == 1).Apply(doc) != nil || doc.Kind != yaml.DocumentNode || len(doc.Content) == 0 {
		return
	}
	sym.Observe("doc", gen.Show(doc))
	root := doc.Content[0]
	c := &overlays.Condition{Query: queries("$"), Value: *read(root)}
	if i := gen.Find(root, "x"); root.Kind == yaml.MappingNode && i >= 0 && sym.Choice(2) == 1 {
		sym.Reach("part")
		c = &overlays.Condition{Query: queries("x"), Value: *read(root.Content[i+1])}
	}
	o := &overlays.Overlay{Query: queries("$"), DocumentQuery: overlays.DocumentQueries{{Conditions: []*overlays.Condition{c}}}}
	o.Action = actions.Delete
	err := o.Apply(doc)
	sym.Assert("C08", "after-applied", err == nil && len(doc.Content) == 0)
	sym.Reach("applied")
}
