package ho

import (
	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

var queryTexts = []string{"x", "x.y", "x.*", "*", "..y", "y[0]", "x[*]", "$", "..*", "x[?(@.y)]", "y", "x['y','x']", "nothing"}

// drawQueries draws a list of up to max queries and returns their texts.
func drawQueries(max int) []string {
	n := 1 + sym.Choice(max)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, queryTexts[sym.Choice(sym.Param("texts", len(queryTexts)))])
	}
	return out
}

// matches lists what each query matches in doc, query by query, in document order.
func matches(doc *yaml.Node, texts []string) []*yaml.Node {
	var out []*yaml.Node
	for _, t := range texts {
		p, err := yamlpath.NewPath(t)
		if err != nil {
			panic("harness: " + err.Error())
		}
		r, err := p.Find(doc)
		if err != nil {
			panic("harness: " + err.Error())
		}
		out = append(out, r...)
	}
	return out
}

// setTo makes m the scalar, map or sequence v and keeps its comments where v has none.
func setTo(m, v *yaml.Node) {
	h, l, f := m.HeadComment, m.LineComment, m.FootComment
	*m = *gen.Clone(v)
	if v.HeadComment == "" {
		m.HeadComment = h
	}
	if v.LineComment == "" {
		m.LineComment = l
	}
	if v.FootComment == "" {
		m.FootComment = f
	}
}

// mergeIn merges v into m in place; the nodes that stay are the same nodes.
func mergeIn(m, v *yaml.Node) {
	if v.Kind == yaml.ScalarNode || m.Kind != v.Kind {
		setTo(m, v)
		return
	}
	if v.Kind == yaml.SequenceNode {
		for _, c := range v.Content {
			m.Content = append(m.Content, gen.Clone(c))
		}
		return
	}
	for i := 0; i+1 < len(v.Content); i += 2 {
		if j := gen.Find(m, v.Content[i].Value); j >= 0 {
			mergeIn(m.Content[j+1], v.Content[i+1])
		} else {
			m.Content = append(m.Content, gen.Clone(v.Content[i]), gen.Clone(v.Content[i+1]))
		}
	}
}

// drop removes the node x from the tree below n.
func drop(n, x *yaml.Node) bool {
	for i, c := range n.Content {
		if c == x {
			lo, hi := i, i+1
			if n.Kind == yaml.MappingNode {
				lo = i - i%2
				hi = lo + 2
			}
			var rest []*yaml.Node
			rest = append(rest, n.Content[:lo]...)
			n.Content = append(rest, n.Content[hi:]...)
			return true
		}
		if drop(c, x) {
			return true
		}
	}
	return false
}

// QueryActions applies an overlay with one or more queries and compares the document with a reference that carries the
// action out on every node that the query library finds, one after the other.
//
//verif:check C17 C04 C02
//verif:quick kids=2 depth=2 queries=1
//verif:thorough kids=2 depth=2 queries=2
//verif:opt weight=2
//verif:reach nothing merged replaced deleted combined refused
func QueryActions() {
	g := &gen.G{Kids: sym.Param("kids", 2), Keys: "xy", Len: 1}
	doc := gen.Doc(g.Of([]yaml.Kind{yaml.MappingNode, yaml.SequenceNode}[sym.Choice(2)], sym.Param("depth", 2)))
	queryActions(doc)
}

// QueryLists is QueryActions with two queries on smaller documents.
//
//verif:check C17 C04 C02
//verif:quick kids=1 depth=3 queries=2 texts=9
//verif:thorough kids=2 depth=2 queries=2
//verif:reach nothing merged replaced deleted combined refused
func QueryLists() {
	g := &gen.G{Kids: sym.Param("kids", 2), Keys: "xy", Len: 1}
	doc := gen.Doc(g.Of([]yaml.Kind{yaml.MappingNode, yaml.SequenceNode}[sym.Choice(2)], sym.Param("depth", 2)))
	queryActions(doc)
}

// QueryThree has lists of three queries over a flat map.
//
//verif:check C17
//verif:quick kids=2
//verif:thorough kids=3
//verif:reach hit miss
func QueryThree() {
	g := &gen.G{Kids: sym.Param("kids", 2), Keys: "xyz", Len: 1}
	doc := gen.Doc(g.Of(yaml.MappingNode, 1))
	all := []string{"x", "y", "z", "*", "$.x", "z.y"}
	var texts []string
	for i := 0; i < 3; i++ {
		texts = append(texts, all[sym.Choice(len(all))])
	}
	v := gen.S(sym.Str(1, gen.Letters))
	o := &overlays.Overlay{Query: queries(texts...), Value: *gen.Clone(v), Action: actions.Combine}
	scalars := true
	want := gen.Clone(doc)
	ms := matches(want, texts)
	for _, m := range ms {
		scalars = scalars && m.Kind == yaml.ScalarNode
		m.Value += v.Value
	}
	sym.Assume(scalars)
	err := o.Apply(doc)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C17", "query-no-error", err == nil)
	sym.Assert("C17", "query-result", gen.EqC(doc, want))
	if len(ms) > 0 {
		sym.Reach("hit")
	} else {
		sym.Reach("miss")
	}
}

func queryActions(doc *yaml.Node) {
	for i, n := range gen.Nodes(doc) {
		if i > 0 {
			n.LineComment = "#" + string(rune('a'+i)) // tells the nodes apart
		}
	}
	texts := drawQueries(sym.Param("queries", 1))
	var v *yaml.Node
	switch sym.Choice(3) {
	case 0:
		v = gen.S(sym.Str(1, gen.Letters))
	case 1:
		v = gen.M(gen.S(sym.Str(1, "xyz")), gen.S(sym.Str(1, gen.Letters)))
	default:
		v = gen.Q(gen.S(sym.Str(1, gen.Letters)))
	}
	o := &overlays.Overlay{Query: queries(texts...), Value: *gen.Clone(v)}
	o.OnMissing.Action = onMissingAction("ignore")
	o.Action = []actions.Action{actions.Merge, actions.Replace, actions.Delete, actions.Combine}[sym.Choice(4)]
	want := gen.Clone(doc)
	ms := matches(want, texts)
	err := o.Apply(doc)
	sym.Observe("doc", gen.Show(doc))
	sym.ObserveBool("err", err != nil)
	sym.Assert("C02", "query-value-unchanged", gen.Eq(&o.Value, v))
	sym.Assert("C02", "query-not-shared", sym.And(gen.Disjoint(&o.Value, doc), gen.Unique(doc)))
	if len(ms) == 0 {
		sym.Assert("C17", "no-match-untouched", sym.And(err == nil, gen.EqAll(doc, want)))
		sym.Reach("nothing")
		return
	}
	switch o.Action {
	case actions.Delete:
		for _, m := range ms {
			drop(want, m)
		}
		sym.Assert("C04", "delete-no-error", err == nil)
		sym.Assert("C04", "delete-matched", gen.EqC(doc, want))
		sym.Reach("deleted")
	case actions.Combine:
		for _, m := range ms {
			if m.Kind != yaml.ScalarNode || v.Kind != yaml.ScalarNode {
				sym.Assert("C17", "combine-refused", err != nil)
				sym.Reach("refused")
				return
			}
			m.Value += v.Value
		}
		sym.Reach("combined")
	case actions.Replace:
		for _, m := range ms {
			setTo(m, v)
		}
		sym.Reach("replaced")
	default:
		for _, m := range ms {
			mergeIn(m, v)
		}
		sym.Reach("merged")
	}
	sym.Assert("C17", "query-no-error", err == nil)
	sym.Assert("C17", "query-result", gen.EqC(doc, want))
}
