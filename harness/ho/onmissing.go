// Package ho holds the harnesses of the overlays and builder packages.
package ho

import (
	"strings"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// queries builds a query list from texts.
func queries(texts ...string) overlays.Queries {
	var q overlays.Queries
	var n *yaml.Node
	if len(texts) == 1 {
		n = gen.S(texts[0])
	} else {
		n = gen.Q()
		for _, t := range texts {
			n.Content = append(n.Content, gen.S(t))
		}
	}
	if err := q.UnmarshalYAML(n); err != nil {
		panic("harness: " + err.Error())
	}
	return q
}

// onMissingAction reads an onMissing action as an instructions file gives it; "" leaves it unset.
func onMissingAction(text string) (a actions.OnMissingAction) {
	if text == "" {
		return
	}
	if err := gen.S(text).Decode(&a); err != nil {
		panic("harness: " + err.Error())
	}
	return
}

// pathQuery is a plain path query and the keys it names.
type pathQuery struct {
	text string
	keys []string
}

var plainPaths = []pathQuery{
	{"x.y", []string{"x", "y"}},
	{"$.x", []string{"x"}},
	{"x.y.z", []string{"x", "y", "z"}},
	{"x['p.q']", []string{"x", "p.q"}},
	{`$["x"]`, []string{"x"}},
	{"z", []string{"z"}},
	{"y.x", []string{"y", "x"}},
	{"x.%k", []string{"x", "%k"}},
	{"y%v.%l", []string{"y%v", "%l"}},
}

// find follows keys from a document.
func find(doc *yaml.Node, keys []string) *yaml.Node {
	if len(doc.Content) == 0 {
		return nil
	}
	n := doc.Content[0]
	for _, k := range keys {
		if n.Kind != yaml.MappingNode {
			return nil
		}
		i := gen.Find(n, k)
		if i < 0 {
			return nil
		}
		n = n.Content[i+1]
	}
	return n
}

// put is the reference of injecting a value at keys.
func put(doc *yaml.Node, keys []string, v *yaml.Node) {
	if len(doc.Content) == 0 {
		doc.Content = []*yaml.Node{gen.M()}
	}
	n := doc.Content[0]
	for _, k := range keys {
		if n.Kind != yaml.MappingNode {
			n.Kind, n.Tag, n.Value, n.Content = yaml.MappingNode, "!!map", "", nil
		}
		i := gen.Find(n, k)
		if i < 0 {
			i = len(n.Content)
			n.Content = append(n.Content, gen.S(k), gen.S(""))
		}
		n = n.Content[i+1]
	}
	h, l, f := n.HeadComment, n.LineComment, n.FootComment
	*n = *gen.Clone(v)
	if n.HeadComment == "" {
		n.HeadComment = h
	}
	if n.LineComment == "" {
		n.LineComment = l
	}
	if n.FootComment == "" {
		n.FootComment = f
	}
}

// eqInjected compares trees; what injection creates may leave its tag to be resolved from its text.
func eqInjected(a, b *yaml.Node) bool {
	if a.Kind != b.Kind || len(a.Content) != len(b.Content) {
		return false
	}
	r := sym.And(a.Value == b.Value, gen.EqComments(a, b))
	r = sym.And(r, sym.Or(a.Tag == b.Tag, sym.And(a.Tag == "", sym.Or(a.Kind != yaml.ScalarNode, b.Tag == "!!str"))))
	for i := range a.Content {
		r = sym.And(r, eqInjected(a.Content[i], b.Content[i]))
	}
	return r
}

// someDoc draws a document: emptied, or with a scalar, sequence or map in it.
func someDoc(g *gen.G, depth int) *yaml.Node {
	d := &yaml.Node{Kind: yaml.DocumentNode}
	switch sym.Choice(5) {
	case 0:
		if sym.Bool() {
			d.Content = []*yaml.Node{}
		}
		return d
	case 1:
		d.Content = []*yaml.Node{g.Of(yaml.ScalarNode, 0)}
	case 2:
		d.Content = []*yaml.Node{g.Of(yaml.SequenceNode, 1)}
	default:
		d.Content = []*yaml.Node{g.Of(yaml.MappingNode, depth)}
	}
	return d
}

func someValue() *yaml.Node {
	switch sym.Choice(5) {
	case 3:
		return gen.T("!!null", "~")
	case 0:
		return gen.S(sym.Str(1, gen.Letters))
	case 1:
		n := gen.S(sym.Str(1, gen.Letters))
		n.HeadComment, n.LineComment = "#"+sym.Str(1, gen.Letters), "#"+sym.Str(1, gen.Letters)
		return n
	case 2:
		return gen.Q(gen.S("i"), gen.M(gen.S("x"), gen.S(sym.Str(1, gen.Letters))))
	}
	return gen.M(gen.S("v"), gen.S(sym.Str(1, gen.Letters)), gen.S("w"), gen.Q())
}

// OnMissing applies an overlay whose query, or list of queries, matches nothing, under every combination of action,
// onMissing action and default. Injection is compared with a reference that follows the keys.
//
//verif:check C11 C02
//verif:quick kids=1 depth=2
//verif:thorough kids=2 depth=3
//verif:reach ignored injected
func OnMissing() {
	g := &gen.G{Kids: sym.Param("kids", 1), Keys: "xy", Len: 1}
	doc := someDoc(g, sym.Param("depth", 2))
	def := []string{"ignore", "inject", "INJECT"}[sym.Choice(3)]
	viper.Set("defaultOnMissingAction", def)
	var ps []pathQuery
	ps = append(ps, plainPaths[sym.Choice(len(plainPaths))])
	texts := []string{ps[0].text}
	if sym.Choice(2) == 1 {
		ps = append(ps, pathQuery{"k.l", []string{"k", "l"}})
		texts = append(texts, "k.l")
	}
	for _, p := range ps {
		sym.Assume(find(doc, p.keys) == nil)
	}
	o := &overlays.Overlay{Query: queries(texts...), Value: *someValue()}
	o.Action = actions.Action(sym.Int(0, 4)) // 0 is an action nobody set
	text := []string{"", "ignore", "inject"}[sym.Choice(3)]
	o.OnMissing.Action = onMissingAction(text)
	if sym.Choice(2) == 1 { // an inject path is not used when the query itself says where
		o.OnMissing.InjectPath = queries("other", "x.other")
	}
	checkOnMissing(o, doc, text, def, ps)
}

// OnMissingPath applies an overlay whose query matches nothing and is not a plain path, so that only an inject path
// or a list of inject paths says where to put the value.
//
//verif:check C11 C02
//verif:quick kids=1 depth=2 queries=2
//verif:thorough kids=2 depth=3 queries=4
//verif:reach ignored injected
func OnMissingPath() {
	g := &gen.G{Kids: sym.Param("kids", 1), Keys: "xy", Len: 1}
	doc := someDoc(g, sym.Param("depth", 2))
	def := []string{"ignore", "Inject"}[sym.Choice(2)]
	viper.Set("defaultOnMissingAction", def)
	q := []string{"n.*", "..n", "n[?(@.m=='t')]", "n[0].*"}[sym.Choice(sym.Param("queries", 2))]
	o := &overlays.Overlay{Query: queries(q), Value: *someValue()}
	o.Action = actions.Action(sym.Int(0, 4))
	text := []string{"", "ignore", "inject"}[sym.Choice(3)]
	o.OnMissing.Action = onMissingAction(text)
	var ps []pathQuery
	if sym.Choice(4) > 0 {
		ps = append(ps, plainPaths[sym.Choice(len(plainPaths))])
		texts := []string{ps[0].text}
		if sym.Choice(2) == 1 {
			ps = append(ps, pathQuery{"k.l", []string{"k", "l"}})
			texts = append(texts, "k.l")
		}
		o.OnMissing.InjectPath = queries(texts...)
	}
	checkOnMissing(o, doc, text, def, ps)
}

// OnMissingList has a list of queries not all of which are plain paths: it does not say where to put the value either.
//
//verif:check C11
//verif:quick
//verif:reach ignored injected
func OnMissingList() {
	g := &gen.G{Kids: 1, Keys: "xy", Len: 1}
	doc := gen.Doc(g.Of(yaml.MappingNode, 1))
	def := []string{"ignore", "Inject"}[sym.Choice(2)]
	viper.Set("defaultOnMissingAction", def)
	plain := []string{"n", "n.o", "$.n['o']"}
	other := []string{"n.*", "..n", "n[0].*", "n[*].o"}
	var qs []string
	k, at := 2+sym.Choice(2), sym.Choice(2)
	for i := 0; i < k; i++ {
		if i == at {
			qs = append(qs, other[sym.Choice(len(other))])
		} else {
			qs = append(qs, plain[sym.Choice(len(plain))])
		}
	}
	o := &overlays.Overlay{Query: queries(qs...), Value: *gen.S(sym.Str(1, gen.Letters))}
	text := []string{"", "inject"}[sym.Choice(2)]
	o.OnMissing.Action = onMissingAction(text)
	var ps []pathQuery
	if sym.Choice(2) > 0 {
		ps = append(ps, plainPaths[sym.Choice(len(plainPaths))])
		o.OnMissing.InjectPath = queries(ps[0].text)
	}
	checkOnMissing(o, doc, text, def, ps)
}

// OnMissingUnion names several places at once: in a query that is a plain path, or in an inject path.
//
//verif:check C11
//verif:quick kids=2
//verif:thorough kids=3
//verif:reach ignored injected
func OnMissingUnion() {
	g := &gen.G{Kids: sym.Param("kids", 2), Keys: "xu", Len: 1}
	doc := someDoc(g, 1)
	viper.Set("defaultOnMissingAction", "inject")
	var text string
	var ps []pathQuery
	one := func(quoted string, keys ...string) { ps = append(ps, pathQuery{quoted, keys}) }
	switch sym.Choice(4) {
	case 0:
		text = "u['a','b','c']"
		one("u['a']", "u", "a")
		one("u['b']", "u", "b")
		one("u['c']", "u", "c")
	case 1:
		text = `$['u', "v" ,'w'].x`
		one("u.x", "u", "x")
		one("v.x", "v", "x")
		one("w.x", "w", "x")
	case 2:
		text = `u["a", 'b.c'].z['d','e']`
		one("u.a.z.d", "u", "a", "z", "d")
		one("u.a.z.e", "u", "a", "z", "e")
		one("u['b.c'].z.d", "u", "b.c", "z", "d")
		one("u['b.c'].z.e", "u", "b.c", "z", "e")
	default:
		text = "['k','l','m','n','o','p']"
		for _, k := range []string{"k", "l", "m", "n", "o", "p"} {
			one(k, k)
		}
	}
	for _, p := range ps {
		sym.Assume(find(doc, p.keys) == nil)
	}
	o := &overlays.Overlay{Value: *someValue(), Action: actions.Action(sym.Int(1, 4))}
	if sym.Bool() {
		o.Query = queries(text)
	} else {
		o.Query = queries("n.*")
		o.OnMissing.InjectPath = queries(text)
	}
	checkOnMissing(o, doc, "", "inject", ps)
}

func checkOnMissing(o *overlays.Overlay, doc *yaml.Node, text, def string, ps []pathQuery) {
	inject := strings.EqualFold(text, "inject") || text == "" && strings.EqualFold(def, "inject")
	inject = inject && o.Action != actions.Delete && o.Action != actions.Combine
	before := gen.Clone(doc)
	value := gen.Clone(&o.Value)
	err := o.Apply(doc)
	sym.Assert("C11", "onmissing-no-error", err == nil)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C02", "onmissing-value-unchanged", gen.EqAll(&o.Value, value))
	sym.Assert("C02", "onmissing-not-shared", sym.And(gen.Disjoint(&o.Value, doc), gen.Unique(doc)))
	if !inject || len(ps) == 0 {
		sym.Assert("C11", "onmissing-ignored", gen.EqAll(doc, before))
		sym.Reach("ignored")
		return
	}
	want := gen.Clone(before)
	for _, p := range ps {
		put(want, p.keys, value)
	}
	sym.Assert("C11", "onmissing-injected", eqInjected(doc, want))
	for _, p := range ps {
		q := queries(p.text)
		got := q.Find(doc)
		sym.Assert("C11", "onmissing-one-match", len(got) == 1)
		if len(got) == 1 {
			sym.Assert("C11", "onmissing-value", gen.Eq(got[0], value))
		}
	}
	sym.Reach("injected")
}

// BadInjectPath has an inject path that does not name a place: that is an error, wherever in the list it stands.
//
//verif:check C12 C15
//verif:quick
//verif:reach failed
func BadInjectPath() {
	g := &gen.G{Kids: 1, Keys: "xy", Len: 1}
	doc := someDoc(g, 1)
	viper.Set("defaultOnMissingAction", "inject")
	bad := []string{"*", "a.*", "a[0]", "a[*]", "..a", "a[?(@.b)].c", "a[1:2]", "$..a.b"}
	texts := []string{bad[sym.Choice(len(bad))]}
	switch sym.Choice(3) {
	case 1:
		texts = append([]string{"k.l"}, texts...)
	case 2:
		texts = append(texts, "k.l")
	}
	o := &overlays.Overlay{Query: queries("n.*"), Value: *gen.S(sym.Str(1, gen.Letters)), Action: actions.Merge}
	o.OnMissing.InjectPath = queries(texts...)
	err := o.Apply(doc)
	sym.Assert("C12", "bad-inject-path-rejected", err != nil)
	sym.Assert("C15", "bad-inject-path-reported", err != nil)
	sym.Reach("failed")
}
