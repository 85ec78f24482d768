package ho

import (
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// InjectedApart creates several places with one overlay, changes one of them with another, and compares the others.
//
//verif:check C11 C02
//verif:reach changed
func InjectedApart() {
	viper.Set("defaultOnMissingAction", "inject")
	doc := gen.Doc(gen.M(gen.S("o"), gen.S(sym.Str(1, gen.Letters))))
	sets := []struct{ queries, places []string }{
		{[]string{"x['a','b','c']"}, []string{"a", "b", "c"}},
		{[]string{"x['a','b'].e", "x.c.e"}, []string{"a", "b", "c"}},
		{[]string{"x.a", "x.b", "x.c"}, []string{"a", "b", "c"}},
		{[]string{"x['a','b','c'].e['f','g']"}, []string{"a", "b", "c"}},
		{[]string{"x['a'][0]", "x['b'][0]"}, []string{"a", "b"}},
	}
	s := sets[sym.Choice(len(sets))]
	one := &overlays.Overlay{Query: queries(s.queries...), Value: *someValue()}
	one.Action = actions.Action(sym.Int(1, 3))
	sym.Assume(one.Action != actions.Delete)
	if sym.Choice(2) == 1 {
		one.Query, one.OnMissing.InjectPath = queries("n.*"), one.Query
	}
	if one.Apply(doc) != nil {
		return
	}
	x := find(doc, []string{"x"})
	if x == nil || x.Kind != yaml.MappingNode {
		return
	}
	before := gen.Clone(x)
	at := sym.Choice(len(s.places))
	q := []string{"x." + s.places[at], "x." + s.places[at] + ".*", "x." + s.places[at] + "..*"}[sym.Choice(3)]
	two := &overlays.Overlay{Query: queries(q), Value: *someValue()}
	two.Action = actions.Action(sym.Int(1, 4))
	two.OnMissing.Action = actions.Ignore
	if two.Apply(doc) != nil {
		return
	}
	sym.Reach("changed")
	for i, p := range s.places {
		j, k := gen.Find(before, p), gen.Find(x, p)
		if i == at || j < 0 || k < 0 {
			sym.Assert("C11", "apart-there", i == at || j < 0)
			continue
		}
		sym.Assert("C11", "apart-others", gen.Eq(before.Content[j+1], x.Content[k+1]))
		if i := gen.Find(x, s.places[at]); i >= 0 {
			sym.Assert("C02", "apart-shared", gen.Disjoint(x.Content[i+1], x.Content[k+1]))
		}
	}
}
