// Package ha holds the harnesses of the actions package.
package ha

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// Merge merges every overlay tree into every original tree.
//
//verif:check C01 C02
//verif:quick depth=2 odepth=2 kids=2 okids=1
//verif:thorough depth=2 odepth=2 kids=2 okids=2
//verif:reach merged
//verif:opt weight=3
func Merge() {
	g := &gen.G{Kids: sym.Param("kids", 2)}
	o := g.Tree(sym.Param("odepth", 2))
	g.Kids = sym.Param("okids", 2)
	g.Tags = true
	n := g.Tree(sym.Param("depth", 1))
	want := ref.Merge(o, n)
	n0 := gen.Clone(n)
	err := actions.MergeNode(o, n)
	sym.Assert("C01", "merge-no-error", err == nil)
	if err != nil {
		return
	}
	sym.Observe("o", gen.Show(o))
	sym.Assert("C01", "merge-result", gen.Eq(o, want))
	sym.Assert("C02", "merge-overlay-unchanged", gen.EqAll(n, n0))
	sym.Assert("C02", "merge-shares-nothing", sym.And(gen.Disjoint(o, n), gen.Unique(o)))
	sym.Reach("merged")
}

// MergeFlat merges maps and sequences of more entries.
//
//verif:check C01 C02
//verif:quick kids=3 okids=2
//verif:thorough kids=4 okids=3
//verif:reach merged
func MergeFlat() {
	k := yaml.MappingNode
	if sym.Bool() {
		k = yaml.SequenceNode
	}
	g := &gen.G{Kids: sym.Param("kids", 3)}
	o := g.Of(k, 1)
	g.Kids = sym.Param("okids", 3)
	g.Tags = true
	n := g.Of(k, 1)
	want := ref.Merge(o, n)
	n0 := gen.Clone(n)
	err := actions.MergeNode(o, n)
	sym.Assert("C01", "merge-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C01", "merge-result", gen.Eq(o, want))
	sym.Assert("C02", "merge-overlay-unchanged", gen.EqAll(n, n0))
	sym.Assert("C02", "merge-shares-nothing", sym.And(gen.Disjoint(o, n), gen.Unique(o)))
	sym.Reach("merged")
}

var wordTags = []string{"!!str", "!!int", "!!null", "!!bool", "!x"}

// word draws a scalar of any length up to the given one and any of several types.
func word(max int) *yaml.Node {
	return gen.T(wordTags[sym.Choice(len(wordTags))], sym.Str(sym.Choice(max+1), gen.Text))
}

// MergeWords merges maps whose keys and texts have different lengths, empty ones included.
//
//verif:check C01 C02
//verif:quick keys=2 kids=2 okids=1
//verif:thorough keys=3 kids=2 okids=2
//verif:reach merged
func MergeWords() {
	max := sym.Param("keys", 2)
	draw := func(kids int) *yaml.Node {
		m := gen.M()
		for i := 0; i < kids; i++ {
			k := gen.S(sym.Str(sym.Choice(max+1), gen.Text))
			for j := 0; j < len(m.Content); j += 2 {
				sym.Assume(m.Content[j].Value != k.Value)
			}
			v := gen.S("v")
			if i == 0 {
				v = word(1)
			}
			m.Content = append(m.Content, k, v)
		}
		return m
	}
	o := draw(sym.Param("kids", 2))
	n := draw(sym.Param("okids", 1))
	want := ref.Merge(o, n)
	n0 := gen.Clone(n)
	err := actions.MergeNode(o, n)
	sym.Assert("C01", "merge-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C01", "merge-result", gen.Eq(o, want))
	sym.Assert("C02", "merge-overlay-unchanged", gen.EqAll(n, n0))
	sym.Assert("C02", "merge-shares-nothing", sym.And(gen.Disjoint(o, n), gen.Unique(o)))
	sym.Reach("merged")
}

// MergeSeveral merges several documents over a base, as values files are.
//
//verif:check C01 C02
//verif:quick depth=1 kids=1 n=2
//verif:thorough depth=2 kids=1 n=2
//verif:reach merged
func MergeSeveral() {
	g := &gen.G{Kids: sym.Param("kids", 1)}
	d := sym.Param("depth", 1)
	base := gen.Doc(g.Of(yaml.MappingNode, d))
	all := []*yaml.Node{base}
	want := base
	var copies []*yaml.Node
	for i := 0; i < sym.Param("n", 2); i++ {
		n := gen.Doc(g.Of(yaml.MappingNode, d))
		all = append(all, n)
		copies = append(copies, gen.Clone(n))
		want = ref.Merge(want, n)
	}
	want = gen.Clone(want)
	err := actions.MergeNode(all...)
	sym.Assert("C01", "merge-several-no-error", err == nil)
	sym.Observe("o", gen.Show(base))
	sym.Assert("C01", "merge-several-result", gen.Eq(base, want))
	for i, c := range copies {
		sym.Assert("C02", "merge-several-sources-unchanged", gen.EqAll(all[i+1], c))
		sym.Assert("C02", "merge-several-shares-nothing", gen.Disjoint(base, all[i+1]))
	}
	sym.Reach("merged")
}

// MergeComments merges trees whose nodes carry comments.
//
//verif:check C06 C02
//verif:quick
//verif:reach merged
//verif:opt weight=2
func MergeComments() {
	// comments sit on keys, scalars and sequences; the shape is small because every node has eight comment patterns
	o, n := commentPair()
	want := ref.Merge(o, n)
	ref.MergeComments(want, o, n)
	n0 := gen.Clone(n)
	err := actions.MergeNode(o, n)
	sym.Assert("C02", "merge-overlay-unchanged", gen.EqAll(n, n0))
	sym.Assert("C02", "merge-shares-nothing", sym.And(gen.Disjoint(o, n), gen.Unique(o)))
	sym.Assert("C06", "merge-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C06", "merge-comments", gen.EqC(o, want))
	sym.Reach("merged")
}

func commentPair() (o, n *yaml.Node) {
	g := &gen.G{Kids: 1, Comments: true}
	p := &gen.G{Kids: 1}
	switch sym.Choice(6) {
	case 0: // scalar over scalar
		return g.Scalar(), g.Scalar()
	case 1: // an entry present in both
		ok, nk := g.Scalar(), g.Scalar()
		nk.Value = ok.Value
		return gen.M(ok, p.Scalar()), gen.M(nk, p.Scalar())
	case 2: // an entry present in both or only in one; comments on the values
		return gen.M(p.Scalar(), g.Scalar()), gen.M(p.Scalar(), g.Scalar())
	case 3: // an entry added beside another
		o, n = gen.M(g.Scalar(), p.Scalar()), gen.M(p.Scalar(), p.Scalar(), g.Scalar(), p.Scalar())
		sym.Assume(n.Content[0].Value != n.Content[2].Value)
		return o, n
	case 4: // items added to a sequence
		o, n = gen.Q(g.Scalar()), gen.Q(p.Scalar(), g.Scalar())
		return o, n
	}
	k := yaml.SequenceNode
	switch sym.Choice(3) {
	case 1: // flow maps with comments of their own
		o, n = g.Scalar(), g.Scalar()
		o.Kind, o.Tag, o.Value = yaml.MappingNode, "!!map", ""
		n.Kind, n.Tag, n.Value = yaml.MappingNode, "!!map", ""
		for i := sym.Choice(2); i > 0; i-- {
			o.Content = append(o.Content, p.Scalar(), p.Scalar())
		}
		for i := sym.Choice(2); i > 0; i-- {
			n.Content = append(n.Content, p.Scalar(), p.Scalar())
		}
		return o, n
	case 2: // a scalar becomes a map or sequence
		o, n = g.Scalar(), g.Scalar()
		n.Kind, n.Tag, n.Value = yaml.SequenceNode, "!!seq", ""
		if sym.Choice(2) == 0 {
			n.Kind, n.Tag = yaml.MappingNode, "!!map"
		}
		return o, n
	}
	// sequences with comments of their own
	o, n = g.Scalar(), g.Scalar()
	o.Kind, o.Tag, o.Value, o.Content = k, "!!seq", "", []*yaml.Node{p.Scalar()}
	n.Kind, n.Tag, n.Value = k, "!!seq", ""
	if sym.Choice(2) == 1 {
		n.Content = []*yaml.Node{p.Scalar()}
	}
	return o, n
}

// MergeNested keeps comments all over a document when the overlay has none.
//
//verif:check C06
//verif:quick kids=1
//verif:reach merged
func MergeNested() {
	g := &gen.G{Kids: 2}
	o := g.Tree(2)
	all := gen.Nodes(o)
	// one arbitrary node has comments
	k := sym.Choice(len(all))
	all[k].HeadComment = "#" + sym.Str(1, "")
	all[k].LineComment = "#" + sym.Str(1, "")
	all[k].FootComment = "#" + sym.Str(1, "")
	g.Kids = sym.Param("kids", 1)
	n := g.Tree(2)
	want := ref.Merge(o, n)
	ref.MergeComments(want, o, n)
	err := actions.MergeNode(o, n)
	sym.Assert("C06", "merge-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C06", "merge-keeps-comments", gen.EqC(o, want))
	sym.Reach("merged")
}

// MergeNothing merges a value that was not given: nothing changes, an alias may become what it stands for.
//
//verif:check C01 C02
//verif:quick depth=1 kids=2
//verif:thorough depth=2 kids=2
//verif:reach merged
func MergeNothing() {
	g := &gen.G{Kids: sym.Param("kids", 2)}
	o := g.Tree(sym.Param("depth", 1))
	root := o
	if sym.Choice(2) == 1 {
		o.Anchor = "a"
		root = gen.Q(o, gen.A(o))
		o = root.Content[1]
	}
	root0 := gen.Expand(root)
	n := &yaml.Node{}
	err := actions.MergeNode(o, n)
	sym.Assert("C01", "merge-nothing-no-error", err == nil)
	sym.Observe("root", gen.Show(root))
	sym.Assert("C01", "merge-nothing", gen.Eq(gen.Expand(root), root0))
	sym.Assert("C02", "merge-nothing-overlay-unchanged", gen.EqAll(n, &yaml.Node{}))
	sym.Reach("merged")
}
