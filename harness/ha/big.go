package ha

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// The harnesses of this file use few choices on trees that are much wider or deeper than those of the others.

func letterOf(i int) string { return string(rune('a' + i)) }

// wide draws a map or sequence of exactly c entries with symbolic texts; one key is symbolic.
func wide(k yaml.Kind, c int) *yaml.Node {
	n := gen.Q()
	if k == yaml.MappingNode {
		n = gen.M()
	}
	free := 0
	if c > 0 {
		free = []int{0, c / 2, c - 1}[sym.Choice(3)]
	}
	for i := 0; i < c; i++ {
		if k == yaml.MappingNode {
			key := letterOf(i)
			if i == free {
				// at its own place, or the key of one that is not there
				key = sym.Str(1, "abcdefghijklmnopqrstuvwxyz")
				for j := 0; j < c; j++ {
					if j != free {
						sym.Assume(key != letterOf(j))
					}
				}
			}
			n.Content = append(n.Content, gen.S(key))
		}
		n.Content = append(n.Content, gen.T(wordTags[i%len(wordTags)], sym.Str(1, gen.Text)))
	}
	return n
}

// MergeWide merges long maps and sequences.
//
//verif:check C01 C02
//verif:quick width=16
//verif:thorough width=16
//verif:reach merged
func MergeWide() {
	k := []yaml.Kind{yaml.MappingNode, yaml.SequenceNode}[sym.Choice(2)]
	w := sym.Param("width", 7)
	sizes := []int{0, 1, w / 2, w}
	o := wide(k, sizes[sym.Choice(4)])
	n := wide(k, sizes[sym.Choice(4)])
	mergeBig(o, n)
}

// deep draws a chain of maps and sequences; every entry of the chain has a sibling before and after it.
func deep(depth int, kinds string) *yaml.Node {
	n := gen.T(wordTags[depth%len(wordTags)], sym.Str(1, gen.Text))
	for i := depth - 1; i >= 0; i-- {
		if kinds[i] == 'm' {
			n = gen.M(gen.S("x"), gen.S(sym.Str(1, gen.Text)), gen.S(letterOf(i)), n, gen.S("z"), gen.T("!!int", "1"))
		} else {
			n = gen.Q(gen.S(sym.Str(1, gen.Text)), n, gen.S("z"))
		}
	}
	return n
}

// shape draws the kinds of the levels of a deep tree.
func shape(depth int) string {
	s := ""
	for i := 0; i < depth; i++ {
		s += []string{"m", "s"}[sym.Choice(2)]
	}
	return s
}

// MergeDeep merges deeply nested trees.
//
//verif:check C01 C02
//verif:quick depth=7
//verif:thorough depth=10
//verif:reach merged
func MergeDeep() {
	d := sym.Param("depth", 5)
	od, nd := 1+sym.Choice(d), 1+sym.Choice(d)
	s := shape(d)
	mergeBig(deep(od, s), deep(nd, s))
}

func mergeBig(o, n *yaml.Node) {
	doc := gen.Doc(gen.M(gen.S("root"), o))
	over := gen.Clone(n)
	want := gen.Doc(gen.M(gen.S("root"), ref.Merge(o, n)))
	err := actions.MergeNode(o, n)
	sym.Assert("C01", "merge-no-error", err == nil)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C01", "merge-result", gen.Eq(doc, want))
	sym.Assert("C02", "merge-overlay-unchanged", gen.EqAll(n, over))
	sym.Assert("C02", "merge-shares-nothing", sym.And(gen.Disjoint(doc, n), gen.Unique(doc)))
	sym.Reach("merged")
}

// MergeBranches merges long maps whose entries are small maps and sequences.
//
//verif:check C01 C02
//verif:quick width=24
//verif:thorough width=24
//verif:reach merged
func MergeBranches() {
	w := sym.Param("width", 12)
	branches := func(c int) *yaml.Node {
		n := gen.M()
		kind := sym.Choice(4)
		second := sym.Str(1, "qr")
		for i := 0; i < c; i++ {
			k, v := letterOf(i), gen.S(sym.Str(1, gen.Text))
			switch kind {
			case 0:
				v = gen.M(gen.S("p"), v, gen.S(second), gen.S("s"))
			case 1:
				v = gen.Q(v)
			case 2: // in turns
				if i%2 == 0 {
					v = gen.M(gen.S("p"), v)
				}
			case 3:
				v = gen.M(gen.S("p"), gen.Q(v, gen.T("!!null", "")))
			}
			n.Content = append(n.Content, gen.S(k), v)
		}
		return n
	}
	sizes := []int{1, w / 2, w}
	mergeBig(branches(sizes[sym.Choice(3)]), branches(sizes[sym.Choice(3)]))
}

// MergeItems adds the items of short sequences, of every type.
//
//verif:check C01 C02
//verif:quick n=4
//verif:thorough n=4
//verif:reach merged
func MergeItems() {
	n := gen.Q()
	for i, c := 0, sym.Choice(sym.Param("n", 3)+1); i < c; i++ {
		switch k := sym.Choice(len(wordTags) + 2); k {
		case len(wordTags):
			n.Content = append(n.Content, gen.M())
		case len(wordTags) + 1:
			n.Content = append(n.Content, gen.Q(gen.T("!!null", "")))
		default:
			n.Content = append(n.Content, gen.T(wordTags[k], sym.Str(sym.Choice(2), gen.Text)))
		}
	}
	mergeBig(gen.Q(gen.S(sym.Str(1, gen.Text)), gen.T("!!null", "")), n)
}

// big draws a wide or a deep tree.
func big(size int) *yaml.Node {
	if sym.Choice(2) == 0 {
		return wide([]yaml.Kind{yaml.MappingNode, yaml.SequenceNode}[sym.Choice(2)], size+2)
	}
	d := 1 + sym.Choice(size)
	return deep(d, shape(d))
}

// DeleteBig deletes from wide and deep trees.
//
//verif:check C04
//verif:quick size=4 picks=2
//verif:thorough size=6 picks=2
//verif:reach deleted
func DeleteBig() {
	deleteFrom(gen.Doc(big(sym.Param("size", 4))), sym.Param("picks", 2))
}

// DeleteLong deletes from long maps and sequences.
//
//verif:check C04
//verif:quick size=24 picks=2
//verif:thorough size=24 picks=2
//verif:reach deleted
func DeleteLong() {
	kind := []yaml.Kind{yaml.MappingNode, yaml.SequenceNode}[sym.Choice(2)]
	n := gen.Q()
	if kind == yaml.MappingNode {
		n = gen.M()
	}
	for i := 0; i < sym.Param("size", 14); i++ {
		if kind == yaml.MappingNode {
			n.Content = append(n.Content, gen.S(letterOf(i)))
		}
		n.Content = append(n.Content, gen.S(sym.Str(1, gen.Text)))
	}
	deleteFrom(gen.Doc(n), sym.Param("picks", 2))
}

// ReplaceBig replaces wide and deep trees by wide and deep trees.
//
//verif:check C05 C02
//verif:quick size=5
//verif:thorough size=5
//verif:reach replaced
func ReplaceBig() {
	s := sym.Param("size", 3)
	o, v := big(s), big(s)
	doc := gen.Doc(gen.M(gen.S("a"), o, gen.S("b"), gen.S("x")))
	v0 := gen.Clone(v)
	want := gen.Doc(gen.M(gen.S("a"), gen.Clone(v), gen.S("b"), gen.S("x")))
	err := actions.ReplaceNode(o, v)
	sym.Assert("C05", "replace-no-error", err == nil)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C05", "replace-result", gen.Eq(doc, want))
	sym.Assert("C02", "replace-overlay-unchanged", gen.EqAll(v, v0))
	sym.Assert("C02", "replace-shares-nothing", sym.And(gen.Disjoint(doc, v), gen.Unique(doc)))
	sym.Reach("replaced")
}

// StyleBig sets a style on every node of wide and deep trees.
//
//verif:check C13
//verif:quick size=6
//verif:thorough size=6
//verif:reach set
func StyleBig() {
	doc := gen.Doc(big(sym.Param("size", 5)))
	want := gen.Clone(doc)
	style := actions.GetStyleFromConfig([]string{"flow", "dq", "normal", "literal", "fold", "sq", "tag"}[sym.Choice(7)])
	s := yaml.Style(style.GetStyle())
	actions.SetStyle(style, doc)
	sym.Observe("doc", gen.Show(doc))
	ok := true
	for _, n := range gen.Nodes(doc) {
		// a text that the style would change may be written in another one
		other := n.Kind == yaml.ScalarNode && len(n.Value) > 0 && (n.Value[0] == ' ' || n.Value == "<<")
		ok = ok && (n.Style == s || other)
	}
	sym.Assert("C13", "style-on-every-node", ok)
	sym.Assert("C13", "style-changes-nothing-else", gen.EqC(doc, want))
	sym.Reach("set")
}

// anyKey draws a key: a text, which may be empty, a map or a sequence.
func anyKey() *yaml.Node {
	switch sym.Choice(6) {
	case 0:
		return gen.S("")
	case 1:
		return gen.Q(gen.S(sym.Str(1, gen.Text)))
	case 2:
		return gen.M(gen.S(sym.Str(1, gen.Text)), gen.S(sym.Str(1, gen.Text)))
	case 3:
		return gen.M()
	case 4:
		return gen.Q(gen.S("k"), gen.Q())
	}
	return gen.S(sym.Str(1, gen.Text))
}

// MergeKeys merges maps whose keys are maps and sequences, too.
//
//verif:check C01 C02
//verif:quick n=2 m=2
//verif:thorough n=3 m=2
//verif:reach named new
func MergeKeys() {
	draw := func(n int, v string) *yaml.Node {
		m := gen.M()
		for i, c := 0, 1+sym.Choice(n); i < c; i++ {
			k := anyKey()
			for j := 0; j < len(m.Content); j += 2 {
				sym.Assume(!gen.Eq(m.Content[j], k))
			}
			m.Content = append(m.Content, k, gen.S(v+letterOf(i)))
		}
		return m
	}
	o, n := draw(sym.Param("n", 2), "o"), draw(sym.Param("m", 2), "n")
	want, over := gen.Clone(o), gen.Clone(n)
	for i := 0; i < len(n.Content); i += 2 {
		found := false
		for j := 0; j < len(o.Content) && !found; j += 2 {
			if found = sym.Decide(gen.Eq(o.Content[j], n.Content[i])); found {
				sym.Reach("named")
				want.Content[j+1].Value = n.Content[i+1].Value
			}
		}
		if !found {
			sym.Reach("new")
			want.Content = append(want.Content, gen.Clone(n.Content[i]), gen.Clone(n.Content[i+1]))
		}
	}
	doc := gen.Doc(o)
	err := actions.MergeNode(o, n)
	sym.Assert("C01", "merge-keys-no-error", err == nil)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C01", "merge-keys-result", gen.Eq(doc, gen.Doc(want)))
	sym.Assert("C02", "merge-overlay-unchanged", gen.EqAll(n, over))
	sym.Assert("C02", "merge-shares-nothing", sym.And(gen.Disjoint(doc, n), gen.Unique(doc)))
}
