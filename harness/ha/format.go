package ha

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// markAlphabet holds every byte the markers are made of, and others. '{' is left out: a sed command would follow.
const markAlphabet = "%vklhf%a #$\\"

// text draws marker-rich text of 0..max bytes.
func text(max int) string { return sym.Str(sym.Choice(max+1), markAlphabet) }

// original draws a scalar whose own text looks like markers too.
func original(v, c int) *yaml.Node {
	o := gen.S(sym.Str(v, markAlphabet))
	o.LineComment = "#" + sym.Str(c, markAlphabet)
	o.HeadComment = "#" + sym.Str(c, markAlphabet)
	o.FootComment = "#" + sym.Str(c, markAlphabet)
	return o
}

// FormatScalar merges a scalar full of markers into another one.
//
//verif:check C07
//verif:quick len=5 olen=2
//verif:thorough len=5 olen=2
//verif:reach merged
//verif:opt weight=3
func FormatScalar() {
	l := sym.Param("olen", 2)
	o := original(l, l)
	n := gen.S(text(sym.Param("len", 4)))
	want := gen.Clone(o)
	want.Value = ref.Format(n.Value, ref.OrigOf(o, ""))
	err := actions.MergeNode(o, n)
	sym.Assert("C07", "format-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-value", gen.EqC(o, want))
	sym.Reach("merged")
}

// FormatComment merges, replaces or combines a scalar whose comments hold markers.
//
//verif:check C07
//verif:quick len=4 olen=2
//verif:thorough len=4 olen=2
//verif:reach merged
//verif:opt weight=2
func FormatComment() {
	l := sym.Param("olen", 2)
	o := original(l, l)
	n := []*yaml.Node{gen.S("new"), gen.M(gen.S("k"), gen.S("new")), gen.Q(gen.S("new"))}[sym.Choice(3)]
	c := "#" + text(sym.Param("len", 3))
	switch sym.Choice(3) {
	case 0:
		n.HeadComment = c
	case 1:
		n.LineComment = c
	default:
		n.FootComment = c
	}
	want := gen.Clone(o)
	ref.FormatComments(want, n, ref.OrigOf(o, ""))
	var err error
	switch sym.Choice(3) {
	case 0:
		err = actions.MergeNode(o, n)
	case 1:
		err = actions.ReplaceNode(o, n)
	default:
		sym.Assume(n.Kind == yaml.ScalarNode)
		err = actions.CombineNode(o, n)
	}
	sym.Assert("C07", "format-comment-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-comment", gen.EqComments(o, want))
	sym.Reach("merged")
}

// FormatTogether merges a scalar whose value and comments hold markers at the same time: each is written out from
// what the original was before the merge.
//
//verif:check C07 C06
//verif:quick len=3 olen=1
//verif:thorough len=3 olen=1
//verif:reach merged
func FormatTogether() {
	l := sym.Param("olen", 1)
	o := original(l, l)
	n := gen.S(text(sym.Param("len", 2)))
	c := "#" + text(2)
	which := sym.Choice(4)
	if which == 0 || which == 3 {
		n.HeadComment = c
	}
	if which == 1 || which == 3 {
		n.LineComment = c + "l"
	}
	if which == 2 || which == 3 {
		n.FootComment = c + "f"
	}
	want := gen.Clone(o)
	want.Value = ref.Format(n.Value, ref.OrigOf(o, ""))
	ref.FormatComments(want, n, ref.OrigOf(o, ""))
	err := actions.MergeNode(o, n)
	sym.Assert("C07", "format-together-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-together", o.Value == want.Value)
	sym.Assert("C06", "format-together-comments", gen.EqComments(o, want))
	sym.Reach("merged")
}

// FormatEntry merges a map entry: the key name is known there.
//
//verif:check C07
//verif:quick len=4
//verif:thorough len=4
//verif:reach merged
//verif:opt weight=2
func FormatEntry() {
	ok := original(0, 1)
	ok.Value = sym.Str(1, "ab") + sym.Str(1, "%v")
	ov := original(2, 1)
	other := gen.S("other")
	o := gen.M(gen.S("zz"), other, ok, ov)
	nk := gen.S(ok.Value)
	nv := gen.S("new")
	t := text(sym.Param("len", 3))
	ko, vo := ref.OrigOf(ok, ok.Value), ref.OrigOf(ov, ok.Value)
	ko.Value = ov.Value
	wk, wv := gen.Clone(ok), gen.Clone(ov)
	wv.Value = "new"
	switch sym.Choice(3) {
	case 0:
		nv.Value = t
		wv.Value = ref.Format(t, vo)
	case 1:
		// a map or a list in place of the text remarks on it as a text does
		switch sym.Choice(3) {
		case 1:
			nv = gen.M(gen.S("k"), gen.S("n"))
			wv.Kind, wv.Tag, wv.Value = nv.Kind, nv.Tag, ""
			wv.Content = gen.Clone(nv).Content
		case 2:
			nv = gen.Q(gen.S("n"))
			wv.Kind, wv.Tag, wv.Value = nv.Kind, nv.Tag, ""
			wv.Content = gen.Clone(nv).Content
		}
		nv.LineComment = "#" + t
		wv.LineComment = ref.Format(nv.LineComment, vo)
	default:
		nk.HeadComment = "#" + t
		wk.HeadComment = ref.Format(nk.HeadComment, ko)
	}
	want := gen.M(gen.S("zz"), gen.S("other"), wk, wv)
	err := actions.MergeNode(o, gen.M(nk, nv))
	sym.Assert("C07", "format-entry-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-entry", gen.EqC(o, want))
	sym.Reach("merged")
}

// FormatKey merges an entry whose key holds a marker into a map: every key is rewritten.
//
//verif:check C07
//verif:quick len=3
//verif:thorough len=4
//verif:reach merged
//verif:opt weight=2
func FormatKey() {
	ok := original(1, 1)
	ov := original(1, 1)
	k2 := gen.S("kk")
	v2 := gen.S("vv")
	o := gen.M(ok, ov, k2, v2)
	nk := gen.S(text(sym.Param("len", 3)))
	sym.Assume(sym.Decide(ref.Marked(nk.Value)))
	nv := gen.S(text(2))
	if sym.Choice(2) == 1 {
		nv.Value = "n"
		nk.LineComment = "#" + sym.Str(2, "%lhkva")
	}
	want := gen.M()
	for i := 0; i < 4; i += 2 {
		k, v := o.Content[i], o.Content[i+1]
		ko, vo := ref.OrigOf(k, k.Value), ref.OrigOf(v, k.Value)
		ko.Value = v.Value
		wk, wv := gen.Clone(k), gen.Clone(v)
		wk.Value = ref.Format(nk.Value, ko)
		ref.FormatComments(wk, nk, ko)
		wv.Value = ref.Format(nv.Value, vo)
		want.Content = append(want.Content, wk, wv)
	}
	err := actions.MergeNode(o, gen.M(nk, nv))
	sym.Assert("C07", "format-key-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-key", gen.EqC(o, want))
	sym.Reach("merged")
}

// FormatAdded adds entries and items that hold markers.
//
//verif:check C07
//verif:quick len=5
//verif:thorough len=5
//verif:reach merged
func FormatAdded() {
	t := text(sym.Param("len", 3))
	n := gen.S("new")
	switch sym.Choice(4) {
	case 0:
		n.Value = t
	case 1:
		n.HeadComment = t
	case 2:
		n.LineComment = t
	default:
		n.FootComment = t
	}
	var o *yaml.Node
	switch sym.Choice(3) {
	case 0:
		o, n = gen.M(gen.S("old"), gen.S("%v")), gen.M(gen.S("added"), n)
	case 1:
		o, n = gen.Q(gen.S("%v")), gen.Q(n)
	default:
		o, n = gen.M(), gen.M(gen.S("added"), gen.Q(gen.M(gen.S("x"), n)))
	}
	want := gen.Clone(o)
	for _, c := range n.Content {
		want.Content = append(want.Content, ref.FormatNew(c))
	}
	err := actions.MergeNode(o, n)
	sym.Assert("C07", "format-added-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-added", gen.EqC(o, want))
	sym.Reach("merged")
}

// FormatMany has texts of many markers.
//
//verif:check C07
//verif:quick n=12
//verif:thorough n=12
//verif:reach merged
func FormatMany() {
	all := []string{"%v", "%k", "%l", "%h", "%f", "%", "x"}
	t := ""
	first, second := all[sym.Choice(len(all))], all[sym.Choice(len(all))]
	for i, n := 0, sym.Choice(sym.Param("n", 7)+1); i < n; i++ {
		t += first
		if i%3 == 1 {
			t += second
		}
	}
	formatMany(t)
}

func formatMany(t string) {
	o := original(1, 1)
	ok := gen.S("key")
	nv := gen.S(t)
	nv.LineComment = "#" + t
	want := gen.Clone(o)
	orig := ref.OrigOf(o, "key")
	want.Value = ref.Format(t, orig)
	ref.FormatComments(want, nv, orig)
	m := gen.M(ok, o)
	err := actions.MergeNode(m, gen.M(gen.S("key"), nv))
	sym.Assert("C07", "format-many-no-error", err == nil)
	sym.Observe("m", gen.Show(m))
	sym.Assert("C07", "format-many", gen.EqC(o, want))
	sym.Reach("merged")
}

// FormatLines has comments of several lines, in the original and in the overlay.
//
//verif:check C07 C06
//verif:quick len=2
//verif:thorough len=2
//verif:reach merged
func FormatLines() {
	l := sym.Param("len", 1)
	draw := func() string {
		c := "#" + sym.Str(l, "a# ") + "\n#" + sym.Str(l, "a# ")
		if sym.Choice(2) == 1 {
			c += "\n\n# third"
		}
		return c
	}
	o := gen.S("old")
	o.HeadComment, o.LineComment, o.FootComment = draw(), "#"+sym.Str(1, "a#"), draw()
	n := gen.S("<%v|%h|%l|%f>")
	switch sym.Choice(4) {
	case 0:
		n.HeadComment = draw()
	case 1:
		n.FootComment = draw()
	case 2:
		n.HeadComment = "# %h\n# new"
	}
	want := gen.Clone(o)
	want.Value = ref.Format(n.Value, ref.OrigOf(o, ""))
	ref.FormatComments(want, n, ref.OrigOf(o, ""))
	err := actions.MergeNode(o, n)
	sym.Assert("C07", "format-lines-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-lines", o.Value == want.Value)
	sym.Assert("C06", "format-lines-comments", gen.EqComments(o, want))
	sym.Reach("merged")
}

// FormatTypes renames keys that are not text: a key whose text is another has the type of that text, or is text.
//
//verif:check C28 C07
//verif:quick len=2
//verif:thorough len=3
//verif:reach renamed
func FormatTypes() {
	tags := []string{"!!int", "!!null", "!!bool", "!!float", "!!timestamp", "!!merge"}
	texts := []string{"5", "null", "true", "1.5", "2001-01-01", "<<"}
	i := sym.Choice(len(tags))
	k := gen.T(tags[i], texts[i])
	o := gen.M(k, gen.M())
	before := sym.Str(sym.Choice(sym.Param("len", 2)+1), "")
	sym.Assume(!sym.Decide(ref.Marked(before + "x")))
	n := []string{"%k", "%k" + before, before + "-%k"}[sym.Choice(3)]
	sym.Assume(!sym.Decide(ref.Marked(before+"k")) || n == "%k")
	want := ref.Format(n, ref.Orig{Key: texts[i]})
	nested := gen.M()
	if sym.Choice(2) == 1 {
		// an entry of the map, which is not the value itself
		o, nested = gen.M(gen.S("m"), o), gen.M(gen.S("m"), nested)
		nested.Content[1] = gen.M(gen.S(n), gen.M())
	} else {
		nested = gen.M(gen.S(n), gen.M())
	}
	err := actions.MergeNode(o, nested)
	sym.Assert("C07", "format-types-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C07", "format-types-text", k.Value == want)
	looks := (&yaml.Node{Kind: yaml.ScalarNode, Value: want}).ShortTag()
	sym.Assert("C28", "format-types", sym.Or(sym.Or(k.ShortTag() == "!!str", k.ShortTag() == looks),
		sym.And(k.Value == texts[i], k.Tag == tags[i])))
	if n == "%k" {
		sym.Assert("C07", "format-types-kept", k.Tag == tags[i])
	}
	sym.Reach("renamed")
}

// FormatAliases merges and replaces where keys and values are aliases: what the markers stand for is the text that the
// alias stands for.
//
//verif:check C07 C25
//verif:quick len=2
//verif:thorough len=2
//verif:reach key value named replaced complex
func FormatAliases() {
	t := sym.Str(1+sym.Choice(sym.Param("len", 1)), "%v")
	target := gen.Anchored("a", gen.S(t))
	t0 := gen.Clone(target)
	k, v := gen.A(target), gen.S("old")
	o := gen.M(gen.S("zz"), target, k, v)
	mark := "<" + []string{"%k", "%v", "%k%v"}[sym.Choice(3)] + ">"
	var err error
	switch sym.Choice(5) {
	case 0:
		sym.Reach("key")
		err = actions.MergeNode(gen.M(k, v), gen.M(gen.S(mark), gen.S("new")))
		sym.Assert("C07", "format-alias-key", sym.And(k.Kind == yaml.ScalarNode, k.Value == ref.Format(mark, ref.Orig{Key: t, Value: "old"})))
		sym.Assert("C07", "format-alias-key-value", v.Value == "new")
	case 1:
		sym.Reach("named")
		sym.Assume(t != "%v") // this would rename every key
		n := gen.S(mark)
		err = actions.MergeNode(o, gen.M(gen.S(t), n))
		sym.Assert("C07", "format-alias-named", v.Value == ref.Format(mark, ref.Orig{Key: t, Value: "old"}))
	case 2:
		sym.Reach("value")
		k, v = gen.S("k"), gen.A(target)
		o.Content[2], o.Content[3] = k, v
		nk := gen.S("k")
		nk.HeadComment = "#" + mark
		err = actions.MergeNode(o, gen.M(nk, gen.S(mark)))
		ok := k.HeadComment == "#"+ref.Format(mark, ref.Orig{Key: "k", Value: t})
		sym.Assert("C07", "format-alias-value-comment", ok)
		sym.Assert("C25", "format-alias-value-comment", ok)
		sym.Assert("C07", "format-alias-value", sym.And(v.Kind == yaml.ScalarNode, v.Value == ref.Format(mark, ref.Orig{Key: "k", Value: t})))
	case 3:
		sym.Reach("replaced")
		v = gen.A(target)
		o.Content[3] = v
		n := gen.S("new")
		n.LineComment = "#" + mark
		err = actions.ReplaceNode(v, n)
		sym.Assert("C07", "format-alias-replaced", v.LineComment == "#"+ref.Format(mark, ref.Orig{Value: t}))
	default:
		// a key that is a map or a list has no text
		sym.Reach("complex")
		k = []*yaml.Node{gen.M(gen.S("x"), gen.S("y")), gen.Q(gen.S("x")), gen.M(), gen.Q()}[sym.Choice(4)]
		k0 := gen.Clone(k)
		err = actions.MergeNode(gen.M(k, v), gen.M(gen.S(mark), gen.S("new")))
		sym.Assert("C07", "format-complex-key", gen.EqC(k, k0))
		sym.Assert("C07", "format-complex-value", v.Value == "new")
	}
	sym.Assert("C07", "format-alias-no-error", err == nil)
	sym.Assert("C25", "format-alias-target", gen.EqC(target, t0))
}

// FormatKeys renames the keys of maps of many entries.
//
//verif:check C07
//verif:quick n=20
//verif:thorough n=20
//verif:reach renamed
func FormatKeys() {
	n := sym.Choice(sym.Param("n", 9) + 1)
	o, want := gen.M(), gen.M()
	mark := []string{"%k-", "%v-%k", "<%v>"}[sym.Choice(3)]
	for i := 0; i < n; i++ {
		k, v := string(rune('a'+i)), sym.Str(1, gen.Letters)
		o.Content = append(o.Content, gen.S(k), gen.S(v))
		want.Content = append(want.Content, gen.S(ref.Format(mark, ref.Orig{Key: k, Value: v})), gen.S(v+"!"))
	}
	err := actions.MergeNode(o, gen.M(gen.S(mark), gen.S("%v!")))
	sym.Assert("C07", "format-keys-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	if n == 0 {
		return
	}
	sym.Assert("C07", "format-keys", gen.Eq(o, want))
	sym.Reach("renamed")
}
