package ha

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// fold says whether s is name (lower case letters) in any letter case.
func fold(s, name string) bool {
	if len(s) != len(name) {
		return false
	}
	r := true
	for i := 0; i < len(s); i++ {
		r = sym.And(r, s[i]|0x20 == name[i])
	}
	return r
}

// anyText draws printable ASCII text.
func anyText(max int) string {
	s := sym.Str(sym.Choice(max+1), "")
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] >= 0x20, s[i] < 0x7f))
	}
	return s
}

// ActionNames reads arbitrary text as an overlay action.
//
//verif:check C20
//verif:quick len=20
//verif:thorough len=20
//verif:reach accepted rejected
func ActionNames() {
	s := anyText(sym.Param("len", 8))
	var want actions.Action
	switch {
	case sym.Decide(fold(s, "merge")):
		want = actions.Merge
	case sym.Decide(fold(s, "replace")):
		want = actions.Replace
	case sym.Decide(fold(s, "delete")):
		want = actions.Delete
	case sym.Decide(fold(s, "combine")):
		want = actions.Combine
	}
	var a actions.Action
	err := a.UnmarshalYAML(gen.S(s))
	sym.Assert("C20", "action-accepted-exactly", (err == nil) == (want != actions.Invalid))
	sym.Assert("C20", "action-meaning", a == want)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Observe("a", a.String())
	var b actions.Action
	m, err := a.MarshalYAML()
	t, isText := m.(string)
	sym.Assert("C20", "action-printable", err == nil && isText)
	sym.Assert("C20", "action-round-trip-no-error", b.UnmarshalYAML(gen.S(t)) == nil)
	sym.Assert("C20", "action-round-trip", b == a)
	var c actions.Action
	sym.Assert("C20", "action-string-round-trip", c.UnmarshalYAML(gen.S(a.String())) == nil && c == a)
	sym.Reach("accepted")
}

// ActionFlags sets an action from the command line.
//
//verif:check C20
//verif:quick
//verif:reach set refused
func ActionFlags() {
	names := []string{"merge", "Replace", "DELETE", "cOMBINe", "rename", "", "merge x", "ignore"}
	want := []actions.Action{actions.Merge, actions.Replace, actions.Delete, actions.Combine, 0, 0, 0, 0}
	i := sym.Choice(len(names))
	var a actions.Action
	err := a.Set(names[i])
	if names[i] == "" { // an empty flag is no flag
		sym.Assert("C20", "action-flag-empty", a == actions.Invalid)
		return
	}
	sym.Assert("C20", "action-flag-accepted", (err == nil) == (want[i] != actions.Invalid))
	sym.Assert("C20", "action-flag-meaning", a == want[i])
	if err == nil {
		sym.Reach("set")
	} else {
		sym.Reach("refused")
	}
}

// OnMissingNames reads arbitrary text as an onMissing action.
//
//verif:check C20
//verif:quick len=20
//verif:thorough len=20
//verif:reach inject other
func OnMissingNames() {
	s := anyText(sym.Param("len", 7))
	inject := sym.Decide(fold(s, "inject"))
	ignore := sym.Decide(fold(s, "ignore"))
	var a actions.OnMissingAction
	err := a.UnmarshalYAML(gen.S(s))
	sym.Assert("C20", "onmissing-inject-exactly", (a == actions.Inject) == inject)
	sym.Assert("C20", "onmissing-ignore", sym.Implies(ignore, a == actions.Ignore))
	if inject || ignore {
		sym.Assert("C20", "onmissing-no-error", err == nil)
		var b actions.OnMissingAction
		m, _ := a.MarshalYAML()
		t, _ := m.(string)
		sym.Assert("C20", "onmissing-round-trip", b.UnmarshalYAML(gen.S(t)) == nil && b == a)
		sym.Reach("inject")
		return
	}
	sym.Reach("other")
}

var styleNames = []struct {
	name string
	bit  actions.Style
}{
	{"normal", actions.NormalStyle}, {"n", actions.NormalStyle},
	{"tagged", actions.TaggedStyle}, {"tag", actions.TaggedStyle}, {"t", actions.TaggedStyle},
	{"doublequoted", actions.DoubleQuotedStyle}, {"doublequote", actions.DoubleQuotedStyle}, {"double", actions.DoubleQuotedStyle}, {"dq", actions.DoubleQuotedStyle},
	{"singlequoted", actions.SingleQuotedStyle}, {"singlequote", actions.SingleQuotedStyle}, {"single", actions.SingleQuotedStyle}, {"sq", actions.SingleQuotedStyle},
	{"literal", actions.LiteralStyle}, {"l", actions.LiteralStyle},
	{"folded", actions.FoldedStyle}, {"fold", actions.FoldedStyle}, {"fo", actions.FoldedStyle},
	{"flow", actions.FlowStyle}, {"fl", actions.FlowStyle},
}

// anyCase draws any spelling of a lower case word.
func anyCase(name string) string {
	s := sym.Str(len(name), "")
	sym.Assume(fold(s, name))
	return s
}

// StyleNames reads one style name of arbitrary text.
//
//verif:check C13
//verif:quick len=12
//verif:reach known unknown
func StyleNames() {
	s := anyText(sym.Param("len", 12))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] != ',', sym.And(s[i] != '[', s[i] != ']')))
	}
	// an undocumented spelling is left to the code
	sym.Assume(!fold(s, "singleqoute"))
	want := actions.Style(0)
	for _, n := range styleNames {
		if len(n.name) == len(s) && sym.Decide(fold(s, n.name)) {
			want = n.bit
			break
		}
	}
	got := actions.GetStyleFromConfig(s).GetStyle()
	sym.Assert("C13", "style-name", got == want)
	if want != 0 {
		sym.Reach("known")
	} else {
		sym.Reach("unknown")
	}
}

// StyleLists reads several names, in any order, repeated, separate or in one list.
//
//verif:check C13
//verif:quick names=5 case=0
//verif:thorough names=5 case=0
//verif:reach read
//verif:opt weight=2
func StyleLists() {
	c := 1 + sym.Choice(sym.Param("names", 3))
	var names []string
	want := actions.Style(0)
	long := []int{0, 2, 5, 9, 13, 15, 18, 19}
	for i := 0; i < c; i++ {
		k := sym.Choice(len(long) + 1)
		if k == len(long) {
			names = append(names, "none")
			continue
		}
		n := styleNames[long[k]]
		if i == 0 {
			names = append(names, anyCase(n.name))
		} else {
			names = append(names, n.name)
		}
		want |= n.bit
	}
	var args []string
	switch sym.Choice(3) {
	case 0:
		args = names
	case 1:
		args = []string{join(names)}
	default:
		args = []string{"[" + join(names) + "]"}
	}
	got := actions.GetStyleFromConfig(args...).GetStyle()
	sym.Assert("C13", "style-list", got == want)
	sym.Reach("read")
}

func join(names []string) string {
	s := names[0]
	for _, n := range names[1:] {
		s += "," + n
	}
	return s
}

// StyleTree sets a style on every node of a tree and changes nothing else.
//
//verif:check C13
//verif:quick depth=2 kids=2
//verif:thorough depth=3 kids=2
//verif:reach set
func StyleTree() {
	g := &gen.G{Kids: sym.Param("kids", 2)}
	t := g.Tree(sym.Param("depth", 2))
	all := gen.Nodes(t)
	k := sym.Choice(len(all))
	all[k].HeadComment, all[k].LineComment, all[k].FootComment = "#"+sym.Str(1, ""), "#l", "#f"
	all[k].Anchor = "x"
	all[k].Style = yaml.LiteralStyle
	doc := gen.Doc(t)
	if sym.Choice(2) == 1 {
		doc = gen.Doc(gen.Q(t, &yaml.Node{Kind: yaml.AliasNode, Value: "x", Alias: all[k]}))
	}
	want := gen.Clone(doc)
	names := []string{"flow", "dq", "normal", "tagged"}
	style := actions.GetStyleFromConfig(names[sym.Choice(4)], names[sym.Choice(2)])
	s := yaml.Style(style.GetStyle())
	actions.SetStyle(style, doc)
	sym.Observe("doc", gen.Show(doc))
	ok := true
	for _, n := range gen.Nodes(doc) {
		ok = ok && (n.Style == s || n.Kind == yaml.AliasNode)
	}
	sym.Assert("C13", "style-on-every-node", ok)
	sym.Assert("C13", "style-changes-nothing-else", gen.EqC(doc, want))
	sym.Reach("set")
}
