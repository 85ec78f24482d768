package ho

import (
	"strconv"
	"unicode/utf8"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// The harnesses of this file have long lists with few choices in them.

// DocumentQueryMany has many groups or many conditions, of which one is different.
//
//verif:check C08
//verif:quick n=7
//verif:thorough n=12
//verif:reach applied skipped
func DocumentQueryMany() {
	n := 1 + sym.Choice(sym.Param("n", 7))
	doc := gen.Doc(gen.M(gen.S("x"), gen.S(sym.Str(1, "ab")), gen.S("y"), gen.S(sym.Str(1, "ab")), gen.S("m"), gen.S("untouched")))
	common := cond{[]string{"x"}, gen.S("a")}
	special := cond{[]string{"y"}, gen.S("b")}
	at := sym.Choice(n)
	conds := func(k int) []cond {
		var cs []cond
		for i := 0; i < n; i++ {
			if i == k {
				cs = append(cs, special)
			} else {
				cs = append(cs, common)
			}
		}
		return cs
	}
	switch sym.Choice(3) {
	case 0:
		qualify(doc, [][]cond{conds(at)})
	case 1:
		var groups [][]cond
		for _, c := range conds(at) {
			groups = append(groups, []cond{c})
		}
		qualify(doc, groups)
	case 2:
		qualify(doc, [][]cond{{common, special}, conds(-1), conds(at)})
	}
}

// DocumentQueryTypes has conditions whose values are of any type, null included, beside values of any type.
//
//verif:check C08
//verif:quick
//verif:reach applied skipped
func DocumentQueryTypes() {
	tags := []string{"!!str", "!!int", "!!null", "!!bool", "!!float", "!!timestamp", "!x"}
	text := sym.Str(sym.Choice(2), "a1~")
	v := gen.T(tags[sym.Choice(len(tags))], text)
	w := gen.T(tags[sym.Choice(len(tags))], sym.Str(sym.Choice(2), "a1~"))
	switch sym.Choice(3) {
	case 0:
		qualify(gen.Doc(gen.M(gen.S("x"), v, gen.S("m"), gen.S("untouched"))), [][]cond{{{[]string{"x"}, w}}})
	case 1:
		qualify(gen.Doc(gen.M(gen.S("x"), gen.Q(v), gen.S("m"), gen.S("untouched"))), [][]cond{{{[]string{"x"}, gen.Q(w)}}})
	case 2:
		qualify(gen.Doc(gen.M(gen.S("x"), gen.M(gen.S("y"), v), gen.S("m"), gen.S("untouched"))), [][]cond{{{[]string{"*.y"}, w}}})
	}
}

// QueryMany has long lists of queries and queries of many matches.
//
//verif:check C17
//verif:quick n=9
//verif:thorough n=16
//verif:reach hit miss
func QueryMany() {
	n := 1 + sym.Choice(sym.Param("n", 9))
	there := sym.Choice(sym.Param("n", 9) + 1)
	doc := gen.Doc(gen.M(gen.S("o"), gen.S("x")))
	for i := 0; i < there; i++ {
		doc.Content[0].Content = append(doc.Content[0].Content, gen.S("k"+strconv.Itoa(i)), gen.S(sym.Str(1, gen.Letters)))
	}
	var texts []string
	switch sym.Choice(3) {
	case 0: // each of them once
		for i := 0; i < n; i++ {
			texts = append(texts, "k"+strconv.Itoa(i))
		}
	case 1:
		texts = []string{"*"}
	case 2: // the same in the end
		for i := 0; i < n; i++ {
			texts = append(texts, "none")
		}
		texts = append(texts, "k0", "o", "k1")
	}
	v := gen.S(sym.Str(1, gen.Letters))
	o := &overlays.Overlay{Query: queries(texts...), Value: *gen.Clone(v)}
	o.OnMissing.Action = onMissingAction("ignore")
	o.Action = []actions.Action{actions.Merge, actions.Combine, actions.Delete}[sym.Choice(3)]
	want := gen.Clone(doc)
	ms := matches(want, texts)
	for _, m := range ms {
		switch o.Action {
		case actions.Merge:
			m.Value = v.Value
		case actions.Combine:
			m.Value += v.Value
		case actions.Delete:
			drop(want, m)
		}
	}
	err := o.Apply(doc)
	sym.Observe("doc", gen.Show(doc))
	sym.Assert("C17", "many-no-error", err == nil)
	sym.Assert("C17", "many-result", gen.Eq(doc, want))
	if len(ms) > 0 {
		sym.Reach("hit")
	} else {
		sym.Reach("miss")
	}
}

// OnMissingMany has long lists of inject paths, or of plain queries.
//
//verif:check C11
//verif:quick n=7
//verif:thorough n=14
//verif:reach injected
func OnMissingMany() {
	n := 1 + sym.Choice(sym.Param("n", 7))
	doc := gen.Doc(gen.M(gen.S("o"), gen.S(sym.Str(1, gen.Letters)), gen.S("k0"), gen.M(gen.S("q"), gen.S("r"))))
	viper.Set("defaultOnMissingAction", "inject")
	var ps []pathQuery
	var texts []string
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		p := pathQuery{k + ".z", []string{k, "z"}}
		ps, texts = append(ps, p), append(texts, p.text)
	}
	o := &overlays.Overlay{Value: *someValue()}
	if sym.Choice(2) == 0 {
		o.Query = queries(texts...)
	} else {
		o.Query = queries("n.*")
		o.OnMissing.InjectPath = queries(texts...)
	}
	checkOnMissing(o, doc, "", "inject", ps)
}

// names have letters of all sizes.
var names = []string{"\u00e9", "\u65e5", "\U0001f600", "\u00a0", "\u0301", "\ufffd", "\u0085", "\u2028"}

// PathRunes gives names that are not ASCII to the path parser, in every kind of segment.
//
//verif:check C12
//verif:quick len=1
//verif:thorough len=2
//verif:reach accepted
func PathRunes() {
	name := names[sym.Choice(len(names))]
	l := sym.Param("len", 1)
	a, b := sym.Str(sym.Choice(l+1), "ab"), sym.Str(sym.Choice(l+1), "ab")
	want := a + name + b
	text := ""
	switch sym.Choice(6) {
	case 0:
		text = want
	case 1:
		text = "$." + want
	case 2:
		text = "x." + a + "\\" + name + b
	case 3:
		text = "x['" + want + "']"
	case 4:
		text = "x[\"" + want + "\\\"\"].y"
		want += "\""
	case 5:
		text = "x['q','" + want + "']"
	}
	n := build(text)
	sym.Assert("C12", "runes-accepted", n != nil)
	if n == nil {
		return
	}
	sym.Observe("built", gen.Show(n))
	keys, ok := chain(n)
	found := false
	for _, level := range keys {
		for _, k := range level {
			sym.Assert("C12", "runes-valid", utf8.ValidString(k))
			found = found || k == want
		}
	}
	sym.Assert("C12", "runes-keys", ok && found)
	sym.Reach("accepted")
}

// CrashTypes applies every action with every pair of scalar types and texts, the empty one included.
//
//verif:check C21
//verif:quick
//verif:reach applied failed
func CrashTypes() {
	tags := []string{"!!str", "!!int", "!!null", "!!bool", "!!float", "!!timestamp", "!!binary", "!x", "", "!!merge"}
	draw := func() *yaml.Node {
		return gen.T(tags[sym.Choice(len(tags))], []string{"", "0", "true", "-", "1.5", sym.Str(1, "")}[sym.Choice(6)])
	}
	doc := gen.Doc(gen.M(gen.S("x"), draw()))
	o := &overlays.Overlay{Query: queries("x"), Action: actions.Action(1 + sym.Choice(4)), Value: *draw()}
	crash(doc, []*overlays.Overlay{o})
}
