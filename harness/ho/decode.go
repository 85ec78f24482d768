package ho

import (
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ReadOverlay reads an overlay as it stands in an instructions file, with and without a name and an action, and applies
// it; without an action it merges.
//
//verif:check C20 C08 C11
//verif:quick
//verif:reach merge replace delete combine
func ReadOverlay() {
	viper.Set("defaultOnMissingAction", "ignore")
	src := gen.M(gen.S("query"), gen.S("x"))
	if sym.Choice(2) == 1 {
		src.Content = append(src.Content, gen.S("name"), gen.S(sym.Str(1, gen.Letters)))
	}
	names := []string{"", "merge", "replace", "delete", "combine", "MERGE", "Replace", "dELETE", "Combine"}
	action := sym.Choice(len(names))
	if action > 0 {
		src.Content = append(src.Content, gen.S("action"), gen.S(names[action]))
	}
	v := gen.M(gen.S("a"), gen.S(sym.Str(1, gen.Letters)))
	if sym.Choice(2) == 1 {
		v = gen.S(sym.Str(1, gen.Letters))
	}
	src.Content = append(src.Content, gen.S("value"), gen.Clone(v))
	applies := true
	if sym.Choice(2) == 1 {
		// a qualifier on the same document
		want := gen.S(sym.Str(1, "ab"))
		src.Content = append(src.Content, gen.S("documentQuery"),
			gen.Q(gen.M(gen.S("conditions"), gen.Q(gen.M(gen.S("query"), gen.S("q"), gen.S("value"), want)))))
		applies = sym.Decide(want.Value == "a")
	}
	missing := sym.Choice(3)
	switch missing {
	case 1:
		src.Content = append(src.Content, gen.S("onMissing"), gen.M(gen.S("action"), gen.S("inject")))
	case 2:
		src.Content = append(src.Content, gen.S("onMissing"), gen.M(gen.S("action"), gen.S("ignore"), gen.S("injectPath"), gen.S("y")))
	}
	var o overlays.Overlay
	if err := o.UnmarshalYAML(src); err != nil {
		sym.Assert("C20", "overlay-read", false)
		return
	}
	old := gen.M(gen.S("a"), gen.S(sym.Str(1, gen.Letters)), gen.S("b"), gen.S(sym.Str(1, gen.Letters)))
	if sym.Choice(2) == 1 {
		old = gen.S(sym.Str(1, gen.Letters))
	}
	doc := gen.Doc(gen.M(gen.S("q"), gen.S("a"), gen.S("x"), old))
	if sym.Choice(3) == 0 {
		doc.Content[0].Content = doc.Content[0].Content[:2]
	}
	want := gen.Clone(doc)
	root := want.Content[0]
	wantErr := false
	found := len(root.Content) == 4
	act := names[action]
	switch {
	case !applies:
	case !found:
		if missing == 1 && (action < 3 || action == 5 || action == 6) {
			root.Content = append(root.Content, gen.S("x"), gen.Clone(v))
		}
	default:
		switch act {
		case "", "merge", "MERGE":
			root.Content[3] = ref.Merge(old, v)
			sym.Reach("merge")
		case "replace", "Replace":
			root.Content[3] = gen.Clone(v)
			sym.Reach("replace")
		case "delete", "dELETE":
			root.Content = root.Content[:2]
			sym.Reach("delete")
		default:
			if old.Kind == yaml.ScalarNode && v.Kind == yaml.ScalarNode {
				root.Content[3].Value = old.Value + v.Value
			} else {
				wantErr = true
			}
			sym.Reach("combine")
		}
	}
	err := o.Apply(doc)
	sym.Observe("doc", gen.Show(doc))
	good := sym.And((err != nil) == wantErr, eqInjected(doc, want))
	sym.Assert("C20", "overlay-does-its-action", sym.Or(!found, good))
	sym.Assert("C11", "overlay-onmissing", sym.Or(found, good))
	sym.Assert("C08", "overlay-qualified", sym.Or(applies, gen.EqC(doc, want)))
}
