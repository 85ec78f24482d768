package ho

import (
	"bytes"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// writable says whether the YAML encoder can write a tree.
func writable(n *yaml.Node) bool {
	if n == nil {
		return false
	}
	switch n.Kind {
	case yaml.DocumentNode, yaml.SequenceNode:
	case yaml.MappingNode:
		if len(n.Content)%2 != 0 {
			return false
		}
	case yaml.ScalarNode:
		if len(n.Content) != 0 {
			return false
		}
	case yaml.AliasNode:
		return n.Value != "" && len(n.Content) == 0
	case 0:
		return n.IsZero() // written as null
	default:
		return false
	}
	for _, c := range n.Content {
		if !writable(c) {
			return false
		}
	}
	return true
}

// encodes writes a tree with the real encoder.
func encodes(n *yaml.Node, style string) bool {
	if n.Kind == yaml.DocumentNode && len(n.Content) == 0 {
		return true // left out of the output
	}
	var b bytes.Buffer
	e := yaml.NewEncoder(&b)
	return e.Encode(n) == nil && e.Close() == nil
}

var crashQueries = []string{"x", "x.y", "*", "..*", "$", "x[0]", "", "x.y.z"}

func crashOverlay(full bool) *overlays.Overlay {
	o := &overlays.Overlay{Name: "o"}
	switch i := sym.Choice(len(crashQueries) + 2); {
	case i < len(crashQueries):
		o.Query = queries(crashQueries[i])
	case i == len(crashQueries):
		o.Query = overlays.Queries{}
	default:
		o.Query = queries("x", "y.z")
	}
	o.Action = actions.Action(sym.Int(0, 4))
	if full {
		o.OnMissing.Action = actions.OnMissingAction(sym.Int(0, 2))
		switch sym.Choice(4) {
		case 0:
			o.OnMissing.InjectPath = queries("x.y")
		case 1:
			o.OnMissing.InjectPath = overlays.Queries{}
		case 2:
			o.OnMissing.InjectPath = queries("z.*")
		}
	} else {
		o.OnMissing.Action = onMissingAction("inject")
	}
	switch sym.Choice(5) {
	case 0: // no value at all
	case 1:
		o.Value = *gen.T("!!"+tag(), sym.Str(1, "0123ab"))
	case 2:
		o.Value = *gen.Q(gen.S("v"))
	case 3:
		o.Value = *gen.M(gen.S("y"), gen.S("v"))
		o.Value.Content[1].LineComment = "#l"
	case 4:
		o.Value = *gen.M()
	}
	return o
}

// crashDoc draws a document the parser can yield: any tree, emptied, an alias in it, with or without comments.
func crashDoc() *yaml.Node {
	g := &gen.G{Kids: sym.Param("kids", 1), Keys: "xy", Vals: "0123ab", Len: 1}
	d := &yaml.Node{Kind: yaml.DocumentNode}
	switch sym.Choice(5) {
	case 0:
	case 1:
		d.Content = []*yaml.Node{g.Scalar()}
	case 2:
		d.Content = []*yaml.Node{g.Of(yaml.SequenceNode, 2)}
	case 3:
		d.Content = []*yaml.Node{g.Of(yaml.MappingNode, 2)}
	case 4:
		t := g.Tree(1)
		t.Anchor = "a"
		d.Content = []*yaml.Node{gen.M(gen.S("y"), t, gen.S("x"), &yaml.Node{Kind: yaml.AliasNode, Value: "a", Alias: t})}
	}
	if sym.Bool() {
		for _, n := range gen.Nodes(d) {
			if n.Kind != yaml.DocumentNode {
				n.HeadComment, n.LineComment = "#h", "#l"
			}
		}
	}
	return d
}

func crash(doc *yaml.Node, os []*overlays.Overlay) {
	viper.Set("defaultOnMissingAction", "ignore")
	failed := false
	for _, o := range os {
		if err := o.Apply(doc); err != nil {
			failed = true
			break // the run reports the error and writes nothing for this file
		}
	}
	sym.Observe("doc", gen.Show(doc))
	sym.ObserveBool("failed", failed)
	if failed {
		sym.Reach("failed")
		return
	}
	style := []string{"normal", "double"}[sym.Choice(2)]
	actions.SetStyle(actions.GetStyleFromConfig(style), doc)
	if sym.Symbolic() {
		sym.Assert("C21", "writable", writable(doc))
	} else {
		sym.Assert("C21", "writable", writable(doc) && encodes(doc, style))
	}
	sym.Reach("applied")
}

// OneOverlay applies any overlay to any document; nothing crashes and the result can be written.
//
//verif:check C21
//verif:quick kids=1
//verif:thorough kids=2
//verif:opt weight=2
//verif:reach applied failed
func OneOverlay() {
	crash(crashDoc(), []*overlays.Overlay{crashOverlay(true)})
}

// TwoOverlays applies two overlays in turn.
//
//verif:check C21
//verif:quick kids=1 n=2
//verif:thorough kids=1 n=3
//verif:opt weight=3
//verif:reach applied failed
func TwoOverlays() {
	doc := gen.Doc(gen.M(gen.S("x"), (&gen.G{Kids: 1, Keys: "xy", Len: 1}).Tree(1)))
	var os []*overlays.Overlay
	for i := 0; i < sym.Param("n", 2); i++ {
		os = append(os, crashOverlay(false))
	}
	crash(doc, os)
}
