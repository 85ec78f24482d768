package hi

import (
	"strconv"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// shared are overlays as they are shared between files: every action, value and qualifier.
func shared(k int, l string) (*yaml.Node, func(id string) *yaml.Node) {
	plain := func(id string) *yaml.Node {
		return mapping("id", id, "a", "v", "m", mapping("x", "y"), "s", gen.Q(gen.S("i")))
	}
	set := func(n *yaml.Node, key string, v *yaml.Node) *yaml.Node {
		if i := gen.Find(n, key); i >= 0 {
			n.Content[i+1] = v
		} else {
			n.Content = append(n.Content, gen.S(key), v)
		}
		return n
	}
	switch k {
	case 0: // a scalar with markers and a comment
		v := gen.S(l + "%v")
		v.LineComment = "#%v"
		return mapping("query", "a", "value", v), func(id string) *yaml.Node { return set(plain(id), "a", gen.S(l+"v")) }
	case 1: // a map with old and new entries
		return mapping("query", "$", "value", mapping("m", mapping("z", l), "n", mapping("w%v", gen.Q(gen.S("%v"))))),
			func(id string) *yaml.Node {
				return set(set(plain(id), "m", mapping("x", "y", "z", l)), "n", mapping("w", gen.Q(gen.S(""))))
			}
	case 2: // replaced by a tree
		return mapping("query", "m", "action", "replace", "value", mapping("p", gen.Q(gen.S(l), gen.M()))),
			func(id string) *yaml.Node { return set(plain(id), "m", mapping("p", gen.Q(gen.S(l), gen.M()))) }
	case 3: // items
		return mapping("query", "s", "value", gen.Q(mapping("k", l), gen.S("%v"))),
			func(id string) *yaml.Node { return set(plain(id), "s", gen.Q(gen.S("i"), mapping("k", l), gen.S(""))) }
	case 4: // injected by default
		return mapping("query", "q.r", "value", mapping("k", l)),
			func(id string) *yaml.Node { return set(plain(id), "q", mapping("r", mapping("k", l))) }
	case 5: // injected at paths
		return mapping("query", "..nowhere", "value", l, "onMissing", mapping("action", "inject", "injectPath", gen.Q(gen.S("q"), gen.S("r")))),
			func(id string) *yaml.Node { return set(set(plain(id), "q", gen.S(l)), "r", gen.S(l)) }
	case 6: // qualified
		return mapping("query", "a", "action", "combine", "value", l, "documentQuery",
				gen.Q(mapping("conditions", gen.Q(mapping("query", "m", "value", mapping("x", "y")), mapping("query", "id"))))),
			func(id string) *yaml.Node { return set(plain(id), "a", gen.S("v"+l)) }
	case 8: // nothing to merge
		return mapping("query", "m", "value", gen.M()), plain
	case 9:
		return mapping("query", "s", "value", gen.Q()), plain
	case 10:
		return mapping("query", "s", "action", "replace", "value", gen.M()),
			func(id string) *yaml.Node { return set(plain(id), "s", gen.M()) }
	case 11: // scalars that are not text
		return mapping("query", "m", "value", gen.M(gen.S("x"), gen.T("!!null", ""), gen.S("n"), gen.T("!!int", "1"))),
			func(id string) *yaml.Node {
				return set(plain(id), "m", gen.M(gen.S("x"), gen.T("!!null", ""), gen.S("n"), gen.T("!!int", "1")))
			}
	}
	return mapping("query", gen.Q(gen.S("m.x"), gen.S("s[0]")), "action", "delete"),
		func(id string) *yaml.Node { return set(set(plain(id), "m", gen.M()), "s", gen.Q()) }
}

// typed gives created nodes, which have no type of their own in memory, the type they have once written.
func typed(d *yaml.Node) {
	for _, n := range gen.Nodes(d) {
		if n.Tag == "" && n.Kind == yaml.ScalarNode {
			n.Tag = "!!str"
		}
		if n.Tag == "" && n.Kind == yaml.MappingNode {
			n.Tag = "!!map"
		}
	}
}

// Workers runs overlays shared by several files and checks for unsynchronised accesses between the workers.
//
//verif:check C18 C02
//verif:use vfs yaml
//verif:quick files=2 more=12
//verif:thorough files=2 more=12 opt_delay=2
//verif:reach ran
//verif:opt race delay=1
func Workers() {
	start()
	viper.Set("defaultOnMissingAction", "inject")
	const kinds = 12
	nf := sym.Param("files", 2)
	l := sym.Str(1, "abc")
	k := sym.Choice(kinds)
	o, want := shared(k, l)
	commons := gen.Q(o)
	list := gen.Q()
	for f := 0; f < nf; f++ {
		name := "in/f" + strconv.Itoa(f) + ".yaml"
		_, plain := shared(6, "")
		vfs.Add("w/"+name, gen.Doc(plain(name)), gen.Doc(plain(name)))
		list.Content = append(list.Content, mapping("path", name))
	}
	// a second overlay uses what the first one left
	second := sym.Choice(sym.Param("more", 1) + 1)
	if second > 0 {
		o2, _ := shared(second-1, "z")
		commons.Content = append(commons.Content, o2)
	}
	vfs.Add("w/i.yaml", mapping("commonOverlays", commons, "yamlFiles", list))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C18", "workers-succeed", err == nil)
	var first *yaml.Node
	for f := 0; f < nf; f++ {
		name := "in/f" + strconv.Itoa(f) + ".yaml"
		docs, ok := vfs.Docs("w/output/f" + strconv.Itoa(f) + ".yaml")
		sym.Assert("C18", "workers-written", ok && len(docs) == 2)
		for _, d := range docs {
			typed(d)
			if second == 0 {
				w := gen.Doc(want(name))
				sym.Observe("got", gen.Show(d))
				sym.Assert("C18", "workers-independent-result", gen.Eq(d, w))
			}
			// every file gets the same treatment
			d.Content[0].Content[1].Value = ""
			if first == nil {
				first = d
			}
			sym.Assert("C18", "workers-same-result", gen.Eq(d, first))
			sym.Assert("C02", "workers-same-result", gen.Eq(d, first))
		}
	}
	sym.Reach("ran")
}

// WorkersAdHoc is the same for an overlay given on the command line, which has no name and may have no action.
//
//verif:check C18 C02
//verif:use vfs yaml
//verif:quick files=2
//verif:thorough files=3 opt_delay=2
//verif:reach ran
//verif:opt race delay=1
func WorkersAdHoc() {
	start()
	viper.Set("defaultOnMissingAction", []string{"ignore", "inject"}[sym.Choice(2)])
	nf := sym.Param("files", 2)
	list := gen.Q()
	_, plain := shared(6, "")
	for f := 0; f < nf; f++ {
		name := "f" + strconv.Itoa(f) + ".yaml"
		vfs.Add("w/in/"+name, gen.Doc(plain(name)), gen.Doc(plain(name)))
		list.Content = append(list.Content, mapping("path", "in/"+name))
	}
	const l = "b"
	cfg := &instructions.Config{Value: []string{l + "%v", "{x: " + l + ", n: [1]}", "[a, " + l + "]"}[sym.Choice(3)]}
	must(cfg.Overlay.Query.Set([]string{"a", "m", "s", "q.r", "nosuch[0]"}[sym.Choice(5)]))
	if a := []string{"", "merge", "replace", "delete"}[sym.Choice(4)]; a != "" {
		must(cfg.Overlay.Action.Set(a))
	}
	switch sym.Choice(2) {
	case 0:
		vfs.Add("w/i.yaml", mapping("yamlFiles", list))
		cfg.InstructionsFile = "i.yaml"
	case 1:
		cfg.Path = "in"
	}
	vfs.Ready()
	err := instructions.Execute(cfg)
	var first []*yaml.Node
	for f := 0; f < nf; f++ {
		name := "f" + strconv.Itoa(f) + ".yaml"
		docs, ok := vfs.Docs("w/output/" + name)
		if err != nil || len(docs) != 2 {
			continue // an overlay that does not fit
		}
		sym.Assert("C18", "adhoc-workers-written", ok)
		for _, d := range docs {
			typed(d)
			if len(d.Content) > 0 && d.Content[0].Kind == yaml.MappingNode {
				sym.Assert("C18", "adhoc-workers-own-document", field(d, "id") == name)
				d.Content[0].Content[1].Value = ""
			}
		}
		if first == nil {
			first = docs
		}
		sym.Observe(name, gen.Show(docs[0]))
		sym.Assert("C18", "adhoc-workers-same-result", same(docs, first))
		sym.Assert("C02", "adhoc-workers-same-result", same(docs, first))
	}
	sym.Reach("ran")
}
