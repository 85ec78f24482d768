package hc

import (
	"strings"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// how is how the options of a run are written.
var how int

// spelled is an option with its value.
func spelled(short, long, value string) []string {
	switch how {
	case 0:
		return []string{"-" + short, value}
	case 1:
		return []string{"--" + long, value}
	}
	return []string{"--" + long + "=" + value}
}

// Options runs the command with any combination of the options that say what to do: instructions, values files, path,
// query, value and action.
//
//verif:check C23
//verif:use vfs yaml template enumflag cobra viper
//verif:quick
//verif:reach instructions path both none values query noquery merge replace combine delete
//verif:opt weight=2
func Options() {
	vfs.Reset()
	vfs.Setenv("HOME", vfs.Abs("home"))
	how = sym.Choice(3)
	a := sym.Str(1, gen.Letters)
	source := func(id string) *yaml.Node {
		return gen.Doc(gen.M(gen.S("id"), gen.S(id), gen.S("t"), gen.S(a), gen.S("m"), gen.M(gen.S("t"), gen.S("n"))))
	}
	vfs.Add("w/in/a.yaml", source("a"))
	vfs.Add("w/in/b.yaml", source("b"))
	vfs.Add("w/c.yaml", source("c"))
	var args []string
	v := []string{sym.Str(1, gen.Letters), sym.Str(1, gen.Letters)}
	vfs.Add("w/v0.yaml", gen.Doc(gen.M(gen.S("p"), gen.S(v[0]), gen.S("q"), gen.S("0"))))
	vfs.Add("w/v,1.yaml", gen.Doc(gen.M(gen.S("p"), gen.S(v[1]))))
	files := map[string]string{}
	own := ""
	list := sym.Choice(3)
	if list > 0 {
		value := gen.S("own")
		own = "own"
		if n := sym.Choice(4); n > 0 {
			value = gen.S(vfs.All)
			switch n {
			case 1:
				args = append(args, spelled("f", "values-file", "v0.yaml")...)
				own = "{\"p\":\"" + v[0] + "\",\"q\":\"0\"}"
			case 2:
				args = append(args, "-f", "v0.yaml")
				args = append(args, spelled("f", "values-file", "v,1.yaml")...)
				own = "{\"p\":\"" + v[1] + "\",\"q\":\"0\"}"
			case 3:
				args = append(args, "--values-file=v,1.yaml", "-f", "v0.yaml")
				own = "{\"p\":\"" + v[0] + "\",\"q\":\"0\"}"
			}
			sym.Reach("values")
		}
		// two instructions files; the first is a decoy
		entry := func(f, t string) *yaml.Node {
			o := gen.M(gen.S("query"), gen.S("m.t"), gen.S("action"), gen.S("replace"), gen.S("value"), value)
			return gen.M(gen.S("yamlFiles"), gen.Q(gen.M(gen.S("path"), gen.S(f), gen.S("overlays"), gen.Q(o))))
		}
		vfs.Add("w/d.yaml", entry("in/b.yaml", "d"))
		vfs.Add("w/i.yaml", entry("in/a.yaml", "i"))
		switch {
		case list == 1:
			args = append(args, spelled("i", "instructions", "i.yaml")...)
			files["a"] = own
		default:
			args = append(args, spelled("i", "instructions", "d.yaml")...)
			files["b"] = own
		}
	}
	path := sym.Choice(4)
	switch path {
	case 1:
		args = append(args, spelled("p", "path", "c.yaml")...)
		files["c"] = "n"
	case 2:
		args = append(args, spelled("p", "path", "in")...)
		for _, f := range []string{"a", "b"} {
			if files[f] == "" {
				files[f] = "n"
			}
		}
	case 3:
		vfs.Stdin(source("s"))
		args = append(args, spelled("p", "path", "-")...)
		files["s"] = "n"
	}
	what := []string{"none", "path", "instructions", "both"}[2*bit(list)+bit(path)]
	query := sym.Choice(4)
	x := sym.Str(1, gen.Letters)
	action := ""
	hits := map[string]bool{}
	if query > 0 {
		sym.Reach("query")
		switch query {
		case 1:
			args = append(args, spelled("q", "query", "t")...)
			hits["t"] = true
		case 2:
			args = append(args, spelled("q", "query", "absent")...)
		case 3:
			args = append(args, "-q", "t")
			args = append(args, spelled("q", "query", "id")...)
			hits["t"], hits["id"] = true, true
		}
		action = []string{"", "merge", "replace", "combine", "delete"}[sym.Choice(5)]
		if action != "" {
			args = append(args, spelled("a", "action", action)...)
		} else {
			action = "merge"
		}
		if action != "delete" {
			args = append(args, spelled("x", "value", x)...)
		}
		sym.Reach(action)
	} else {
		sym.Reach("noquery")
		if sym.Choice(2) == 1 { // nothing to apply them to
			args = append(args, "-x", x, "-a", "replace")
		}
	}
	sym.Reach(what)
	vfs.Ready()
	code := cli(args...)
	sym.ObserveInt("code", code)
	sym.Assert("C23", "options-succeed", code == 0)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	sym.Assert("C23", "options-files", len(got) == len(files))
	seen := map[string]bool{}
	for _, f := range got {
		docs, ok := vfs.Docs(f)
		ok = ok && len(docs) == 1
		sym.Assert("C23", "options-output", ok)
		if !ok {
			return
		}
		id := f[strings.LastIndex(f, "/")+1:][:1]
		seen[id] = true
		want := map[string]string{"id": id, "t": a}
		for k := range want {
			if hits[k] {
				switch action {
				case "delete":
					want[k] = "?"
				case "combine":
					want[k] += x
				default:
					want[k] = x
				}
			}
		}
		sym.Observe("t", text(docs[0], "t"))
		sym.Assert("C23", "options-id", text(docs[0], "id") == want["id"])
		sym.Assert("C23", "options-overlay", text(docs[0], "t") == want["t"])
		i := gen.Find(docs[0].Content[0], "m")
		ok = i >= 0 && docs[0].Content[0].Content[i+1].Kind == yaml.MappingNode
		sym.Assert("C23", "options-instructions", ok && text(gen.Doc(docs[0].Content[0].Content[i+1]), "t") == files[id])
	}
	for id := range files {
		sym.Assert("C23", "options-every-file", seen[id])
	}
}

func bit(n int) int {
	if n > 0 {
		return 1
	}
	return 0
}
