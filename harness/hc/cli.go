package hc

import (
	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/commands"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// cli runs the command with the given arguments; the result is its exit status.
func cli(args ...string) int {
	return vfs.Exit(func() {
		initializers = nil
		viper.Reset()
		root := commands.New()
		root.Command.SetArgs(args)
		root.Run()
	})
}

func text(doc *yaml.Node, key string) string {
	if doc == nil || len(doc.Content) == 0 {
		return "?"
	}
	i := gen.Find(doc.Content[0], key)
	if i < 0 {
		return "?"
	}
	return doc.Content[0].Content[i+1].Value
}

// Status runs the command on a file and checks its exit status: zero exactly when nothing failed.
//
//verif:check C15
//verif:use vfs yaml template enumflag cobra viper
//verif:quick
//verif:reach fine overlay flag argument source instructions values config
func Status() {
	vfs.Reset()
	vfs.Setenv("HOME", vfs.Abs("home"))
	a, b := sym.Str(1, gen.Letters), sym.Str(1, gen.Letters)
	docs := []*yaml.Node{gen.Doc(gen.M(gen.S("t"), gen.S(a), gen.S("m"), gen.M(gen.S("k"), gen.S(b))))}
	if sym.Choice(2) == 1 {
		docs = append(docs, gen.Doc(gen.M(gen.S("t"), gen.S(b))))
	}
	vfs.Add("w/in/a.yaml", docs...)
	query := []string{"t", "m"}[sym.Choice(2)]
	x := sym.Str(1, gen.Letters)
	actions := []string{"combine", "replace", "Merge", "join"}
	action := actions[sym.Choice(len(actions))]
	bad := action == "join" || action == "combine" && query == "m"
	args := []string{"-q", query, "-a", action, "-x", x}
	if sym.Choice(2) == 1 {
		args = []string{"--query=" + query, "--action=" + action, "--value=" + x}
	}
	what := "fine"
	if bad {
		what = "overlay"
	}
	vfs.Add("w/i.yaml", gen.M(gen.S("yamlFiles"), gen.Q(gen.M(gen.S("path"), gen.S("in/a.yaml")))))
	vfs.Add("w/v.yaml", gen.Doc(gen.M(gen.S("k"), gen.S(a))))
	vfs.AddText("w/bad.yaml", "a: [b\n")
	switch sym.Choice(16) {
	case 0:
		args = append(args, "-p", "in/a.yaml")
	case 1:
		args = append(args, "--path=in")
	case 2:
		args = append(args, "-i", "i.yaml")
	case 3:
		args = append(args, "-p", "in/a.yaml", "--nonsense")
		bad, what = true, "flag"
	case 4:
		args = append(args, "-p", "in/b.yaml")
		bad, what = true, "source"
	case 5:
		args = append(args, "-i", "j.yaml")
		bad, what = true, "instructions"
	case 6:
		args = append(args, "nonsense", "-p", "in/a.yaml")
		bad, what = true, "argument"
	case 7:
		args = append(args, "-i", "i.yaml", "-f", "v.yaml")
	case 8:
		args = append(args, "-i", "i.yaml", "-f", "v.yaml", "-f", "absent.yaml")
		bad, what = true, "values"
	case 9:
		args = append(args, "-i", "i.yaml", "-f", "bad.yaml")
		bad, what = true, "values"
	case 10:
		args = append(args, "-i", "bad.yaml")
		bad, what = true, "instructions"
	case 11:
		args = append(args, "-i", "i.yaml", "-p", "bad.yaml")
		bad, what = true, "source"
	case 12:
		args = append(args, "-i", "i.yaml", "--config", "absent.yaml")
		bad, what = true, "config"
	case 13:
		vfs.Setenv("YOT_CONFIG_FILE", "absent.yaml")
		args = append(args, "-i", "i.yaml")
		bad, what = true, "config"
	case 14:
		args = append(args, "-i", "j.yaml", "-f", "v.yaml")
		bad, what = true, "instructions"
	case 15:
		args = append(args, "-i", "bad.yaml", "-f", "v.yaml")
		bad, what = true, "instructions"
	}
	sym.Reach(what)
	vfs.Ready()
	code := cli(args...)
	got := vfs.Written()
	sym.ObserveInt("code", code)
	sym.ObserveInt("files", len(got))
	if bad {
		sym.Assert("C15", "status-failure", code == 1)
		sym.Assert("C15", "status-nothing-written", len(got) == 0)
		return
	}
	sym.Assert("C15", "status-success", code == 0)
	sym.Assert("C15", "status-written-once", len(got) == 1 && got[0] == "w/output/a.yaml")
	ds, ok := vfs.Docs("w/output/a.yaml")
	sym.Assert("C15", "status-documents", ok && len(ds) == len(docs))
	for i, d := range ds {
		if i < len(docs) && query == "t" {
			want := x
			if action == "combine" {
				want = []string{a, b}[i] + x
			}
			sym.Observe("t", text(d, "t"))
			sym.Assert("C15", "status-result", text(d, "t") == want)
		}
	}
}
