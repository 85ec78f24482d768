package ha

import (
	"strings"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// SedReplace substitutes in the original text: independently of the sed library, this is what the commands mean.
//
//verif:check C26
//verif:quick len=4
//verif:thorough len=6
//verif:reach first all second mapped
func SedReplace() {
	o := gen.S(sym.Str(sym.Choice(sym.Param("len", 4)+1), "abc "))
	v := o.Value
	n := gen.S("")
	want, seen := "", 0
	kind := sym.Choice(4)
	for i := 0; i < len(v); i++ {
		c := v[i : i+1]
		switch {
		case kind == 3:
			if sym.Decide(c == "a") {
				c = "b"
			} else if sym.Decide(c == "b") {
				c = "a"
			}
		case sym.Decide(c == "a"):
			seen++
			if kind == 1 || kind == 0 && seen == 1 || kind == 2 && seen == 2 {
				c = "xy"
			}
		}
		want += c
	}
	switch kind {
	case 0:
		n.Value = "<%v{s/a/xy/}>"
		sym.Reach("first")
	case 1:
		n.Value = "<%v{s/a/xy/g}>"
		sym.Reach("all")
	case 2:
		n.Value = "<%v{s/a/xy/2}>"
		sym.Reach("second")
	case 3:
		n.Value = "<%v{y/ab/ba/}>"
		sym.Reach("mapped")
	}
	err := actions.MergeNode(o, n)
	sym.Assert("C26", "sed-replace-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C26", "sed-replace", o.Value == "<"+want+">")
}

var commands = []string{
	"s/a/b/", "s/a/b/g", "s/^/x/", "s/$/x/", "s/.*/x/", "s/(a)(.)/$2$1/g", "s/a//", "y/ab/ba/", "s/a/b/2",
	"d", "p", "$d", "1d", "/a/d", "s/a/b/;s/b/c/g", "q", "=", "G", "x", "N;s/a/b/", "n;d", "/a/!s/b/x/",
	"z", "s/a/b", "s/(/x/", "s|a|x|", "", " ", "y/a/bc/", "s/a/b/k",
}

// SedCommands runs each of a number of commands, good and bad, on the text of a marker.
//
//verif:check C26
//verif:quick len=3
//verif:thorough len=4
//verif:reach value added
func SedCommands() {
	c := commands[sym.Choice(len(commands))]
	o := gen.S(sym.Str(sym.Choice(sym.Param("len", 3)+1), "ab\n"))
	n := gen.S("<%v{" + c + "}>")
	want := gen.S("<" + ref.Sed(c, o.Value) + ">")
	got := o
	var err error
	if sym.Choice(2) == 1 {
		err = actions.MergeNode(o, n)
		sym.Reach("value")
	} else {
		// there is no original where an entry is added
		m := gen.M()
		err = actions.MergeNode(m, gen.M(gen.S("k"), n))
		want = gen.S("<" + ref.Sed(c, "") + ">")
		got = m.Content[1]
		sym.Reach("added")
	}
	sym.Assert("C26", "sed-command-no-error", err == nil)
	sym.Observe("o", gen.Show(got))
	sym.Assert("C26", "sed-command", gen.EqC(got, want))
}

// SedMarkers has commands on several markers, in values, keys and comments: each works on the text of its own marker.
//
//verif:check C26
//verif:quick len=1
//verif:thorough len=2
//verif:reach value key comment replaced combined
func SedMarkers() {
	l := sym.Param("len", 1)
	draw := func() string { return sym.Str(l, "abv%") }
	orig := func() *yaml.Node {
		o := gen.S(draw())
		o.LineComment, o.HeadComment, o.FootComment = "#"+draw(), "#"+draw(), "#"+draw()
		return o
	}
	mark := func() string {
		m := "%" + []string{"v", "l", "h", "f", "k"}[sym.Choice(5)]
		return m + []string{"{s/a/<%v>/}", "{y/a/c/}", "", "{bad}"}[sym.Choice(4)]
	}
	t := mark() + "-" + mark()
	k, v := orig(), orig()
	sym.Assume(k.Value != "%v") // this would rename every key
	o := gen.M(k, v)
	ko, vo := ref.OrigOf(k, k.Value), ref.OrigOf(v, k.Value)
	ko.Value = v.Value
	want := gen.Clone(o)
	n := gen.S("new")
	var err error
	switch sym.Choice(5) {
	case 0:
		sym.Reach("value")
		n.Value = t
		want.Content[1].Value = ref.Format(t, vo)
		err = actions.MergeNode(o, gen.M(gen.S(k.Value), n))
	case 1:
		sym.Reach("key")
		want.Content[0].Value = ref.Format(t+"%k", ko)
		want.Content[1].Value = "new"
		err = actions.MergeNode(o, gen.M(gen.S(t+"%k"), n))
	case 2:
		sym.Reach("comment")
		want.Content[1].Value = "new"
		n.LineComment = "#" + t
		want.Content[1].LineComment = ref.Format(n.LineComment, vo)
		err = actions.MergeNode(o, gen.M(gen.S(k.Value), n))
	case 3:
		sym.Reach("replaced")
		vo.Key = ""
		want.Content[1].Value = "new"
		n.HeadComment = "#" + t
		want.Content[1].HeadComment = ref.Format(n.HeadComment, vo)
		err = actions.ReplaceNode(v, n)
	case 4:
		sym.Reach("combined")
		vo.Key = ""
		want.Content[1].Value += "new"
		n.FootComment = "#" + t
		want.Content[1].FootComment = ref.Format(n.FootComment, vo)
		err = actions.CombineNode(v, n)
	}
	sym.Assert("C26", "sed-markers-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C26", "sed-markers", gen.EqC(o, want))
}

// SedBraces has braces anywhere in the text, closed or not.
//
//verif:check C26
//verif:quick len=5
//verif:thorough len=6
//verif:reach command plain
func SedBraces() {
	o := original(2, 1)
	t := sym.Str(sym.Choice(sym.Param("len", 5)+1), "%vl{}dpa")
	if strings.Contains(ref.Format(t, ref.Orig{Value: "x", Line: "x"}), "{") {
		sym.Reach("plain")
	} else {
		sym.Reach("command")
	}
	n := gen.S(t)
	want := gen.Clone(o)
	want.Value = ref.Format(t, ref.OrigOf(o, ""))
	err := actions.MergeNode(o, n)
	sym.Assert("C26", "sed-braces-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C26", "sed-braces", gen.EqC(o, want))
}
