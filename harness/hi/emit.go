package hi

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// null is a document that holds nothing.
func null() *yaml.Node { return gen.Doc(gen.T("!!null", "null")) }

// Emitted runs files whose documents are emptied, deleted or null to begin with, to disk or to standard output.
//
//verif:check C22
//verif:use vfs yaml
//verif:quick files=2 docs=2
//verif:thorough files=2 docs=3
//verif:reach stdout disk omitted
//verif:opt weight=3
func Emitted() { emitted() }

// EmittedMany has one file with more documents.
//
//verif:check C22
//verif:use vfs yaml
//verif:quick files=1 docs=3
//verif:thorough files=1 docs=4
//verif:reach stdout disk omitted
//verif:opt weight=2
func EmittedMany() { emitted() }

// Rewritten writes to files that exist already.
//
//verif:check C22
//verif:use vfs yaml
//verif:quick
//verif:reach rewritten
func Rewritten() {
	start()
	old := gen.Doc(mapping("old", "a rather long text that has nothing to do with what is going to be written to the file", "more", letter()))
	docs := []*yaml.Node{traced(letter())}
	if sym.Choice(2) == 1 {
		docs = append(docs, traced("b"))
	}
	vfs.Add("w/in/a.yaml", docs...)
	out := []string{"", "deeper/b.yaml", "@w/out.yaml"}[sym.Choice(3)]
	at := "w/output/a.yaml"
	entry := mapping("path", "in/a.yaml")
	if out != "" {
		at = "w/output/" + out
		if out[0] == '@' {
			at = out[1:]
		}
		entry.Content = append(entry.Content, gen.S("outputPath"), gen.S(given(out)))
	}
	vfs.Add(at, old, old, old)
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(entry)))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C22", "rewritten-succeeds", err == nil)
	got, ok := vfs.Docs(at)
	sym.Assert("C22", "rewritten-completely", sym.And(ok, same(got, docs)))
	sym.Reach("rewritten")
}

func emitted() {
	start()
	nf := 1 + sym.Choice(sym.Param("files", 2))
	list := gen.Q()
	want := make([][]*yaml.Node, nf)
	for f := 0; f < nf; f++ {
		name := "in/f" + strconv.Itoa(f) + ".yaml"
		nd := sym.Choice(sym.Param("docs", 2) + 1)
		os := gen.Q()
		var docs []*yaml.Node
		for d := 0; d < nd; d++ {
			doc := gen.Doc(mapping("id", letter(), "k", letter()))
			var w *yaml.Node
			o := mapping("documentIndex", gen.Q(num(d)))
			switch sym.Choice(5) {
			case 0: // nothing happens to it
				w, o = gen.Clone(doc), nil
			case 1: // merged
				l := letter()
				w = gen.Doc(mapping("id", doc.Content[0].Content[1].Value, "k", doc.Content[0].Content[3].Value, "new", l))
				o.Content = append(o.Content, mapping("query", "$", "value", mapping("new", l)).Content...)
			case 2: // deleted
				o.Content = append(o.Content, mapping("query", "$", "action", "delete").Content...)
			case 3: // null
				doc = null()
				w, o = null(), nil
			case 4: // a map without entries
				w = gen.Doc(gen.M())
				o.Content = append(o.Content, mapping("query", gen.Q(gen.S("id"), gen.S("k")), "action", "delete").Content...)
			}
			if o != nil {
				os.Content = append(os.Content, o)
			}
			docs = append(docs, doc)
			if w != nil {
				want[f] = append(want[f], w)
			}
		}
		vfs.Add("w/"+name, docs...)
		entry := mapping("path", name, "outputPath", "f"+strconv.Itoa(f)+".yaml")
		if len(os.Content) > 0 {
			entry.Content = append(entry.Content, gen.S("overlays"), os)
		}
		list.Content = append(list.Content, entry)
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	sink := sym.Choice(2) == 1
	viper.Set("stdout", sink)
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C22", "emitted-succeeds", err == nil)
	got := vfs.Written()
	if sink {
		sym.Reach("stdout")
		sym.Assert("C22", "stdout-writes-no-file", len(got) == 0)
		docs, ok := vfs.OutDocs()
		sym.Assert("C22", "stdout-readable", ok)
		// the files come in either order
		any := false
		for first := 0; first < nf; first++ {
			w := append(append([]*yaml.Node{}, want[first]...), want[nf-1-first]...)
			if nf == 1 {
				w = want[0]
			}
			any = sym.Or(any, same(docs, w))
		}
		sym.Assert("C22", "stdout-every-document-once-in-order", any)
		return
	}
	sym.Reach("disk")
	count := 0
	for f := range want {
		docs, ok := vfs.Docs("w/output/f" + strconv.Itoa(f) + ".yaml")
		if len(want[f]) == 0 {
			sym.Reach("omitted")
			sym.Assert("C22", "empty-file-omitted", !ok)
			continue
		}
		count++
		sym.Assert("C22", "every-document-once-in-order", sym.And(ok, same(docs, want[f])))
	}
	sym.Assert("C22", "one-output-per-file", len(got) == count)
	_, junk := vfs.Docs("w/f0.yaml")
	sym.Assert("C22", "no-other-output", !junk)
	sym.Assert("C22", "no-document-on-stdout", !strings.Contains(vfs.Out(), "---"))
}

// EmittedLong has one file of many documents, of which some are deleted.
//
//verif:check C22 C09
//verif:use vfs yaml
//verif:quick docs=8
//verif:thorough docs=10
//verif:reach stdout disk
func EmittedLong() {
	start()
	nd := 1 + sym.Choice(sym.Param("docs", 6))
	var docs, want []*yaml.Node
	gone := gen.Q()
	for d := 0; d < nd; d++ {
		doc := gen.Doc(mapping("id", letter(), "n", num(d)))
		docs = append(docs, doc)
		if sym.Choice(2) == 1 {
			gone.Content = append(gone.Content, num(d))
			continue
		}
		want = append(want, gen.Clone(doc))
	}
	if sym.Choice(2) == 1 { // indices in another order
		for i, j := 0, len(gone.Content)-1; i < j; i, j = i+1, j-1 {
			gone.Content[i], gone.Content[j] = gone.Content[j], gone.Content[i]
		}
	}
	vfs.Add("w/a.yaml", docs...)
	entry := mapping("path", "a.yaml")
	if len(gone.Content) > 0 {
		entry.Content = append(entry.Content, gen.S("overlays"), gen.Q(mapping("query", "$", "action", "delete", "documentIndex", gone)))
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(entry)))
	sink := sym.Choice(2) == 1
	viper.Set("stdout", sink)
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C22", "long-succeeds", err == nil)
	var got []*yaml.Node
	var ok bool
	if sink {
		got, ok = vfs.OutDocs()
		sym.Reach("stdout")
	} else {
		got, ok = vfs.Docs("w/output/a.yaml")
		ok = ok || len(want) == 0
		sym.Reach("disk")
	}
	sym.Assert("C22", "long-every-document-once-in-order", sym.And(ok, same(got, want)))
	sym.Assert("C09", "long-named-documents-only", len(got) == len(want))
}

func same(a, b []*yaml.Node) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, gen.Eq(a[i], b[i]))
	}
	return r
}

var styleCases = []struct {
	names         []string
	scalar, other actions.Style
}{
	{[]string{"normal"}, 0, 0},
	{[]string{"dq"}, actions.DoubleQuotedStyle, 0},
	{[]string{"singleQuoted"}, actions.SingleQuotedStyle, 0},
	{[]string{"flow"}, 0, actions.FlowStyle},
	{[]string{"[flow,double]"}, actions.DoubleQuotedStyle, actions.FlowStyle},
	{[]string{"FL", "fl", "sq"}, actions.SingleQuotedStyle, actions.FlowStyle},
}

// EmittedStyle checks the style of every node of every document that is written.
//
//verif:check C13
//verif:use vfs yaml
//verif:quick
//verif:reach checked
func EmittedStyle() {
	start()
	c := styleCases[sym.Choice(len(styleCases))]
	viper.Set("outputStyle", c.names)
	first := sym.Choice(3) // what becomes of the first document
	tree := func() *yaml.Node {
		n := mapping("k", sym.Str(1, "abcd"), "m", mapping("q", gen.Q(gen.S(sym.Str(1, "efgh")), mapping("z", "w"))), "s", "x", "e", "", "n", gen.M(), "p", gen.Q())
		for _, x := range gen.Nodes(n) {
			if x.Kind == yaml.ScalarNode {
				x.Style = yaml.DoubleQuotedStyle
			}
		}
		return gen.Doc(n)
	}
	list := gen.Q()
	for f := 0; f < 2; f++ {
		name := "in/f" + strconv.Itoa(f) + ".yaml"
		vfs.Add("w/"+name, tree(), tree(), tree())
		os := gen.Q(mapping("query", "m", "value", mapping("new", gen.Q(mapping("a", "b")))))
		if f == 0 && first == 1 {
			os.Content = append(os.Content, mapping("query", "$", "action", "delete", "documentIndex", gen.Q(num(0))))
		}
		if f == 0 && first == 2 {
			os.Content = append(os.Content, mapping("query", "$", "action", "replace", "documentIndex", gen.Q(num(0)), "value", mapping("l", gen.Q(gen.S("v")))))
		}
		list.Content = append(list.Content, mapping("path", name, "overlays", os))
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C13", "emitted-style-succeeds", err == nil)
	for f := 0; f < 2; f++ {
		docs, ok := vfs.Docs("w/output/f" + strconv.Itoa(f) + ".yaml")
		sym.Assert("C13", "emitted-style-written", ok && len(docs) >= 2)
		good := true
		for _, d := range docs {
			for _, n := range gen.Nodes(d) {
				seen := n.Style & (yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.FlowStyle)
				switch n.Kind {
				case yaml.ScalarNode:
					if n.Value == "" && c.scalar == 0 {
						continue // there is no plain way to print an empty text
					}
					good = good && seen&^yaml.FlowStyle == yaml.Style(c.scalar)
				case yaml.MappingNode, yaml.SequenceNode:
					// what has no entries is always printed as a flow
					good = good && (len(n.Content) == 0 || seen&yaml.FlowStyle == yaml.Style(c.other))
				}
			}
		}
		sym.Assert("C13", "emitted-style-on-every-node", good)
	}
	sym.Reach("checked")
}

// has says that some comment in the documents begins with the text.
func has(docs []*yaml.Node, text string) bool {
	r := false
	for _, d := range docs {
		for _, n := range gen.Nodes(d) {
			for _, c := range []string{n.HeadComment, n.LineComment, n.FootComment} {
				r = sym.Or(r, strings.Contains(c, text))
			}
		}
	}
	return r
}

// Comments runs with comment removal on and off on documents with a comment in any one position.
//
//verif:check C14
//verif:use vfs yaml
//verif:quick
//verif:reach on off listed adhoc
func Comments() {
	start()
	seq := gen.Q(gen.S("i"), mapping("w", "x"), gen.Q(gen.S("p")))
	body := mapping("k", letter(), "m", mapping("q", seq, "e", gen.M()), "t", ".", "z", gen.T("!!null", "null"), "b", gen.T("!!bool", "true"))
	doc := gen.Doc(body)
	other := traced("other")
	// the places YAML has for comments
	m := body.Content[3]
	places := []struct {
		n    *yaml.Node
		h, l bool
	}{
		{doc, true, false}, {body.Content[0], true, false}, {body.Content[1], false, true},
		{body.Content[2], true, true}, {m.Content[0], true, true}, {seq.Content[0], true, true},
		{seq.Content[1], true, false}, {seq.Content[1].Content[1], false, true}, {seq.Content[2].Content[0], true, true},
		{m.Content[2], true, false}, {body.Content[4], true, false}, {body.Content[5], false, true},
		{body.Content[6], true, false}, {body.Content[7], false, true}, {body.Content[9], false, true},
	}
	if sym.Choice(2) == 1 {
		doc, other = other, doc
	}
	want := []*yaml.Node{gen.Clone(doc), gen.Clone(other)}
	at := places[sym.Choice(len(places))]
	text := "#src" + sym.Str(1, gen.Letters)
	switch sym.Choice(3) {
	case 0:
		sym.Assume(at.h)
		at.n.HeadComment = text
	case 1:
		sym.Assume(at.l)
		at.n.LineComment = text
	case 2:
		sym.Assume(at.h && at.n.Kind == yaml.ScalarNode || at.n.Kind == yaml.DocumentNode)
		at.n.FootComment = text
	}
	// and one more
	also := places[sym.Choice(len(places))]
	if also.l {
		also.n.LineComment = text
	} else {
		also.n.HeadComment = text
	}
	for i, d := range []*yaml.Node{doc, other} {
		for j := 0; j < len(d.Content[0].Content); j += 2 {
			if d.Content[0].Content[j].Value == "t" {
				want[i].Content[0].Content[j+1].Value = ".y"
			}
		}
	}
	vfs.Add("w/in/a.yaml", doc, other)
	value := gen.S("y")
	value.LineComment = "#own"
	o := mapping("query", "t", "action", "combine", "value", value)
	list := gen.Q()
	cfg := &instructions.Config{InstructionsFile: "i.yaml"}
	if sym.Choice(2) == 1 {
		cfg.Path = "in/a.yaml"
		sym.Reach("adhoc")
	} else {
		list.Content = append(list.Content, mapping("path", "in/a.yaml"))
		sym.Reach("listed")
	}
	vfs.Add("w/i.yaml", mapping("commonOverlays", gen.Q(o), "yamlFiles", list))
	on := sym.Choice(2) == 1
	viper.Set("removeComments", on)
	vfs.Ready()
	err := instructions.Execute(cfg)
	sym.Assert("C14", "comments-succeed", err == nil)
	docs, ok := vfs.Docs("w/output/a.yaml")
	sym.Assert("C14", "comments-data-unchanged", sym.And(ok, same(docs, want)))
	sym.Assert("C14", "comments-of-overlays-kept", has(docs, "#own"))
	if on {
		sym.Reach("on")
		sym.Assert("C14", "comments-removed", !has(docs, "#src"))
	} else {
		sym.Reach("off")
		if at.n.Value != "." || at.n.LineComment == "" { // where the overlay's own comment goes
			sym.Assert("C14", "comments-kept", has(docs, text))
		}
	}
}

// CommentsMany runs with comment removal on and off on several inputs: files, a directory and the standard input.
//
//verif:check C14 C16
//verif:use vfs yaml
//verif:quick inputs=5
//verif:thorough inputs=5
//verif:reach on off
func CommentsMany() {
	start()
	texts := []string{"#" + letter() + "a", "#" + letter() + "b", "#" + letter() + "c", "#" + letter() + "d"}
	noted := func(i int) []*yaml.Node {
		a, b := traced("n"+strconv.Itoa(i)), traced("n")
		a.Content[0].Content[3].LineComment = texts[i]
		a.Content[0].Content[0].HeadComment = texts[i]
		b.Content[0].Content[1].LineComment = texts[i]
		b.HeadComment = texts[i]
		return []*yaml.Node{a, b}
	}
	outs := []string{"a.yaml", "stdin.yaml", "d/c.yaml", "d/e.yaml"}
	vfs.Add("w/a.yaml", noted(0)...)
	vfs.Add("w/d/c.yaml", noted(2)...)
	vfs.Add("w/d/e.yaml", noted(3)...)
	// stdin cannot be read twice
	vfs.Stdin(noted(1)...)
	given := []string{"a.yaml", "-", "d", "d/e.yaml"}
	reads := [][]int{{0}, {1}, {2, 3}, {3}}
	var listed [4]bool
	list := gen.Q()
	n := 1 + sym.Choice(sym.Param("inputs", 3))
	for i := 0; i < n; i++ {
		k := sym.Choice(len(given))
		if k == 1 && listed[1] {
			continue
		}
		entry := mapping("path", given[k])
		switch k {
		case 2:
			entry = mapping("path", given[k], "outputPath", "d")
		case 3:
			entry = mapping("path", given[k], "outputPath", "d/e.yaml")
		case 0, 1:
			entry = mapping("path", given[k], "outputPath", outs[k])
		}
		for _, f := range reads[k] {
			listed[f] = true
		}
		list.Content = append(list.Content, entry)
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	on := sym.Choice(2) == 1
	viper.Set("removeComments", on)
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C14", "comments-many-succeed", err == nil)
	for f := range outs {
		if !listed[f] {
			continue
		}
		docs, ok := vfs.Docs("w/output/" + outs[f])
		sym.Assert("C16", "comments-many-written", ok && same(docs, noted(f)))
		if on {
			sym.Assert("C14", "comments-removed", !has(docs, texts[f]))
		} else {
			sym.Assert("C14", "comments-kept", has(docs, texts[f]))
		}
	}
	if on {
		sym.Reach("on")
	} else {
		sym.Reach("off")
	}
}

// LateFailure has one overlay that fails among many that do not: common ones, those of a file and those of its
// documents, on files of several documents.
//
//verif:check C15
//verif:use vfs yaml
//verif:quick each=3 docs=3
//verif:thorough each=6 docs=6
//verif:reach failed fine
func LateFailure() {
	start()
	nd := 1 + sym.Choice(sym.Param("docs", 3))
	var docs []*yaml.Node
	for d := 0; d < nd; d++ {
		docs = append(docs, traced(strconv.Itoa(d)))
	}
	vfs.Add("w/a.yaml", docs...)
	vfs.Add("w/b.yaml", traced("b"))
	m := sym.Param("each", 3)
	groups := []*yaml.Node{gen.Q(), gen.Q(), gen.Q()}
	for _, g := range groups {
		for i := sym.Choice(2) * m; i > 0; i-- {
			g.Content = append(g.Content, step("x"))
		}
	}
	bad := sym.Choice(4)
	at := sym.Choice(nd)
	docPath := at
	if bad < 3 {
		o := failing(at)
		if bad == 2 {
			o.Content = o.Content[:len(o.Content)-2]
		}
		c := groups[bad].Content
		k := []int{0, len(c) / 2, len(c)}[sym.Choice(3)]
		c = append(append(append([]*yaml.Node{}, c[:k]...), o), c[k:]...)
		groups[bad].Content = c
	}
	last := mapping("path", "b.yaml", "outputPath", "b.yaml")
	entry := mapping("path", "a.yaml", "outputPath", "a.yaml", "overlays", groups[1],
		"documents", gen.Q(mapping("path", num(docPath), "overlays", groups[2])))
	list := gen.Q(entry, last)
	if sym.Choice(2) == 1 {
		list = gen.Q(last, entry)
	}
	vfs.Add("w/i.yaml", mapping("commonOverlays", groups[0], "yamlFiles", list))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C15", "late-failure-reported", (err != nil) == (bad < 3))
	_, ok := vfs.Docs("w/output/a.yaml")
	sym.Assert("C15", "late-failure-not-written", ok == (bad == 3))
	if bad < 3 {
		sym.Reach("failed")
	} else {
		sym.Reach("fine")
	}
}

// outcome is what an overlay does to a document that has id and t.
func failing(d int) *yaml.Node {
	return mapping("query", "id", "action", "combine", "value", mapping("no", "way"), "documentIndex", gen.Q(num(d)))
}

// Failures runs files of which some fail, under several schedules.
//
//verif:check C15
//verif:use vfs yaml
//verif:quick files=2 opt_delay=2
//verif:thorough files=2 opt_delay=3
//verif:reach failed fine
//verif:opt delay=2 weight=2
func Failures() { failures() }

// MoreFailures is the same with more files and fewer schedules.
//
//verif:check C15
//verif:use vfs yaml
//verif:quick files=3 opt_delay=1
//verif:thorough files=3 opt_delay=2
//verif:reach failed fine
//verif:opt delay=1
func MoreFailures() { failures() }

func failures() {
	start()
	nf := 1 + sym.Choice(sym.Param("files", 3))
	list := gen.Q()
	fails := make([]bool, nf)
	traces := make([]string, nf)
	any := false
	for f := 0; f < nf; f++ {
		name := "in/f" + strconv.Itoa(f) + ".yaml"
		vfs.Add("w/"+name, traced(name), traced(name+"1"))
		l := letter()
		traces[f] = "." + l
		os := gen.Q(step(l))
		switch sym.Choice(3) {
		case 1: // the last one fails
			os.Content = append(os.Content, failing(1))
			fails[f] = true
		case 2: // the first one fails
			os.Content = append([]*yaml.Node{failing(0)}, os.Content...)
			fails[f] = true
		}
		any = any || fails[f]
		list.Content = append(list.Content, mapping("path", name, "outputPath", "f"+strconv.Itoa(f)+".yaml", "overlays", os))
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C15", "failures-reported-exactly", (err != nil) == any)
	got := vfs.Written()
	for f := range fails {
		docs, ok := vfs.Docs("w/output/f" + strconv.Itoa(f) + ".yaml")
		if fails[f] {
			sym.Assert("C15", "failed-file-not-written", !ok)
			continue
		}
		if !any {
			sym.Assert("C15", "written-once", ok && len(docs) == 2 && len(got) == nf)
		}
		if ok {
			good := len(docs) == 2
			for _, d := range docs {
				good = sym.And(good, field(d, "t") == traces[f])
			}
			sym.Assert("C15", "written-complete", good)
		}
	}
	if any {
		sym.Reach("failed")
	} else {
		sym.Reach("fine")
	}
}

// Unwritable has an output that cannot be written, or something that cannot be read.
//
//verif:check C15
//verif:use vfs yaml
//verif:quick
//verif:reach output source instructions overlay
//verif:opt delay=1
func Unwritable() {
	start()
	vfs.Add("w/in/a.yaml", traced("a"))
	vfs.Add("w/in/b.yaml", traced("b"))
	bad := "a: [\n"
	for i := sym.Choice(3); i > 0; i-- { // good documents before it
		bad = vfs.Text(traced("c")) + "---\n" + bad
	}
	vfs.AddText("w/in/bad.yaml", bad)
	list := gen.Q(mapping("path", "in/a.yaml"), mapping("path", "in/b.yaml"))
	doc := mapping("yamlFiles", list)
	name := "i.yaml"
	switch sym.Choice(7) {
	case 0: // a directory is in the way
		vfs.AddDir("w/output/a.yaml")
		sym.Reach("output")
	case 1: // a file is in the way
		vfs.AddText("w/output", "x")
		sym.Reach("output")
	case 2:
		list.Content = append(list.Content, mapping("path", "in/missing.yaml"))
		sym.Reach("source")
	case 3:
		list.Content = append(list.Content, mapping("path", "in/bad.yaml"))
		sym.Reach("source")
	case 4:
		name = "missing.yaml"
		sym.Reach("instructions")
	case 5:
		list.Content = append(list.Content, mapping("path", "in", "outputPath", "a.yaml"))
		sym.Reach("output")
	case 6:
		doc.Content = append(doc.Content, gen.S("commonOverlays"), gen.Q(mapping("query", "t", "action", "explode")))
		sym.Reach("overlay")
	}
	vfs.Add("w/i.yaml", doc)
	vfs.Ready()
	err := run(name)
	sym.Assert("C15", "unreadable-or-unwritable-reported", err != nil)
}

// FullDisk has an output, or standard output, that can be opened but takes nothing: the run fails, unless what was to be
// written is there all the same.
//
//verif:check C15
//verif:use vfs yaml
//verif:quick files=3
//verif:thorough files=4
//verif:reach file stdout
//verif:opt delay=1
func FullDisk() {
	start()
	n := 1 + sym.Choice(sym.Param("files", 3))
	bad := sym.Choice(n + 1)
	list := gen.Q()
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d.yaml", i)
		docs := []*yaml.Node{traced("a"), traced("b")}[:1+sym.Choice(2)]
		vfs.Add("w/in/"+name, docs...)
		list.Content = append(list.Content, mapping("path", "in/"+name))
		if i == bad {
			sym.Reach("file")
			vfs.AddFull("w/output/" + name)
		}
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	if bad == n {
		sym.Reach("stdout")
		vfs.FullOut()
		viper.Set("stdout", true)
	}
	vfs.Ready()
	err := run("i.yaml")
	if bad == n {
		sym.Assert("C15", "unwritten-output-reported", err != nil)
		return
	}
	_, ok := vfs.Docs(fmt.Sprintf("w/output/f%d.yaml", bad))
	sym.Assert("C15", "unwritten-file-reported", err != nil || ok)
}

// Locked has something that must not be read or written: a source, a directory among them, the instructions, the values,
// an output that is there, or the directory it belongs in.
//
//verif:check C15
//verif:use vfs yaml
//verif:quick
//verif:reach source listed below instructions values output place
//verif:opt delay=1
func Locked() {
	start()
	vfs.Add("w/in/a.yaml", traced("a"))
	vfs.Add("w/in/b.yaml", traced("b"), traced("c"))
	vfs.Add("w/in/d/e.yaml", traced("d"))
	vfs.Add("w/v.yaml", mapping("x", "y"))
	vfs.Add("w/output/a.yaml", gen.Doc(gen.S("old")))
	vfs.Add("w/output/b.yaml", gen.Doc(gen.S("old")))
	vfs.Add("w/output/d/e.yaml", gen.Doc(gen.S("old")))
	list := gen.Q(mapping("path", "in/a.yaml"), mapping("path", "in/b.yaml"), mapping("path", "in/d/e.yaml"))
	if sym.Choice(2) == 1 {
		list = gen.Q(mapping("path", "in"))
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	what := sym.Choice(7)
	switch what {
	case 0:
		sym.Reach("source")
		vfs.Lock("w/in/" + []string{"a.yaml", "b.yaml", "d/e.yaml"}[sym.Choice(3)])
	case 1:
		sym.Reach("listed")
		vfs.Lock("w/in")
	case 2:
		sym.Reach("below")
		vfs.Lock("w/in/d")
	case 3:
		sym.Reach("instructions")
		vfs.Lock("w/i.yaml")
	case 4:
		sym.Reach("values")
		vfs.Lock("w/v.yaml")
	case 5:
		sym.Reach("output")
		vfs.Lock("w/output/" + []string{"a.yaml", "b.yaml", "d/e.yaml"}[sym.Choice(3)])
	case 6:
		sym.Reach("place")
		vfs.Lock("w/output" + []string{"", "/d"}[sym.Choice(2)])
	}
	cfg := &instructions.Config{InstructionsFile: "i.yaml"}
	if what == 4 {
		cfg.ValueFiles = []string{"v.yaml"}
	}
	err := instructions.Execute(cfg)
	vfs.Unlock()
	if what == 5 && err == nil { // put in place of the other
		for _, f := range []string{"a", "b", "d/e"} {
			docs, ok := vfs.Docs("w/output/" + f + ".yaml")
			sym.Assert("C15", "locked-output-reported", ok && len(docs) > 0 && docs[0].Content[0].Kind == yaml.MappingNode)
		}
		return
	}
	sym.Assert("C15", "locked-reported", err != nil)
}

// BadOverlay has an overlay with a part that cannot be understood, anywhere in the instructions: the run fails and
// nothing is written.
//
//verif:check C15 C20
//verif:use vfs yaml
//verif:quick
//verif:reach action query qualifier onmissing index structure
func BadOverlay() {
	start()
	vfs.Add("w/in/a.yaml", traced("a"), traced("b"))
	vfs.Add("w/in/b.yaml", traced("c"))
	q, v := gen.S("t"), gen.S(letter())
	o := gen.M(gen.S("query"), q, gen.S("value"), v)
	add := func(k string, x *yaml.Node) { o.Content = append(o.Content, gen.S(k), x) }
	one := func() *yaml.Node { // something that is not a text
		switch sym.Choice(3) {
		case 0:
			return gen.Q(gen.S("merge"))
		case 1:
			return gen.M(gen.S("merge"), gen.S("x"))
		}
		return gen.Q()
	}
	badQuery := func() *yaml.Node {
		bad := []string{"a[", "a.b[?(", "$x", "a['b", "a..", "a["}[sym.Choice(5)]
		if sym.Choice(2) == 1 {
			return gen.Q(gen.S("t"), gen.S(bad))
		}
		return gen.S(bad)
	}
	what := []string{"action", "query", "qualifier", "onmissing", "index", "structure"}[sym.Choice(6)]
	switch what {
	case "action":
		if sym.Choice(2) == 1 {
			add("action", gen.S("x"+letter()))
		} else {
			add("action", one())
		}
	case "query":
		if sym.Choice(2) == 1 {
			o.Content[1] = badQuery()
		} else {
			o.Content[1] = gen.M(gen.S("t"), gen.S("x"))
		}
	case "qualifier":
		c := gen.M(gen.S("query"), gen.S("id"), gen.S("value"), gen.S("a"))
		switch sym.Choice(4) {
		case 0:
			c.Content[1] = badQuery()
			add("documentQuery", gen.Q(gen.M(gen.S("conditions"), gen.Q(c))))
		case 1:
			add("documentQuery", gen.S("id"))
		case 2:
			add("documentQuery", gen.Q(gen.M(gen.S("conditions"), gen.S("id"))))
		case 3:
			add("documentQuery", gen.Q(gen.S("id")))
		}
	case "onmissing":
		switch sym.Choice(3) {
		case 0:
			add("onMissing", gen.M(gen.S("action"), one()))
		case 1:
			add("onMissing", gen.M(gen.S("action"), gen.S("inject"), gen.S("injectPath"), badQuery()))
		case 2:
			add("onMissing", gen.S("inject"))
		}
	case "index":
		add("documentIndex", []*yaml.Node{gen.S(letter()), gen.Q(gen.S(letter())), gen.M(gen.S("a"), num(1))}[sym.Choice(3)])
	case "structure":
		o = []*yaml.Node{gen.S(letter()), gen.Q(gen.S(letter()))}[sym.Choice(2)]
	}
	sym.Reach(what)
	good := mapping("query", "t", "action", "combine", "value", letter())
	lists := []*yaml.Node{gen.Q(good), gen.Q(gen.Clone(good)), gen.Q(gen.Clone(good))}
	at := lists[sym.Choice(3)]
	at.Content = append(at.Content, o)
	doc := mapping("commonOverlays", lists[0], "yamlFiles", gen.Q(
		mapping("path", "in/b.yaml"),
		mapping("path", "in/a.yaml", "overlays", lists[1], "documents", gen.Q(gen.M(gen.S("path"), num(1), gen.S("overlays"), lists[2])))))
	vfs.Add("w/i.yaml", doc)
	vfs.Ready()
	err := run("i.yaml")
	id := "C15"
	if what == "action" {
		id = "C20"
	}
	sym.Assert(id, "bad-overlay-reported", err != nil)
	sym.Assert(id, "bad-overlay-nothing-written", len(vfs.Written()) == 0)
}

// Mangled has one node of a good instructions file replaced by something else: the run succeeds or reports an error.
//
//verif:check C21 C15
//verif:use vfs yaml
//verif:quick
//verif:reach succeeds fails
func Mangled() {
	start()
	viper.Set("defaultOnMissingAction", []string{"ignore", "inject"}[sym.Choice(2)])
	vfs.Add("w/in/a.yaml", traced("a"), traced("b"))
	vfs.Add("w/in/b.yaml", traced("c"))
	full := mapping("name", "n", "query", gen.Q(gen.S("t"), gen.S("id")), "action", "merge", "value", gen.Q(mapping("k", "v")),
		"documentQuery", gen.Q(mapping("conditions", gen.Q(mapping("query", "id", "value", "a")))),
		"documentIndex", gen.Q(num(0)))
	missing := mapping("query", "x.*", "value", mapping("k", "v"), "onMissing", mapping("action", "inject", "injectPath", gen.Q(gen.S("p.q"))))
	plain := mapping("query", "t", "value", "z")
	doc := mapping("commonOverlays", gen.Q(plain), "yamlFiles", gen.Q(
		mapping("path", "in/b.yaml", "outputPath", "o.yaml"),
		mapping("name", "m", "path", "in/a.yaml", "overlays", gen.Q(full, missing),
			"documents", gen.Q(mapping("path", num(1), "overlays", gen.Q(gen.Clone(plain)))))))
	// every node but the keys
	var places []*yaml.Node
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		places = append(places, n)
		for i, c := range n.Content {
			if n.Kind != yaml.MappingNode || i%2 == 1 {
				walk(c)
			}
		}
	}
	walk(doc)
	at := places[sym.Choice(len(places))]
	null := gen.T("!!null", "null")
	alt := []*yaml.Node{null, gen.M(), gen.Q(), gen.Q(null), gen.S(letter()), num(7), gen.M(gen.S("k"), null), gen.Q(gen.S("t"), null), gen.M(gen.S("path"), null)}
	*at = *alt[sym.Choice(len(alt))]
	vfs.Add("w/i.yaml", doc)
	vfs.Ready()
	err := run("i.yaml")
	if err != nil {
		sym.Reach("fails")
		return
	}
	// what succeeds has written something readable
	for _, w := range vfs.Written() {
		docs, ok := vfs.Docs(w)
		sym.Assert("C15", "mangled-readable", ok && len(docs) > 0)
	}
	sym.Reach("succeeds")
}
