package hi

import (
	"strconv"
	"strings"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// The harnesses of this file have many documents, files or levels and few choices in them.

// index draws a whole number, negative ones and ones of two digits included.
func index() string {
	d := sym.Str(1, "0123456789")
	switch sym.Choice(3) {
	case 0:
		sym.Assume(d != "0")
		return "-" + d
	case 1:
		return "1" + d
	}
	return d
}

// Indices names documents of a long file by their numbers, also by numbers there is no document of and by none at all.
//
//verif:check C09
//verif:use vfs yaml
//verif:quick docs=12
//verif:thorough docs=23
//verif:reach list none document
func Indices() {
	start()
	n := sym.Param("docs", 12)
	var docs []*yaml.Node
	for d := 0; d < n; d++ {
		docs = append(docs, traced(strconv.Itoa(d)))
	}
	vfs.Add("w/a.yaml", docs...)
	l, m := letter(), letter()
	o := step(l)
	entry := mapping("path", "a.yaml")
	root := gen.M()
	var at []string
	q := gen.Q()
	switch sym.Choice(3) {
	case 0:
		sym.Reach("none")
	case 1:
		at = []string{index()}
	case 2:
		at = []string{index(), index()}
	}
	for _, i := range at {
		q.Content = append(q.Content, gen.T("!!int", i))
	}
	order := 0
	switch sym.Choice(4) {
	case 0:
		o.Content = append(o.Content, gen.S("documentIndex"), q)
		root.Content = append(root.Content, mapping("commonOverlays", gen.Q(o)).Content...)
		entry.Content = append(entry.Content, mapping("overlays", gen.Q(step(m))).Content...)
		sym.Reach("list")
	case 1:
		o.Content = append(o.Content, gen.S("documentIndex"), q)
		root.Content = append(root.Content, mapping("commonOverlays", gen.Q(step(m))).Content...)
		entry.Content = append(entry.Content, mapping("overlays", gen.Q(o)).Content...)
		order = 1
		sym.Reach("list")
	case 2:
		// an overlay for a document that is about another document, too
		sym.Assume(len(at) == 1)
		entry.Content = append(entry.Content, mapping("overlays", gen.Q(step(m)), "documents", gen.Q(
			mapping("path", q.Content[0], "overlays", gen.Q(o)))).Content...)
		order = 1
		sym.Reach("document")
	case 3:
		sym.Assume(len(at) == 2)
		entry.Content = append(entry.Content, mapping("overlays", gen.Q(step(m)), "documents", gen.Q(
			mapping("name", "z", "path", q.Content[0], "overlays", gen.Q(step(l))),
			mapping("path", q.Content[1], "overlays", gen.Q(step(l))))).Content...)
		order = 2
		sym.Reach("document")
	}
	root.Content = append(root.Content, mapping("yamlFiles", gen.Q(entry)).Content...)
	vfs.Add("w/i.yaml", root)
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C09", "indices-succeed", err == nil)
	got, ok := vfs.Docs("w/output/a.yaml")
	sym.Assert("C09", "indices-documents", ok && len(got) == n)
	if !ok || len(got) != n {
		return
	}
	for d := range got {
		want := ""
		for _, i := range at {
			if sym.Decide(i == strconv.Itoa(d)) && (want == "" || order == 2) {
				want += l
			}
		}
		if order == 0 {
			want += m
		} else {
			want = m + want
		}
		sym.Assert("C09", "indices-exactly", sym.And(field(got[d], "id") == strconv.Itoa(d), field(got[d], "t") == "."+want))
	}
}

// LongFile has a file of many small documents with comments, one of which is treated differently.
//
//verif:check C22 C14 C09
//verif:use vfs yaml
//verif:quick docs=40
//verif:thorough docs=40
//verif:reach stdout disk removed kept
func LongFile() {
	start()
	n := sym.Param("docs", 12)
	l := letter()
	var docs, want []*yaml.Node
	at := sym.Choice(n)
	kind := sym.Choice(4)
	o := mapping("query", "$", "documentIndex", gen.Q(num(at)))
	for d := 0; d < n; d++ {
		// every other document is a text
		doc := gen.Doc(gen.S(l + strconv.Itoa(d)))
		last := doc.Content[0]
		if d%2 == 0 {
			doc = gen.Doc(mapping("d"+strconv.Itoa(d), l))
			last = doc.Content[0].Content[1]
		}
		w := gen.Clone(doc)
		if d == at {
			switch kind {
			case 0:
				w = nil
				o.Content = append(o.Content, mapping("action", "delete").Content...)
			case 1:
				w = gen.Doc(gen.S("new"))
				o.Content = append(o.Content, mapping("action", "replace", "value", "new").Content...)
			case 2:
				doc = null()
				last = doc.Content[0]
				w = null()
			}
		}
		last.LineComment = "# note"
		doc.HeadComment = "# note"
		docs = append(docs, doc)
		if w != nil {
			want = append(want, w)
		}
	}
	vfs.Add("w/a.yaml", docs...)
	entry := mapping("path", "a.yaml")
	if kind < 2 {
		entry.Content = append(entry.Content, gen.S("overlays"), gen.Q(o))
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(entry)))
	sink, remove := sym.Choice(2) == 1, sym.Choice(2) == 1
	viper.Set("stdout", sink)
	viper.Set("removeComments", remove)
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C22", "long-file-succeeds", err == nil)
	var got []*yaml.Node
	var ok bool
	if sink {
		got, ok = vfs.OutDocs()
		sym.Reach("stdout")
	} else {
		got, ok = vfs.Docs("w/output/a.yaml")
		sym.Reach("disk")
	}
	sym.Assert("C22", "long-file-every-document-once-in-order", sym.And(ok, same(got, want)))
	sym.Assert("C09", "long-file-named-document-only", len(got) == len(want))
	if len(got) != len(want) {
		return
	}
	for i, d := range got {
		notes := 0
		for _, x := range gen.Nodes(d) {
			if x.HeadComment != "" {
				notes++
			}
			if x.LineComment != "" {
				notes++
			}
		}
		if remove {
			sym.Reach("removed")
			sym.Assert("C14", "long-file-comments-removed", notes == 0)
		} else if i != at {
			sym.Reach("kept")
			sym.Assert("C14", "long-file-comments-kept", notes > 0)
		}
	}
}

// CommonPrefixMany has more paths, whose texts are given.
//
//verif:check C10
//verif:quick paths=6
//verif:thorough paths=9
//verif:reach prefix
func CommonPrefixMany() {
	n := 2 + sym.Choice(sym.Param("paths", 6)-1)
	other := sym.Choice(n)
	depth := sym.Choice(3)
	a := letter()
	var ps []string
	for i := 0; i < n; i++ {
		p := []string{"/", "/x/", "/x/yy/"}[depth]
		if i == other {
			p += a + "/f.yaml"
		} else {
			p += "bc/f" + strconv.Itoa(i) + ".yaml"
		}
		ps = append(ps, p)
	}
	got := instructions.GetCommonPrefix('/', ps...)
	sym.Observe("prefix", got)
	sym.Assert("C10", "prefix-many", got == []string{"/", "/x/", "/x/yy/"}[depth])
	sym.Reach("prefix")
}

// Listing lists a tree of several levels with many files.
//
//verif:check C16 C10 C09
//verif:use vfs yaml
//verif:quick depth=7 files=12
//verif:thorough depth=12 files=30
//verif:reach deep wide
func Listing() {
	start()
	l := letter()
	var files []string
	if sym.Choice(2) == 1 {
		sym.Reach("deep")
		dir := "in/"
		skip := sym.Choice(sym.Param("depth", 7))
		for i := 0; i < sym.Param("depth", 7); i++ {
			if i != skip {
				files = append(files, dir+"f.yaml")
			}
			dir += []string{"d", "e.yaml", ".h"}[i%3] + "/"
		}
		files = append(files, dir+"f.yml")
	} else {
		sym.Reach("wide")
		for i := 0; i < sym.Param("files", 12); i++ {
			files = append(files, "in/"+[]string{"", "d/", "e/"}[i%3]+"f"+strconv.Itoa(i)+".yaml")
		}
	}
	for _, f := range files {
		vfs.Add("w/"+f, traced(f))
	}
	vfs.Add("w/z/z.yaml", traced("z"))
	vfs.AddText("w/in/note", "a: {")
	list := gen.Q(mapping("path", "in", "overlays", gen.Q(step(l))))
	common := "in/"
	switch sym.Choice(3) {
	case 1: // one of the files again
		m := letter()
		k := sym.Choice(len(files))
		list.Content = append(list.Content, mapping("path", files[k], "overlays", gen.Q(step(m))))
		files[k] += " " + m
	case 2: // another directory
		common = ""
		list.Content = append(list.Content, mapping("path", "z", "overlays", gen.Q(step(l))))
		files = append(files, "z/z.yaml")
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C16", "listing-succeeds", err == nil)
	got := vfs.Written()
	sym.Assert("C16", "listing-count", len(got) == len(files))
	// the directory they have in common may be deeper
	min := ""
	for i, f := range files {
		f = strings.Split(f, " ")[0]
		d := f[:strings.LastIndex(f, "/")+1]
		if i == 0 {
			min = d
		}
		for !strings.HasPrefix(d, min) {
			min = min[:strings.LastIndex(min[:len(min)-1], "/")+1]
		}
	}
	sym.Assert("C10", "listing-common", strings.HasPrefix(min, common))
	for _, f := range files {
		parts := strings.Split(f, " ")
		want := "." + l
		if len(parts) > 1 {
			want += parts[1]
		}
		docs, ok := vfs.Docs("w/output/" + strings.TrimPrefix(parts[0], min))
		id := parts[0]
		if id == "z/z.yaml" {
			id = "z"
		}
		sym.Assert("C10", "listing-place", ok && len(docs) == 1)
		if ok && len(docs) == 1 {
			sym.Assert("C09", "listing-overlays", sym.And(field(docs[0], "id") == id, field(docs[0], "t") == want))
		}
	}
}

// ValuesMany has several values files, one of which cannot be read.
//
//verif:check C15 C01 C27
//verif:use vfs yaml template
//verif:quick files=4
//verif:thorough files=7
//verif:reach good bad
func ValuesMany() {
	start()
	n := 1 + sym.Choice(sym.Param("files", 4))
	bad := sym.Choice(n+1) - 1
	how := 0
	var names []string
	want := gen.M()
	for i := 0; i < n; i++ {
		name := "v" + strconv.Itoa(i) + ".yaml"
		names = append(names, name)
		k, v := []string{"a", "b", "c"}[i%3], letter()
		if i == bad {
			how = 1 + sym.Choice(3)
			switch how {
			case 1:
				vfs.AddText("w/"+name, k+": [")
				continue
			case 2:
				continue
			case 3:
				vfs.AddDir("w/" + name)
				continue
			}
		}
		vfs.Add("w/"+name, gen.Doc(mapping(k, v)))
		if j := gen.Find(want, k); j >= 0 {
			want.Content[j+1].Value = v
		} else {
			want.Content = append(want.Content, gen.S(k), gen.S(v))
		}
	}
	vfs.Add("w/f.yaml", gen.Doc(mapping("id", "k", "t", ".")))
	list := gen.Q(mapping("path", "f.yaml", "overlays", gen.Q(mapping("query", "t", "action", "replace", "value", vfs.All))))
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	vfs.Ready()
	err := instructions.Execute(&instructions.Config{InstructionsFile: "i.yaml", ValueFiles: names})
	if bad >= 0 {
		sym.Reach("bad")
		sym.Assert("C15", "values-failure-reported", err != nil)
		sym.Assert("C15", "values-failure-writes-nothing", len(vfs.Written()) == 0)
		return
	}
	sym.Reach("good")
	sym.Assert("C01", "values-many-succeed", err == nil)
	docs, ok := vfs.Docs("w/output/f.yaml")
	sym.Assert("C01", "values-many-output", ok && len(docs) == 1)
	if ok && len(docs) == 1 {
		sym.Assert("C01", "values-many-merged", field(docs[0], "t") == asJSON(want))
		sym.Assert("C27", "values-many-rendered", field(docs[0], "t") == asJSON(want))
	}
}

// AliasesDeep has overlay values in which an alias stands for something deep below, or is deep below itself.
//
//verif:check C25 C02
//verif:use vfs yaml
//verif:quick depth=6
//verif:thorough depth=10
//verif:reach merge replace
func AliasesDeep() {
	start()
	deep := func(n *yaml.Node, levels int) *yaml.Node {
		for i := 0; i < levels; i++ {
			if i%2 == 0 {
				n = mapping("k", n)
			} else {
				n = gen.Q(n)
			}
		}
		return n
	}
	down := sym.Choice(sym.Param("depth", 6) + 1)
	x := gen.Anchored("x", gen.S(letter()))
	var v *yaml.Node
	switch sym.Choice(3) {
	case 0: // the alias is deep below
		v = mapping("a", x, "b", deep(gen.A(x), down))
	case 1: // the anchor is
		v = mapping("a", deep(x, down), "b", gen.A(x))
	case 2: // what the alias stands for is deep
		y := gen.Anchored("y", deep(x, down))
		v = mapping("a", y, "b", gen.A(y), "c", gen.Q(gen.A(x), gen.A(y)))
	}
	action := []string{"merge", "replace"}[sym.Choice(2)]
	sym.Reach(action)
	// the document has anchors of the same name
	dx := gen.Anchored("x", gen.S("d"))
	vfs.Add("w/f.yaml", gen.Doc(mapping("e", dx, "v", mapping("o", "p"), "f", gen.A(dx))))
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", "f.yaml", "overlays", gen.Q(
		mapping("query", "v", "action", action, "value", v), mapping("query", "v.a", "action", "delete"))))))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C25", "aliases-deep-succeed", err == nil)
	docs, ok := vfs.Docs("w/output/f.yaml")
	sym.Assert("C25", "aliases-deep-written", ok && len(docs) == 1)
	if !ok || len(docs) != 1 {
		return
	}
	w := gen.Expand(v)
	w.Content = w.Content[2:]
	if action == "merge" {
		w.Content = append(mapping("o", "p").Content, w.Content...)
	}
	want := gen.Doc(mapping("e", "d", "v", w, "f", "d"))
	sym.Assert("C25", "aliases-deep-meaning", gen.Eq(gen.Expand(docs[0]), want))
}
