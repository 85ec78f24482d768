package hi

import (
	"path"
	"strconv"
	"strings"

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/vfs"
	"gopkg.in/yaml.v3"
)

// CommonPrefix computes the common directory of a few absolute paths of arbitrary text.
//
//verif:check C10
//verif:quick len=4 paths=3
//verif:thorough len=5 paths=3
//verif:reach one many
//verif:opt weight=3
func CommonPrefix() {
	n := 1 + sym.Choice(sym.Param("paths", 2))
	l := sym.Param("len", 3)
	var ps []string
	for i := 0; i < n; i++ {
		p := "/" + sym.Str(1+sym.Choice(l), "/abA.")
		// a clean path of a file
		sym.Assume(p[len(p)-1] != '/')
		for j := 1; j < len(p); j++ {
			sym.Assume(!sym.And(p[j-1] == '/', p[j] == '/'))
			sym.Assume(!sym.And(p[j-1] == '/', p[j] == '.'))
		}
		ps = append(ps, p)
	}
	for i := range ps {
		for j := range ps {
			if i != j {
				// neither is the other, nor a directory the other is in
				sym.Assume(ps[i] != ps[j])
				if len(ps[i]) < len(ps[j]) {
					sym.Assume(!sym.And(ps[j][:len(ps[i])] == ps[i], ps[j][len(ps[i])] == '/'))
				}
			}
		}
	}
	got := instructions.GetCommonPrefix('/', ps...)
	sym.Observe("prefix", got)
	// the deepest directory: the longest text ending in / that all paths begin with
	deepest := "/"
	for i := 2; i <= len(ps[0]); i++ {
		all := ps[0][i-1] == '/'
		for _, p := range ps[1:] {
			all = sym.And(all, len(p) >= i && p[:min(i, len(p))] == ps[0][:i])
		}
		if sym.Decide(all) {
			deepest = ps[0][:i]
		}
	}
	sym.Assert("C10", "prefix-deepest-common-directory", got == deepest)
	if n == 1 {
		sym.Reach("one")
	} else {
		sym.Reach("many")
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var pool = []struct{ file, given string }{
	{"w/in/a.yaml", "in/a.yaml"},
	{"w/in/sub/a.yaml", "in/x/../sub/a.yaml"},
	{"w/in/sub/deep/b.yml", "@w/in/./sub//deep/b.yml"},
	{"w/c.yaml", "./c.yaml"},
	{"w2/d.yaml", "../w2/d.yaml"},
	{"w/in2/a.yaml", "@w/in2/a.yaml"},
}

// given is a path as it is written in an instructions file; @ stands for the root.
func given(s string) string {
	if strings.HasPrefix(s, "@") {
		return vfs.Root() + "/" + s[1:]
	}
	return s
}

func within(p, dir string) bool { return strings.HasPrefix(p, dir+"/") }

// Outputs lists files in several ways, with and without output paths.
//
//verif:check C10
//verif:use vfs yaml
//verif:quick files=2
//verif:thorough files=3
//verif:reach written explicit default
func Outputs() {
	start()
	var chosen []int
	want := map[string][2]string{} // the document and its trace by place
	for i := 0; i < sym.Param("files", 2); i++ {
		k := sym.Choice(len(pool) + 1)
		if k == len(pool) {
			continue
		}
		for _, o := range chosen {
			sym.Assume(o != k)
		}
		chosen = append(chosen, k)
	}
	sym.Assume(len(chosen) > 0)
	for _, p := range pool {
		vfs.Add(p.file, traced(p.file))
	}
	odir := []string{"./output", "@out", "new/deeper", "", "a/../x/"}[sym.Choice(5)]
	viper.Set("outputDirectory", given(odir))
	base := path.Join(vfs.Abs("w"), odir)
	if odir != "" && odir[0] == '@' {
		base = vfs.Abs(odir[1:])
	}
	// the deepest directory they have in common
	common := path.Dir(pool[chosen[0]].file)
	for _, k := range chosen {
		for common != "." && !within(pool[k].file, common) {
			common = path.Dir(common)
		}
	}
	list := gen.Q()
	for _, k := range chosen {
		l := letter()
		entry := mapping("path", given(pool[k].given), "overlays", gen.Q(step(l)))
		rel := pool[k].file
		if common != "." {
			rel = strings.TrimPrefix(rel, common+"/")
		}
		out := path.Join(base, rel)
		op := ""
		switch sym.Choice(5) {
		case 0:
			sym.Reach("default")
		case 1:
			op = "named" + strconv.Itoa(k) + ".txt"
			out = path.Join(base, op)
		case 2:
			op = "dir" + strconv.Itoa(k)
			out = path.Join(base, op, path.Base(pool[k].file))
		case 3:
			op = "dir.d/e" + strconv.Itoa(k) + "/"
			out = path.Join(base, op, path.Base(pool[k].file))
		case 4:
			op = vfs.Abs("away/" + strconv.Itoa(k) + ".yaml")
			out = op
		}
		if op != "" {
			entry.Content = append(entry.Content, gen.S("outputPath"), gen.S(op))
			sym.Reach("explicit")
		}
		for _, p := range pool {
			// the output directory is the one of the sources
			sym.Assume(odir != "" || out != vfs.Abs(p.file))
		}
		want[strings.TrimPrefix(out, vfs.Root()+"/")] = [2]string{pool[k].file, "." + l}
		list.Content = append(list.Content, entry)
	}
	sym.Assert("C10", "outputs-distinct", len(want) == len(chosen))
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C10", "outputs-succeed", err == nil)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	sym.Assert("C10", "outputs-count", len(got) == len(want))
	for _, p := range got {
		src, ok := want[p]
		sym.Assert("C10", "outputs-expected-place", ok)
		docs, ok := vfs.Docs(p)
		sym.Assert("C10", "outputs-content", ok && len(docs) == 1 && sym.And(field(docs[0], "id") == src[0], field(docs[0], "t") == src[1]))
	}
	sym.Reach("written")
}

// OutputText gives one file, or a directory that holds it, an output path of arbitrary text.
//
//verif:check C10
//verif:use vfs yaml
//verif:quick len=8
//verif:thorough len=10
//verif:reach file directory refused
func OutputText() {
	start()
	op := sym.Str(1+sym.Choice(sym.Param("len", 5)), "a./")
	sym.Assume(op[0] != '/')
	seg, base, depth := 0, "", 0
	for i := 0; i <= len(op); i++ {
		if i < len(op) && !sym.Decide(op[i] == '/') {
			continue
		}
		base = op[seg:i]
		switch {
		case sym.Decide(base == ".."):
			depth--
		case base == "" || sym.Decide(base == "."):
		default:
			depth++
		}
		sym.Assume(depth >= -1)
		seg = i + 1
	}
	isFile := false
	for i := range base {
		isFile = sym.Or(isFile, base[i] == '.')
	}
	// neither . nor .. is a name
	isFile = sym.And(isFile, sym.And(base != ".", base != ".."))
	given := []string{"in/f.yaml", "in"}[sym.Choice(2)]
	vfs.Add("w/in/f.yaml", traced("f"))
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", given, "outputPath", op))))
	vfs.Ready()
	err := run("i.yaml")
	if given == "in" && sym.Decide(isFile) {
		// a file cannot take what a directory holds
		sym.Assert("C10", "output-text-refused", err != nil && len(vfs.Written()) == 0)
		sym.Reach("refused")
		return
	}
	sym.Assert("C10", "output-text-succeeds", err == nil)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	want := path.Clean("w/output/" + op)
	if sym.Decide(isFile) {
		sym.Reach("file")
	} else {
		want += "/f.yaml"
		sym.Reach("directory")
	}
	sym.Assert("C10", "output-text-place", len(got) == 1 && got[0] == want)
}

// listing is an entry of yamlFiles that names some of the files below w/in.
type listing struct {
	given string
	files []int
}

var tree = []string{"w/in/a.yaml", "w/in/sub/b.yml", "w/in/sub/c.yaml"}

var listings = []listing{
	{"in/a.yaml", []int{0}},
	{"in/sub/b.yml", []int{1}},
	{"in/sub", []int{1, 2}},
	{"in", []int{0, 1, 2}},
	{"@w/in/./a.yaml", []int{0}},
	{"@w/in//sub/", []int{1, 2}},
}

// Duplicates lists files and directories several times, with overlays, documents and output paths of their own.
//
//verif:check C16 C10
//verif:use vfs yaml
//verif:quick entries=3
//verif:thorough entries=4
//verif:reach single twice adhoc
//verif:opt weight=4
func Duplicates() {
	start()
	for _, f := range tree {
		vfs.Add(f, traced(f), traced(f+"1"))
	}
	vfs.AddText("w/in/note.txt", "not: [yaml")
	vfs.AddText("w/in/sub/yaml", "not: [yaml")
	vfs.AddText("w/in/sub/b.yaml.bak", "not: [yaml")
	traces := make([]string, len(tree))
	docs := make([]string, len(tree))
	outs := make([]string, len(tree))
	times := make([]int, len(tree))
	list := gen.Q()
	n := 1 + sym.Choice(sym.Param("entries", 3))
	withOut := sym.Choice(n+1) - 1
	for i := 0; i < n; i++ {
		l := listings[sym.Choice(len(listings))]
		a, b := letter(), letter()
		// entries about the same file may have different names or none
		name := []string{"n", "n", "m"}[i%3]
		entry := mapping("name", name, "path", given(l.given), "overlays", gen.Q(step(a)),
			"documents", gen.Q(mapping("path", num(0), "overlays", gen.Q(step(b)))))
		op := ""
		if i == withOut || i == 0 && withOut > 0 {
			op = "o" + strconv.Itoa(i)
			entry.Content = append(entry.Content, gen.S("outputPath"), gen.S(op))
		}
		for _, f := range l.files {
			traces[f] += a
			docs[f] += b
			times[f]++
			if op != "" {
				outs[f] = op + "/" + path.Base(tree[f])
			}
		}
		list.Content = append(list.Content, entry)
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", list))
	cfg := &instructions.Config{InstructionsFile: "i.yaml"}
	if sym.Choice(2) == 1 {
		cfg.Path = "in/a.yaml"
		times[0]++
		sym.Reach("adhoc")
	}
	common := ""
	for f := range tree {
		if times[f] == 0 {
			continue
		}
		if times[f] > 1 {
			sym.Reach("twice")
		} else {
			sym.Reach("single")
		}
		if common == "" {
			common = path.Dir(tree[f])
		}
		for !within(tree[f], common) {
			common = path.Dir(common)
		}
	}
	want := map[string]bool{}
	for f := range tree {
		if times[f] > 0 {
			if outs[f] == "" {
				outs[f] = strings.TrimPrefix(tree[f], common+"/")
			}
			want[outs[f]] = true
		}
	}
	vfs.Ready()
	err := instructions.Execute(cfg)
	sym.Assert("C16", "duplicates-succeed", err == nil)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	sym.Assert("C16", "duplicates-outputs", len(got) == len(want))
	for f := range tree {
		if times[f] == 0 {
			continue
		}
		p := "w/output/" + outs[f]
		ds, ok := vfs.Docs(p)
		sym.Assert("C16", "duplicates-written-once", ok && len(ds) == 2)
		if !ok || len(ds) != 2 {
			continue
		}
		sym.Observe(p, field(ds[0], "t")+" "+field(ds[1], "t"))
		sym.Assert("C16", "duplicates-which", field(ds[0], "id") == tree[f] && field(ds[1], "id") == tree[f]+"1")
		sym.Assert("C16", "duplicates-overlays", sym.And(field(ds[0], "t") == "."+traces[f]+docs[f], field(ds[1], "t") == "."+traces[f]))
	}
}

// AdHoc names files on the command line only.
//
//verif:check C16 C10 C09
//verif:use vfs yaml
//verif:quick
//verif:reach dir file stdin
func AdHoc() {
	start()
	for _, f := range tree {
		vfs.Add(f, traced(f), traced(f+"1"))
	}
	vfs.AddText("w/in/note.txt", "not: [yaml")
	vfs.Stdin(traced("stdin"), traced("stdin1"))
	cases := []struct {
		given string
		outs  []string
		ids   []string
	}{
		{"in/a.yaml", []string{"a.yaml"}, []string{tree[0]}},
		{"in/sub", []string{"b.yml", "c.yaml"}, []string{tree[1], tree[2]}},
		{"in", []string{"a.yaml", "sub/b.yml", "sub/c.yaml"}, tree},
		{"@w/in", []string{"a.yaml", "sub/b.yml", "sub/c.yaml"}, tree},
		{".", []string{"a.yaml", "sub/b.yml", "sub/c.yaml"}, tree},
		{"./in/./sub/../a.yaml", []string{"a.yaml"}, []string{tree[0]}},
		{"-", []string{"stdin.yaml"}, []string{"stdin"}},
	}
	c := cases[sym.Choice(len(cases))]
	cfg := &instructions.Config{Path: given(c.given), Value: "x"}
	cfg.Overlay.Name = "x"
	must(cfg.Overlay.Query.Set("t"))
	must(cfg.Overlay.Action.Set("combine"))
	vfs.Ready()
	err := instructions.Execute(cfg)
	sym.Assert("C16", "adhoc-succeeds", err == nil)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	sym.Assert("C10", "adhoc-outputs", len(got) == len(c.outs))
	for i, o := range c.outs {
		ds, ok := vfs.Docs("w/output/" + o)
		sym.Assert("C10", "adhoc-place", ok && len(ds) == 2)
		if ok && len(ds) == 2 {
			sym.Assert("C16", "adhoc-which", field(ds[0], "id") == c.ids[i] && field(ds[1], "id") == c.ids[i]+"1")
			sym.Assert("C09", "adhoc-overlay", field(ds[0], "t") == ".x" && field(ds[1], "t") == ".x")
		}
	}
	switch c.given {
	case "-":
		sym.Reach("stdin")
	case "in/a.yaml":
		sym.Reach("file")
	default:
		sym.Reach("dir")
	}
}

// AdHocBeside gives a file or standard input on the command line beside those of the instructions.
//
//verif:check C10 C16
//verif:use vfs yaml
//verif:quick
//verif:reach file stdin
func AdHocBeside() {
	start()
	for _, f := range tree {
		vfs.Add(f, traced(f))
	}
	vfs.Add("w/other/d.yaml", traced("d"))
	vfs.Stdin(traced("stdin"))
	lists := []struct {
		path string
		outs map[string]string
		to   string // where in/ is below the deepest common directory once other/d.yaml is there
	}{
		{"in/a.yaml", map[string]string{"a.yaml": tree[0]}, "in/"},
		{"in/sub", map[string]string{"b.yml": tree[1], "c.yaml": tree[2]}, "in/sub/"},
		{"in", map[string]string{"a.yaml": tree[0], "sub/b.yml": tree[1], "sub/c.yaml": tree[2]}, "in/"},
	}
	l := lists[sym.Choice(3)]
	t := letter()
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", l.path, "overlays", gen.Q(step(t))))))
	want := map[string]string{}
	cfg := &instructions.Config{InstructionsFile: "i.yaml"}
	switch sym.Choice(2) {
	case 0:
		cfg.Path = "-"
		for o, id := range l.outs {
			want["w/output/"+o] = id
		}
		want["w/output/stdin.yaml"] = "stdin"
		sym.Reach("stdin")
	case 1:
		cfg.Path = []string{"other/d.yaml", "other", "./in/../other/"}[sym.Choice(3)]
		for o, id := range l.outs {
			want["w/output/"+l.to+o] = id
		}
		want["w/output/other/d.yaml"] = "d"
		sym.Reach("file")
	}
	vfs.Ready()
	err := instructions.Execute(cfg)
	sym.Assert("C16", "beside-succeeds", err == nil)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	sym.Assert("C10", "beside-outputs", len(got) == len(want))
	for _, p := range got {
		ds, ok := vfs.Docs(p)
		sym.Assert("C10", "beside-place", ok && len(ds) == 1 && want[p] != "" && field(ds[0], "id") == want[p])
		if !ok || len(ds) != 1 {
			continue
		}
		trace := "."
		if id := want[p]; id != "d" && id != "stdin" {
			trace += t
		}
		sym.Assert("C16", "beside-overlays", field(ds[0], "t") == trace)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var _ yaml.Node

// Listed has a file of an arbitrary name somewhere below a listed directory: it is processed exactly when its name ends
// in .yaml or .yml.
//
//verif:check C16
//verif:use vfs yaml
//verif:quick len=5
//verif:thorough len=6
//verif:reach yes no
func Listed() {
	start()
	name := sym.Str(sym.Choice(sym.Param("len", 5)+1), ".yYaAmMlLxbk0~ -")
	dir := []string{"w/in/", "w/in/d.yaml/", "w/in/.h/", "w/in/deep/er/", "w/in/x y/"}[sym.Choice(5)]
	if dir == "w/in/" {
		name = []string{"n", ".h", "_", "-", "#", "m.yaml", "~"}[sym.Choice(7)] + name
		sym.Assume(name != "m.yaml")
	} else {
		name = "n" + name
	}
	yes := strings.HasSuffix(name, ".yaml") || strings.HasSuffix(name, ".yml")
	vfs.Add(dir+name, traced("n"))
	vfs.Add("w/in/m.yaml", traced("m"))
	vfs.Add("w/out.yaml", traced("out"))
	l := letter()
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", "in", "overlays", gen.Q(step(l))))))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C16", "listed-succeeds", err == nil)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	want := 1
	out := "w/output/" + strings.TrimPrefix(dir, "w/in/") + name
	if yes {
		want++
		ds, ok := vfs.Docs(out)
		sym.Assert("C16", "listed-processed", ok && len(ds) == 1 && sym.And(field(ds[0], "id") == "n", field(ds[0], "t") == "."+l))
		sym.Reach("yes")
	} else {
		sym.Reach("no")
	}
	sym.Assert("C16", "listed-only", len(got) == want)
	ds, ok := vfs.Docs("w/output/m.yaml")
	sym.Assert("C16", "listed-other", ok && len(ds) == 1 && sym.And(field(ds[0], "id") == "m", field(ds[0], "t") == "."+l))
}

// Linked has symbolic links among the files: a link is as good as what it leads to, a directory's as well as a file's.
//
//verif:check C16
//verif:use vfs yaml
//verif:quick
//verif:reach below directory through direct no
func Linked() {
	start()
	vfs.Add("w/real/n.yaml", traced("n"))
	vfs.Add("w/real/deep/o.yaml", traced("o"))
	vfs.Add("w/in/m.yaml", traced("m"))
	l := letter()
	want := map[string]string{"w/output/m.yaml": "m"}
	listed := "in"
	switch sym.Choice(5) {
	case 0:
		name := []string{"l.yaml", "l.yml", "deep/l.yaml"}[sym.Choice(3)]
		vfs.AddLink("w/in/"+name, "w/real/n.yaml")
		want["w/output/"+name] = "n"
		sym.Reach("below")
	case 1:
		vfs.AddLink("w/in/l.txt", "w/real/n.yaml")
		sym.Reach("no")
	case 2:
		vfs.AddLink("w/d", "w/real")
		listed = []string{"d", "d/", "./d", "in/../d"}[sym.Choice(4)]
		want = map[string]string{"w/output/n.yaml": "n", "w/output/deep/o.yaml": "o"}
		sym.Reach("directory")
	case 3:
		vfs.AddLink("w/d", "w/real")
		listed = "d/deep"
		want = map[string]string{"w/output/o.yaml": "o"}
		sym.Reach("through")
	case 4:
		vfs.AddLink("w/in/l.yaml", "w/real/n.yaml")
		listed = "in/l.yaml"
		want = map[string]string{"w/output/l.yaml": "n"}
		sym.Reach("direct")
	}
	vfs.Add("w/i.yaml", mapping("yamlFiles", gen.Q(mapping("path", listed, "overlays", gen.Q(step(l))))))
	vfs.Ready()
	err := run("i.yaml")
	sym.Assert("C16", "linked-succeeds", err == nil)
	got := vfs.Written()
	sym.Observe("written", strings.Join(got, " "))
	sym.Assert("C16", "linked-only", len(got) == len(want))
	for _, p := range got {
		ds, ok := vfs.Docs(p)
		sym.Assert("C16", "linked-processed", ok && want[p] != "" && len(ds) == 1 && sym.And(field(ds[0], "id") == want[p], field(ds[0], "t") == "."+l))
	}
}
