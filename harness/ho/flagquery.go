package ho

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

var flagQueries = []string{
	"x", "$.x", "x.y", "['a b']", "['x','a b'].y", "*", "$..y", "list[?(@.k=='x #y')].v", "list[?(@.k=='p: q')].v", "list[*].v",
	"", "~", "null", "true", "1", "# x", "'x'", "\"x\"", "[x", "x[", "{x: y}", "x: y", "- x", "x #y", "&x", "!x", "@.x", "|x", ">", "%x", " x ", "x ",
	"x\\ty", "x,y", "x'y",
}

func flagDocument() *yaml.Node {
	item := func(k, v string) *yaml.Node { return gen.M(gen.S("k"), gen.S(k), gen.S("v"), gen.S(v)) }
	return gen.Doc(gen.M(
		gen.S("x"), gen.M(gen.S("y"), gen.S("1")),
		gen.S("a b"), gen.M(gen.S("y"), gen.S("2")),
		gen.S("~"), gen.S("3"), gen.S("null"), gen.S("4"), gen.S("true"), gen.S("5"), gen.S("1"), gen.S("6"),
		gen.S("x: y"), gen.S("7"), gen.S("x #y"), gen.S("8"), gen.S("x,y"), gen.S("9"),
		gen.S("list"), gen.Q(item("x #y", "1"), item("p: q", "2"))))
}

// flagged gives the texts as query options and as a list in an instructions file: both have to mean the same.
func flagged(texts ...string) {
	var flag, file overlays.Queries
	var flagErr error
	list := gen.Q()
	for _, t := range texts {
		if err := flag.Set(t); err != nil {
			flagErr = err
		}
		list.Content = append(list.Content, gen.S(t))
	}
	fileErr := file.UnmarshalYAML(list)
	sym.Assert("C23", "query-option-accepted", (flagErr == nil) == (fileErr == nil))
	if flagErr != nil || fileErr != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert("C23", "query-option-text", flag.String() == file.String())
	doc := flagDocument()
	got, want := flag.Find(doc), file.Find(doc)
	sym.ObserveInt("matches", len(got))
	same := len(got) == len(want)
	for i := range got {
		same = same && got[i] == want[i]
	}
	sym.Assert("C23", "query-option-matches", same)
	if len(got) > 0 {
		sym.Reach("matched")
	} else {
		sym.Reach("nothing")
	}
}

// FlagQueries gives one or two queries of many kinds on the command line.
//
//verif:check C23
//verif:quick n=2
//verif:thorough n=2
//verif:reach matched nothing rejected
func FlagQueries() {
	n := 1 + sym.Choice(sym.Param("n", 2))
	var t []string
	for i := 0; i < n; i++ {
		t = append(t, flagQueries[sym.Choice(len(flagQueries))])
	}
	flagged(t...)
}

// FlagQuery gives a query of arbitrary text.
//
//verif:check C23
//verif:quick len=3
//verif:thorough len=5
//verif:reach matched nothing rejected
func FlagQuery() {
	flagged(sym.Str(sym.Choice(sym.Param("len", 3)+1), "xy.*$['~ #"))
}
