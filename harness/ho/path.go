package ho

import (
	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/builder"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// build parses a path text and builds its scaffolding, nil when the text is rejected.
func build(text string) *yaml.Node {
	p, err := builder.NewPath(text)
	if err != nil {
		return nil
	}
	n, err := p.BuildPath()
	if err != nil {
		return nil
	}
	return n
}

// chain returns the keys of a chain of maps, level by level; ok says that n is one.
func chain(n *yaml.Node) (keys [][]string, ok bool) {
	if n.Kind == yaml.DocumentNode {
		if len(n.Content) != 1 {
			return nil, false
		}
		n = n.Content[0]
	}
	for n.Kind == yaml.MappingNode {
		if len(n.Content) == 0 || len(n.Content)%2 != 0 {
			return nil, false
		}
		var level []string
		for i := 0; i < len(n.Content); i += 2 {
			if n.Content[i].Kind != yaml.ScalarNode || len(n.Content[i].Content) != 0 {
				return nil, false
			}
			if !sym.Decide(gen.Eq(n.Content[i+1], n.Content[1])) {
				return nil, false
			}
			level = append(level, n.Content[i].Value)
		}
		keys = append(keys, level)
		n = n.Content[1]
	}
	return keys, n.Kind == yaml.ScalarNode && len(n.Content) == 0
}

func isSpace(c byte) bool { return sym.Decide(c == ' ') }

// grammar is the reference parser: the keys of each level when text is a dotted or quoted-bracket path. The path may be
// odd: names in one bracket that combine commas with quotes or escapes mean what the query library takes them for, so
// that only the lookup says what is right.
func grammar(t string) (keys [][]string, odd, ok bool) {
	i := 0
	rooted := false
	if i < len(t) && sym.Decide(t[i] == '$') {
		i++
		rooted = true
	}
	first := true
	for i < len(t) {
		switch {
		case sym.Decide(t[i] == '.'):
			i++
			k, j, good := dotted(t, i)
			if !good {
				return nil, false, false
			}
			keys, i = append(keys, []string{k}), j
		default:
			j := i
			for j < len(t) && isSpace(t[j]) {
				j++
			}
			if j < len(t) && sym.Decide(t[j] == '[') {
				ks, e, o, good := bracketed(t, j+1)
				if !good {
					return nil, false, false
				}
				odd = odd || o
				keys, i = append(keys, ks), e
				break
			}
			if !first || rooted {
				return nil, false, false
			}
			k, e, good := dotted(t, i)
			if !good {
				return nil, false, false
			}
			keys, i = append(keys, []string{k}), e
		}
		first = false
	}
	return keys, odd, true
}

// dotted reads a name that ends at the next punctuation.
func dotted(t string, i int) (string, int, bool) {
	k := ""
	n := 0
	for i < len(t) {
		c := t[i]
		end := sym.Or(sym.Or(c == '.', c == '['), sym.Or(sym.Or(c == ')', c == ' '), sym.Or(c == '&', c == '|')))
		end = sym.Or(end, sym.Or(sym.Or(c == '=', c == '!'), sym.Or(sym.Or(c == '>', c == '<'), sym.Or(c == '~', c == '*'))))
		if sym.Decide(end) {
			break
		}
		n++
		if sym.Decide(c == '\\') {
			// a backslash takes the next character as it is
			i++
			if i >= len(t) {
				break
			}
			c = t[i]
			e2 := sym.Or(sym.Or(c == '.', c == '['), sym.Or(sym.Or(c == ')', c == ' '), sym.Or(c == '&', c == '|')))
			e2 = sym.Or(e2, sym.Or(sym.Or(c == '=', c == '!'), sym.Or(sym.Or(c == '>', c == '<'), sym.Or(c == '~', c == '*'))))
			if sym.Decide(e2) {
				break // punctuation ends a name even so
			}
		}
		k += t[i : i+1]
		i++
	}
	return k, i, n > 0
}

// bracketed reads the quoted names after an opening bracket.
func bracketed(t string, i int) (ks []string, end int, odd, ok bool) {
	comma, special := false, false
	for {
		for i < len(t) && isSpace(t[i]) {
			i++
		}
		if i >= len(t) {
			return nil, 0, false, false
		}
		q := t[i]
		if !sym.Decide(sym.Or(q == '\'', q == '"')) {
			return nil, 0, false, false
		}
		i++
		k := ""
		for {
			if i >= len(t) {
				return nil, 0, false, false
			}
			if sym.Decide(t[i] == q) {
				i++
				break
			}
			special = special || sym.Decide(sym.Or(t[i] == '\\', sym.Or(t[i] == '\'', t[i] == '"')))
			comma = comma || sym.Decide(t[i] == ',')
			if sym.Decide(t[i] == '\\') {
				i++
				if i >= len(t) || !sym.Decide(sym.Or(t[i] == q, t[i] == '\\')) {
					return nil, 0, false, false
				}
			}
			k += t[i : i+1]
			i++
		}
		ks = append(ks, k)
		for i < len(t) && isSpace(t[i]) {
			i++
		}
		if i < len(t) && sym.Decide(t[i] == ',') {
			i++
			comma = true
			continue
		}
		if i < len(t) && sym.Decide(t[i] == ']') {
			return ks, i + 1, comma && special, true
		}
		return nil, 0, false, false
	}
}

// bad says that an unquoted wildcard, filter, subscript or recursive descent occurs in t.
func bad(t string) bool {
	i := 0
	for i < len(t) {
		c := t[i]
		i++
		switch {
		case sym.Decide(c == '*'):
			return true
		case sym.Decide(c == '.'):
			if i < len(t) && sym.Decide(t[i] == '.') {
				return true
			}
		case sym.Decide(c == '['):
			// quoted names, separated by commas
			for {
				for i < len(t) && isSpace(t[i]) {
					i++
				}
				if i >= len(t) || !sym.Decide(sym.Or(t[i] == '\'', t[i] == '"')) {
					return true
				}
				q := t[i]
				i++
				for i < len(t) && !sym.Decide(t[i] == q) {
					if sym.Decide(t[i] == '\\') {
						i++
					}
					i++
				}
				i++
				for i < len(t) && isSpace(t[i]) {
					i++
				}
				if i >= len(t) || !sym.Decide(t[i] == ',') {
					break
				}
				i++
			}
		}
	}
	return false
}

func distinct(ks []string) bool {
	r := true
	for i := range ks {
		for j := 0; j < i; j++ {
			r = sym.And(r, ks[i] != ks[j])
		}
	}
	return r
}

// checkPath is the whole property for one text.
func checkPath(text string) {
	n := build(text)
	want, odd, ok := grammar(text)
	sym.ObserveBool("accepted", n != nil)
	if n == nil {
		sym.Assert("C12", "path-accepted", !ok)
		sym.Reach("rejected")
		return
	}
	sym.Observe("built", gen.Show(n))
	sym.Assert("C12", "path-forbidden", !bad(text))
	keys, isChain := chain(n)
	sym.Assert("C12", "path-chain", isChain)
	if ok && !odd {
		same := len(keys) == len(want)
		for i := 0; same && i < len(keys); i++ {
			same = len(keys[i]) == len(want[i])
		}
		if same {
			for i := range keys {
				for j := range keys[i] {
					same = sym.And(same, keys[i][j] == want[i][j])
				}
			}
		}
		sym.Assert("C12", "path-keys", same)
	}
	if text == "" {
		return
	}
	p, err := yamlpath.NewPath(text)
	if err != nil {
		return // such a text never gets here: a query is parsed by the query library first
	}
	found, err := p.Find(n)
	leaves := 1
	uniq := true
	for _, l := range keys {
		leaves *= len(l)
		uniq = sym.And(uniq, distinct(l))
	}
	sym.Assert("C12", "path-found", sym.And(err == nil, len(found) > 0))
	sym.Assert("C12", "path-found-all", sym.Or(!uniq, len(found) == leaves))
	for _, f := range found {
		sym.Assert("C12", "path-leaf", sym.And(f.Kind == yaml.ScalarNode, len(f.Content) == 0))
	}
	sym.Reach("accepted")
}

// PathText gives every text up to a length to the path parser.
//
//verif:check C12
//verif:quick len=7
//verif:thorough len=8
//verif:opt weight=4
//verif:reach accepted rejected
func PathText() {
	n := sym.Choice(sym.Param("len", 4) + 1)
	checkPath(sym.Str(n, "ab.['\"]\\,*$ ?0~)"))
}

// PathSegments gives paths made of a few segments, with any text for names in them, to the path parser.
//
//verif:check C12
//verif:quick len=2 segs=2
//verif:thorough len=3 segs=2
//verif:opt weight=2
//verif:reach accepted rejected
func PathSegments() {
	text := []string{"", "$"}[sym.Choice(2)]
	l := sym.Param("len", 2)
	n := 1 + sym.Choice(sym.Param("segs", 2))
	for i := 0; i < n; i++ {
		s := sym.Str(1+sym.Choice(l), "a.'\"\\*,] ")
		switch sym.Choice(4) {
		case 0:
			text += "." + s
		case 1:
			text += "['" + s + "']"
		case 2:
			text += `["` + s + `"]`
		case 3:
			text += "[ '" + s + "' ]"
		}
	}
	checkPath(text)
}

// PathUnion gives paths with several quoted names in one bracket to the path parser.
//
//verif:check C12
//verif:quick len=3
//verif:thorough len=4
//verif:opt weight=2
//verif:reach accepted rejected
func PathUnion() {
	l := sym.Param("len", 2)
	s := sym.Str(1+sym.Choice(l), "a'\"\\,] ")
	t := sym.Str(1+sym.Choice(l), "b'\"\\,] ")
	text := "x"
	switch sym.Choice(3) {
	case 0:
		text += "['" + s + "','" + t + "']"
	case 1:
		text += `["` + s + `", '` + t + `']`
	case 2:
		text += "['" + s + "' ,\"" + t + "\"].z"
	}
	checkPath(text)
}
