// Package ref is the reference model: what each operation must do, written independently of the code.
package ref

import (
	"strings"

	"github.com/rwtodd/Go.Sed/sed"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// Merge is what o must be after n was merged into it (no markers). Comments of o are kept.
func Merge(o, n *yaml.Node) *yaml.Node {
	switch n.Kind {
	case yaml.DocumentNode:
		r := gen.Clone(o)
		if len(o.Content) > 0 && len(n.Content) > 0 {
			r.Content[0] = Merge(o.Content[0], n.Content[0])
		}
		return r
	case yaml.MappingNode:
		if o.Kind != yaml.MappingNode {
			r := gen.Clone(n)
			r.Tag = "!!map"
			keepComments(r, o)
			return r
		}
		r := gen.Clone(o)
		for i := 0; i+1 < len(n.Content); i += 2 {
			if j := gen.Find(o, n.Content[i].Value); j >= 0 {
				r.Content[j+1] = Merge(o.Content[j+1], n.Content[i+1])
			} else {
				r.Content = append(r.Content, gen.Clone(n.Content[i]), gen.Clone(n.Content[i+1]))
			}
		}
		return r
	case yaml.SequenceNode:
		r := gen.Clone(n)
		r.Tag = "!!seq"
		r.Value = ""
		if o.Kind == yaml.SequenceNode {
			r = gen.Clone(o)
			for _, c := range n.Content {
				r.Content = append(r.Content, gen.Clone(c))
			}
			return r
		}
		keepComments(r, o)
		return r
	}
	r := gen.Clone(n)
	keepComments(r, o)
	return r
}

func keepComments(r, o *yaml.Node) {
	r.HeadComment, r.LineComment, r.FootComment = o.HeadComment, o.LineComment, o.FootComment
}

// Override gives r the comments that n has.
func Override(r, n *yaml.Node) {
	if n.HeadComment != "" {
		r.HeadComment = n.HeadComment
	}
	if n.LineComment != "" {
		r.LineComment = n.LineComment
	}
	if n.FootComment != "" {
		r.FootComment = n.FootComment
	}
}

// MergeComments applies the overlay's comments to w = Merge(o, n).
func MergeComments(w, o, n *yaml.Node) {
	Override(w, n)
	if n.Kind == yaml.DocumentNode && len(o.Content) > 0 && len(n.Content) > 0 {
		MergeComments(w.Content[0], o.Content[0], n.Content[0])
	}
	if n.Kind == yaml.MappingNode && o.Kind == yaml.MappingNode {
		for i := 0; i+1 < len(n.Content); i += 2 {
			if j := gen.Find(o, n.Content[i].Value); j >= 0 {
				Override(w.Content[j], n.Content[i])
				MergeComments(w.Content[j+1], o.Content[j+1], n.Content[i+1])
			}
		}
	}
}

// Remove returns the tree without the given nodes: a map entry goes when its key or its value does.
func Remove(n *yaml.Node, gone []*yaml.Node) *yaml.Node {
	has := func(x *yaml.Node) bool {
		for _, g := range gone {
			if g == x {
				return true
			}
		}
		return false
	}
	c := gen.Clone(n)
	c.Content = nil
	if n.Kind == yaml.MappingNode {
		for i := 0; i+1 < len(n.Content); i += 2 {
			if has(n.Content[i]) || has(n.Content[i+1]) {
				continue
			}
			c.Content = append(c.Content, gen.Clone(n.Content[i]), Remove(n.Content[i+1], gone))
		}
		return c
	}
	for _, x := range n.Content {
		if !has(x) {
			c.Content = append(c.Content, Remove(x, gone))
		}
	}
	return c
}

// Orig is the original text the markers name.
type Orig struct{ Value, Line, Head, Foot, Key string }

// OrigOf takes value and comments from a node.
func OrigOf(n *yaml.Node, key string) Orig {
	return Orig{n.Value, bare(n.LineComment), bare(n.HeadComment), bare(n.FootComment), key}
}

func bare(s string) string {
	if len(s) > 0 && sym.Decide(s[0] == '#') {
		return s[1:]
	}
	return s
}

// Format substitutes the markers in s by original text, from left to right, and never looks at what it inserted.
func Format(s string, o Orig) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if i+1 < len(s) && sym.Decide(s[i] == '%') {
			c := s[i+1]
			i++
			text := ""
			switch {
			case sym.Decide(c == 'v'):
				text = o.Value
			case sym.Decide(c == 'l'):
				text = o.Line
			case sym.Decide(c == 'h'):
				text = o.Head
			case sym.Decide(c == 'f'):
				text = o.Foot
			case sym.Decide(c == 'k'):
				text = o.Key
			default:
				out += "%"
				i--
				continue
			}
			if end := braces(s, i+1); end > 0 {
				text = Sed(s[i+2:end], text)
				i = end
			}
			out += text
			continue
		}
		out += s[i : i+1]
	}
	return out
}

// braces finds the end of the braces that open at i, 0 when there are none.
func braces(s string, i int) int {
	if i >= len(s) || !sym.Decide(s[i] == '{') {
		return 0
	}
	for j := i + 1; j < len(s); j++ {
		if sym.Decide(s[j] == '}') {
			return j
		}
		if sym.Decide(s[j] == '\n') {
			return 0
		}
	}
	return 0
}

// Sed is what a sed command makes of a text; a command that is not understood makes nothing of it. Sed ends every line,
// the text need not.
func Sed(command, text string) string {
	if command == "" {
		return text
	}
	e, err := sed.New(strings.NewReader(command))
	if err != nil {
		return text
	}
	out, err := e.RunString(text)
	if err != nil {
		return text
	}
	ended := len(text) > 0 && sym.Decide(text[len(text)-1] == '\n')
	if !ended && len(out) > 0 && sym.Decide(out[len(out)-1] == '\n') {
		out = out[:len(out)-1]
	}
	return out
}

// Marked says whether s holds a marker.
func Marked(s string) bool {
	r := false
	for i := 0; i+1 < len(s); i++ {
		c := s[i+1]
		m := sym.Or(sym.Or(c == 'v', c == 'l'), sym.Or(c == 'h', sym.Or(c == 'f', c == 'k')))
		r = sym.Or(r, sym.And(s[i] == '%', m))
	}
	return r
}

// FormatComments gives r the comments n injects over those of o.
func FormatComments(r, n *yaml.Node, o Orig) {
	if n.HeadComment != "" {
		r.HeadComment = Format(n.HeadComment, o)
	}
	if n.LineComment != "" {
		r.LineComment = Format(n.LineComment, o)
	}
	if n.FootComment != "" {
		r.FootComment = Format(n.FootComment, o)
	}
}

// FormatNew is a copy of n as it is added where there is no original.
func FormatNew(n *yaml.Node) *yaml.Node {
	r := gen.Clone(n)
	for _, x := range gen.Nodes(r) {
		x.Value = Format(x.Value, Orig{})
		FormatComments(x, gen.Clone(x), Orig{})
	}
	return r
}
