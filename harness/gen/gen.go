// Package gen builds bounded symbolic YAML trees and compares trees without branching.
package gen

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// Letters is the alphabet of plain words.
const Letters = "abcdefghijklmnopqrstuvwxyz"

// Text is the alphabet of arbitrary text: everything printable but the percent sign of format markers.
const Text = " !\"#$&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// G describes the trees to generate.
type G struct {
	Kids     int    // most children of a map or sequence
	Keys     string // alphabet of one-byte keys
	Vals     string // alphabet of scalar text
	Len      int    // length of scalar text
	Comments bool   // every node may have comments
	CVals    string // alphabet of comment text
	Tags     bool   // scalars are of either of two types
}

// Kind draws a kind for a node with depth levels below it.
func Kind(depth int) yaml.Kind {
	if depth <= 0 {
		return yaml.ScalarNode
	}
	switch sym.Choice(3) {
	case 0:
		return yaml.ScalarNode
	case 1:
		return yaml.MappingNode
	}
	return yaml.SequenceNode
}

// Tree draws a tree of at most the given depth.
func (g *G) Tree(depth int) *yaml.Node { return g.Of(Kind(depth), depth) }

// Of draws a tree whose root has the given kind.
func (g *G) Of(k yaml.Kind, depth int) *yaml.Node {
	n := &yaml.Node{Kind: k}
	switch k {
	case yaml.MappingNode:
		n.Tag = "!!map"
		c := sym.Choice(g.Kids + 1)
		for i := 0; i < c; i++ {
			key := g.Scalar()
			key.Value = sym.Str(1, g.keys())
			key.Tag = "!!str"
			for j := 0; j < len(n.Content); j += 2 {
				sym.Assume(n.Content[j].Value != key.Value)
			}
			n.Content = append(n.Content, key, g.Tree(depth-1))
		}
	case yaml.SequenceNode:
		n.Tag = "!!seq"
		c := sym.Choice(g.Kids + 1)
		for i := 0; i < c; i++ {
			n.Content = append(n.Content, g.Tree(depth-1))
		}
	default:
		n = g.Scalar()
	}
	if g.Comments && k != yaml.ScalarNode {
		g.comment(n)
	}
	return n
}

func (g *G) keys() string {
	if g.Keys == "" {
		return Text
	}
	return g.Keys
}

func (g *G) vals() string {
	if g.Vals == "" {
		return Text
	}
	return g.Vals
}

// Scalar draws a scalar.
func (g *G) Scalar() *yaml.Node {
	l := g.Len
	if l == 0 {
		l = 1
	}
	n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: sym.Str(l, g.vals())}
	if g.Tags {
		t := sym.Str(3, "instrt")
		sym.Assume(sym.Or(t == "str", t == "int"))
		n.Tag = "!!" + t
	}
	if g.Comments {
		g.comment(n)
	}
	return n
}

func (g *G) comment(n *yaml.Node) {
	a := g.CVals
	if a == "" {
		a = Text
	}
	c := sym.Choice(8)
	if c&1 != 0 {
		n.HeadComment = "#" + sym.Str(1, a)
	}
	if c&2 != 0 {
		n.LineComment = "#" + sym.Str(1, a)
	}
	if c&4 != 0 {
		n.FootComment = "#" + sym.Str(1, a)
	}
}

// Doc wraps a tree into a document node and gives every node a position, as if it had been read.
func Doc(n *yaml.Node) *yaml.Node {
	d := &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{n}}
	for i, x := range Nodes(d) {
		x.Line, x.Column = 1+i/2, 1+i%2*4
	}
	return d
}

// S is a string scalar.
func S(v string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: v} }

// T is a scalar of a given type.
func T(tag, v string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: v} }

// M is a mapping of the given keys and values in turn.
func M(kv ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: kv}
}

// Q is a sequence.
func Q(items ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: items}
}

// Clone copies a tree; nothing is shared with the original.
func Clone(n *yaml.Node) *yaml.Node {
	if n == nil {
		return nil
	}
	c := &yaml.Node{
		Kind: n.Kind, Style: n.Style, Tag: n.Tag, Value: n.Value, Anchor: n.Anchor,
		HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment,
		Line: n.Line, Column: n.Column,
	}
	c.Alias = n.Alias
	for _, x := range n.Content {
		c.Content = append(c.Content, Clone(x))
	}
	return c
}

// EqComments compares the comments of two nodes.
func EqComments(a, b *yaml.Node) bool {
	r := a.HeadComment == b.HeadComment
	r = sym.And(r, a.LineComment == b.LineComment)
	return sym.And(r, a.FootComment == b.FootComment)
}

// EqNode compares everything but content and comments.
func EqNode(a, b *yaml.Node) bool {
	if a.Kind != b.Kind {
		return false
	}
	r := a.Tag == b.Tag
	r = sym.And(r, a.Value == b.Value)
	return sym.And(r, a.Anchor == b.Anchor)
}

// Eq compares two trees in kind, type, text and structure.
func Eq(a, b *yaml.Node) bool { return eq(a, b, false, false) }

// EqC is Eq that also compares comments.
func EqC(a, b *yaml.Node) bool { return eq(a, b, true, false) }

// EqAll compares every field, position and style included.
func EqAll(a, b *yaml.Node) bool { return eq(a, b, true, true) }

func eq(a, b *yaml.Node, comments, all bool) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Kind != b.Kind || len(a.Content) != len(b.Content) || a.Alias != b.Alias {
		return false
	}
	r := EqNode(a, b)
	if comments {
		r = sym.And(r, EqComments(a, b))
	}
	if all {
		r = sym.And(r, a.Style == b.Style)
		r = sym.And(r, a.Line == b.Line)
		r = sym.And(r, a.Column == b.Column)
	}
	for i := range a.Content {
		r = sym.And(r, eq(a.Content[i], b.Content[i], comments, all))
	}
	return r
}

// Nodes lists the nodes of a tree, parents first.
func Nodes(n *yaml.Node) []*yaml.Node {
	if n == nil {
		return nil
	}
	out := []*yaml.Node{n}
	for _, c := range n.Content {
		out = append(out, Nodes(c)...)
	}
	return out
}

// Disjoint says that two trees share no node.
func Disjoint(a, b *yaml.Node) bool {
	for _, x := range Nodes(a) {
		for _, y := range Nodes(b) {
			if x == y {
				return false
			}
		}
	}
	return true
}

// Unique says that no node occurs twice in the trees.
func Unique(ts ...*yaml.Node) bool {
	var all []*yaml.Node
	for _, t := range ts {
		all = append(all, Nodes(t)...)
	}
	for i := range all {
		for j := 0; j < i; j++ {
			if all[i] == all[j] {
				return false
			}
		}
	}
	return true
}

// Show writes a tree out.
func Show(n *yaml.Node) string {
	if n == nil {
		return "nil"
	}
	s := ""
	switch n.Kind {
	case yaml.DocumentNode:
		s = "doc("
	case yaml.MappingNode:
		s = "map("
	case yaml.SequenceNode:
		s = "seq("
	case yaml.ScalarNode:
		s = "sc(" + n.Tag + " " + n.Value
	case yaml.AliasNode:
		return "alias(" + n.Value + ")"
	default:
		s = "none("
	}
	if n.Anchor != "" {
		s += "&" + n.Anchor
	}
	if n.HeadComment != "" {
		s += " H" + n.HeadComment
	}
	if n.LineComment != "" {
		s += " L" + n.LineComment
	}
	if n.FootComment != "" {
		s += " F" + n.FootComment
	}
	for _, c := range n.Content {
		s += "," + Show(c)
	}
	return s + ")"
}

// Find returns the index of key in a map, -1 when absent (the key must be decidable).
func Find(m *yaml.Node, key string) int {
	for i := 0; i+1 < len(m.Content); i += 2 {
		if m.Content[i].Value == key {
			return i
		}
	}
	return -1
}

// A is an alias of an anchored node.
func A(target *yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.AliasNode, Value: target.Anchor, Alias: target}
}

// Anchored gives a node an anchor.
func Anchored(name string, n *yaml.Node) *yaml.Node {
	n.Anchor = name
	return n
}

// Expand is a copy of a tree in which what an alias stands for takes its place; no anchors are left.
func Expand(n *yaml.Node) *yaml.Node {
	for i := 0; n.Kind == yaml.AliasNode && i < 20; i++ {
		n = n.Alias
	}
	c := &yaml.Node{Kind: n.Kind, Style: n.Style, Tag: n.Tag, Value: n.Value}
	for _, x := range n.Content {
		c.Content = append(c.Content, Expand(x))
	}
	return c
}

type anchors struct {
	names []string
	nodes []*yaml.Node
}

// Link makes every alias of a document refer to the last node before it that has its name, as reading its text does;
// false when there is none.
func Link(doc *yaml.Node) bool {
	var as anchors
	return as.link(doc)
}

func (as *anchors) link(n *yaml.Node) bool {
	if n.Kind == yaml.AliasNode {
		for i := len(as.names) - 1; i >= 0; i-- {
			if as.names[i] == n.Value {
				n.Alias = as.nodes[i]
				return true
			}
		}
		return false
	}
	if n.Anchor != "" {
		as.names = append(as.names, n.Anchor)
		as.nodes = append(as.nodes, n)
	}
	for _, c := range n.Content {
		if !as.link(c) {
			return false
		}
	}
	return true
}
