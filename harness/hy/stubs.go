package hy

import (
	"bytes"
	"errors"
	"io"
	"runtime"

	"gopkg.in/yaml.v3"
)

// The scanner, the parser and the emitter are executed from their source; only the reflection around them is replaced.

var errYAML = errors.New("yaml: cannot be read or written")

func caught(err *error) {
	if r := recover(); r != nil {
		switch r.(type) {
		case runtime.Error, string:
			panic(r)
		}
		*err = errYAML
	}
}

// parseNext is d.parser.parse().
func parseNext(d *yaml.Decoder) *yaml.Node { panic("symbolic only") }

// emitNode is e.encoder.init() and e.encoder.node(n, "").
func emitNode(e *yaml.Encoder, n *yaml.Node) { panic("symbolic only") }

// decodeNode decodes a tree into a Go value; the engine does this itself.
func decodeNode(n *yaml.Node, v interface{}) error { return n.Decode(v) }

//verif:stub yamltext (*gopkg.in/yaml.v3.Decoder).Decode
func decode(d *yaml.Decoder, v interface{}) (err error) {
	defer caught(&err)
	n := parseNext(d)
	if n == nil {
		return io.EOF
	}
	if out, ok := v.(*yaml.Node); ok {
		*out = *n
		return nil
	}
	return decodeNode(n, v)
}

//verif:stub yamltext gopkg.in/yaml.v3.Unmarshal
func unmarshal(b []byte, v interface{}) error {
	err := decode(yaml.NewDecoder(bytes.NewReader(b)), v)
	if err == io.EOF {
		return nil
	}
	return err
}

//verif:stub yamltext (*gopkg.in/yaml.v3.Encoder).Encode
func encode(e *yaml.Encoder, v interface{}) (err error) {
	n, ok := v.(*yaml.Node)
	if !ok {
		panic("hy: writing something else than a node")
	}
	defer caught(&err)
	if n.Kind != yaml.DocumentNode {
		n = &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{n}}
	}
	emitNode(e, n)
	return nil
}

//verif:stub yamltext gopkg.in/yaml.v3.Marshal
func marshal(v interface{}) ([]byte, error) {
	var b bytes.Buffer
	e := yaml.NewEncoder(&b)
	if err := encode(e, v); err != nil {
		return nil, err
	}
	err := e.Close()
	return b.Bytes(), err
}
