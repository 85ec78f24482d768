// Command cmd natively executes harnesses on concrete values read from standard input.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
)

type request struct {
	N       int            `json:"n"`
	Harness string         `json:"harness"`
	Prop    string         `json:"prop"`
	Values  []interface{}  `json:"values"`
	Params  map[string]int `json:"params"`
	Stress  int            `json:"stress"`
}

type response struct {
	N      int        `json:"n"`
	Obs    []string   `json:"obs"`
	Fails  []sym.Fail `json:"fails"`
	Panic  string     `json:"panic,omitempty"`
	Assume bool       `json:"assume,omitempty"`
	Desync string     `json:"desync,omitempty"`
	Hang   bool       `json:"hang,omitempty"`
}

func run(r request) (out response) {
	out.N = r.N
	sym.Cur = &sym.Run{Harness: r.Harness, Values: r.Values, Prop: r.Prop, Params: r.Params, Stress: r.Stress}
	defer func() {
		out.Obs, out.Fails = sym.Cur.Obs, sym.Cur.Fails
		switch p := recover().(type) {
		case nil:
		case sym.AssumeFailed:
			out.Assume = true
		case sym.Desync:
			out.Desync = p.Why
		default:
			out.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	f := table[r.Harness]
	if f == nil {
		out.Desync = "no harness " + r.Harness
		return out
	}
	f()
	return out
}

func main() {
	results := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(results)
	for {
		var r request
		if err := dec.Decode(&r); err != nil {
			return
		}
		done := make(chan response, 1)
		go func() { done <- run(r) }()
		select {
		case o := <-done:
			_ = enc.Encode(o)
		case <-time.After(20 * time.Second):
			_ = enc.Encode(response{N: r.N, Hang: true})
			os.Exit(3)
		}
	}
}
