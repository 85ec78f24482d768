// Package sym holds the functions a harness uses to draw symbolic inputs and to state assertions.
// The symbolic engine replaces every one of them; the bodies below are the native replay versions,
// which read the concrete values of one execution.
package sym

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
)

// Fail is an assertion that did not hold.
type Fail struct {
	Prop string `json:"prop"`
	ID   string `json:"id"`
}

// AssumeFailed is panicked by Assume natively.
type AssumeFailed struct{}

// Desync is panicked when the recorded values do not fit the harness.
type Desync struct{ Why string }

// Run is the state of one native execution.
type Run struct {
	Harness string
	Values  []interface{}
	Prop    string
	Params  map[string]int
	Stress  int
	Obs     []string
	Fails   []Fail
	Reached map[string]bool
	pos     int
}

// Cur is the current native execution.
var Cur = &Run{}

func next(kind string) interface{} {
	if Cur.pos >= len(Cur.Values) {
		panic(Desync{"out of values for " + kind})
	}
	v := Cur.Values[Cur.pos]
	Cur.pos++
	return v
}

// Bool draws an arbitrary boolean.
func Bool() bool {
	b, ok := next("bool").(bool)
	if !ok {
		panic(Desync{"bool"})
	}
	return b
}

func nextInt() int {
	switch v := next("int").(type) {
	case float64:
		return int(v)
	case int64:
		return int(v)
	case string:
		var n int64
		if _, err := fmt.Sscan(v, &n); err == nil {
			return int(n)
		}
	}
	panic(Desync{"int"})
}

// Byte draws an arbitrary byte.
func Byte() byte { return byte(nextInt()) }

// Int draws an integer in [lo,hi].
func Int(lo, hi int) int { return nextInt() }

// Choice explores every integer in [0,n).
func Choice(n int) int { return nextInt() }

// Str draws a string of n bytes out of an alphabet ("" is printable ASCII).
func Str(n int, alphabet string) string {
	s, ok := next("str").(string)
	if !ok || !strings.HasPrefix(s, "x") {
		panic(Desync{"str"})
	}
	b, err := hex.DecodeString(s[1:])
	if err != nil || len(b) != n {
		panic(Desync{"str length"})
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states that c holds; prop names the property it belongs to.
func Assert(prop, id string, c bool) {
	if prop != Cur.Prop && Cur.Prop != "" {
		return
	}
	if !c {
		Cur.Fails = append(Cur.Fails, Fail{prop, id})
	}
}

// Reach marks a point that at least one execution must reach.
func Reach(label string) {
	if Cur.Reached == nil {
		Cur.Reached = map[string]bool{}
	}
	Cur.Reached[label] = true
}

// Observe records an output that native and symbolic execution must agree on.
func Observe(label, v string) { Cur.Obs = append(Cur.Obs, label+"="+v) }

// ObserveBool is Observe for booleans.
func ObserveBool(label string, v bool) { Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%v", label, v)) }

// ObserveInt is Observe for integers.
func ObserveInt(label string, v int) { Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%d", label, v)) }

// And is a && b without branching.
func And(a, b bool) bool { return a && b }

// Or is a || b without branching.
func Or(a, b bool) bool { return a || b }

// Implies is !a || b without branching.
func Implies(a, b bool) bool { return !a || b }

// Iff is a == b without branching.
func Iff(a, b bool) bool { return a == b }

// Param is a bound that the check's tier sets.
func Param(name string, def int) int {
	if v, ok := Cur.Params[name]; ok {
		return v
	}
	return def
}

// Symbolic reports whether the symbolic engine is running the harness.
func Symbolic() bool { return false }

// Yield is a point where another goroutine may run.
func Yield() {
	runtime.Gosched()
	if Cur.Stress > 0 {
		time.Sleep(time.Duration(Cur.Stress) * time.Microsecond)
	}
}

// Decide makes a condition concrete (the engine explores both outcomes).
func Decide(c bool) bool { return c }

// Concrete makes a string concrete (the engine explores every value).
func Concrete(s string) string { return s }

// Scratch is the directory native executions may write below.
func Scratch() string {
	if Symbolic() {
		return "/zz"
	}
	d := os.Getenv("ZZ_SCRATCH")
	if d == "" {
		panic(Desync{"no scratch directory"})
	}
	return d
}
