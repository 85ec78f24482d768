package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Value is a run-time value of the interpreted program:
//
//	bool | *Term (w 0)            booleans
//	uint64 | *Term                integers (masked to their width)
//	float64                       floats
//	string | *SymStr              strings (length always concrete)
//	*Value | *SymAddr             pointers
//	Struct, Array, Slice, Tuple   aggregates
//	Iface, *Closure, *MapObj, *Chan
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *Fn
	env []Value
}

// SymStr is a string with at least one symbolic byte.
type SymStr struct{ b []*Term }

// SymAddr is the address of an element at a symbolic index.
type SymAddr struct {
	elems []Value
	idx   *Term
	w     int // element width (-1: not a scalar)
}

// UPtr is an unsafe.Pointer.
type UPtr struct{ v Value }

// Poison stands for a value that could not be computed while a package was initialised.
type Poison struct{ why string }

// FloatU is a floating-point number that is not known.
type FloatU struct{}

// HostObj is a value owned by an intrinsic.
type HostObj struct {
	kind string
	v    any
}

type mapEntry struct {
	k    Value
	v    Value
	dead bool
}

type MapObj struct {
	ents []*mapEntry
	idx  map[any]*mapEntry
	nsym int
	n    int
	base bool
	cell Value // identity for the race detector
}

func newMap() *MapObj { return &MapObj{idx: map[any]*mapEntry{}} }

func (m *MapObj) clone() *MapObj {
	c := &MapObj{idx: map[any]*mapEntry{}, nsym: m.nsym, n: m.n, base: m.base}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		ne := &mapEntry{k: e.k, v: e.v}
		c.ents = append(c.ents, ne)
		if hk, ok := hostKey(e.k); ok {
			c.idx[hk] = ne
		}
	}
	return c
}

type ikey struct {
	t types.Type
	k any
}

// hostKey maps a concrete comparable value to a comparable host value.
func hostKey(v Value) (any, bool) {
	switch v := v.(type) {
	case string, uint64, bool, float64, *Value, *Chan, *Closure:
		return v, true
	case *MapObj:
		return v, true
	case *HostObj:
		return v, true
	case Iface:
		if v.t == nil {
			return ikey{}, true
		}
		k, ok := hostKey(v.v)
		return ikey{canon(v.t), k}, ok
	case Struct:
		var sb strings.Builder
		sb.WriteString("S")
		for _, f := range v {
			k, ok := hostKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "|%T:%v", k, k)
		}
		return sb.String() + "\x00struct", true
	case Array:
		var sb strings.Builder
		sb.WriteString("A")
		for _, f := range v {
			k, ok := hostKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "|%T:%v", k, k)
		}
		return sb.String() + "\x00array", true
	}
	return nil, false
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return UPtr{}
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Kind() == types.Invalid:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(unsupported(fmt.Sprintf("zero value of %v (%T)", t, t.Underlying())))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

func newCell(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

// ---- path termination ----

type endKind int

const (
	endDone endKind = iota
	endAssume
	endViolation
	endUnsupported
	endBudget
	endAborted
)

// pathEnd is the host panic that ends a path.
type pathEnd struct {
	kind endKind
	why  string
}

func unsupported(why string) pathEnd { return pathEnd{endUnsupported, why} }

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v     Value
	where string
}

func (g *goPanic) String() string {
	switch v := g.v.(type) {
	case Iface:
		switch x := v.v.(type) {
		case string:
			return x
		default:
			return fmt.Sprintf("%v(%v)", v.t, x)
		}
	}
	return fmt.Sprint(g.v)
}

// ---- strings ----

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(unsupported(fmt.Sprintf("string value is %T %v", v, v)))
}

func (x *Ctx) strTerms(v Value) []*Term {
	switch v := v.(type) {
	case string:
		ts := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			ts[i] = x.small[v[i]]
		}
		return ts
	case *SymStr:
		return v.b
	}
	panic(unsupported(fmt.Sprintf("string value is %T %v", v, v)))
}

func mkStr(ts []*Term) Value {
	for _, t := range ts {
		if t.op != OpConst {
			return &SymStr{ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.k)
	}
	return string(b)
}

func (x *Ctx) strCat(a, b Value) Value {
	if sa, ok := a.(string); ok {
		if sa == "" {
			return b
		}
		if sb, ok := b.(string); ok {
			return sa + sb
		}
	}
	if sb, ok := b.(string); ok && sb == "" {
		return a
	}
	ta, tb := x.strTerms(a), x.strTerms(b)
	ts := make([]*Term, 0, len(ta)+len(tb))
	ts = append(ts, ta...)
	ts = append(ts, tb...)
	return mkStr(ts)
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi])
	}
	panic(unsupported("strSlice"))
}

func (x *Ctx) strEq(a, b Value) *Term {
	if sa, ok := a.(string); ok {
		if sb, ok := b.(string); ok {
			return x.Bool(sa == sb)
		}
	}
	if strLen(a) != strLen(b) {
		return x.False
	}
	ta, tb := x.strTerms(a), x.strTerms(b)
	r := x.True
	// constant mismatches first
	for i := range ta {
		if ta[i].isC() && tb[i].isC() && ta[i].k != tb[i].k {
			return x.False
		}
	}
	for i := range ta {
		r = x.And(r, x.Eq(ta[i], tb[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess builds a < b.
func (x *Ctx) strLess(a, b Value) *Term {
	ta, tb := x.strTerms(a), x.strTerms(b)
	n := len(ta)
	if len(tb) < n {
		n = len(tb)
	}
	r := x.Bool(len(ta) < len(tb))
	for i := n - 1; i >= 0; i-- {
		r = x.Or(x.Bin(OpULt, ta[i], tb[i]), x.And(x.Eq(ta[i], tb[i]), r))
	}
	return r
}

func norm(t *Term) Value {
	if t.op == OpConst {
		if t.w == 0 {
			return t.k == 1
		}
		return t.k
	}
	return t
}

func (x *Ctx) term(v Value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return x.BV(v, w)
	case bool:
		return x.Bool(v)
	}
	panic(unsupported(fmt.Sprintf("no term for %T %v", v, v)))
}
