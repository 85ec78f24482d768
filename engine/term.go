package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms of the solver language: Bool (w==0) and bit-vectors of width 1..64.
// They are hash-consed per worker, so pointer equality is structural equality.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpZExt
	OpSExt
	OpTrunc // extract low w bits
)

type Term struct {
	op      Op
	w       uint8
	id      uint32
	a, b, c *Term
	k       uint64
	name    string
	vars    []*Term // variables, sorted by id
	evGen   uint64
	evVal   uint64
	prGen   uint64
	prCnt   int32
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
	name    string
}

type Ctx struct {
	tab   map[termKey]*Term
	next  uint32
	gen   uint64
	True  *Term
	False *Term
	small [257]*Term // 8-bit constants
}

func NewCtx() *Ctx {
	c := &Ctx{}
	c.reset()
	return c
}

func (x *Ctx) reset() {
	x.tab = make(map[termKey]*Term, 1<<14)
	x.next = 1
	x.True = x.mk(OpConst, 0, nil, nil, nil, 1, "")
	x.False = x.mk(OpConst, 0, nil, nil, nil, 0, "")
	for i := 0; i < 256; i++ {
		x.small[i] = x.mk(OpConst, 8, nil, nil, nil, uint64(i), "")
	}
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks keep sharing
	i, j := 0, 0
	var out []*Term
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			i++
			j++
		case a[i].id < b[j].id:
			i++
		default:
			goto merge
		}
	}
	if j == len(b) {
		return a
	}
merge:
	i, j = 0, 0
	out = make([]*Term, 0, len(a)+len(b))
	for i < len(a) || j < len(b) {
		switch {
		case i >= len(a):
			out = append(out, b[j])
			j++
		case j >= len(b):
			out = append(out, a[i])
			i++
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	return out
}

func (x *Ctx) mk(op Op, w uint8, a, b, c *Term, k uint64, name string) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k, name}
	if t, ok := x.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: x.next, a: a, b: b, c: c, k: k, name: name}
	x.next++
	switch op {
	case OpConst:
	case OpVar:
		t.vars = []*Term{t}
	default:
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if c != nil {
			t.vars = mergeVars(t.vars, c.vars)
		}
	}
	x.tab[key] = t
	return t
}

func maskw(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (x *Ctx) Bool(b bool) *Term {
	if b {
		return x.True
	}
	return x.False
}

func (x *Ctx) BV(v uint64, w uint8) *Term {
	v &= maskw(w)
	if w == 8 {
		return x.small[v]
	}
	return x.mk(OpConst, w, nil, nil, nil, v, "")
}

func (x *Ctx) Var(name string, w uint8) *Term {
	return x.mk(OpVar, w, nil, nil, nil, 0, name)
}

func (t *Term) isC() bool     { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.k == 0 }

func (x *Ctx) Not(a *Term) *Term {
	if a.isC() {
		return x.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return x.mk(OpNot, 0, a, nil, nil, 0, "")
}

func (x *Ctx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return x.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return x.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OpAnd, 0, a, b, nil, 0, "")
}

func (x *Ctx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return x.True
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return x.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OpOr, 0, a, b, nil, 0, "")
}

func (x *Ctx) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return x.Or(c, b)
		}
		if a.isFalse() {
			return x.And(x.Not(c), b)
		}
		if b.isTrue() {
			return x.Or(x.Not(c), a)
		}
		if b.isFalse() {
			return x.And(c, a)
		}
	}
	if c.op == OpNot {
		return x.mk(OpIte, a.w, c.a, b, a, 0, "")
	}
	return x.mk(OpIte, a.w, c, a, b, 0, "")
}

func (x *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return x.True
	}
	if a.isC() && b.isC() {
		return x.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return x.Not(a)
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w > 0 && (isLin(a) || isLin(b)) {
		if t := x.linEq(a, b); t != nil {
			return t
		}
	}
	if b.isC() {
		switch a.op {
		case OpZExt:
			if b.k > maskw(a.a.w) {
				return x.False
			}
			return x.Eq(a.a, x.BV(b.k, a.a.w))
		case OpSExt:
			if uint64(sext(b.k, a.a.w))&maskw(a.w) != b.k {
				return x.False
			}
			return x.Eq(a.a, x.BV(b.k, a.a.w))
		case OpIte:
			if a.b.isC() || a.c.isC() {
				return x.Ite(a.a, x.Eq(a.b, b), x.Eq(a.c, b))
			}
		case OpAdd:
			if a.b.isC() {
				return x.Eq(a.a, x.BV(b.k-a.b.k, a.w))
			}
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return x.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(OpEq, 0, a, b, nil, 0, "")
}

func foldBin(op Op, w uint8, a, b uint64) (uint64, bool) {
	m := maskw(w)
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		if b == 0 {
			return 0, false
		}
		sa, sb := sext(a, w), sext(b, w)
		if sb == -1 {
			return uint64(-sa) & m, true
		}
		return uint64(sa/sb) & m, true
	case OpSRem:
		if b == 0 {
			return 0, false
		}
		sa, sb := sext(a, w), sext(b, w)
		if sb == -1 {
			return 0, true
		}
		return uint64(sa%sb) & m, true
	case OpBAnd:
		return a & b, true
	case OpBOr:
		return a | b, true
	case OpBXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OpLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m, true
	case OpULt:
		return b2u(a < b), true
	case OpULe:
		return b2u(a <= b), true
	case OpSLt:
		return b2u(sext(a, w) < sext(b, w)), true
	case OpSLe:
		return b2u(sext(a, w) <= sext(b, w)), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isCmp(op Op) bool { return op >= OpULt && op <= OpSLe }

// Bin builds a binary bit-vector operation (or comparison).
func (x *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	rw := w
	if isCmp(op) {
		rw = 0
	}
	if a.isC() && b.isC() {
		if v, ok := foldBin(op, w, a.k, b.k); ok {
			if rw == 0 {
				return x.Bool(v != 0)
			}
			return x.BV(v, w)
		}
	}
	if op == OpAdd || op == OpSub || op == OpMul && (a.isC() || b.isC()) {
		if t := x.linear(op, a, b); t != nil {
			return t
		}
	}
	switch op {
	case OpMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OpUDiv, OpSDiv:
		if b.isC() && b.k == 1 {
			return a
		}
	case OpBAnd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == maskw(w) {
				return a
			}
			if a.op == OpZExt && b.k >= maskw(a.a.w) && (b.k&maskw(a.a.w)) == maskw(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.k == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OpBXor:
		if b.isC() && b.k == 0 {
			return a
		}
		if a == b {
			return x.BV(0, w)
		}
	case OpShl, OpLShr, OpAShr:
		if b.isC() && b.k == 0 {
			return a
		}
	case OpULt, OpULe, OpSLt, OpSLe:
		if a == b {
			return x.Bool(op == OpULe || op == OpSLe)
		}
		// comparisons of zero-extended values against constants
		if a.op == OpZExt && b.isC() {
			m := maskw(a.a.w)
			if (op == OpSLt || op == OpSLe) && sext(b.k, w) < 0 {
				return x.False
			}
			if b.k > m {
				return x.True
			}
			if op == OpULt || op == OpSLt {
				return x.Bin(OpULt, a.a, x.BV(b.k, a.a.w))
			}
			return x.Bin(OpULe, a.a, x.BV(b.k, a.a.w))
		}
		if b.op == OpZExt && a.isC() {
			m := maskw(b.a.w)
			if (op == OpSLt || op == OpSLe) && sext(a.k, w) < 0 {
				return x.True
			}
			if a.k > m {
				return x.False
			}
			if op == OpULt || op == OpSLt {
				return x.Bin(OpULt, x.BV(a.k, b.a.w), b.a)
			}
			return x.Bin(OpULe, x.BV(a.k, b.a.w), b.a)
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			if op == OpULt || op == OpSLt {
				return x.Bin(OpULt, a.a, b.a)
			}
			return x.Bin(OpULe, a.a, b.a)
		}
		if op == OpULt && b.isC() && b.k == 0 {
			return x.False
		}
		if op == OpULe && a.isC() && a.k == 0 {
			return x.True
		}
		if op == OpULe && b.isC() && b.k == maskw(w) {
			return x.True
		}
	}
	return x.mk(op, rw, a, b, nil, 0, "")
}

func (x *Ctx) BNot(a *Term) *Term {
	if a.isC() {
		return x.BV(^a.k, a.w)
	}
	if a.op == OpBNot {
		return a.a
	}
	return x.mk(OpBNot, a.w, a, nil, nil, 0, "")
}

func (x *Ctx) Conv(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.isC():
		if w > a.w && signed {
			return x.BV(uint64(sext(a.k, a.w)), w)
		}
		return x.BV(a.k, w)
	case w < a.w:
		switch a.op {
		case OpZExt, OpSExt:
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return x.Conv(a.a, w, false)
			}
			return x.Conv(a.a, w, a.op == OpSExt)
		}
		return x.mk(OpTrunc, w, a, nil, nil, 0, "")
	case signed:
		if a.op == OpZExt {
			return x.mk(OpZExt, w, a.a, nil, nil, 0, "")
		}
		return x.mk(OpSExt, w, a, nil, nil, 0, "")
	default:
		if a.op == OpZExt {
			return x.mk(OpZExt, w, a.a, nil, nil, 0, "")
		}
		return x.mk(OpZExt, w, a, nil, nil, 0, "")
	}
}

// Model assigns values to variables by name; missing variables are 0.
type Model map[string]uint64

func (x *Ctx) Eval(t *Term, m Model) uint64 {
	x.gen++
	return x.eval(t, m)
}

func (x *Ctx) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return m[t.name] & maskw(t.w)
	}
	if t.evGen == x.gen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OpNot:
		v = 1 - x.eval(t.a, m)
	case OpAnd:
		v = x.eval(t.a, m)
		if v != 0 {
			v = x.eval(t.b, m)
		}
	case OpOr:
		v = x.eval(t.a, m)
		if v == 0 {
			v = x.eval(t.b, m)
		}
	case OpIte:
		if x.eval(t.a, m) != 0 {
			v = x.eval(t.b, m)
		} else {
			v = x.eval(t.c, m)
		}
	case OpEq:
		v = b2u(x.eval(t.a, m) == x.eval(t.b, m))
	case OpBNot:
		v = ^x.eval(t.a, m) & maskw(t.w)
	case OpZExt, OpTrunc:
		v = x.eval(t.a, m) & maskw(t.w)
	case OpSExt:
		v = uint64(sext(x.eval(t.a, m), t.a.w)) & maskw(t.w)
	default:
		a, b := x.eval(t.a, m), x.eval(t.b, m)
		w := t.a.w
		if b == 0 && (t.op == OpSDiv || t.op == OpSRem) {
			if t.op == OpSRem {
				v = a
			} else if sext(a, w) >= 0 {
				v = maskw(w)
			} else {
				v = 1
			}
		} else {
			v, _ = foldBin(t.op, w, a, b)
		}
	}
	t.evGen = x.gen
	t.evVal = v
	return v
}

var smtOps = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle",
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// printSMT appends definitions for shared nodes and returns the text of t.
func (x *Ctx) printSMT(sb *strings.Builder, ts []*Term) []string {
	x.gen++
	g := x.gen
	var count func(t *Term)
	count = func(t *Term) {
		if t.op == OpConst || t.op == OpVar {
			return
		}
		if t.prGen == g {
			t.prCnt++
			return
		}
		t.prGen = g
		t.prCnt = 1
		for _, ch := range [3]*Term{t.a, t.b, t.c} {
			if ch != nil {
				count(ch)
			}
		}
	}
	for _, t := range ts {
		count(t)
	}
	defined := map[*Term]bool{}
	var str func(t *Term) string
	body := func(t *Term) string {
		switch t.op {
		case OpZExt:
			return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, str(t.a))
		case OpSExt:
			return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, str(t.a))
		case OpTrunc:
			return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, str(t.a))
		}
		s := "(" + smtOps[t.op]
		for _, ch := range [3]*Term{t.a, t.b, t.c} {
			if ch != nil {
				s += " " + str(ch)
			}
		}
		return s + ")"
	}
	str = func(t *Term) string {
		switch t.op {
		case OpConst:
			if t.w == 0 {
				if t.k == 1 {
					return "true"
				}
				return "false"
			}
			return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
		case OpVar:
			return t.name
		}
		if t.prCnt > 1 {
			n := fmt.Sprintf("t!%d", t.id)
			if !defined[t] {
				b := body(t)
				defined[t] = true
				fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", n, sortName(t.w), b)
			}
			return n
		}
		return body(t)
	}
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = str(t)
	}
	return out
}

func popcount(b [4]uint64) int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}
