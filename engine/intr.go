package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	modPath  = "github.com/vmware-tanzu-labs/yaml-overlay-tool"
	zzPrefix = modPath + "/internal/zzverif"
	symPkg   = zzPrefix + "/sym"
)

func isModulePath(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func isHarnessPath(p string) bool { return strings.HasPrefix(p, zzPrefix) }

var intrinsics = map[string]Intrinsic{}

func reg(f Intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func (w *Worker) lookupIntrinsic(f *ssa.Function, name string) (Intrinsic, bool) {
	if s, ok := w.e.stubs[name]; ok && s != f {
		return func(th *Thread, fn *Fn, args []Value) Value {
			return th.callFn(th.w.fnFor(s), args, nil)
		}, true
	}
	if strings.HasPrefix(name, "log.Fatal") {
		return w.fatal(), true
	}
	if i, ok := intrinsics[name]; ok {
		return i, true
	}
	if o := f.Origin(); o != nil && o != f {
		if i, ok := intrinsics[o.String()]; ok {
			return i, true
		}
	}
	if strings.HasPrefix(name, "(*github.com/op/go-logging.Logger).") {
		m := name[strings.LastIndex(name, ".")+1:]
		if strings.HasPrefix(m, "Fatal") {
			return w.fatal(), true
		}
		if strings.HasPrefix(m, "Panic") {
			return intrExit, true
		}
		return intrNop, true
	}
	if strings.HasPrefix(name, "(*internal/godebug.Setting).") || strings.HasPrefix(name, "runtime/debug.") || strings.HasPrefix(name, "internal/race.") {
		return intrNop, true
	}
	return nil, false
}

// fatal ends the process with status 1, the way os.Exit does.
func (w *Worker) fatal() Intrinsic {
	s, ok := w.e.stubs["os.Exit"]
	if !ok {
		return intrExit
	}
	return func(th *Thread, fn *Fn, args []Value) Value {
		return th.callFn(th.w.fnFor(s), []Value{intV(1)}, nil)
	}
}

func intrNop(th *Thread, fn *Fn, args []Value) Value {
	res := fn.fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	return zero(res)
}

func intrExit(th *Thread, fn *Fn, args []Value) Value {
	panic(&goPanic{v: Iface{canon(types.Typ[types.String]), "verif: process exit in " + fn.name}, where: th.where()})
}

func intV(n int) Value { return uint64(int64(n)) }

func str(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

// concStr makes a string concrete by forking over its bytes.
func (th *Thread) concStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	ss, ok := v.(*SymStr)
	if !ok {
		panic(unsupported(fmt.Sprintf("string value is %T", v)))
	}
	b := make([]byte, len(ss.b))
	for i, t := range ss.b {
		b[i] = byte(th.concretize(t))
	}
	return string(b)
}

func (th *Thread) strIndexFrom(s, sub Value, from int) int {
	n, m := strLen(s), strLen(sub)
	for i := from; i+m <= n; i++ {
		if th.branch(th.w.ctx.strEq(strSlice(s, i, i+m), sub)) {
			return i
		}
	}
	return -1
}

func (th *Thread) strIndex(s, sub Value) int {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return strings.Index(a, b)
		}
	}
	return th.strIndexFrom(s, sub, 0)
}

func (th *Thread) strLastIndex(s, sub Value) int {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return strings.LastIndex(a, b)
		}
	}
	n, m := strLen(s), strLen(sub)
	for i := n - m; i >= 0; i-- {
		if th.branch(th.w.ctx.strEq(strSlice(s, i, i+m), sub)) {
			return i
		}
	}
	return -1
}

func (th *Thread) strContains(s, sub Value) *Term {
	x := th.w.ctx
	n, m := strLen(s), strLen(sub)
	r := x.False
	for i := 0; i+m <= n; i++ {
		r = x.Or(r, x.strEq(strSlice(s, i, i+m), sub))
		if r.isTrue() {
			return r
		}
	}
	return r
}

func (th *Thread) strCount(s, sub Value) int {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return strings.Count(a, b)
		}
	}
	if strLen(sub) == 0 {
		return -1
	}
	n, pos := 0, 0
	for {
		i := th.strIndexFrom(s, sub, pos)
		if i < 0 {
			return n
		}
		n++
		pos = i + strLen(sub)
	}
}

// bytesStr views a byte slice value as a string value.
func (th *Thread) bytesStr(v Value) Value {
	s, ok := v.(Slice)
	if !ok {
		panic(unsupported(fmt.Sprintf("bytes value is %T", v)))
	}
	ts := make([]*Term, len(s))
	for i := range s {
		ts[i] = th.w.ctx.term(s[i], 8)
	}
	return mkStr(ts)
}

func (th *Thread) strBytes(v Value) Slice {
	ts := th.w.ctx.strTerms(v)
	out := make(Slice, len(ts))
	for i := range ts {
		out[i] = norm(ts[i])
	}
	return out
}

func (th *Thread) byteStr(v Value) Value {
	return mkStr([]*Term{th.w.ctx.term(v, 8)})
}

// asciiTerm says that every byte of s is below 0x80.
func (th *Thread) asciiTerm(s Value) *Term {
	x := th.w.ctx
	r := x.True
	for _, t := range x.strTerms(s) {
		r = x.And(r, x.Bin(OpULt, t, x.small[0x80]))
	}
	return r
}

func (th *Thread) mapCase(s Value, lower bool) Value {
	x := th.w.ctx
	ts := x.strTerms(s)
	out := make([]*Term, len(ts))
	lo, hi := x.small['a'], x.small['z']
	if lower {
		lo, hi = x.small['A'], x.small['Z']
	}
	for i, t := range ts {
		in := x.And(x.Bin(OpULe, lo, t), x.Bin(OpULe, t, hi))
		out[i] = x.Ite(in, x.Bin(OpBXor, t, x.small[0x20]), t)
	}
	return mkStr(out)
}

// fresh creates an auxiliary variable (not an input).
func (th *Thread) fresh(w uint8, val uint64) *Term {
	p := th.p
	n, _ := p.host["fresh"].(int)
	p.host["fresh"] = n + 1
	t := th.w.ctx.Var(fmt.Sprintf("f%dw%d", n, w), w)
	if _, ok := p.model[t.name]; !ok {
		p.model[t.name] = val
	}
	return t
}

// pickBlock explores the multiples b of n with b <= t < b+n and assumes the chosen one.
func (th *Thread) pickBlock(t *Term, n uint64) uint64 {
	p := th.p
	x := th.w.ctx
	in := func(b uint64) *Term {
		return x.Bin(OpULt, x.Bin(OpSub, t, x.BV(b, t.w)), x.BV(n, t.w))
	}
	if p.pos < len(p.prefix) {
		b := p.prefix[p.pos]
		p.pos++
		th.record(b)
		p.forks++
		th.addPC(in(b))
		return b
	}
	v := x.Eval(t, p.model)
	b := v - v%n
	excl := x.Not(in(b))
	var items []workItem
	for k := 0; ; k++ {
		r, m := th.feasible(excl)
		if r == Unsat {
			break
		}
		if r == Unknown {
			p.incompl = "solver unknown while splitting an integer"
			break
		}
		if k > 300 {
			p.incompl = "integer splitting limit"
			break
		}
		v2 := x.Eval(t, m)
		b2 := v2 - v2%n
		items = append(items, th.alt(b2, m))
		excl = x.And(excl, x.Not(in(b2)))
	}
	if len(items) > 0 {
		th.w.e.push(items)
	}
	th.record(b)
	p.forks++
	th.addPC(in(b))
	return b
}

// formatInt builds the decimal text of a 64-bit integer.
func (th *Thread) formatInt(v Value, signed bool) Value {
	if u, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(int64(u), 10)
		}
		return strconv.FormatUint(u, 10)
	}
	x := th.w.ctx
	t := v.(*Term)
	if t.w < 64 {
		t = x.Conv(t, 64, signed)
	}
	neg := false
	if signed && th.branch(x.Bin(OpSLt, t, x.BV(0, 64))) {
		neg = true
		t = x.Bin(OpSub, x.BV(0, 64), t)
	}
	nd := 1
	lim := uint64(10)
	for nd < 20 {
		if th.branch(x.Bin(OpULt, t, x.BV(lim, 64))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		lim *= 10
	}
	val := x.Eval(t, th.p.model)
	if nd == 20 {
		panic(unsupported("20-digit symbolic integer"))
	}
	ds := make([]*Term, nd)
	low := nd
	const sw = 64
	if nd > 4 {
		// the high digits are made concrete, block by block of 1000 numbers; only the last three stay symbolic
		base := th.pickBlock(t, 1000)
		hs := strconv.FormatUint(base/1000, 10)
		if len(hs)+3 != nd {
			panic(unsupported("engine: digit count"))
		}
		for i := range hs {
			ds[i] = x.small[hs[i]]
		}
		t = x.Bin(OpSub, t, x.BV(base, 64))
		val -= base
		low = 3
	}
	sum := x.BV(0, sw)
	mul := uint64(1)
	for i := nd - 1; i >= nd-low; i-- {
		d := th.fresh(8, val/mul%10)
		th.addPC(x.Bin(OpULe, d, x.small[9]))
		ds[i] = x.Bin(OpAdd, d, x.small['0'])
		sum = x.Bin(OpAdd, sum, x.Bin(OpMul, x.Conv(d, sw, false), x.BV(mul, sw)))
		mul *= 10
	}
	th.assume(x.Eq(sum, t))
	if neg {
		ds = append([]*Term{x.small['-']}, ds...)
	}
	return mkStr(ds)
}

// ---- errors ----

func (w *Worker) namedType(pkg, name string) types.Type {
	p := w.prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		panic(unsupported("type " + pkg + "." + name + " not in program"))
	}
	return p.Type(name).Type()
}

func (w *Worker) ptrTo(pkg, name string) types.Type {
	return canon(types.NewPointer(w.namedType(pkg, name)))
}

func (th *Thread) newError(msg Value) Iface {
	return Iface{th.w.ptrTo("errors", "errorString"), newCell(Struct{msg})}
}

func (th *Thread) findMethod(t types.Type, pkg *types.Package, name string) *Fn {
	sel := th.w.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	sf := th.w.prog.MethodValue(sel)
	if sf == nil {
		return nil
	}
	return th.w.fnFor(sf)
}

func sigIs(fn *Fn, params, results string) bool {
	s := fn.fn.Signature
	ps := ""
	for i := 0; i < s.Params().Len(); i++ {
		ps += s.Params().At(i).Type().String() + ";"
	}
	rs := ""
	for i := 0; i < s.Results().Len(); i++ {
		rs += s.Results().At(i).Type().String() + ";"
	}
	return ps == params && rs == results
}

func (th *Thread) tryErrorText(iv Iface) (Value, bool) {
	for _, m := range []string{"Error", "String"} {
		if f := th.findMethod(iv.t, nil, m); f != nil && f.fn.Signature.Results().Len() == 1 && f.fn.Signature.Params().Len() <= 1 && isString(f.fn.Signature.Results().At(0).Type()) {
			if p, ok := iv.v.(*Value); ok && p == nil {
				return "<nil>", true
			}
			return th.callFn(f, []Value{copyVal(iv.v)}, nil), true
		}
	}
	return nil, false
}

func (th *Thread) unwrap(iv Iface) []Iface {
	f := th.findMethod(iv.t, nil, "Unwrap")
	if f == nil {
		return nil
	}
	switch r := th.callFn(f, []Value{copyVal(iv.v)}, nil).(type) {
	case Iface:
		return []Iface{r}
	case Slice:
		var out []Iface
		for _, e := range r {
			out = append(out, e.(Iface))
		}
		return out
	}
	return nil
}

func (th *Thread) errorsIs(err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && canon(err.t) == canon(target.t) {
		if th.branch(th.eqVal(err, target)) {
			return true
		}
	}
	if f := th.findMethod(err.t, nil, "Is"); f != nil && sigIs(f, "error;", "bool;") {
		r := th.callFn(f, []Value{copyVal(err.v), target}, nil)
		if th.truth(r) {
			return true
		}
	}
	for _, u := range th.unwrap(err) {
		if u.t != nil && th.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (th *Thread) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return th.branch(v)
	}
	panic(unsupported(fmt.Sprintf("condition is %T", v)))
}

func (th *Thread) errorsAs(err, target Iface) bool {
	if err.t == nil {
		return false
	}
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		th.rtPanic("errors: target must be a non-nil pointer")
	}
	want := pt.Elem()
	if it, isI := want.Underlying().(*types.Interface); isI {
		if types.Implements(err.t, it) {
			th.store(th.ptr(target.v), err)
			return true
		}
	} else if canon(err.t) == canon(want) {
		th.store(th.ptr(target.v), copyVal(err.v))
		return true
	}
	if f := th.findMethod(err.t, nil, "As"); f != nil && f.fn.Signature.Params().Len() == 1 {
		if th.truth(th.callFn(f, []Value{copyVal(err.v), target}, nil)) {
			return true
		}
	}
	for _, u := range th.unwrap(err) {
		if u.t != nil && th.errorsAs(u, target) {
			return true
		}
	}
	return false
}

// ---- fmt ----

func hostBasic(iv Iface) (any, bool) {
	b, ok := iv.t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch v := iv.v.(type) {
	case string, bool, float64:
		return v, true
	case uint64:
		w, s, _ := basicInfo(b)
		if s {
			if b.Kind() == types.Int32 {
				return int32(sext(v, w)), true
			}
			return sext(v, w), true
		}
		if b.Kind() == types.Uint8 {
			return uint8(v), true
		}
		return v, true
	}
	return nil, false
}

func (th *Thread) fmtArg(flags string, verb byte, a Value, depth int) Value {
	iv, ok := a.(Iface)
	if !ok {
		return fmt.Sprintf("%%!%c(?)", verb)
	}
	if verb == 'T' {
		if iv.t == nil {
			return "<nil>"
		}
		return types.TypeString(iv.t, func(p *types.Package) string { return p.Name() })
	}
	if iv.t == nil {
		if verb == 'v' || verb == 's' && false {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	switch verb {
	case 'v', 's', 'q', 'w', 'x', 'X':
		if !strings.Contains(flags, "#") && depth < 6 {
			if s, ok := th.tryErrorText(iv); ok {
				if verb == 'q' {
					return th.quote(s)
				}
				return s
			}
		}
	}
	if h, ok := hostBasic(iv); ok {
		if verb == 'w' {
			verb = 'v'
		}
		return fmt.Sprintf("%"+flags+string(verb), h)
	}
	switch v := iv.v.(type) {
	case *SymStr:
		if verb == 'q' || strings.Contains(flags, "#") {
			return th.quote(v)
		}
		return v
	case *Term:
		if v.w == 0 {
			if th.branch(v) {
				return "true"
			}
			return "false"
		}
		if verb == 'c' || verb == 'q' {
			return th.runeToStr(v, v.w, true)
		}
		_, s, _ := basicInfo(iv.t)
		return th.formatInt(v, s)
	case Slice:
		var out Value = "["
		et := iv.t.Underlying().(*types.Slice).Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
			s := th.bytesStr(v)
			if verb == 'q' {
				return th.quote(s)
			}
			return s
		}
		for i, e := range v {
			if i > 0 {
				out = th.w.ctx.strCat(out, " ")
			}
			out = th.w.ctx.strCat(out, th.fmtArg(flags, verb, toIface(et, e), depth+1))
		}
		return th.w.ctx.strCat(out, "]")
	case Struct:
		st := iv.t.Underlying().(*types.Struct)
		var out Value = "{"
		for i, e := range v {
			if i > 0 {
				out = th.w.ctx.strCat(out, " ")
			}
			if strings.Contains(flags, "+") {
				out = th.w.ctx.strCat(out, st.Field(i).Name()+":")
			}
			out = th.w.ctx.strCat(out, th.fmtArg(flags, verb, toIface(st.Field(i).Type(), e), depth+1))
		}
		return th.w.ctx.strCat(out, "}")
	case *Value:
		if v == nil {
			return "<nil>"
		}
		if s, ok := (*v).(Struct); ok && depth == 0 {
			pt := iv.t.Underlying().(*types.Pointer)
			return th.w.ctx.strCat("&", th.fmtArg(flags, verb, Iface{pt.Elem(), s}, depth+1))
		}
		return "0xc000000000"
	case *MapObj:
		if v == nil {
			return "map[]"
		}
		mt := iv.t.Underlying().(*types.Map)
		var parts []string
		for _, e := range v.ents {
			if e.dead {
				continue
			}
			k := th.fmtArg(flags, verb, toIface(mt.Key(), e.k), depth+1)
			x := th.fmtArg(flags, verb, toIface(mt.Elem(), e.v), depth+1)
			ks, ok1 := k.(string)
			xs, ok2 := x.(string)
			if !ok1 || !ok2 {
				panic(unsupported("formatting a symbolic map"))
			}
			parts = append(parts, ks+":"+xs)
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	}
	return fmt.Sprintf("(%v)", iv.t)
}

func toIface(t types.Type, v Value) Value {
	if iv, ok := v.(Iface); ok {
		return iv
	}
	return Iface{canon(t), v}
}

func (th *Thread) quote(v Value) Value {
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	return th.w.ctx.strCat(th.w.ctx.strCat(`"`, v), `"`)
}

// sprintf formats; it also returns the operands of %w.
func (th *Thread) sprintf(format Value, args []Value) (Value, []Iface) {
	f, ok := format.(string)
	if !ok {
		if len(args) == 0 {
			return format, nil
		}
		panic(unsupported("symbolic format string"))
	}
	var out Value = ""
	var wrapped []Iface
	cat := func(v Value) { out = th.w.ctx.strCat(out, v) }
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			cat(f[i:])
			break
		}
		cat(f[i : i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			cat("%!(NOVERB)")
			break
		}
		flags, verb := f[st:i], f[i]
		i++
		if verb == '%' {
			cat("%")
			continue
		}
		if verb == '*' || verb == '[' {
			panic(unsupported("format directive"))
		}
		if n >= len(args) {
			cat("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			if iv, ok := a.(Iface); ok && iv.t != nil {
				wrapped = append(wrapped, iv)
			}
			if iv, ok := a.(Iface); ok && iv.t == nil {
				cat("%!w(<nil>)")
				continue
			}
		}
		cat(th.fmtArg(flags, verb, a, 0))
	}
	if n < len(args) {
		cat("%!(EXTRA)")
	}
	return out, wrapped
}

func (th *Thread) sprint(args []Value, ln bool) Value {
	var out Value = ""
	isStr := func(a Value) bool {
		iv, ok := a.(Iface)
		return ok && iv.t != nil && isString(iv.t)
	}
	for i, a := range args {
		if i > 0 && (ln || !isStr(a) && !isStr(args[i-1])) {
			out = th.w.ctx.strCat(out, " ")
		}
		out = th.w.ctx.strCat(out, th.fmtArg("", 'v', a, 0))
	}
	if ln {
		out = th.w.ctx.strCat(out, "\n")
	}
	return out
}

func (th *Thread) writeTo(wv Value, s Value) Value {
	iv := wv.(Iface)
	if iv.t == nil {
		th.nilDeref()
	}
	f := th.findMethod(iv.t, nil, "Write")
	if f == nil {
		panic(unsupported("Write method"))
	}
	return th.callFn(f, []Value{copyVal(iv.v), th.strBytes(s)}, nil)
}

func sl(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

// ---- locks ----

func (th *Thread) lock(v Value) *lockState {
	p := th.ptr(v)
	if p == nil {
		th.nilDeref()
	}
	l := th.p.locks[p]
	if l == nil {
		l = &lockState{}
		th.p.locks[p] = l
	}
	return l
}

func selectOf(ci *CInstr) *ssa.Select { return ci.ins.(*ssa.Select) }

func (th *Thread) selResult(sel *ssa.Select, idx int, v Value, ok bool) Value {
	t := Tuple{intV(idx), ok}
	for i, st := range sel.States {
		if st.Dir != types.RecvOnly {
			continue
		}
		et := st.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == idx && ok {
			t = append(t, v)
		} else {
			t = append(t, zero(et))
		}
	}
	return t
}

func (th *Thread) atomicOp(addr Value, f func(old Value) (Value, Value)) Value {
	p := th.ptr(addr)
	if p == nil {
		th.nilDeref()
	}
	th.yield()
	if th.w.base == 0 {
		l := th.lock(p)
		th.acquire(l.vc)
		nv, r := f(*p)
		if nv != nil {
			l.vc = l.vc.join(th.release())
			th.set(p, nv)
		}
		return r
	}
	nv, r := f(*p)
	if nv != nil {
		th.set(p, nv)
	}
	return r
}

func normU(v Value) Value {
	if u, ok := v.(UPtr); ok {
		if p, ok := u.v.(*Value); ok && p == nil {
			return UPtr{}
		}
	}
	return v
}

func (th *Thread) mustTerm(v Value) *Term { return th.w.ctx.term(v, 0) }

func (th *Thread) domainStr(n int, alphabet Value) Value {
	p := th.p
	x := th.w.ctx
	idx := len(p.nd)
	a := th.concStr(alphabet)
	if a == "" {
		var sb strings.Builder
		for c := 0x20; c < 0x7f; c++ {
			sb.WriteByte(byte(c))
		}
		a = sb.String()
	}
	if a == "\x00any" {
		a = ""
	}
	ts := make([]*Term, n)
	for i := range ts {
		v := x.Var(fmt.Sprintf("n%d_%dw8", idx, i), 8)
		ts[i] = v
		if a != "" {
			if _, ok := p.model[v.name]; !ok {
				p.model[v.name] = uint64(a[0])
			}
			in := x.False
			// ranges keep the constraint small
			bs := []byte(a)
			sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
			for k := 0; k < len(bs); {
				m := k
				for m+1 < len(bs) && bs[m+1] <= bs[m]+1 {
					m++
				}
				if bs[k] == bs[m] {
					in = x.Or(in, x.Eq(v, x.small[bs[k]]))
				} else {
					in = x.Or(in, x.And(x.Bin(OpULe, x.small[bs[k]], v), x.Bin(OpULe, v, x.small[bs[m]])))
				}
				k = m + 1
			}
			th.assume(in)
		}
	}
	v := mkStr(ts)
	p.nd = append(p.nd, NDVal{Kind: "str", V: v})
	return v
}

func init() {
	// ---- nondeterminism and assertions ----
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		p := th.p
		v := th.w.ctx.Var(fmt.Sprintf("n%d_w0", len(p.nd)), 0)
		p.nd = append(p.nd, NDVal{Kind: "bool", V: v})
		return v
	}, symPkg+".Bool")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		p := th.p
		v := th.w.ctx.Var(fmt.Sprintf("n%d_w8", len(p.nd)), 8)
		p.nd = append(p.nd, NDVal{Kind: "int", V: v, w: 8})
		return v
	}, symPkg+".Byte")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		p := th.p
		x := th.w.ctx
		lo, hi := a[0].(uint64), a[1].(uint64)
		v := x.Var(fmt.Sprintf("n%d_w64", len(p.nd)), 64)
		if _, ok := p.model[v.name]; !ok {
			p.model[v.name] = lo
		}
		p.nd = append(p.nd, NDVal{Kind: "int", V: v, w: 64, sgn: true})
		th.assume(x.And(x.Bin(OpSLe, x.BV(lo, 64), v), x.Bin(OpSLe, v, x.BV(hi, 64))))
		return v
	}, symPkg+".Int")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		n := th.toInt(a[0])
		k := th.choose(n)
		th.p.nd = append(th.p.nd, NDVal{Kind: "int", V: intV(k), w: 64, sgn: true})
		return intV(k)
	}, symPkg+".Choice")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return th.domainStr(th.toInt(a[0]), a[1])
	}, symPkg+".Str")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathEnd{endAssume, ""})
			}
		case *Term:
			th.assume(c)
		}
		return nil
	}, symPkg+".Assume")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		prop := a[0].(string)
		if prop != th.w.e.prop && th.w.e.prop != "" {
			return nil
		}
		id := th.w.concreteStr(a[1], th.p.model)
		th.assertTerm(id, th.w.ctx.term(a[2], 0), id)
		return nil
	}, symPkg+".Assert")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		th.p.reached[a[0].(string)] = true
		return nil
	}, symPkg+".Reach")
	obs := func(th *Thread, fn *Fn, a []Value) Value {
		if len(th.p.obs) < 4000 {
			th.p.obs = append(th.p.obs, Obs{a[0].(string), a[1]})
		}
		return nil
	}
	reg(obs, symPkg+".Observe", symPkg+".ObserveBool", symPkg+".ObserveInt")
	bin := func(f func(x *Ctx, a, b *Term) *Term) Intrinsic {
		return func(th *Thread, fn *Fn, a []Value) Value {
			x := th.w.ctx
			return norm(f(x, x.term(a[0], 0), x.term(a[1], 0)))
		}
	}
	reg(bin(func(x *Ctx, a, b *Term) *Term { return x.And(a, b) }), symPkg+".And")
	reg(bin(func(x *Ctx, a, b *Term) *Term { return x.Or(a, b) }), symPkg+".Or")
	reg(bin(func(x *Ctx, a, b *Term) *Term { return x.Or(x.Not(a), b) }), symPkg+".Implies")
	reg(bin(func(x *Ctx, a, b *Term) *Term { return x.Eq(a, b) }), symPkg+".Iff")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		k := a[0].(string)
		if v, ok := th.w.e.params[k]; ok {
			return intV(v)
		}
		return a[1]
	}, symPkg+".Param")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return true }, symPkg+".Symbolic")
	reg(func(th *Thread, fn *Fn, a []Value) Value { th.yield(); return nil }, symPkg+".Yield")
	// Decide makes a condition concrete
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.truth(a[0]) }, symPkg+".Decide")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.concStr(a[0]) }, symPkg+".Concrete")

	// ---- strings and bytes ----
	reg(func(th *Thread, fn *Fn, a []Value) Value { return intV(th.strIndex(a[0], a[1])) },
		"strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return intV(th.strIndex(th.bytesStr(a[0]), th.bytesStr(a[1])))
	},
		"bytes.Index", "internal/bytealg.Index")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return intV(th.strIndex(a[0], th.byteStr(a[1]))) },
		"strings.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return intV(th.strIndex(th.bytesStr(a[0]), th.byteStr(a[1])))
	},
		"bytes.IndexByte", "internal/bytealg.IndexByte")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return intV(th.strLastIndex(a[0], a[1])) }, "strings.LastIndex")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return intV(th.strLastIndex(a[0], th.byteStr(a[1]))) },
		"strings.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return intV(th.strLastIndex(th.bytesStr(a[0]), th.byteStr(a[1])))
	}, "bytes.LastIndexByte", "internal/bytealg.LastIndexByte")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return norm(th.strContains(a[0], a[1])) }, "strings.Contains")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return norm(th.strContains(th.bytesStr(a[0]), th.bytesStr(a[1])))
	}, "bytes.Contains")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if strLen(a[1]) == 0 {
			return th.callBody(fn, a, nil)
		}
		return intV(th.strCount(a[0], a[1]))
	}, "strings.Count")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return intV(th.strCount(a[0], th.byteStr(a[1]))) }, "internal/bytealg.CountString")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return intV(th.strCount(th.bytesStr(a[0]), th.byteStr(a[1])))
	}, "internal/bytealg.Count")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return norm(th.w.ctx.strEq(th.bytesStr(a[0]), th.bytesStr(a[1])))
	}, "bytes.Equal", "internal/bytealg.Equal")
	cmp := func(x *Ctx, a, b Value) Value {
		lt, eq := x.strLess(a, b), x.strEq(a, b)
		return norm(x.Ite(lt, x.BV(^uint64(0), 64), x.Ite(eq, x.BV(0, 64), x.BV(1, 64))))
	}
	reg(func(th *Thread, fn *Fn, a []Value) Value { return cmp(th.w.ctx, a[0], a[1]) },
		"strings.Compare", "internal/bytealg.CompareString", "runtime.cmpstring")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return cmp(th.w.ctx, th.bytesStr(a[0]), th.bytesStr(a[1]))
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s := make(Slice, th.toInt(a[0]))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}, "internal/bytealg.MakeNoZero")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape", "internal/abi.Escape")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s := (*th.ptr(a[0])).(Struct)
		return th.bytesStr(s[1])
	}, "(*strings.Builder).String")
	reg(intrNop, "(*strings.Builder).copyCheck")
	caseI := func(lower bool) Intrinsic {
		return func(th *Thread, fn *Fn, a []Value) Value {
			if s, ok := a[0].(string); ok {
				if lower {
					return strings.ToLower(s)
				}
				return strings.ToUpper(s)
			}
			if th.branch(th.asciiTerm(a[0])) {
				return th.mapCase(a[0], lower)
			}
			return th.callBody(fn, a, nil)
		}
	}
	reg(caseI(true), "strings.ToLower")
	reg(caseI(false), "strings.ToUpper")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s, ok1 := a[0].(string)
		t, ok2 := a[1].(string)
		if ok1 && ok2 {
			return strings.EqualFold(s, t)
		}
		x := th.w.ctx
		if th.branch(x.And(th.asciiTerm(a[0]), th.asciiTerm(a[1]))) {
			return norm(x.strEq(th.mapCase(a[0], true), th.mapCase(a[1], true)))
		}
		return th.callBody(fn, a, nil)
	}, "strings.EqualFold")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if th.branch(th.asciiTerm(a[0])) {
			return true
		}
		return th.callBody(fn, a, nil)
	}, "unicode/utf8.ValidString")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if th.branch(th.asciiTerm(a[0])) {
			return intV(strLen(a[0]))
		}
		return th.callBody(fn, a, nil)
	}, "unicode/utf8.RuneCountInString")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.formatInt(a[0], true) }, "strconv.Itoa")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if b, ok := a[1].(uint64); ok {
			if b == 10 {
				return th.formatInt(a[0], true)
			}
			if u, ok := a[0].(uint64); ok {
				return strconv.FormatInt(int64(u), int(b))
			}
		}
		return th.callBody(fn, a, nil)
	}, "strconv.FormatInt", "internal/strconv.FormatInt")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if b, ok := a[1].(uint64); ok {
			if b == 10 {
				return th.formatInt(a[0], false)
			}
		}
		return th.callBody(fn, a, nil)
	}, "strconv.FormatUint", "internal/strconv.FormatUint")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, byte(a[1].(uint64)), th.toInt(a[2]), th.toInt(a[3]))
		}
		panic(unsupported("symbolic float"))
	}, "strconv.FormatFloat", "internal/strconv.FormatFloat")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.quote(a[0]) }, "strconv.Quote")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			return th.callBody(fn, a, nil)
		}
		f, err := strconv.ParseFloat(s, th.toInt(a[1]))
		if err != nil {
			return Tuple{f, th.newError(err.Error())}
		}
		return Tuple{f, Iface{}}
	}, "strconv.ParseFloat")
	// The number a text of unknown digits stands for is not computed; only that there is one is known.
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		_, known := a[0].(uint64)
		if e := th.toInt(a[1]); known || e < -345 || e > 285 {
			return th.callBody(fn, a, nil)
		}
		if !th.branch(th.w.ctx.Bin(OpULt, th.w.ctx.term(a[0], 64), th.w.ctx.BV(1<<53, 64))) {
			panic(unsupported("symbolic float"))
		}
		return Tuple{FloatU{}, true}
	}, "internal/strconv.atof64exact", "strconv.atof64exact")
	// parsing concrete text natively is only a shortcut
	for _, n := range []string{"strconv.Atoi", "strconv.ParseInt", "strconv.ParseBool"} {
		name := n
		reg(func(th *Thread, fn *Fn, a []Value) Value {
			s, ok := a[0].(string)
			if ok {
				switch name {
				case "strconv.Atoi":
					if v, err := strconv.Atoi(s); err == nil {
						return Tuple{intV(v), Iface{}}
					}
				case "strconv.ParseInt":
					if v, err := strconv.ParseInt(s, th.toInt(a[1]), th.toInt(a[2])); err == nil {
						return Tuple{uint64(v), Iface{}}
					}
				case "strconv.ParseBool":
					if v, err := strconv.ParseBool(s); err == nil {
						return Tuple{v, Iface{}}
					}
				}
			}
			return th.callBody(fn, a, nil)
		}, n)
	}

	// ---- errors, fmt ----
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.errorsIs(a[0].(Iface), a[1].(Iface)) }, "errors.Is")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.errorsAs(a[0].(Iface), a[1].(Iface)) }, "errors.As")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s, wr := th.sprintf(a[0], sl(a[1]))
		switch len(wr) {
		case 0:
			return th.newError(s)
		case 1:
			return Iface{th.w.ptrTo("fmt", "wrapError"), newCell(Struct{s, wr[0]})}
		}
		es := Slice{}
		for _, e := range wr {
			es = append(es, e)
		}
		return Iface{th.w.ptrTo("fmt", "wrapErrors"), newCell(Struct{s, es})}
	}, "fmt.Errorf")
	reg(func(th *Thread, fn *Fn, a []Value) Value { s, _ := th.sprintf(a[0], sl(a[1])); return s }, "fmt.Sprintf")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.sprint(sl(a[0]), false) }, "fmt.Sprint")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.sprint(sl(a[0]), true) }, "fmt.Sprintln")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s, _ := th.sprintf(a[1], sl(a[2]))
		return th.writeTo(a[0], s)
	}, "fmt.Fprintf")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.writeTo(a[0], th.sprint(sl(a[1]), false)) }, "fmt.Fprint")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return th.writeTo(a[0], th.sprint(sl(a[1]), true)) }, "fmt.Fprintln")
	stdoutW := func(th *Thread, s Value) Value {
		p := th.w.prog.ImportedPackage("os")
		v := th.load(th.global(p.Var("Stdout")))
		return th.writeTo(Iface{th.w.ptrTo("os", "File"), v}, s)
	}
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s, _ := th.sprintf(a[0], sl(a[1]))
		return stdoutW(th, s)
	}, "fmt.Printf")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return stdoutW(th, th.sprint(sl(a[0]), false)) }, "fmt.Print")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return stdoutW(th, th.sprint(sl(a[0]), true)) }, "fmt.Println")

	// ---- sort ----
	sortSlice := func(th *Thread, fn *Fn, a []Value) Value {
		iv := a[0].(Iface)
		s, _ := iv.v.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !th.truth(th.callValue(a[1], []Value{intV(j), intV(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				th.store(&s[j], y)
				th.store(&s[j-1], x)
			}
		}
		return nil
	}
	reg(sortSlice, "sort.Slice", "sort.SliceStable")

	// ---- sync ----
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if th.w.base > 0 {
			return nil
		}
		th.yield()
		l := th.lock(a[0])
		th.block("Mutex.Lock", func() bool { return !l.held && l.reads == 0 })
		l.held = true
		th.acquire(l.vc)
		return nil
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if th.w.base > 0 {
			return nil
		}
		l := th.lock(a[0])
		if !l.held {
			th.rtPanic("sync: unlock of unlocked mutex")
		}
		l.held = false
		l.vc = l.vc.join(th.release())
		th.yield()
		return nil
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if th.w.base > 0 {
			return true
		}
		th.yield()
		l := th.lock(a[0])
		if l.held || l.reads > 0 {
			return false
		}
		l.held = true
		th.acquire(l.vc)
		return true
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if th.w.base > 0 {
			return nil
		}
		th.yield()
		l := th.lock(a[0])
		th.block("RWMutex.RLock", func() bool { return !l.held })
		l.reads++
		th.acquire(l.vc)
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		if th.w.base > 0 {
			return nil
		}
		l := th.lock(a[0])
		l.reads--
		l.doneVC = l.doneVC.join(th.release())
		l.vc = l.vc.join(l.doneVC)
		th.yield()
		return nil
	}, "(*sync.RWMutex).RUnlock")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		l := th.lock(a[0])
		l.wg += th.toInt(a[1])
		if l.wg < 0 {
			th.rtPanic("sync: negative WaitGroup counter")
		}
		l.vc = l.vc.join(th.release())
		th.yield()
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		l := th.lock(a[0])
		l.wg--
		if l.wg < 0 {
			th.rtPanic("sync: negative WaitGroup counter")
		}
		l.vc = l.vc.join(th.release())
		th.yield()
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		th.yield()
		l := th.lock(a[0])
		th.block("WaitGroup.Wait", func() bool { return l.wg == 0 })
		th.acquire(l.vc)
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s := (*th.ptr(a[0])).(Struct)
		st := th.w.namedType("sync", "Pool").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				if c, ok := s[i].(*Closure); ok && c != nil {
					return th.callValue(c, nil)
				}
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(intrNop, "(*sync.Pool).Put")
	// sync.Map as an ordinary map kept beside the value
	smap := func(th *Thread, v Value) *MapObj {
		p := th.ptr(v)
		m, _ := th.p.host[p].(*MapObj)
		if m == nil {
			if b, ok := th.w.host[fmt.Sprintf("smap%p", p)].(*MapObj); ok {
				m = b
			} else {
				m = newMap()
				if th.w.base > 0 {
					m.base = true
					th.w.host[fmt.Sprintf("smap%p", p)] = m
				}
			}
			th.p.host[p] = m
		}
		if th.w.base == 0 {
			l := th.lock(v)
			th.acquire(l.vc)
			l.vc = l.vc.join(th.release())
		}
		return m
	}
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		e := th.mapFind(smap(th, a[0]), a[1])
		if e == nil {
			return Tuple{Iface{}, false}
		}
		return Tuple{e.v, true}
	}, "(*sync.Map).Load")
	smSet := func(th *Thread, m *MapObj, k, v Value) {
		r := th.w.race
		th.w.race = false
		th.mapSet(m, k, v)
		th.w.race = r
	}
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		smSet(th, smap(th, a[0]), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		m := smap(th, a[0])
		if e := th.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		smSet(th, m, a[1], a[2])
		return Tuple{a[2], false}
	}, "(*sync.Map).LoadOrStore")

	// ---- sync/atomic ----
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := t.w
		reg(func(th *Thread, fn *Fn, a []Value) Value {
			return th.atomicOp(a[0], func(o Value) (Value, Value) { return nil, o })
		}, "sync/atomic.Load"+t.n)
		reg(func(th *Thread, fn *Fn, a []Value) Value {
			th.atomicOp(a[0], func(o Value) (Value, Value) { return normU(a[1]), nil })
			return nil
		}, "sync/atomic.Store"+t.n)
		reg(func(th *Thread, fn *Fn, a []Value) Value {
			return th.atomicOp(a[0], func(o Value) (Value, Value) { return normU(a[1]), o })
		}, "sync/atomic.Swap"+t.n)
		reg(func(th *Thread, fn *Fn, a []Value) Value {
			return th.atomicOp(a[0], func(o Value) (Value, Value) {
				if normU(o) == normU(a[1]) {
					return normU(a[2]), true
				}
				return nil, false
			})
		}, "sync/atomic.CompareAndSwap"+t.n)
		if w != 0 {
			reg(func(th *Thread, fn *Fn, a []Value) Value {
				return th.atomicOp(a[0], func(o Value) (Value, Value) {
					n := (o.(uint64) + a[1].(uint64)) & maskw(w)
					return n, n
				})
			}, "sync/atomic.Add"+t.n)
		}
	}
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s := (*th.ptr(a[0])).(Struct)
		return th.atomicOp(&s[0], func(o Value) (Value, Value) { return nil, o })
	}, "(*sync/atomic.Value).Load")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s := (*th.ptr(a[0])).(Struct)
		th.atomicOp(&s[0], func(o Value) (Value, Value) { return a[1], nil })
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s := (*th.ptr(a[0])).(Struct)
		return th.atomicOp(&s[0], func(o Value) (Value, Value) {
			if th.truth(norm(th.eqVal(o, a[1]))) {
				return a[2], true
			}
			return nil, false
		})
	}, "(*sync/atomic.Value).CompareAndSwap")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		s := (*th.ptr(a[0])).(Struct)
		return th.atomicOp(&s[0], func(o Value) (Value, Value) { return a[1], o })
	}, "(*sync/atomic.Value).Swap")

	// ---- runtime, os, time ----
	reg(intrNop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Callers", "runtime.Caller",
		"runtime.FuncForPC", "runtime.NumGoroutine", "runtime.Stack", "runtime.registerPoolCleanup", "sync.runtime_registerPoolCleanup",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"github.com/op/go-logging.MustStringFormatter", "os.sigpipe", "syscall.runtime_envs", "runtime.fastrand", "runtime.AddCleanup",
		"time.runtimeNano", "time.Now", "time.Since", "os.Setenv", "os.Unsetenv")
	reg(func(th *Thread, fn *Fn, a []Value) Value { th.yield(); return nil }, "runtime.Gosched", "time.Sleep")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return uint64(4) }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return newCell(zero(th.w.namedType("internal/godebug", "Setting")))
	}, "internal/godebug.New")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return newCell(zero(th.w.namedType("os", "File"))) }, "os.NewFile")
	reg(intrExit, "os.Exit", "syscall.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln")
	reg(intrNop, "log.Print", "log.Printf", "log.Println")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return Slice{"yot"} }, "os.runtime_args")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return uint64(1) }, "os.Getpid")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return "" }, "os.Getenv")
	reg(func(th *Thread, fn *Fn, a []Value) Value { return Tuple{"", false} }, "os.LookupEnv", "syscall.Getenv")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return newCell(zero(th.w.namedType("github.com/op/go-logging", "Logger")))
	}, "github.com/op/go-logging.MustGetLogger")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return Tuple{newCell(zero(th.w.namedType("github.com/op/go-logging", "Logger"))), Iface{}}
	}, "github.com/op/go-logging.GetLogger")

	// cast only follows pointers by reflection
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		i := a[0].(Iface)
		if i.t != nil {
			if _, ok := i.t.Underlying().(*types.Pointer); ok {
				panic(unsupported("cast of a pointer"))
			}
		}
		return i
	}, "github.com/spf13/cast.indirect", "github.com/spf13/cast.indirectToStringerOrError")

	// ---- regexp ----
	memo := func(th *Thread, fn *Fn, a []Value) Value {
		pat := th.concStr(a[0])
		k := fn.name + "\x00" + pat
		if v, ok := th.w.host[k]; ok {
			return v
		}
		th.w.base++
		steps := th.p.steps
		defer func() { th.w.base--; th.p.steps = steps }()
		v := th.callBody(fn, []Value{pat}, nil)
		th.w.host[k] = v
		return v
	}
	reg(memo, "regexp.Compile", "regexp.MustCompile")

	// ---- reflection-based libraries ----
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		iv := a[0].(Iface)
		if iv.t == nil {
			return Iface{}
		}
		return Iface{iv.t, th.reprint(iv.v)}
	}, "github.com/qdm12/reprint.This")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		from, to := a[0].(Iface), a[1].(Iface)
		if from.t == nil {
			return Iface{}
		}
		if to.t == nil {
			return th.newError("FromTo: copy target is nil, it should be a valid pointer")
		}
		if _, ok := to.t.Underlying().(*types.Pointer); !ok {
			return th.newError("FromTo: copy target type and not a pointer")
		}
		v := from.v
		if _, ok := from.t.Underlying().(*types.Pointer); ok {
			p := th.ptr(v)
			if p == nil {
				return Iface{}
			}
			v = th.load(p)
		}
		th.store(th.ptr(to.v), th.reprint(v))
		return Iface{}
	}, "github.com/qdm12/reprint.FromTo")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		o := th.cmpOpts(a[2])
		return norm(th.cmpEqual(a[0], a[1], nil, o, 0))
	}, "github.com/google/go-cmp/cmp.Equal")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		iv := a[0].(Iface)
		ig := map[string]bool{}
		for _, n := range sl(a[1]) {
			ig[n.(string)] = true
		}
		return Iface{th.w.ptrTo("errors", "errorString"), &HostObj{"cmpignore", &cmpIgnore{canon(iv.t), ig}}}
	}, "github.com/google/go-cmp/cmp/cmpopts.IgnoreFields")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return Iface{th.w.ptrTo("errors", "errorString"), &HostObj{"cmpempty", nil}}
	}, "github.com/google/go-cmp/cmp/cmpopts.EquateEmpty")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return norm(th.cmpEqual(a[0], a[1], nil, &cmpOptions{}, 0))
	}, "reflect.DeepEqual")
}

type cmpIgnore struct {
	t types.Type
	f map[string]bool
}

type cmpOptions struct {
	ignore []*cmpIgnore
	empty  bool
}

func (th *Thread) cmpOpts(v Value) *cmpOptions {
	o := &cmpOptions{}
	var add func(v Value)
	add = func(v Value) {
		switch v := v.(type) {
		case Slice:
			for _, e := range v {
				add(e)
			}
		case Iface:
			add(v.v)
		case *HostObj:
			switch v.kind {
			case "cmpignore":
				o.ignore = append(o.ignore, v.v.(*cmpIgnore))
			case "cmpempty":
				o.empty = true
			}
		default:
			panic(unsupported(fmt.Sprintf("cmp option %T", v)))
		}
	}
	add(v)
	return o
}

// cmpEqual is cmp.Equal / reflect.DeepEqual over values of static type t (nil: interfaces).
func (th *Thread) cmpEqual(a, b Value, t types.Type, o *cmpOptions, depth int) *Term {
	x := th.w.ctx
	if depth > 60 {
		panic(unsupported("cmp depth"))
	}
	switch av := a.(type) {
	case Iface:
		bv, ok := b.(Iface)
		if !ok {
			panic(unsupported("cmp operands"))
		}
		if av.t == nil || bv.t == nil {
			return x.Bool(av.t == nil && bv.t == nil)
		}
		if canon(av.t) != canon(bv.t) {
			return x.False
		}
		return th.cmpEqual(av.v, bv.v, av.t, o, depth+1)
	case Struct:
		bv := b.(Struct)
		st := t.Underlying().(*types.Struct)
		r := x.True
		for i := range av {
			skip := false
			for _, ig := range o.ignore {
				if canon(t) == ig.t && ig.f[st.Field(i).Name()] {
					skip = true
				}
			}
			if skip {
				continue
			}
			r = x.And(r, th.cmpEqual(av[i], bv[i], st.Field(i).Type(), o, depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		bv := b.(Array)
		r := x.True
		et := t.Underlying().(*types.Array).Elem()
		for i := range av {
			r = x.And(r, th.cmpEqual(av[i], bv[i], et, o, depth+1))
		}
		return r
	case Slice:
		bv := b.(Slice)
		if o.empty && len(av) == 0 && len(bv) == 0 {
			return x.True
		}
		if (av == nil) != (bv == nil) || len(av) != len(bv) {
			return x.False
		}
		r := x.True
		et := t.Underlying().(*types.Slice).Elem()
		for i := range av {
			if th.w.race {
				th.access(&av[i], false)
				th.access(&bv[i], false)
			}
			r = x.And(r, th.cmpEqual(av[i], bv[i], et, o, depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Value:
		bv := th.ptr(b)
		if av == bv {
			return x.True
		}
		if av == nil || bv == nil {
			return x.False
		}
		return th.cmpEqual(th.load(av), th.load(bv), t.Underlying().(*types.Pointer).Elem(), o, depth+1)
	case *MapObj:
		bv := b.(*MapObj)
		if (av == nil) != (bv == nil) {
			return x.False
		}
		if av == nil || av == bv {
			return x.True
		}
		if av.n != bv.n {
			return x.False
		}
		r := x.True
		et := t.Underlying().(*types.Map).Elem()
		for _, e := range av.ents {
			if e.dead {
				continue
			}
			v, ok := th.mapGet(bv, e.k)
			if !ok {
				return x.False
			}
			r = x.And(r, th.cmpEqual(e.v, v, et, o, depth+1))
		}
		return r
	case *Closure:
		bv := b.(*Closure)
		return x.Bool(av == nil && bv == nil)
	}
	return th.eqVal(a, b)
}

// reprint deep-copies a value the way github.com/qdm12/reprint does.
func (th *Thread) reprint(v Value) Value {
	switch v := v.(type) {
	case Slice:
		if v == nil {
			return v
		}
		out := make(Slice, 0, growReprint(len(v)))
		for i := range v {
			if th.w.race {
				th.access(&v[i], false)
			}
			out = append(out, th.reprint(v[i]))
		}
		c := out[len(out):cap(out)]
		for i := range c {
			if len(v) > 0 {
				c[i] = zeroLike(v[0])
			}
		}
		return out
	case *Value:
		if v == nil {
			return v
		}
		if th.p.host == nil {
			return v
		}
		th.depth++
		if th.depth > 2500 {
			if th.w.base == 0 {
				th.w.e.report(th.mkViolation("hang", "does-not-end", "copying a value that contains itself"))
			}
			panic(pathEnd{endBudget, "reprint depth"})
		}
		c := newCell(th.reprint(th.load(v)))
		th.depth--
		return c
	case Struct:
		c := make(Struct, len(v))
		for i := range v {
			c[i] = th.reprint(v[i])
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i := range v {
			c[i] = th.reprint(v[i])
		}
		return c
	case *MapObj:
		if v == nil {
			return v
		}
		m := newMap()
		for _, e := range v.ents {
			if !e.dead {
				th.mapSet(m, e.k, th.reprint(e.v))
			}
		}
		return m
	case *SymAddr:
		return th.reprint(th.ptr(v))
	}
	return v
}

// growReprint is the capacity reflect.Append reaches when n pointer-sized elements are appended one by one.
func growReprint(n int) int {
	c := 0
	for i := 1; i <= n; i++ {
		if i > c {
			c = growCap(c, i, 8)
		}
	}
	return c
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case *Value:
		return (*Value)(nil)
	case string, *SymStr:
		return ""
	case uint64:
		return uint64(0)
	case bool:
		return false
	case Iface:
		return Iface{}
	case Slice:
		return Slice(nil)
	case Struct:
		c := make(Struct, len(v))
		for i := range v {
			c[i] = zeroLike(v[i])
		}
		return c
	case *MapObj:
		return (*MapObj)(nil)
	case *Term:
		if v.w == 0 {
			return false
		}
		return uint64(0)
	}
	return v
}
