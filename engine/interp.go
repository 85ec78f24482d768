package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"runtime"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Intrinsic replaces a function of the program by a host implementation.
type Intrinsic func(th *Thread, fn *Fn, args []Value) Value

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

type methKey struct {
	t types.Type
	m *types.Func
}

// Worker owns one interpreter instance: a base heap (globals after package
// initialisation), term context and solver.  Paths run on it one after another.
type Worker struct {
	race    bool
	id      int
	e       *Explorer
	prog    *ssa.Program
	ctx     *Ctx
	solver  *Solver
	cross   *Solver
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	base    int // >0: initialising packages, no undo log
	log     []undoRec
	meths   map[methKey]*Fn
	host    map[string]any // caches of intrinsics
	p       *Path
	qcache  map[string]qres
	satCach map[*Term][4]uint64
	rtErr   types.Type
	covered map[*Fn]bool
	initErr map[string]string
}

type Frame struct {
	fn      *Fn
	regs    []Value
	defers  []*deferRec
	caller  *Frame
	panicV  *goPanic
	recov   bool
	result  Value
	isInit  bool
	curPos  token.Pos
	dstack  *Value
	named   bool
	recCall bool
}

type deferRec struct {
	ci   *CInstr
	fn   Value
	args []Value
	bi   *ssa.Builtin
}

type deferStack struct{ fr *Frame }

func (w *Worker) globalCell(g *ssa.Global) *Value {
	c, ok := w.globals[g]
	if !ok {
		c = newCell(zero(g.Type().Underlying().(*types.Pointer).Elem()))
		w.globals[g] = c
	}
	return c
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "syscall", "internal/runtime/atomic", "runtime/debug", "internal/cpu", "internal/godebug":
		return true
	}
	return strings.HasPrefix(path, "internal/runtime/")
}

func (th *Thread) global(g *ssa.Global) *Value {
	w := th.w
	if g.Pkg != nil && !w.inited[g.Pkg] {
		th.initPkg(g.Pkg)
	}
	return w.globalCell(g)
}

func (th *Thread) initPkg(pkg *ssa.Package) {
	w := th.w
	if w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	path := pkg.Pkg.Path()
	if skipInit(path) {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	w.base++
	saveSteps := th.p.steps
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.initErr[path] = fmt.Sprint(r)
			}
		}()
		c := w.fnFor(f)
		fr := th.fr
		th.fr = nil // or the call would be taken for that of an imported package
		defer func() { th.fr = fr }()
		th.callFn(c, nil, nil)
	}()
	th.p.steps = saveSteps
	w.base--
}

func (fr *Frame) get(th *Thread, o *Opnd) Value {
	switch o.kind {
	case oReg:
		return fr.regs[o.reg]
	case oConst:
		return o.v
	case oGlobal:
		return th.global(o.g)
	}
	panic(unsupported("operand " + o.b.Name()))
}

// set stores v at *p, in place for aggregates, remembering the old value.
func (th *Thread) store(p *Value, v Value) {
	if th.w.race {
		th.access(p, true)
	}
	th.set(p, v)
}

func (th *Thread) set(p *Value, v Value) {
	switch cur := (*p).(type) {
	case Struct:
		if nv, ok := v.(Struct); ok {
			for i := range cur {
				th.set(&cur[i], nv[i])
			}
			return
		}
	case Array:
		if nv, ok := v.(Array); ok {
			for i := range cur {
				th.set(&cur[i], nv[i])
			}
			return
		}
	}
	if th.w.base == 0 {
		th.w.log = append(th.w.log, undoRec{p: p, old: *p})
	}
	switch v.(type) {
	case Struct, Array:
		v = copyVal(v)
	}
	*p = v
}

func (th *Thread) load(p *Value) Value {
	if th.w.race {
		th.access(p, false)
	}
	switch v := (*p).(type) {
	case Struct, Array:
		return copyVal(v)
	default:
		return v
	}
}

func (w *Worker) rollback() {
	for i := len(w.log) - 1; i >= 0; i-- {
		u := &w.log[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	if cap(w.log) > 1<<20 {
		w.log = nil
	}
	w.log = w.log[:0]
}

func (w *Worker) runtimeErrType() types.Type {
	if w.rtErr == nil {
		w.rtErr = types.Typ[types.String]
		if p := w.prog.ImportedPackage("runtime"); p != nil {
			if t := p.Type("errorString"); t != nil {
				w.rtErr = t.Type()
			}
		}
		w.rtErr = canon(w.rtErr)
	}
	return w.rtErr
}

func (th *Thread) rtPanic(msg string) {
	panic(&goPanic{v: Iface{th.w.runtimeErrType(), msg}, where: th.where()})
}

func (th *Thread) where() string {
	var parts []string
	for fr := th.fr; fr != nil && len(parts) < 12; fr = fr.caller {
		pos := ""
		if fr.curPos.IsValid() {
			p := th.w.prog.Fset.Position(fr.curPos)
			f := p.Filename
			if i := strings.LastIndex(f, "/"); i >= 0 {
				if j := strings.LastIndex(f[:i], "/"); j >= 0 {
					f = f[j+1:]
				}
			}
			pos = fmt.Sprintf("@%s:%d", f, p.Line)
		}
		parts = append(parts, fr.fn.name+pos)
	}
	return strings.Join(parts, " < ")
}

func (th *Thread) ptr(v Value) *Value {
	switch v := v.(type) {
	case *Value:
		return v
	case *SymAddr:
		i := th.concretize(v.idx)
		return &v.elems[i]
	case *Poison:
		panic(unsupported("poisoned pointer: " + v.why))
	case UPtr:
		return th.ptr(v.v)
	case nil:
		return nil
	}
	panic(unsupported(fmt.Sprintf("pointer value is %T", v)))
}

// callFn runs fn with the given arguments and captured variables.
func (th *Thread) callFn(fn *Fn, args []Value, env []Value) Value {
	if fn.intr != nil {
		return fn.intr(th, fn, args)
	}
	return th.callBody(fn, args, env)
}

// callBody interprets the function's own code even when an intrinsic exists.
func (th *Thread) callBody(fn *Fn, args []Value, env []Value) Value {
	w := th.w
	if fn.fn.Synthetic == "package initializer" && th.fr != nil && th.fr.isInit {
		return nil
	}
	if !fn.ready {
		w.compile(fn)
	}
	if fn.blocks == nil {
		panic(unsupported("no body: " + fn.name))
	}
	if !fn.skip {
		fn.skip = true
		w.covered[fn] = true
	}
	th.depth++
	if th.depth > 3000 {
		if th.w.base == 0 {
			th.w.e.report(th.mkViolation("hang", "does-not-end", "calls nested too deeply, in "+fn.name))
		}
		panic(pathEnd{endBudget, "call depth: " + fn.name})
	}
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs), caller: th.fr}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], env)
	fr.isInit = fn.fn.Synthetic == "package initializer"
	th.fr = fr
	var res Value
	if fn.hasDef {
		res = th.runDeferring(fr)
	} else {
		res = th.run(fr, 0)
	}
	th.fr = fr.caller
	th.depth--
	return res
}

func (th *Thread) runDeferring(fr *Frame) (res Value) {
	depth := th.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		th.fr = fr
		th.depth = depth
		fr.panicV = gp
		th.runDefers(fr)
		// recovered
		if fr.fn.recover != nil {
			res = th.runBlock(fr, fr.fn.recover, -1)
		} else {
			res = zero(fr.fn.fn.Signature.Results())
		}
	}()
	return th.run(fr, 0)
}

// runDefers executes the deferred calls; on return with fr.panicV set it re-panics.
func (th *Thread) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := th.depth
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					th.fr = fr
					th.depth = depth
					fr.panicV = gp
				}
			}()
			if d.bi != nil {
				th.builtin(fr, d.ci, d.bi, d.args)
			} else {
				th.callDeferred(d.fn, d.args)
			}
		}()
	}
	if fr.panicV != nil {
		p := fr.panicV
		panic(p)
	}
}

func (th *Thread) callDeferred(f Value, args []Value) {
	th.callValue(f, args)
}

func (th *Thread) callValue(f Value, args []Value) Value {
	switch c := f.(type) {
	case *Closure:
		if c == nil {
			th.rtPanic("invalid memory address or nil pointer dereference")
		}
		return th.callFn(c.fn, args, c.env)
	case *HostObj:
		if h, ok := c.v.(func(th *Thread, args []Value) Value); ok {
			return h(th, args)
		}
	case *Poison:
		panic(unsupported("call of poisoned function: " + c.why))
	}
	panic(unsupported(fmt.Sprintf("call of %T", f)))
}

func (th *Thread) run(fr *Frame, start int) Value {
	return th.runBlock(fr, fr.fn.blocks[start], -1)
}

const stepCheck = 1 << 12

// runBlock interprets from block b, entered from predecessor block index pred.
func (th *Thread) runBlock(fr *Frame, b *Block, pred int) Value {
	blocks := fr.fn.blocks
	var curIdx int
	if pred < 0 {
		for i, x := range blocks {
			if x == b {
				curIdx = i
			}
		}
	}
	p := th.p
	phisDone := false
	for {
		if len(b.phis) > 0 && !phisDone {
			th.enterPhis(fr, b, pred)
		}
		phisDone = false
		p.steps += int64(len(b.ins))
		if p.steps > p.maxSteps && th.w.base == 0 {
			// it may never end: the native run tells
			th.w.e.report(th.mkViolation("hang", "does-not-end", "not finished after "+fmt.Sprint(p.maxSteps)+" instructions, in "+fr.fn.name))
			panic(pathEnd{endBudget, "instruction budget exceeded in " + fr.fn.name})
		}
		next := -1
		for i := range b.ins {
			ci := &b.ins[i]
			switch ci.op {
			case iJump:
				next = b.succs[0]
			case iIf:
				c := fr.get(th, &ci.x)
				switch c := c.(type) {
				case bool:
					if c {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
				case *Term:
					fr.curPos = ci.ins.Pos()
					e := th.symIf(fr, curIdx, c)
					// e.vals: phi values already computed
					if e.vals != nil {
						tb := blocks[e.target]
						for k := range tb.phis {
							fr.regs[tb.phis[k].dst] = e.vals[k]
						}
						phisDone = true
					}
					next = e.target
					curIdx = e.pred
				case *Poison:
					panic(unsupported("branch on poison: " + c.why))
				default:
					panic(unsupported(fmt.Sprintf("branch on %T", c)))
				}
			case iReturn:
				switch len(ci.args) {
				case 0:
					return nil
				case 1:
					return fr.get(th, &ci.args[0])
				}
				t := make(Tuple, len(ci.args))
				for k := range ci.args {
					t[k] = fr.get(th, &ci.args[k])
				}
				return t
			case iPanic:
				v := fr.get(th, &ci.x)
				fr.curPos = ci.ins.Pos()
				panic(&goPanic{v: v, where: th.where()})
			default:
				if fr.isInit {
					th.execInit(fr, ci)
				} else {
					th.exec(fr, ci)
				}
			}
		}
		if next < 0 {
			panic(unsupported("fell off block in " + fr.fn.name))
		}
		pred = curIdx
		curIdx = next
		b = blocks[next]
	}
}

func (th *Thread) execInit(fr *Frame, ci *CInstr) {
	depth := th.depth
	defer func() {
		if r := recover(); r != nil {
			why := ""
			switch r := r.(type) {
			case pathEnd:
				if r.kind != endUnsupported && r.kind != endBudget {
					panic(r)
				}
				why = r.why
			case *goPanic:
				why = "panic: " + r.String()
			case runtime.Error:
				why = "engine: " + r.Error()
			default:
				panic(r)
			}
			th.fr = fr
			th.depth = depth
			if ci.dst >= 0 {
				fr.regs[ci.dst] = &Poison{why}
			}
			th.w.initErr[fr.fn.name+":"+ci.ins.String()] = why
		}
	}()
	th.exec(fr, ci)
}

func (th *Thread) enterPhis(fr *Frame, b *Block, pred int) {
	e := -1
	for i, q := range b.preds {
		if q == pred {
			e = i
			break
		}
	}
	if e < 0 {
		panic(unsupported("phi without edge"))
	}
	if len(b.phis) == 1 {
		ph := &b.phis[0]
		fr.regs[ph.dst] = fr.get(th, &ph.edges[e])
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range b.phis {
		vals = append(vals, fr.get(th, &b.phis[i].edges[e]))
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = vals[i]
	}
}

func (th *Thread) nilDeref() {
	th.rtPanic("invalid memory address or nil pointer dereference")
}

func (th *Thread) exec(fr *Frame, ci *CInstr) {
	switch ci.op {
	case iAlloc:
		fr.regs[ci.dst] = newCell(zero(ci.t))
	case iDeref:
		a := fr.get(th, &ci.x)
		switch a := a.(type) {
		case *Value:
			if a == nil {
				fr.curPos = ci.ins.Pos()
				th.nilDeref()
			}
			fr.regs[ci.dst] = th.load(a)
		case *SymAddr:
			fr.regs[ci.dst] = th.loadSym(a)
		default:
			fr.regs[ci.dst] = th.load(th.ptr(a))
		}
	case iStore:
		a := fr.get(th, &ci.x)
		ap, ok := a.(*Value)
		if !ok {
			ap = th.ptr(a)
		}
		if ap == nil {
			fr.curPos = ci.ins.Pos()
			th.nilDeref()
		}
		th.store(ap, fr.get(th, &ci.y))
	case iFieldAddr:
		a := fr.get(th, &ci.x)
		ap, ok := a.(*Value)
		if !ok {
			ap = th.ptr(a)
		}
		if ap == nil {
			fr.curPos = ci.ins.Pos()
			th.nilDeref()
		}
		s, ok := (*ap).(Struct)
		if !ok {
			if po, isP := (*ap).(*Poison); isP {
				panic(unsupported("field of poison: " + po.why))
			}
			panic(unsupported(fmt.Sprintf("field of %T in %s", *ap, fr.fn.name)))
		}
		fr.regs[ci.dst] = &s[ci.n]
	case iField:
		s := fr.get(th, &ci.x).(Struct)
		fr.regs[ci.dst] = s[ci.n]
	case iBin:
		fr.curPos = ci.ins.Pos()
		fr.regs[ci.dst] = th.binop(ci, fr.get(th, &ci.x), fr.get(th, &ci.y))
	case iNot:
		switch v := fr.get(th, &ci.x).(type) {
		case bool:
			fr.regs[ci.dst] = !v
		case *Term:
			fr.regs[ci.dst] = norm(th.w.ctx.Not(v))
		}
	case iNeg:
		switch v := fr.get(th, &ci.x).(type) {
		case uint64:
			fr.regs[ci.dst] = (-v) & maskw(ci.w)
		case float64:
			fr.regs[ci.dst] = -v
		case *Term:
			fr.regs[ci.dst] = norm(th.w.ctx.Bin(OpSub, th.w.ctx.BV(0, ci.w), v))
		default:
			panic(unsupported("neg"))
		}
	case iCompl:
		switch v := fr.get(th, &ci.x).(type) {
		case uint64:
			fr.regs[ci.dst] = (^v) & maskw(ci.w)
		case *Term:
			fr.regs[ci.dst] = norm(th.w.ctx.BNot(v))
		}
	case iCall:
		fr.curPos = ci.ins.Pos()
		fr.regs[ci.dst] = th.execCall(fr, ci)
	case iChangeIface, iChangeType:
		fr.regs[ci.dst] = fr.get(th, &ci.x)
	case iConvert:
		fr.regs[ci.dst] = th.convert(fr.get(th, &ci.x), ci.t, ci.t2)
	case iExtract:
		switch t := fr.get(th, &ci.x).(type) {
		case Tuple:
			fr.regs[ci.dst] = t[ci.n]
		case *Poison:
			fr.regs[ci.dst] = t
		default:
			panic(unsupported(fmt.Sprintf("extract from %T", t)))
		}
	case iMakeInterface:
		v := fr.get(th, &ci.x)
		switch v.(type) {
		case Struct, Array:
			v = copyVal(v)
		}
		fr.regs[ci.dst] = Iface{ci.t, v}
	case iMakeClosure:
		c := &Closure{fn: ci.fn}
		for i := range ci.args {
			c.env = append(c.env, fr.get(th, &ci.args[i]))
		}
		fr.regs[ci.dst] = c
	case iMakeMap:
		m := newMap()
		m.base = th.w.base > 0
		fr.regs[ci.dst] = m
	case iMakeChan:
		n := th.toInt(fr.get(th, &ci.x))
		fr.regs[ci.dst] = &Chan{cap: n}
	case iMakeSlice:
		n := th.toInt(fr.get(th, &ci.x))
		c := th.toInt(fr.get(th, &ci.y))
		if n < 0 || n > c || c > 1<<24 {
			fr.curPos = ci.ins.Pos()
			th.rtPanic("makeslice: len out of range")
		}
		s := make(Slice, n, c)
		fillZero(s[:c], ci.t)
		fr.regs[ci.dst] = s
	case iSlice:
		fr.curPos = ci.ins.Pos()
		th.execSlice(fr, ci)
	case iSliceToArrayPtr:
		s := fr.get(th, &ci.x).(Slice)
		n := int(ci.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			th.rtPanic("slice to array pointer: length out of range")
		}
		fr.regs[ci.dst] = newCell(Array(s[:n:n]))
	case iIndexAddr:
		fr.curPos = ci.ins.Pos()
		x := fr.get(th, &ci.x)
		var elems []Value
		switch x := x.(type) {
		case Slice:
			elems = x
		case *Value:
			if x == nil {
				th.nilDeref()
			}
			elems = (*x).(Array)
		case *Poison:
			panic(unsupported("index of poison: " + x.why))
		default:
			elems = (*th.ptr(x)).(Array)
		}
		switch i := fr.get(th, &ci.y).(type) {
		case uint64:
			var si int64
			if ci.sgn {
				si = sext(i, ci.w)
			} else if i > 1<<62 {
				si = -1
			} else {
				si = int64(i)
			}
			if si < 0 || si >= int64(len(elems)) {
				th.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", si, len(elems)))
			}
			fr.regs[ci.dst] = &elems[si]
		case *Term:
			idx := th.boundIndex(i, len(elems), ci.sgn)
			if len(elems) == 1 {
				fr.regs[ci.dst] = &elems[0]
			} else {
				fr.regs[ci.dst] = &SymAddr{elems, idx, elemWidth(ci.t)}
			}
		}
	case iIndex:
		fr.curPos = ci.ins.Pos()
		fr.regs[ci.dst] = th.index(fr.get(th, &ci.x), fr.get(th, &ci.y), ci.w, ci.sgn, elemWidth(ci.t))
	case iLookup:
		fr.curPos = ci.ins.Pos()
		x := fr.get(th, &ci.x)
		switch m := x.(type) {
		case *MapObj:
			v, ok := th.mapGet(m, fr.get(th, &ci.y))
			if !ok {
				v = zero(ci.t2)
			} else {
				v = copyVal(v)
			}
			if ci.ok {
				fr.regs[ci.dst] = Tuple{v, ok}
			} else {
				fr.regs[ci.dst] = v
			}
		case *Poison:
			panic(unsupported("lookup in poison: " + m.why))
		default:
			fr.regs[ci.dst] = th.index(x, fr.get(th, &ci.y), ci.w, ci.sgn, 8)
		}
	case iMapUpdate:
		fr.curPos = ci.ins.Pos()
		m, isM := fr.get(th, &ci.x).(*MapObj)
		if !isM {
			panic(unsupported("update of poisoned map"))
		}
		if m == nil {
			th.rtPanic("assignment to entry in nil map")
		}
		th.mapSet(m, fr.get(th, &ci.y), copyVal(fr.get(th, &ci.z)))
	case iRange:
		fr.regs[ci.dst] = th.makeIter(fr, fr.get(th, &ci.x))
	case iNext:
		fr.regs[ci.dst] = th.iterNext(fr.get(th, &ci.x), ci)
	case iTypeAssert:
		fr.curPos = ci.ins.Pos()
		fr.regs[ci.dst] = th.typeAssert(fr.get(th, &ci.x), ci.t, ci.ok)
	case iGo:
		fr.curPos = ci.ins.Pos()
		th.execGo(fr, ci)
	case iDefer:
		d := &deferRec{ci: ci, bi: ci.bi}
		for i := range ci.args {
			d.args = append(d.args, fr.get(th, &ci.args[i]))
		}
		if ci.bi == nil {
			f, recv := th.callee(fr, ci)
			d.fn = f
			if recv != nil {
				d.args = append([]Value{recv}, d.args...)
			}
		}
		target := fr
		if ci.ok {
			if ds, ok := fr.get(th, &ci.z).(*HostObj); ok {
				target = ds.v.(*Frame)
			}
		}
		target.defers = append(target.defers, d)
	case iRunDefers:
		th.runDefers(fr)
	case iSend:
		fr.curPos = ci.ins.Pos()
		th.chanSend(fr.get(th, &ci.x), fr.get(th, &ci.y))
	case iRecv:
		fr.curPos = ci.ins.Pos()
		v, ok := th.chanRecv(fr.get(th, &ci.x))
		if !ok {
			v = zero(ci.t)
		}
		if ci.ok {
			fr.regs[ci.dst] = Tuple{v, ok}
		} else {
			fr.regs[ci.dst] = v
		}
	case iSelect:
		fr.curPos = ci.ins.Pos()
		fr.regs[ci.dst] = th.execSelect(fr, ci)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ci.ins)))
	}
}

func fillZero(s []Value, t types.Type) {
	if len(s) == 0 {
		return
	}
	z := zero(t)
	switch z.(type) {
	case Struct, Array:
		s[0] = z
		for i := 1; i < len(s); i++ {
			s[i] = zero(t)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

// boundIndex checks 0<=i<n and returns the index as a term.
func (th *Thread) boundIndex(i *Term, n int, sgn bool) *Term {
	x := th.w.ctx
	w := i.w
	var inb *Term
	if uint64(n) > maskw(w) {
		inb = x.True
		if sgn {
			inb = x.Not(x.Bin(OpSLt, i, x.BV(0, w)))
		}
	} else {
		inb = x.Bin(OpULt, i, x.BV(uint64(n), w))
	}
	if !th.branch(inb) {
		th.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return i
}

func elemWidth(t types.Type) int {
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			e = a.Elem()
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return 8
		}
	}
	if e == nil {
		return -1
	}
	if b, ok := e.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return 0
	}
	if w, _, ok := basicInfo(e); ok {
		return int(w)
	}
	return -1
}

// iteTable reads a table of scalars at a symbolic index as one ite term.
func (th *Thread) iteTable(elems []Value, idx *Term, ew int) (Value, bool) {
	x := th.w.ctx
	if ew < 0 || len(elems) == 0 || len(elems) > 1024 {
		return nil, false
	}
	w := uint8(ew)
	counts := map[Value]int{}
	for _, e := range elems {
		switch e.(type) {
		case bool, uint64, *Term:
			counts[e]++
		default:
			return nil, false
		}
	}
	var def Value
	best := -1
	for _, e := range elems {
		if counts[e] > best {
			best = counts[e]
			def = e
		}
	}
	groups := map[Value]*Term{}
	var order []Value
	for i, e := range elems {
		if e == def {
			continue
		}
		c := x.Eq(idx, x.BV(uint64(i), idx.w))
		if g, ok := groups[e]; ok {
			groups[e] = x.Or(g, c)
		} else {
			groups[e] = c
			order = append(order, e)
		}
	}
	r := x.term(def, w)
	for i := len(order) - 1; i >= 0; i-- {
		r = x.Ite(groups[order[i]], x.term(order[i], w), r)
	}
	return norm(r), true
}

func (th *Thread) loadSym(a *SymAddr) Value {
	if !th.w.race {
		if v, ok := th.iteTable(a.elems, a.idx, a.w); ok {
			return v
		}
	}
	return th.load(th.ptr(a))
}

func (th *Thread) index(x, i Value, w uint8, sgn bool, ew int) Value {
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(s)
		switch i := i.(type) {
		case uint64:
			si := int64(i)
			if sgn {
				si = sext(i, w)
			}
			if si < 0 || si >= int64(n) {
				th.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", si, n))
			}
			if h, ok := s.(string); ok {
				return uint64(h[si])
			}
			return norm(s.(*SymStr).b[si])
		case *Term:
			idx := th.boundIndex(i, n, sgn)
			ts := th.w.ctx.strTerms(s)
			elems := make([]Value, n)
			for k := range ts {
				elems[k] = ts[k]
			}
			if v, ok := th.iteTable(elems, idx, 8); ok {
				return v
			}
			return norm(ts[th.concretize(idx)])
		}
	case Array:
		switch i := i.(type) {
		case uint64:
			si := int64(i)
			if sgn {
				si = sext(i, w)
			}
			if si < 0 || si >= int64(len(s)) {
				th.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", si, len(s)))
			}
			return copyVal(s[si])
		case *Term:
			idx := th.boundIndex(i, len(s), sgn)
			if v, ok := th.iteTable(s, idx, ew); ok {
				return v
			}
			return copyVal(s[th.concretize(idx)])
		}
	}
	panic(unsupported(fmt.Sprintf("index of %T", x)))
}

func (th *Thread) execSlice(fr *Frame, ci *CInstr) {
	x := fr.get(th, &ci.x)
	get := func(k int, bit int, def int) int {
		if ci.n&bit == 0 {
			return def
		}
		return th.toInt(fr.get(th, &ci.args[k]))
	}
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(s)
		lo := get(0, 1, 0)
		hi := get(1, 2, n)
		if lo < 0 || hi < lo || hi > n {
			th.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		fr.regs[ci.dst] = strSlice(s, lo, hi)
		return
	case Slice:
		n := len(s)
		lo := get(0, 1, 0)
		hi := get(1, 2, n)
		mx := get(2, 4, cap(s))
		if lo < 0 || hi < lo || hi > mx || mx > cap(s) {
			th.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
		}
		if s == nil {
			fr.regs[ci.dst] = Slice(nil)
			return
		}
		fr.regs[ci.dst] = s[lo:hi:mx]
		return
	}
	a := th.ptr(x)
	if a == nil {
		th.nilDeref()
	}
	arr := (*a).(Array)
	n := len(arr)
	lo := get(0, 1, 0)
	hi := get(1, 2, n)
	mx := get(2, 4, n)
	if lo < 0 || hi < lo || hi > mx || mx > n {
		th.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, n))
	}
	fr.regs[ci.dst] = Slice(arr[lo:hi:mx])
}

// toInt makes an int concrete (forking over its values when symbolic).
func (th *Thread) toInt(v Value) int {
	switch v := v.(type) {
	case uint64:
		return int(int64(v))
	case *Term:
		return int(sext(th.concretize(v), v.w))
	case *Poison:
		panic(unsupported("poisoned int: " + v.why))
	}
	panic(unsupported(fmt.Sprintf("int value is %T", v)))
}

func (th *Thread) callee(fr *Frame, ci *CInstr) (f Value, recv Value) {
	if ci.call.IsInvoke() {
		iv, ok := fr.get(th, &ci.x).(Iface)
		if !ok {
			panic(unsupported("invoke on poison"))
		}
		if iv.t == nil {
			th.nilDeref()
		}
		return &Closure{fn: th.method(iv.t, ci.call.Method)}, iv.v
	}
	if ci.fn != nil {
		return &Closure{fn: ci.fn}, nil
	}
	return fr.get(th, &ci.x), nil
}

func (th *Thread) method(t types.Type, m *types.Func) *Fn {
	w := th.w
	k := methKey{t, m}
	if f, ok := w.meths[k]; ok {
		return f
	}
	sf := w.prog.LookupMethod(t, m.Pkg(), m.Name())
	if sf == nil {
		panic(unsupported(fmt.Sprintf("method %s of %v", m.Name(), t)))
	}
	f := w.fnFor(sf)
	w.meths[k] = f
	return f
}

func (th *Thread) execCall(fr *Frame, ci *CInstr) Value {
	if ci.bi != nil {
		args := make([]Value, len(ci.args))
		for i := range ci.args {
			args[i] = fr.get(th, &ci.args[i])
		}
		return th.builtin(fr, ci, ci.bi, args)
	}
	if ci.call.IsInvoke() {
		iv, ok := fr.get(th, &ci.x).(Iface)
		if !ok {
			panic(unsupported("invoke " + ci.call.Method.Name() + " on poison"))
		}
		if iv.t == nil {
			th.nilDeref()
		}
		f := th.method(iv.t, ci.call.Method)
		args := make([]Value, len(ci.args)+1)
		args[0] = iv.v
		for i := range ci.args {
			args[i+1] = fr.get(th, &ci.args[i])
		}
		return th.callFn(f, args, nil)
	}
	args := make([]Value, len(ci.args))
	for i := range ci.args {
		args[i] = fr.get(th, &ci.args[i])
	}
	if ci.fn != nil {
		return th.callFn(ci.fn, args, nil)
	}
	return th.callValue(fr.get(th, &ci.x), args)
}

// ---- type assertions ----

func (th *Thread) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

type taKey struct{ a, b types.Type }

func (th *Thread) typeAssert(v Value, t types.Type, commaOk bool) Value {
	iv, isI := v.(Iface)
	if !isI {
		if po, ok := v.(*Poison); ok {
			panic(unsupported("assert on poison: " + po.why))
		}
		panic(unsupported(fmt.Sprintf("type assert on %T", v)))
	}
	ok := false
	var res Value
	if it, isIf := t.Underlying().(*types.Interface); isIf {
		if iv.t != nil {
			k := taKey{iv.t, t}
			c, hit := th.w.e.taCache.Load(k)
			if hit {
				ok = c.(bool)
			} else {
				ok = th.implements(iv.t, it)
				th.w.e.taCache.Store(k, ok)
			}
		}
		if ok {
			res = iv
		} else {
			res = Iface{}
		}
	} else {
		ok = iv.t != nil && canon(iv.t) == t
		if ok {
			res = copyVal(iv.v)
		} else {
			res = zero(t)
		}
	}
	if commaOk {
		return Tuple{res, ok}
	}
	if !ok {
		th.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", iv.t, t))
	}
	return res
}

// ---- operators ----

func (th *Thread) binop(ci *CInstr, a, b Value) Value {
	x := th.w.ctx
	switch ci.cls {
	case 0: // integers
		if ua, ok := a.(uint64); ok {
			if ub, ok := b.(uint64); ok {
				return th.intOp(ci, ua, ub)
			}
		}
		if ci.tok == token.SHL || ci.tok == token.SHR {
			ta := x.term(a, ci.w)
			tb := x.term(b, uint8(ci.n))
			if ci.ok { // signed count
				if th.branch(x.Bin(OpSLt, tb, x.BV(0, tb.w))) {
					th.rtPanic("negative shift amount")
				}
			}
			// saturate the count
			var cnt *Term
			if tb.w > ci.w {
				big := x.Bin(OpULe, x.BV(uint64(ci.w), tb.w), tb)
				cnt = x.Ite(big, x.BV(uint64(ci.w), ci.w), x.Conv(tb, ci.w, false))
			} else {
				cnt = x.Conv(tb, ci.w, false)
			}
			op := OpShl
			if ci.tok == token.SHR {
				op = OpLShr
				if ci.sgn {
					op = OpAShr
				}
			}
			return norm(x.Bin(op, ta, cnt))
		}
		ta, tb := x.term(a, ci.w), x.term(b, ci.w)
		switch ci.tok {
		case token.ADD:
			return norm(x.Bin(OpAdd, ta, tb))
		case token.SUB:
			return norm(x.Bin(OpSub, ta, tb))
		case token.MUL:
			return norm(x.Bin(OpMul, ta, tb))
		case token.QUO, token.REM:
			if th.branch(x.Eq(tb, x.BV(0, ci.w))) {
				th.rtPanic("integer divide by zero")
			}
			var op Op
			switch {
			case ci.tok == token.QUO && ci.sgn:
				op = OpSDiv
			case ci.tok == token.QUO:
				op = OpUDiv
			case ci.sgn:
				op = OpSRem
			default:
				op = OpURem
			}
			return norm(x.Bin(op, ta, tb))
		case token.AND:
			return norm(x.Bin(OpBAnd, ta, tb))
		case token.OR:
			return norm(x.Bin(OpBOr, ta, tb))
		case token.XOR:
			return norm(x.Bin(OpBXor, ta, tb))
		case token.AND_NOT:
			return norm(x.Bin(OpBAnd, ta, x.BNot(tb)))
		case token.EQL:
			return norm(x.Eq(ta, tb))
		case token.NEQ:
			return norm(x.Not(x.Eq(ta, tb)))
		}
		lt, le := OpULt, OpULe
		if ci.sgn {
			lt, le = OpSLt, OpSLe
		}
		switch ci.tok {
		case token.LSS:
			return norm(x.Bin(lt, ta, tb))
		case token.LEQ:
			return norm(x.Bin(le, ta, tb))
		case token.GTR:
			return norm(x.Bin(lt, tb, ta))
		case token.GEQ:
			return norm(x.Bin(le, tb, ta))
		}
	case 1:
		sa, oka := a.(string)
		sb, okb := b.(string)
		if oka && okb {
			switch ci.tok {
			case token.ADD:
				return sa + sb
			case token.EQL:
				return sa == sb
			case token.NEQ:
				return sa != sb
			case token.LSS:
				return sa < sb
			case token.LEQ:
				return sa <= sb
			case token.GTR:
				return sa > sb
			case token.GEQ:
				return sa >= sb
			}
		}
		switch ci.tok {
		case token.ADD:
			return x.strCat(a, b)
		case token.EQL:
			return norm(x.strEq(a, b))
		case token.NEQ:
			return norm(x.Not(x.strEq(a, b)))
		case token.LSS:
			return norm(x.strLess(a, b))
		case token.GTR:
			return norm(x.strLess(b, a))
		case token.LEQ:
			return norm(x.Not(x.strLess(b, a)))
		case token.GEQ:
			return norm(x.Not(x.strLess(a, b)))
		}
	case 2:
		fa, oka := a.(float64)
		fb, okb := b.(float64)
		if !oka || !okb {
			panic(unsupported("symbolic float"))
		}
		f32 := ci.t.Underlying().(*types.Basic).Kind() == types.Float32
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch ci.tok {
		case token.ADD:
			return r(fa + fb)
		case token.SUB:
			return r(fa - fb)
		case token.MUL:
			return r(fa * fb)
		case token.QUO:
			return r(fa / fb)
		case token.EQL:
			return fa == fb
		case token.NEQ:
			return fa != fb
		case token.LSS:
			return fa < fb
		case token.LEQ:
			return fa <= fb
		case token.GTR:
			return fa > fb
		case token.GEQ:
			return fa >= fb
		}
	case 3:
		ta, tb := x.term(a, 0), x.term(b, 0)
		switch ci.tok {
		case token.EQL:
			return norm(x.Eq(ta, tb))
		case token.NEQ:
			return norm(x.Not(x.Eq(ta, tb)))
		case token.AND, token.LAND:
			return norm(x.And(ta, tb))
		case token.OR, token.LOR:
			return norm(x.Or(ta, tb))
		}
	default:
		t := th.eqVal(a, b)
		switch ci.tok {
		case token.EQL:
			return norm(t)
		case token.NEQ:
			return norm(x.Not(t))
		}
	}
	panic(unsupported(fmt.Sprintf("operator %s on %v", ci.tok, ci.t)))
}

func (th *Thread) intOp(ci *CInstr, a, b uint64) Value {
	w := ci.w
	m := maskw(w)
	switch ci.tok {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO:
		if b == 0 {
			th.rtPanic("integer divide by zero")
		}
		if ci.sgn {
			sa, sb := sext(a, w), sext(b, w)
			if sb == -1 {
				return uint64(-sa) & m
			}
			return uint64(sa/sb) & m
		}
		return a / b
	case token.REM:
		if b == 0 {
			th.rtPanic("integer divide by zero")
		}
		if ci.sgn {
			sa, sb := sext(a, w), sext(b, w)
			if sb == -1 {
				return uint64(0)
			}
			return uint64(sa%sb) & m
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL:
		if ci.ok && sext(b, uint8(ci.n)) < 0 {
			th.rtPanic("negative shift amount")
		}
		if b >= uint64(w) {
			return uint64(0)
		}
		return (a << b) & m
	case token.SHR:
		if ci.ok && sext(b, uint8(ci.n)) < 0 {
			th.rtPanic("negative shift amount")
		}
		if ci.sgn {
			if b >= uint64(w) {
				b = uint64(w) - 1
			}
			return uint64(sext(a, w)>>b) & m
		}
		if b >= uint64(w) {
			return uint64(0)
		}
		return a >> b
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	}
	if ci.sgn {
		sa, sb := sext(a, w), sext(b, w)
		switch ci.tok {
		case token.LSS:
			return sa < sb
		case token.LEQ:
			return sa <= sb
		case token.GTR:
			return sa > sb
		case token.GEQ:
			return sa >= sb
		}
	}
	switch ci.tok {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsupported("int operator " + ci.tok.String()))
}

// eqVal builds the Go equality of two values of the same static type.
func (th *Thread) eqVal(a, b Value) *Term {
	x := th.w.ctx
	switch av := a.(type) {
	case bool, uint64, *Term:
		var w uint8
		if t, ok := a.(*Term); ok {
			w = t.w
		} else if t, ok := b.(*Term); ok {
			w = t.w
		} else {
			return x.Bool(a == b)
		}
		return x.Eq(x.term(a, w), x.term(b, w))
	case string, *SymStr:
		return x.strEq(a, b)
	case float64:
		return x.Bool(av == b.(float64))
	case *Value:
		bv, ok := b.(*Value)
		if !ok {
			bv = th.ptr(b)
		}
		return x.Bool(av == bv)
	case *SymAddr:
		return th.eqVal(th.ptr(av), b)
	case *Chan:
		return x.Bool(av == b.(*Chan))
	case *MapObj:
		return x.Bool(av == b.(*MapObj))
	case *Closure:
		return x.Bool(av == b.(*Closure))
	case Slice: // only comparable with nil
		bv := b.(Slice)
		return x.Bool((av == nil) == (bv == nil))
	case Iface:
		bv, ok := b.(Iface)
		if !ok {
			panic(unsupported("interface comparison with poison"))
		}
		if av.t == nil || bv.t == nil {
			return x.Bool(av.t == nil && bv.t == nil)
		}
		if canon(av.t) != canon(bv.t) {
			return x.False
		}
		switch av.v.(type) {
		case Slice, *MapObj, *Closure:
			if !types.Comparable(av.t) {
				th.rtPanic("comparing uncomparable type " + av.t.String())
			}
		}
		return th.eqVal(av.v, bv.v)
	case Struct:
		bv := b.(Struct)
		r := x.True
		for i := range av {
			r = x.And(r, th.eqVal(av[i], bv[i]))
		}
		return r
	case Array:
		bv := b.(Array)
		r := x.True
		for i := range av {
			r = x.And(r, th.eqVal(av[i], bv[i]))
		}
		return r
	case *HostObj:
		return x.Bool(a == b)
	case UPtr:
		bv := b.(UPtr)
		return x.Bool(av.v == bv.v)
	case *Poison:
		panic(unsupported("comparison of poison: " + av.why))
	}
	if a == nil && b == nil {
		return x.True
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (th *Thread) convert(v Value, from, to types.Type) Value {
	x := th.w.ctx
	if po, ok := v.(*Poison); ok {
		return po
	}
	uf, ut := from.Underlying(), to.Underlying()
	if types.Identical(uf, ut) {
		return v
	}
	fw, fs, fok := basicInfo(uf)
	tw, _, tok := basicInfo(ut)
	if fok && tok {
		switch v := v.(type) {
		case uint64:
			if fs {
				return uint64(sext(v, fw)) & maskw(tw)
			}
			return v & maskw(tw)
		case *Term:
			return norm(x.Conv(v, tw, fs))
		}
	}
	if bt, ok := ut.(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		var f float64
		switch v := v.(type) {
		case uint64:
			if fs {
				f = float64(sext(v, fw))
			} else {
				f = float64(v)
			}
		case float64:
			f = v
		default:
			panic(unsupported("symbolic float conversion"))
		}
		if bt.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	if f, ok := v.(float64); ok && tok {
		_, ts, _ := basicInfo(ut)
		if ts {
			return uint64(int64(f)) & maskw(tw)
		}
		if f >= math.MaxInt64 {
			return uint64(f) & maskw(tw)
		}
		return uint64(int64(f)) & maskw(tw)
	}
	if isString(ut) {
		if fok { // integer to string
			return th.runeToStr(v, fw, fs)
		}
		switch s := v.(type) {
		case string, *SymStr:
			return v
		case Slice:
			el := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				ts := make([]*Term, len(s))
				for i := range s {
					ts[i] = x.term(s[i], 8)
				}
				return mkStr(ts)
			}
			var out Value = ""
			for i := range s {
				out = x.strCat(out, th.runeToStr(s[i], 32, true))
			}
			return out
		}
	}
	if sl, ok := ut.(*types.Slice); ok && isString(uf) {
		el := sl.Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Uint8 {
			ts := x.strTerms(v)
			out := make(Slice, len(ts))
			for i := range ts {
				out[i] = norm(ts[i])
			}
			return out
		}
		out := Slice{}
		n := strLen(v)
		for i := 0; i < n; {
			r, sz := th.decodeRune(v, i)
			out = append(out, r)
			i += sz
		}
		return out[:len(out):len(out)]
	}
	if bt, ok := ut.(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
		return UPtr{v}
	}
	if u, ok := v.(UPtr); ok {
		if u.v == nil {
			return zero(to)
		}
		if _, isP := ut.(*types.Pointer); isP {
			return u.v
		}
	}
	panic(unsupported(fmt.Sprintf("conversion %v -> %v", from, to)))
}

func (th *Thread) runeToStr(v Value, w uint8, sgn bool) Value {
	x := th.w.ctx
	switch r := v.(type) {
	case uint64:
		var s int64
		if sgn {
			s = sext(r, w)
		} else {
			s = int64(r)
		}
		if s < 0 || s > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(s))
	case *Term:
		if th.branch(x.Bin(OpULt, r, x.BV(0x80, r.w))) {
			return mkStr([]*Term{x.Conv(r, 8, false)})
		}
		f := th.w.findFunc("unicode/utf8", "AppendRune")
		out := th.callFn(f, []Value{Slice(nil), norm(x.Conv(r, 32, sgn))}, nil).(Slice)
		ts := make([]*Term, len(out))
		for i := range out {
			ts[i] = x.term(out[i], 8)
		}
		return mkStr(ts)
	}
	panic(unsupported("rune to string"))
}

// decodeRune decodes the rune at byte i.
func (th *Thread) decodeRune(s Value, i int) (Value, int) {
	x := th.w.ctx
	if h, ok := s.(string); ok {
		for n, r := range h[i:] {
			_ = n
			sz := 1
			if r >= 0x80 {
				sz = len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(h[i:], "\uFFFD") {
					sz = 1
				}
			}
			return uint64(uint32(r)), sz
		}
	}
	b := s.(*SymStr).b[i]
	if th.branch(x.Bin(OpULt, b, x.small[0x80])) {
		return norm(x.Conv(b, 32, false)), 1
	}
	f := th.w.findFunc("unicode/utf8", "DecodeRuneInString")
	t := th.callFn(f, []Value{strSlice(s, i, strLen(s))}, nil).(Tuple)
	return t[0], th.toInt(t[1])
}

func (w *Worker) findFunc(pkg, name string) *Fn {
	p := w.prog.ImportedPackage(pkg)
	if p == nil || p.Func(name) == nil {
		panic(unsupported("function " + pkg + "." + name + " not in program"))
	}
	return w.fnFor(p.Func(name))
}

// ---- maps ----

func (th *Thread) mapTouch(m *MapObj) {
	if th.w.base == 0 {
		if m.base {
			// first mutation of an initial-heap map on this path: snapshot
			snap := m.clone()
			old := *m
			m.ents, m.idx = snap.ents, snap.idx
			m.base = false
			th.w.log = append(th.w.log, undoRec{f: func() {
				*m = old
			}})
		}
	}
	if th.w.race {
		th.access(&m.cell, true)
	}
}

func (th *Thread) mapFind(m *MapObj, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	hk, conc := hostKey(k)
	if !conc {
		if iv, ok := k.(Iface); ok {
			switch iv.v.(type) {
			case Slice, *MapObj:
				th.rtPanic("hash of unhashable type " + iv.t.String())
			}
		}
	}
	if conc {
		if e, ok := m.idx[hk]; ok && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		c := th.eqVal(e.k, k)
		if c.isFalse() {
			continue
		}
		if c.isTrue() || th.branch(c) {
			return e
		}
	}
	return nil
}

func (th *Thread) mapGet(m *MapObj, k Value) (Value, bool) {
	if m != nil && th.w.race {
		th.access(&m.cell, false)
	}
	e := th.mapFind(m, k)
	if e == nil {
		return nil, false
	}
	return e.v, true
}

func (th *Thread) mapSet(m *MapObj, k, v Value) {
	th.mapTouch(m)
	if e := th.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if hk, ok := hostKey(k); ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (th *Thread) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	th.mapTouch(m)
	e := th.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if hk, ok := hostKey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
}

type mapIter struct {
	m    *MapObj
	ents []*mapEntry
	pos  int
}

type strIter struct {
	s   Value
	pos int
}

func (th *Thread) makeIter(fr *Frame, x Value) Value {
	switch m := x.(type) {
	case *MapObj:
		it := &mapIter{m: m}
		if m == nil {
			return it
		}
		if th.w.race {
			th.access(&m.cell, false)
		}
		for _, e := range m.ents {
			if !e.dead {
				it.ents = append(it.ents, e)
			}
		}
		n := len(it.ents)
		if n >= 2 && th.w.base == 0 && fr.fn.module && !fr.fn.isZZ && th.w.e.mapOrders {
			// iteration order is unspecified: insertion order, reversed, or (3 entries) any
			switch {
			case n == 2:
				if th.choose(2) == 1 {
					it.ents[0], it.ents[1] = it.ents[1], it.ents[0]
				}
			default:
				switch th.choose(3) {
				case 1:
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
					}
				case 2:
					h := n / 2
					r := append([]*mapEntry{}, it.ents[h:]...)
					it.ents = append(r, it.ents[:h]...)
				}
			}
		}
		return it
	case string, *SymStr:
		return &strIter{s: m}
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func (th *Thread) iterNext(x Value, ci *CInstr) Value {
	switch it := x.(type) {
	case *mapIter:
		for it.pos < len(it.ents) {
			e := it.ents[it.pos]
			it.pos++
			if e.dead {
				continue
			}
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		// entries added during iteration may be skipped (allowed by Go)
		tt := ci.t.(*types.Tuple)
		return Tuple{false, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
	case *strIter:
		if it.pos >= strLen(it.s) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		r, n := th.decodeRune(it.s, p)
		it.pos += n
		return Tuple{true, uint64(p), r}
	}
	panic(unsupported("next"))
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// ---- builtins ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap emulates runtime.growslice's choice of the new capacity.
func growCap(oldCap, newLen int, esize int64) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esize == 0 {
		return newcap
	}
	mem := int64(newcap) * esize
	if mem <= 32768 {
		for _, c := range sizeClasses {
			if int64(c) >= mem {
				return int(int64(c) / esize)
			}
		}
	}
	pages := (mem + 8191) / 8192 * 8192
	return int(pages / esize)
}

var stdSizes = types.SizesFor("gc", "amd64")

func (th *Thread) appendVals(s Slice, add []Value, et types.Type) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		if len(add) == 0 {
			return s
		}
		r := s[:n]
		for i, v := range add {
			th.store(&r[len(s)+i], v)
		}
		return r
	}
	c := growCap(cap(s), n, stdSizes.Sizeof(et))
	r := make(Slice, n, c)
	for i, v := range s {
		if th.w.race {
			th.access(&s[i], false)
		}
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	fillZero(r[n:c], et)
	return r
}

func (th *Thread) builtin(fr *Frame, ci *CInstr, b *ssa.Builtin, args []Value) Value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(v))
		case Slice:
			return uint64(len(v))
		case Array:
			return uint64(len(v))
		case *MapObj:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		case *Chan:
			if v == nil {
				return uint64(0)
			}
			return uint64(len(v.buf))
		case *Value:
			return uint64(len((*v).(Array)))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return uint64(cap(v))
		case Array:
			return uint64(len(v))
		case *Chan:
			return uint64(v.cap)
		case *Value:
			return uint64(len((*v).(Array)))
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			panic(unsupported("append to poison"))
		}
		et := ci.t.Underlying().(*types.Slice).Elem()
		switch a := args[1].(type) {
		case Slice:
			if len(a) > 0 && th.w.race {
				for i := range a {
					th.access(&a[i], false)
				}
			}
			return th.appendVals(s, append([]Value(nil), a...), et)
		case string, *SymStr:
			ts := th.w.ctx.strTerms(a)
			add := make([]Value, len(ts))
			for i := range ts {
				add[i] = norm(ts[i])
			}
			return th.appendVals(s, add, et)
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch a := args[1].(type) {
		case Slice:
			src = a
		case string, *SymStr:
			for _, t := range th.w.ctx.strTerms(a) {
				src = append(src, norm(t))
			}
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if th.w.race {
				th.access(&src[i], false)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			th.store(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		m, _ := args[0].(*MapObj)
		th.mapDelete(m, args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapObj:
			if v != nil {
				th.mapTouch(v)
				for _, e := range v.ents {
					e.dead = true
				}
				v.ents = nil
				v.idx = map[any]*mapEntry{}
				v.n, v.nsym = 0, 0
			}
			return nil
		case Slice:
			et := ci.t.Underlying().(*types.Slice).Elem()
			for i := range v {
				th.store(&v[i], zero(et))
			}
			return nil
		}
	case "close":
		th.chanClose(args[0])
		return nil
	case "panic":
		panic(&goPanic{v: args[0], where: th.where()})
	case "recover":
		// recover is called by a deferred function: look at the frame that is running defers
		for f := fr.caller; f != nil; f = f.caller {
			if f.panicV != nil {
				p := f.panicV
				f.panicV = nil
				v, ok := p.v.(Iface)
				if !ok {
					v = Iface{canon(types.Typ[types.String]), p.v}
				}
				return v
			}
			break
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = th.minmax(b.Name() == "min", r, a, ci)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			th.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return &HostObj{"deferstack", fr}
	case "real", "imag", "complex":
	case "SliceData", "StringData", "String", "Slice", "Add":
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T in %s", b.Name(), args[0], fr.fn.name)))
}

func (th *Thread) minmax(isMin bool, a, b Value, ci *CInstr) Value {
	x := th.w.ctx
	switch av := a.(type) {
	case float64:
		if isMin {
			return math.Min(av, b.(float64))
		}
		return math.Max(av, b.(float64))
	case uint64, *Term:
		w, s, _ := basicInfo(ci.t)
		ta, tb := x.term(a, w), x.term(b, w)
		op := OpULt
		if s {
			op = OpSLt
		}
		lt := x.Bin(op, ta, tb)
		if isMin {
			return norm(x.Ite(lt, ta, tb))
		}
		return norm(x.Ite(lt, tb, ta))
	case string:
		if bs, ok := b.(string); ok {
			if (av < bs) == isMin {
				return av
			}
			return bs
		}
	}
	panic(unsupported("min/max"))
}

var _ = bits.Len64
var _ = debug.Stack
