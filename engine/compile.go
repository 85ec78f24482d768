package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// canon returns one representative per identical type.
var (
	canonCache sync.Map
	canonMu    sync.Mutex
	canonMap   = new(typeutil.Map)
)

func canon(t types.Type) types.Type {
	if c, ok := canonCache.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	if c := canonMap.At(t); c != nil {
		canonCache.Store(t, c)
		return c.(types.Type)
	}
	canonMap.Set(t, t)
	canonCache.Store(t, t)
	return t
}

type opndKind uint8

const (
	oReg opndKind = iota
	oConst
	oGlobal
	oFunc
	oBuiltin
)

type Opnd struct {
	kind opndKind
	reg  int32
	v    Value
	g    *ssa.Global
	f    *ssa.Function
	b    *ssa.Builtin
}

type iop uint8

const (
	iAlloc iop = iota
	iBin
	iDeref
	iNot
	iNeg
	iCompl
	iRecv
	iCall
	iChangeIface
	iChangeType
	iConvert
	iMultiConvert
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iLookup
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeChan
	iMakeSlice
	iMapUpdate
	iNext
	iRange
	iSelect
	iSend
	iSlice
	iSliceToArrayPtr
	iStore
	iTypeAssert
	iIf
	iJump
	iReturn
	iPanic
	iGo
	iDefer
	iRunDefers
	iPhi
	iDebug
)

type CInstr struct {
	op   iop
	dst  int32
	x, y Opnd
	z    Opnd
	args []Opnd
	tok  token.Token
	w    uint8 // width of integer operand
	sgn  bool
	n    int
	t    types.Type
	t2   types.Type
	ok   bool
	ins  ssa.Instruction
	call *ssa.CallCommon
	fn   *Fn // static callee
	bi   *ssa.Builtin
	cls  uint8 // operand class for iBin: 0 int,1 string,2 float,3 bool,4 other
}

type phiC struct {
	dst   int32
	edges []Opnd
}

type Block struct {
	phis   []phiC
	ins    []CInstr
	succs  []int
	preds  []int
	nphi   int
	pure   int8 // 0 unknown, 1 pure, -1 not
	visits int
}

type Fn struct {
	fn      *ssa.Function
	name    string
	nregs   int
	nparams int
	blocks  []*Block
	hasDef  bool
	intr    Intrinsic
	module  bool
	isZZ    bool
	recover *Block
	ready   bool
	tmpl    []Value
	named   []Opnd
	skip    bool // counted as encoded
}

func basicInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, s, _ := basicInfo(t)
		v := constant.ToInt(c.Value)
		if s {
			i, _ := constant.Int64Val(v)
			return uint64(i) & maskw(w)
		}
		u, exact := constant.Uint64Val(v)
		if !exact {
			i, _ := constant.Int64Val(v)
			u = uint64(i)
		}
		return u & maskw(w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(unsupported("constant of type " + c.Type().String()))
}

// fnFor returns the worker's compiled form of f.
func (w *Worker) fnFor(f *ssa.Function) *Fn {
	if c, ok := w.fns[f]; ok {
		return c
	}
	c := &Fn{fn: f, name: f.String()}
	w.fns[f] = c
	if i, ok := w.lookupIntrinsic(f, c.name); ok {
		c.intr = i
	}
	if p := fnPkg(f); p != nil {
		c.module = isModulePath(p.Path())
		c.isZZ = isHarnessPath(p.Path())
	}
	return c
}

func fnPkg(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg()
		}
	}
	return nil
}

func (w *Worker) compile(c *Fn) {
	f := c.fn
	c.ready = true
	if f.Blocks == nil {
		return
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	alloc := func(v ssa.Value) int32 {
		r, ok := regs[v]
		if !ok {
			r = n
			n++
			regs[v] = r
		}
		return r
	}
	for _, p := range f.Params {
		alloc(p)
	}
	for _, p := range f.FreeVars {
		alloc(p)
	}
	c.nparams = len(f.Params)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	opnd := func(v ssa.Value) Opnd {
		switch v := v.(type) {
		case nil:
			return Opnd{kind: oConst}
		case *ssa.Const:
			return Opnd{kind: oConst, v: constVal(v)}
		case *ssa.Global:
			return Opnd{kind: oGlobal, g: v}
		case *ssa.Function:
			return Opnd{kind: oConst, v: &Closure{fn: w.fnFor(v)}}
		case *ssa.Builtin:
			return Opnd{kind: oBuiltin, b: v}
		}
		return Opnd{kind: oReg, reg: alloc(v)}
	}
	for _, b := range f.Blocks {
		cb := &Block{}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			ci := CInstr{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				p := phiC{dst: ci.dst}
				for _, e := range in.Edges {
					p.edges = append(p.edges, opnd(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			case *ssa.Alloc:
				ci.op = iAlloc
				ci.t = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				ci.op = iBin
				ci.tok = in.Op
				ci.x, ci.y = opnd(in.X), opnd(in.Y)
				ci.t = in.X.Type()
				ci.t2 = in.Y.Type()
				if w, s, ok := basicInfo(in.X.Type()); ok {
					ci.w, ci.sgn, ci.cls = w, s, 0
				} else {
					ci.cls = 4
					if bt, ok := in.X.Type().Underlying().(*types.Basic); ok {
						switch {
						case bt.Info()&types.IsString != 0:
							ci.cls = 1
						case bt.Info()&types.IsFloat != 0:
							ci.cls = 2
						case bt.Info()&types.IsBoolean != 0:
							ci.cls = 3
						}
					}
				}
				if in.Op == token.SHL || in.Op == token.SHR {
					_, s2, _ := basicInfo(in.Y.Type())
					ci.ok = s2
					w2, _, _ := basicInfo(in.Y.Type())
					ci.n = int(w2)
				}
			case *ssa.UnOp:
				ci.x = opnd(in.X)
				ci.t = in.X.Type()
				ci.w, ci.sgn, _ = basicInfo(in.X.Type())
				ci.ok = in.CommaOk
				switch in.Op {
				case token.MUL:
					ci.op = iDeref
				case token.NOT:
					ci.op = iNot
				case token.SUB:
					ci.op = iNeg
				case token.XOR:
					ci.op = iCompl
				case token.ARROW:
					ci.op = iRecv
					ci.t = in.X.Type().Underlying().(*types.Chan).Elem()
				}
			case *ssa.Call:
				ci.op = iCall
				w.compileCall(&ci, &in.Call, opnd)
			case *ssa.Go:
				ci.op = iGo
				w.compileCall(&ci, &in.Call, opnd)
			case *ssa.Defer:
				ci.op = iDefer
				w.compileCall(&ci, &in.Call, opnd)
				ci.z = opnd(in.DeferStack)
				ci.ok = in.DeferStack != nil
				c.hasDef = true
			case *ssa.ChangeInterface:
				ci.op = iChangeIface
				ci.x = opnd(in.X)
			case *ssa.ChangeType:
				ci.op = iChangeType
				ci.x = opnd(in.X)
			case *ssa.Convert:
				ci.op = iConvert
				ci.x = opnd(in.X)
				ci.t = in.X.Type()
				ci.t2 = in.Type()
			case *ssa.MultiConvert:
				ci.op = iConvert
				ci.x = opnd(in.X)
				ci.t = in.X.Type()
				ci.t2 = in.Type()
			case *ssa.Extract:
				ci.op = iExtract
				ci.x = opnd(in.Tuple)
				ci.n = in.Index
			case *ssa.Field:
				ci.op = iField
				ci.x = opnd(in.X)
				ci.n = in.Field
			case *ssa.FieldAddr:
				ci.op = iFieldAddr
				ci.x = opnd(in.X)
				ci.n = in.Field
			case *ssa.Index:
				ci.op = iIndex
				ci.x, ci.y = opnd(in.X), opnd(in.Index)
				ci.w, ci.sgn, _ = basicInfo(in.Index.Type())
				ci.t = in.X.Type()
			case *ssa.IndexAddr:
				ci.op = iIndexAddr
				ci.x, ci.y = opnd(in.X), opnd(in.Index)
				ci.w, ci.sgn, _ = basicInfo(in.Index.Type())
				ci.t = in.X.Type()
			case *ssa.Lookup:
				ci.op = iLookup
				ci.x, ci.y = opnd(in.X), opnd(in.Index)
				ci.ok = in.CommaOk
				ci.t = in.X.Type()
				if m, ok := in.X.Type().Underlying().(*types.Map); ok {
					ci.t2 = m.Elem()
				}
				ci.w, ci.sgn, _ = basicInfo(in.Index.Type())
			case *ssa.MakeClosure:
				ci.op = iMakeClosure
				ci.fn = w.fnFor(in.Fn.(*ssa.Function))
				for _, b := range in.Bindings {
					ci.args = append(ci.args, opnd(b))
				}
			case *ssa.MakeInterface:
				ci.op = iMakeInterface
				ci.x = opnd(in.X)
				ci.t = canon(in.X.Type())
			case *ssa.MakeMap:
				ci.op = iMakeMap
			case *ssa.MakeChan:
				ci.op = iMakeChan
				ci.x = opnd(in.Size)
			case *ssa.MakeSlice:
				ci.op = iMakeSlice
				ci.x, ci.y = opnd(in.Len), opnd(in.Cap)
				ci.t = in.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				ci.op = iMapUpdate
				ci.x, ci.y, ci.z = opnd(in.Map), opnd(in.Key), opnd(in.Value)
				ci.t = in.Map.Type()
			case *ssa.Next:
				ci.op = iNext
				ci.x = opnd(in.Iter)
				ci.ok = in.IsString
				ci.t = in.Type()
			case *ssa.Range:
				ci.op = iRange
				ci.x = opnd(in.X)
				ci.t = in.X.Type()
			case *ssa.Select:
				ci.op = iSelect
				for _, st := range in.States {
					ci.args = append(ci.args, opnd(st.Chan), opnd(st.Send))
				}
				ci.ok = in.Blocking
			case *ssa.Send:
				ci.op = iSend
				ci.x, ci.y = opnd(in.Chan), opnd(in.X)
			case *ssa.Slice:
				ci.op = iSlice
				ci.x = opnd(in.X)
				ci.args = []Opnd{opnd(in.Low), opnd(in.High), opnd(in.Max)}
				ci.t = in.X.Type()
				ci.n = 0
				if in.Low != nil {
					ci.n |= 1
				}
				if in.High != nil {
					ci.n |= 2
				}
				if in.Max != nil {
					ci.n |= 4
				}
			case *ssa.SliceToArrayPointer:
				ci.op = iSliceToArrayPtr
				ci.x = opnd(in.X)
				ci.t = in.Type()
			case *ssa.Store:
				ci.op = iStore
				ci.x, ci.y = opnd(in.Addr), opnd(in.Val)
			case *ssa.TypeAssert:
				ci.op = iTypeAssert
				ci.x = opnd(in.X)
				ci.t = canon(in.AssertedType)
				ci.ok = in.CommaOk
			case *ssa.If:
				ci.op = iIf
				ci.x = opnd(in.Cond)
			case *ssa.Jump:
				ci.op = iJump
			case *ssa.Return:
				ci.op = iReturn
				for _, r := range in.Results {
					ci.args = append(ci.args, opnd(r))
				}
			case *ssa.Panic:
				ci.op = iPanic
				ci.x = opnd(in.X)
			case *ssa.RunDefers:
				ci.op = iRunDefers
				c.hasDef = true
			default:
				panic(unsupported(fmt.Sprintf("instruction %T", in)))
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	if f.Recover != nil {
		c.recover = c.blocks[f.Recover.Index]
		c.hasDef = true
	}
	c.nregs = int(n)
}

func (w *Worker) compileCall(ci *CInstr, call *ssa.CallCommon, opnd func(ssa.Value) Opnd) {
	ci.call = call
	for _, a := range call.Args {
		ci.args = append(ci.args, opnd(a))
	}
	if call.IsInvoke() {
		ci.x = opnd(call.Value)
		return
	}
	switch v := call.Value.(type) {
	case *ssa.Builtin:
		ci.bi = v
		if len(call.Args) > 0 {
			ci.t = call.Args[0].Type()
			if len(call.Args) > 1 {
				ci.t2 = call.Args[1].Type()
			}
		}
	case *ssa.Function:
		ci.fn = w.fnFor(v)
	default:
		ci.x = opnd(v)
	}
}
