package main

import (
	"go/token"
)

// symIf decides a branch on a symbolic condition.  Side-effect free
// alternatives that meet again are merged into ite terms instead of forking,
// and chains of tests with a common target become one test.

type edge struct {
	target int
	pred   int
	vals   []Value // phi values, nil: compute from pred
}

const mergeLimit = 24

func (th *Thread) symIf(fr *Frame, cur int, cond *Term) edge {
	blocks := fr.fn.blocks
	b := blocks[cur]
	x := th.w.ctx
	tE := edge{target: b.succs[0], pred: cur}
	fE := edge{target: b.succs[1], pred: cur}
	if tE.target == fE.target {
		// both edges to one block: phis cannot be told apart by pred index; fork
		if th.branch(cond) {
			return tE
		}
		return fE
	}
	for step := 0; step < 64; step++ {
		cond = th.known(cond)
		if cond.isTrue() {
			return tE
		}
		if cond.isFalse() {
			return fE
		}
		// both sides reach the same block
		if e, ok := th.tryJoin(fr, cond, tE, fE); ok {
			return e
		}
		// chain on the false side
		if c2, s0, s1, ok := th.pureIf(fr, fE); ok {
			if s0.target == tE.target {
				if vals, ok := th.mergePhis(fr, cond, tE, s0); ok {
					cond = x.Or(cond, c2)
					tE = edge{tE.target, tE.pred, vals}
					fE = s1
					continue
				}
			}
			if s1.target == tE.target {
				if vals, ok := th.mergePhis(fr, cond, tE, s1); ok {
					cond = x.Or(cond, x.Not(c2))
					tE = edge{tE.target, tE.pred, vals}
					fE = s0
					continue
				}
			}
		}
		if c2, s0, s1, ok := th.pureIf(fr, tE); ok {
			if s0.target == fE.target {
				// cond && c2 -> F
				if vals, ok := th.mergePhis(fr, cond, s0, fE); ok {
					cond = x.And(cond, x.Not(c2))
					fE = edge{fE.target, fE.pred, vals}
					tE = s1
					continue
				}
			}
			if s1.target == fE.target {
				if vals, ok := th.mergePhis(fr, cond, s1, fE); ok {
					cond = x.And(cond, c2)
					fE = edge{fE.target, fE.pred, vals}
					tE = s0
					continue
				}
			}
		}
		break
	}
	if th.branch(cond) {
		return tE
	}
	return fE
}

// known replaces a condition the path condition already settles by its value.
func (th *Thread) known(c *Term) *Term {
	p := th.p
	x := th.w.ctx
	if c.isC() || th.w.base > 0 {
		return c
	}
	if p.pcSet[c] {
		return x.True
	}
	if p.pcSet[x.Not(c)] {
		return x.False
	}
	if len(c.vars) == 1 && c.vars[0].w == 8 {
		d, s := *th.domOf(c.vars[0]), th.w.satSet(c, c.vars[0])
		t, f := false, false
		for i := range d {
			t = t || d[i]&s[i] != 0
			f = f || d[i]&^s[i] != 0
		}
		if t && !f {
			return x.True
		}
		if f && !t {
			return x.False
		}
	}
	return c
}

// phiVals returns the values the phis of e's target take along e.
func (th *Thread) phiVals(fr *Frame, e edge) []Value {
	if e.vals != nil {
		return e.vals
	}
	b := fr.fn.blocks[e.target]
	vals := make([]Value, len(b.phis))
	k := -1
	for i, q := range b.preds {
		if q == e.pred {
			k = i
		}
	}
	for i := range b.phis {
		vals[i] = fr.get(th, &b.phis[i].edges[k])
	}
	return vals
}

func (th *Thread) mergePhis(fr *Frame, c *Term, a, b edge) ([]Value, bool) {
	av, bv := th.phiVals(fr, a), th.phiVals(fr, b)
	out := make([]Value, len(av))
	for i := range av {
		v, ok := th.iteVal(c, av[i], bv[i], fr.fn.blocks[a.target].phis[i])
		if !ok {
			return nil, false
		}
		out[i] = v
	}
	return out, true
}

// iteVal merges two values under c if they have the same shape.
func (th *Thread) iteVal(c *Term, a, b Value, ph phiC) (Value, bool) {
	x := th.w.ctx
	switch av := a.(type) {
	case bool:
		switch bv := b.(type) {
		case bool:
			return norm(x.Ite(c, x.Bool(av), x.Bool(bv))), true
		case *Term:
			return norm(x.Ite(c, x.Bool(av), bv)), true
		}
	case uint64:
		switch bv := b.(type) {
		case uint64:
			if av == bv {
				return a, true
			}
			return nil, false // width unknown
		case *Term:
			return norm(x.Ite(c, x.BV(av, bv.w), bv)), true
		}
	case *Term:
		switch bv := b.(type) {
		case *Term:
			if av.w != bv.w {
				return nil, false
			}
			return norm(x.Ite(c, av, bv)), true
		case uint64:
			return norm(x.Ite(c, av, x.BV(bv, av.w))), true
		case bool:
			return norm(x.Ite(c, av, x.Bool(bv))), true
		}
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
			if strLen(a) != strLen(b) {
				return nil, false
			}
			ta, tb := x.strTerms(a), x.strTerms(b)
			ts := make([]*Term, len(ta))
			for i := range ta {
				ts[i] = x.Ite(c, ta[i], tb[i])
			}
			return mkStr(ts), true
		}
	case *Value:
		if bv, ok := b.(*Value); ok && av == bv {
			return a, true
		}
	case *MapObj:
		if bv, ok := b.(*MapObj); ok && av == bv {
			return a, true
		}
	case Iface:
		if bv, ok := b.(Iface); ok && av.t == nil && bv.t == nil {
			return a, true
		}
	case Slice:
		if bv, ok := b.(Slice); ok {
			if len(av) == len(bv) && cap(av) == cap(bv) && (av == nil) == (bv == nil) && (cap(av) == 0 || &av[:1][0] == &bv[:1][0]) {
				return a, true
			}
		}
	}
	return nil, false
}

// tryJoin merges a triangle or diamond of pure blocks.
func (th *Thread) tryJoin(fr *Frame, c *Term, tE, fE edge) (edge, bool) {
	if tE.target == fE.target {
		if vals, ok := th.mergePhis(fr, c, tE, fE); ok {
			return edge{tE.target, tE.pred, vals}, true
		}
		return edge{}, false
	}
	ft, okf := th.pureJump(fr, fE)
	if okf && ft.target == tE.target {
		if vals, ok := th.mergePhis(fr, c, tE, ft); ok {
			return edge{tE.target, tE.pred, vals}, true
		}
	}
	tt, okt := th.pureJump(fr, tE)
	if okt && tt.target == fE.target {
		if vals, ok := th.mergePhis(fr, c, tt, fE); ok {
			return edge{fE.target, fE.pred, vals}, true
		}
	}
	if okt && okf && tt.target == ft.target {
		if vals, ok := th.mergePhis(fr, c, tt, ft); ok {
			return edge{tt.target, tt.pred, vals}, true
		}
	}
	return edge{}, false
}

func (b *Block) isPure() bool {
	if b.pure == 0 {
		b.pure = 1
		if len(b.ins) > mergeLimit {
			b.pure = -1
		}
		for i := range b.ins {
			ci := &b.ins[i]
			switch ci.op {
			case iBin:
				if ci.tok == token.QUO || ci.tok == token.REM || ci.tok == token.SHL || ci.tok == token.SHR {
					if ci.y.kind != oConst {
						b.pure = -1
					}
				}
			case iNot, iNeg, iCompl, iDeref, iField, iFieldAddr, iChangeType, iConvert, iIndexAddr, iIndex, iLookup, iExtract, iIf, iJump:
			case iCall:
				if ci.bi == nil || (ci.bi.Name() != "len" && ci.bi.Name() != "cap") {
					b.pure = -1
				}
			default:
				b.pure = -1
			}
		}
	}
	return b.pure == 1
}

// evalPure speculatively evaluates the block e leads to.
func (th *Thread) evalPure(fr *Frame, e edge) (*CInstr, bool) {
	b := fr.fn.blocks[e.target]
	if len(b.preds) != 1 || len(b.phis) > 0 || !b.isPure() || th.w.race {
		return nil, false
	}
	for i := range b.ins {
		ci := &b.ins[i]
		switch ci.op {
		case iIf, iJump:
			return ci, true
		case iBin:
			a, bb := fr.get(th, &ci.x), fr.get(th, &ci.y)
			switch ci.cls {
			case 0:
				if ci.tok == token.QUO || ci.tok == token.REM {
					if u, ok := bb.(uint64); !ok || u == 0 {
						return nil, false
					}
					if _, ok := a.(uint64); !ok {
						return nil, false
					}
				}
				if ci.tok == token.SHL || ci.tok == token.SHR {
					u, ok := bb.(uint64)
					if !ok || sext(u, uint8(ci.n)) < 0 {
						return nil, false
					}
				}
			case 1, 3:
			case 2:
				if _, ok := a.(float64); !ok {
					return nil, false
				}
				if _, ok := bb.(float64); !ok {
					return nil, false
				}
			default:
				switch a.(type) {
				case *Value, Slice, *MapObj:
				case Iface:
					if bi, ok := bb.(Iface); !ok || (bi.t != nil && a.(Iface).t != nil) {
						return nil, false
					}
				default:
					return nil, false
				}
			}
			fr.regs[ci.dst] = th.binop(ci, a, bb)
		case iNot, iNeg, iCompl, iField, iChangeType, iExtract:
			th.exec(fr, ci)
		case iCall:
			switch fr.get(th, &ci.args[0]).(type) {
			case string, *SymStr, Slice, Array:
				th.exec(fr, ci)
			default:
				return nil, false
			}
		case iConvert:
			_, _, ok1 := basicInfo(ci.t)
			_, _, ok2 := basicInfo(ci.t2)
			if !ok1 || !ok2 {
				return nil, false
			}
			th.exec(fr, ci)
		case iDeref:
			p, ok := fr.get(th, &ci.x).(*Value)
			if !ok || p == nil {
				return nil, false
			}
			fr.regs[ci.dst] = th.load(p)
		case iFieldAddr:
			p, ok := fr.get(th, &ci.x).(*Value)
			if !ok || p == nil {
				return nil, false
			}
			if _, ok := (*p).(Struct); !ok {
				return nil, false
			}
			th.exec(fr, ci)
		case iIndexAddr, iIndex, iLookup:
			i, ok := fr.get(th, &ci.y).(uint64)
			if !ok {
				return nil, false
			}
			n := -1
			switch s := fr.get(th, &ci.x).(type) {
			case string, *SymStr:
				n = strLen(s)
			case Slice:
				n = len(s)
			}
			if n < 0 || i >= uint64(n) {
				return nil, false
			}
			th.exec(fr, ci)
		default:
			return nil, false
		}
	}
	return nil, false
}

func (th *Thread) pureJump(fr *Frame, e edge) (edge, bool) {
	if e.vals != nil {
		return edge{}, false
	}
	ci, ok := th.evalPure(fr, e)
	if !ok || ci.op != iJump {
		return edge{}, false
	}
	return edge{target: fr.fn.blocks[e.target].succs[0], pred: e.target}, true
}

func (th *Thread) pureIf(fr *Frame, e edge) (*Term, edge, edge, bool) {
	if e.vals != nil {
		return nil, edge{}, edge{}, false
	}
	ci, ok := th.evalPure(fr, e)
	if !ok || ci.op != iIf {
		return nil, edge{}, edge{}, false
	}
	b := fr.fn.blocks[e.target]
	if b.succs[0] == b.succs[1] {
		return nil, edge{}, edge{}, false
	}
	v := fr.get(th, &ci.x)
	c := th.known(th.w.ctx.term(v, 0))
	return c, edge{target: b.succs[0], pred: e.target}, edge{target: b.succs[1], pred: e.target}, true
}
