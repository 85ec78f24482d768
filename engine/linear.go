package main

import "sort"

// Sums are kept in one linear normal form (atoms ordered by id with their coefficients, the constant
// last), so that two ways of computing the same sum give the same term.

type linSum struct {
	atoms []*Term
	coef  []uint64
	k     uint64
}

const linMax = 48

func (l *linSum) add(t *Term, c uint64, w uint8) bool {
	c &= maskw(w)
	if c == 0 {
		return true
	}
	switch {
	case t.isC():
		l.k += t.k * c
	case t.op == OpAdd:
		return l.add(t.a, c, w) && l.add(t.b, c, w)
	case t.op == OpSub:
		return l.add(t.a, c, w) && l.add(t.b, -c, w)
	case t.op == OpMul && t.b.isC():
		return l.add(t.a, c*t.b.k, w)
	case t.op == OpMul && t.a.isC():
		return l.add(t.b, c*t.a.k, w)
	default:
		for i, a := range l.atoms {
			if a == t {
				l.coef[i] += c
				return true
			}
		}
		if len(l.atoms) >= linMax {
			return false
		}
		l.atoms = append(l.atoms, t)
		l.coef = append(l.coef, c)
	}
	return true
}

func (l *linSum) norm(w uint8) {
	j := 0
	for i := range l.atoms {
		if c := l.coef[i] & maskw(w); c != 0 {
			l.atoms[j], l.coef[j] = l.atoms[i], c
			j++
		}
	}
	l.atoms, l.coef = l.atoms[:j], l.coef[:j]
	l.k &= maskw(w)
	sort.Sort(l)
}

func (l *linSum) Len() int           { return len(l.atoms) }
func (l *linSum) Less(i, j int) bool { return l.atoms[i].id < l.atoms[j].id }
func (l *linSum) Swap(i, j int) {
	l.atoms[i], l.atoms[j] = l.atoms[j], l.atoms[i]
	l.coef[i], l.coef[j] = l.coef[j], l.coef[i]
}

func (x *Ctx) linTerm(l *linSum, w uint8) *Term {
	m := func(a *Term, c uint64) *Term {
		if c == 1 {
			return a
		}
		return x.mk(OpMul, w, a, x.BV(c, w), nil, 0, "")
	}
	var acc *Term
	for i, a := range l.atoms {
		if sext(l.coef[i], w) >= 0 {
			if t := m(a, l.coef[i]); acc == nil {
				acc = t
			} else {
				acc = x.mk(OpAdd, w, acc, t, nil, 0, "")
			}
		}
	}
	for i, a := range l.atoms {
		if sext(l.coef[i], w) < 0 {
			if acc == nil {
				acc = x.BV(l.k, w)
				l.k = 0
			}
			acc = x.mk(OpSub, w, acc, m(a, -l.coef[i]&maskw(w)), nil, 0, "")
		}
	}
	if acc == nil {
		return x.BV(l.k, w)
	}
	if l.k != 0 {
		acc = x.mk(OpAdd, w, acc, x.BV(l.k, w), nil, 0, "")
	}
	return acc
}

func isLin(t *Term) bool {
	return t.op == OpAdd || t.op == OpSub || t.op == OpMul && (t.a.isC() || t.b.isC())
}

// linear computes a op b (OpAdd, OpSub, OpMul by a constant) in normal form; nil when it is too large.
func (x *Ctx) linear(op Op, a, b *Term) *Term {
	w := a.w
	var l linSum
	ok := true
	switch op {
	case OpAdd:
		ok = l.add(a, 1, w) && l.add(b, 1, w)
	case OpSub:
		ok = l.add(a, 1, w) && l.add(b, ^uint64(0), w)
	case OpMul:
		if a.isC() {
			a, b = b, a
		}
		ok = l.add(a, b.k, w)
	}
	if !ok {
		return nil
	}
	l.norm(w)
	return x.linTerm(&l, w)
}

// linEq is a == b for sums.
func (x *Ctx) linEq(a, b *Term) *Term {
	w := a.w
	var l linSum
	if !l.add(a, 1, w) || !l.add(b, ^uint64(0), w) {
		return nil
	}
	l.norm(w)
	if len(l.atoms) == 0 {
		return x.Bool(l.k == 0)
	}
	if sext(l.coef[0], w) < 0 {
		for i := range l.coef {
			l.coef[i] = -l.coef[i] & maskw(w)
		}
		l.k = -l.k & maskw(w)
	}
	k := x.BV(-l.k, w)
	l.k = 0
	if len(l.atoms) == 1 && l.coef[0] == 1 {
		return x.Eq(l.atoms[0], k)
	}
	t := x.linTerm(&l, w)
	if k.k == 0 && t.op == OpSub && !isLin(t.a) && !isLin(t.b) {
		a, b := t.a, t.b
		return x.Eq(a, b)
	}
	return x.mk(OpEq, 0, t, k, nil, 0, "")
}
