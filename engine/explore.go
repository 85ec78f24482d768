package main

import (
	"encoding/binary"
	"fmt"
	"maps"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type qres struct {
	r SatRes
	m Model
}

type decNode struct {
	up *decNode
	v  uint64
	n  int
}

func (d *decNode) slice() []uint64 {
	if d == nil {
		return nil
	}
	s := make([]uint64, d.n)
	for x := d; x != nil; x = x.up {
		s[x.n-1] = x.v
	}
	return s
}

type workItem struct {
	node  *decNode
	model Model
}

// NDVal is one nondeterministic value drawn by the harness.
type NDVal struct {
	Kind string
	V    Value
	w    uint8
	sgn  bool
}

type Obs struct {
	Label string
	V     Value
}

type Path struct {
	tracing  bool
	prefix   []uint64
	pos      int
	node     *decNode
	model    Model
	pc       []*Term
	pcSet    map[*Term]bool
	dom      map[*Term]*[4]uint64
	ent      map[*Term]bool
	steps    int64
	maxSteps int64
	nd       []NDVal
	obs      []Obs
	asserts  int
	reached  map[string]bool
	viol     *Violation
	sched    *Sched
	locks    map[*Value]*lockState
	incompl  string
	forks    int
	host     map[any]any
	schedDec []int
	delays   int
}

type Violation struct {
	Prop     string   `json:"prop"`
	ID       string   `json:"id"`
	Msg      string   `json:"msg"`
	Where    string   `json:"where,omitempty"`
	Harness  string   `json:"harness"`
	Values   []any    `json:"values"`
	Obs      []string `json:"obs,omitempty"`
	Schedule []int    `json:"schedule,omitempty"`
	Kind     string   `json:"kind"` // assert, panic, deadlock, race or hang
	Native   string   `json:"native,omitempty"`
}

// PathRec is a finished path kept for native validation.
type PathRec struct {
	Values []any
	Obs    []string
	Sched  []int
}

type Stats struct {
	Paths, Done, Assumed, Unsupp, Budget, Viol int64
	Branches, Forks, Steps                     int64
	Asserts, Folded, AssertQ                   int64
	Queries, CrossQ, CrossBad                  int64
	SolverErr, SolverUnk                       int64
	SolverTime                                 time.Duration
	CacheHit, DomHit, ModelHit                 int64
	PathChecks                                 int64
	Schedules                                  int64
}

type Explorer struct {
	prog      *ssa.Program
	entry     *ssa.Function
	harness   string
	prop      string
	params    map[string]int
	stubs     map[string]*ssa.Function
	trace     bool
	maxSteps  int64
	workers   int
	deadline  time.Time
	seed      int64
	race      bool
	mapOrders bool
	delayMax  int
	crossEach int // cross-check every n-th assertion query with the second solver (0: never)
	sampleMax int
	violMax   int
	taCache   sync.Map

	mu       sync.Mutex
	cond     *sync.Cond
	work     []workItem
	active   int
	stop     bool
	timedOut bool
	stats    Stats
	unsupp   map[string]int
	viols    []*Violation
	violN    map[string]int
	samples  []PathRec
	sampleN  int64
	reached  map[string]int64
	covered  map[string]int
	rng      *rand.Rand
	left     int
	initErr  map[string]string
	crossMsg []string
	dbg      bool
	stopFlag atomic.Bool
	pathObs  func(p *Path)
}

func (e *Explorer) Run() {
	e.cond = sync.NewCond(&e.mu)
	e.unsupp = map[string]int{}
	e.violN = map[string]int{}
	e.reached = map[string]int64{}
	e.covered = map[string]int{}
	e.initErr = map[string]string{}
	e.rng = rand.New(rand.NewSource(e.seed))
	e.work = []workItem{{nil, Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
	e.left = len(e.work)
}

func (e *Explorer) newWorker(i int) *Worker {
	return &Worker{
		id: i, e: e, prog: e.prog, ctx: NewCtx(),
		solver:  NewSolver("z3", "-in"),
		cross:   NewSolver("cvc5", "--incremental", "--produce-models", "--tlimit-per=20000"),
		fns:     map[*ssa.Function]*Fn{},
		globals: map[*ssa.Global]*Value{},
		inited:  map[*ssa.Package]bool{},
		meths:   map[methKey]*Fn{},
		host:    map[string]any{},
		qcache:  map[string]qres{},
		satCach: map[*Term][4]uint64{},
		covered: map[*Fn]bool{},
		initErr: map[string]string{},
		race:    e.race,
	}
}

func (e *Explorer) worker(i int) {
	w := e.newWorker(i)
	defer func() {
		w.solver.Close()
		w.cross.Close()
		e.mu.Lock()
		e.stats.Queries += int64(w.solver.Queries)
		e.stats.SolverTime += w.solver.Time + w.cross.Time
		e.stats.CrossQ += int64(w.cross.Queries)
		e.stats.SolverErr += int64(w.solver.Errors)
		e.stats.SolverUnk += int64(w.solver.Unknown)
		for f := range w.covered {
			n := 0
			for _, b := range f.blocks {
				n += len(b.ins)
			}
			e.covered[f.name] = n
		}
		for k, v := range w.initErr {
			e.initErr[k] = v
		}
		e.mu.Unlock()
	}()
	for {
		e.mu.Lock()
		for len(e.work) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.work) == 0 {
			e.stop = e.stop || (len(e.work) == 0 && e.active == 0)
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		if time.Now().After(e.deadline) {
			e.timedOut = true
			e.stop = true
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		// mostly depth first, sometimes anywhere, so a run cut short is still spread out
		k := len(e.work) - 1
		if e.rng.Intn(4) == 0 {
			k = e.rng.Intn(len(e.work))
		}
		it := e.work[k]
		e.work[k] = e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.active++
		e.mu.Unlock()
		p := w.runPath(it)
		e.mu.Lock()
		e.active--
		e.finish(w, p)
		if e.active == 0 && len(e.work) == 0 {
			e.stop = true
		}
		e.cond.Broadcast()
		e.mu.Unlock()
		if len(w.ctx.tab) > 3_000_000 {
			w.ctx.reset()
			w.qcache = map[string]qres{}
			w.satCach = map[*Term][4]uint64{}
		}
		if len(w.qcache) > 200_000 {
			w.qcache = map[string]qres{}
		}
	}
}

func (e *Explorer) push(items []workItem) {
	e.mu.Lock()
	e.work = append(e.work, items...)
	e.cond.Broadcast()
	e.mu.Unlock()
}

type pathResult struct {
	p    *Path
	end  pathEnd
	viol *Violation
	rec  *PathRec
}

// finish is called with e.mu held.
func (e *Explorer) finish(w *Worker, r *pathResult) {
	s := &e.stats
	s.Paths++
	s.Steps += r.p.steps
	s.Asserts += int64(r.p.asserts)
	for k := range r.p.reached {
		e.reached[k]++
	}
	switch r.end.kind {
	case endDone:
		s.Done++
	case endAssume:
		s.Assumed++
	case endViolation:
		e.addViolation(r.viol)
	case endUnsupported:
		s.Unsupp++
		e.unsupp[r.end.why]++
	case endBudget:
		s.Budget++
		e.unsupp["budget: "+r.end.why]++
	}
	if r.p.incompl != "" {
		e.unsupp[r.p.incompl]++
	}
	if r.rec != nil {
		e.sampleN++
		if len(e.samples) < e.sampleMax {
			e.samples = append(e.samples, *r.rec)
		} else if k := e.rng.Int63n(e.sampleN); k < int64(e.sampleMax) {
			e.samples[k] = *r.rec
		}
	}
}

func (w *Worker) runPath(it workItem) *pathResult {
	p := &Path{
		tracing:  w.e.trace,
		prefix:   it.node.slice(),
		node:     nil,
		model:    maps.Clone(it.model),
		pcSet:    map[*Term]bool{},
		dom:      map[*Term]*[4]uint64{},
		ent:      map[*Term]bool{},
		maxSteps: w.e.maxSteps,
		reached:  map[string]bool{},
		locks:    map[*Value]*lockState{},
		host:     map[any]any{},
	}
	if p.model == nil {
		p.model = Model{}
	}
	w.p = p
	res := &pathResult{p: p}
	s := newSched(w, p)
	p.sched = s
	res.end = s.runMain(w.fnFor(w.e.entry))
	if res.end.kind == endViolation {
		res.viol = p.viol
	}
	if res.end.kind == endDone {
		// the path condition itself is confirmed by the solver
		if len(p.pc) > 0 && (p.forks > 0) {
			atomic.AddInt64(&w.e.stats.PathChecks, 1)
			if r, _ := w.check(p.pc, false); r == Unsat {
				res.end = pathEnd{endUnsupported, "engine: infeasible path explored"}
			}
		}
		if res.end.kind == endDone {
			vals, ok := w.concreteND(p)
			if ok {
				rec := &PathRec{Values: vals, Sched: p.schedDec}
				for _, o := range p.obs {
					rec.Obs = append(rec.Obs, o.Label+"="+w.concreteStr(o.V, p.model))
				}
				res.rec = rec
			}
		}
	}
	w.rollback()
	w.p = nil
	return res
}

func (w *Worker) concreteND(p *Path) ([]any, bool) {
	var out []any
	for _, n := range p.nd {
		switch n.Kind {
		case "bool":
			switch v := n.V.(type) {
			case bool:
				out = append(out, v)
			case *Term:
				out = append(out, w.ctx.Eval(v, p.model) != 0)
			}
		case "int":
			switch v := n.V.(type) {
			case uint64:
				out = append(out, sext(v, n.w))
			case *Term:
				e := w.ctx.Eval(v, p.model)
				if n.sgn {
					out = append(out, sext(e, v.w))
				} else {
					out = append(out, int64(e))
				}
			}
		case "str":
			b := []byte{}
			for _, t := range w.ctx.strTerms(n.V) {
				b = append(b, byte(w.ctx.Eval(t, p.model)))
			}
			// byte-exact encoding
			out = append(out, fmt.Sprintf("x%x", b))
		}
	}
	return out, true
}

func (w *Worker) concreteStr(v Value, m Model) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(w.ctx.Eval(t, m))
		}
		return string(b)
	case bool:
		return fmt.Sprint(v)
	case uint64:
		return fmt.Sprint(int64(v))
	case *Term:
		e := w.ctx.Eval(v, m)
		if v.w == 0 {
			return fmt.Sprint(e != 0)
		}
		return fmt.Sprint(sext(e, v.w))
	}
	return fmt.Sprintf("%T", v)
}

// ---- constraints ----

func (th *Thread) addPC(c *Term) {
	p := th.p
	if c.isC() || p.pcSet[c] {
		return
	}
	if c.op == OpAnd {
		th.addPC(c.a)
		th.addPC(c.b)
		return
	}
	p.pcSet[c] = true
	p.pc = append(p.pc, c)
	if len(c.vars) == 1 && c.vars[0].w == 8 {
		v := c.vars[0]
		d := th.domOf(v)
		s := th.w.satSet(c, v)
		for i := range d {
			d[i] &= s[i]
		}
		return
	}
	for _, v := range c.vars {
		p.ent[v] = true
	}
}

func (th *Thread) domOf(v *Term) *[4]uint64 {
	d := th.p.dom[v]
	if d == nil {
		d = &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		th.p.dom[v] = d
	}
	return d
}

func (w *Worker) satSet(c, v *Term) [4]uint64 {
	if s, ok := w.satCach[c]; ok {
		return s
	}
	var s [4]uint64
	m := Model{}
	for i := 0; i < 256; i++ {
		m[v.name] = uint64(i)
		if w.ctx.Eval(c, m) != 0 {
			s[i/64] |= 1 << (i % 64)
		}
	}
	w.satCach[c] = s
	return s
}

func (w *Worker) check(ts []*Term, wantModel bool) (SatRes, Model) {
	ids := make([]uint32, 0, len(ts))
	for _, t := range ts {
		if t.isFalse() {
			return Unsat, nil
		}
		if !t.isTrue() {
			ids = append(ids, t.id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 0, len(ids)*4)
	for _, id := range ids {
		kb = binary.LittleEndian.AppendUint32(kb, id)
	}
	k := string(kb)
	if r, ok := w.qcache[k]; ok && (!wantModel || r.r != Sat || r.m != nil) {
		atomic.AddInt64(&w.e.stats.CacheHit, 1)
		return r.r, r.m
	}
	r, m := w.solver.Check(w.ctx, ts, wantModel)
	if r != Unknown {
		w.qcache[k] = qres{r, m}
	}
	return r, m
}

// slice returns the constraints of pc connected to c.
func (th *Thread) slice(c *Term) []*Term {
	p := th.p
	in := map[*Term]bool{}
	for _, v := range c.vars {
		in[v] = true
	}
	used := make([]bool, len(p.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			out = append(out, t)
			for _, v := range t.vars {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
		}
	}
	return out
}

func (th *Thread) feasible(c *Term) (SatRes, Model) {
	p := th.p
	if c.isFalse() {
		return Unsat, nil
	}
	if len(c.vars) == 1 && c.vars[0].w == 8 && !p.ent[c.vars[0]] {
		v := c.vars[0]
		d := *th.domOf(v)
		s := th.w.satSet(c, v)
		atomic.AddInt64(&th.w.e.stats.DomHit, 1)
		for i := 0; i < 256; i++ {
			if d[i/64]&s[i/64]&(1<<(i%64)) != 0 {
				m := maps.Clone(p.model)
				m[v.name] = uint64(i)
				return Sat, m
			}
		}
		return Unsat, nil
	}
	q := append(th.slice(c), c)
	r, m := th.w.check(q, true)
	if r == Sat {
		nm := maps.Clone(p.model)
		for k, v := range m {
			nm[k] = v
		}
		return Sat, nm
	}
	return r, nil
}

// ---- decisions ----

func (th *Thread) record(v uint64) {
	p := th.p
	n := 1
	if p.node != nil {
		n = p.node.n + 1
	}
	p.node = &decNode{up: p.node, v: v, n: n}
}

func (th *Thread) alt(v uint64, m Model) workItem {
	p := th.p
	n := 1
	if p.node != nil {
		n = p.node.n + 1
	}
	return workItem{&decNode{up: p.node, v: v, n: n}, m}
}

// branch decides a condition, forking when both outcomes are feasible.
func (th *Thread) branch(c *Term) bool {
	if c.isC() {
		return c.k == 1
	}
	if th.w.base > 0 {
		panic(unsupported("symbolic branch during initialisation"))
	}
	p := th.p
	x := th.w.ctx
	if p.pcSet[c] {
		return true
	}
	if p.pcSet[x.Not(c)] {
		return false
	}
	atomic.AddInt64(&th.w.e.stats.Branches, 1)
	if p.pos < len(p.prefix) {
		v := p.prefix[p.pos]
		p.pos++
		th.record(v)
		if v > 3 {
			panic(unsupported("engine: decision kind mismatch"))
		}
		t := v&1 == 1
		if v&2 == 0 {
			p.forks++
			if t {
				th.addPC(c)
			} else {
				th.addPC(x.Not(c))
			}
		}
		return t
	}
	mv := x.Eval(c, p.model) != 0
	var other *Term
	if mv {
		other = x.Not(c)
	} else {
		other = c
	}
	r, m := th.feasible(other)
	switch r {
	case Sat:
		th.w.e.push([]workItem{th.alt(b2u(!mv), m)})
		th.record(b2u(mv))
		p.forks++
		if mv {
			th.addPC(c)
		} else {
			th.addPC(x.Not(c))
		}
	case Unsat:
		th.record(b2u(mv) | 2)
	default:
		p.incompl = "solver unknown on a branch"
		th.record(b2u(mv) | 2)
	}
	return mv
}

// choose returns a value in [0,n), exploring all of them.
func (th *Thread) choose(n int) int {
	p := th.p
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		v := p.prefix[p.pos]
		p.pos++
		th.record(v)
		p.forks++
		if int(v) >= n {
			panic(unsupported("engine: choice mismatch"))
		}
		return int(v)
	}
	items := make([]workItem, 0, n-1)
	for i := n - 1; i >= 1; i-- {
		items = append(items, th.alt(uint64(i), maps.Clone(p.model)))
	}
	th.w.e.push(items)
	th.record(0)
	p.forks++
	return 0
}

// concretize makes a term concrete, exploring all its feasible values.
func (th *Thread) concretize(t *Term) uint64 {
	if t.isC() {
		return t.k
	}
	p := th.p
	x := th.w.ctx
	if p.pos < len(p.prefix) {
		v := p.prefix[p.pos]
		p.pos++
		th.record(v)
		p.forks++
		th.addPC(x.Eq(t, x.BV(v, t.w)))
		return v
	}
	v := x.Eval(t, p.model)
	excl := x.Not(x.Eq(t, x.BV(v, t.w)))
	var items []workItem
	for n := 0; ; n++ {
		r, m := th.feasible(excl)
		if r == Unsat {
			break
		}
		if r == Unknown {
			p.incompl = "solver unknown while concretising"
			break
		}
		if n > 300 {
			p.incompl = "concretisation limit"
			break
		}
		v2 := x.Eval(t, m)
		items = append(items, th.alt(v2, m))
		excl = x.And(excl, x.Not(x.Eq(t, x.BV(v2, t.w))))
	}
	if len(items) > 0 {
		th.w.e.push(items)
	}
	th.record(v)
	p.forks++
	th.addPC(x.Eq(t, x.BV(v, t.w)))
	return v
}

func (th *Thread) assume(c *Term) {
	p := th.p
	x := th.w.ctx
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{endAssume, ""})
	}
	if x.Eval(c, p.model) == 0 {
		r, m := th.feasible(c)
		switch r {
		case Unsat:
			panic(pathEnd{endAssume, ""})
		case Unknown:
			p.incompl = "solver unknown on an assumption"
			panic(pathEnd{endAssume, ""})
		}
		p.model = m
	}
	th.addPC(c)
}

func (th *Thread) mkViolation(kind, id, msg string) *Violation {
	p := th.p
	vals, _ := th.w.concreteND(p)
	v := &Violation{Prop: th.w.e.prop, ID: id, Msg: msg, Harness: th.w.e.harness, Values: vals, Kind: kind, Schedule: p.schedDec, Where: th.where()}
	for _, o := range p.obs {
		v.Obs = append(v.Obs, o.Label+"="+th.w.concreteStr(o.V, p.model))
	}
	return v
}

func (th *Thread) assertTerm(id string, c *Term, msg string) {
	p := th.p
	w := th.w
	p.asserts++
	if c.isTrue() {
		atomic.AddInt64(&w.e.stats.Folded, 1)
		return
	}
	x := w.ctx
	neg := x.Not(c)
	var r SatRes
	var m Model
	q := append(th.slice(neg), neg)
	atomic.AddInt64(&w.e.stats.AssertQ, 1)
	if c.isFalse() {
		q = append([]*Term(nil), p.pc...)
		r, m = w.check(q, true)
	} else {
		r, m = w.check(q, true)
	}
	if r != Unknown && w.e.crossEach > 0 && atomic.LoadInt64(&w.e.stats.AssertQ)%int64(w.e.crossEach) == 0 {
		r2, _ := w.cross.Check(x, q, false)
		if r2 != Unknown && r2 != r {
			w.e.mu.Lock()
			w.e.stats.CrossBad++
			w.e.mu.Unlock()
			p.incompl = "solvers disagree"
			return
		}
	}
	switch r {
	case Unsat:
		if c.isFalse() {
			panic(pathEnd{endUnsupported, "engine: infeasible path explored"})
		}
		return
	case Unknown:
		p.incompl = "solver unknown on an assertion"
		return
	}
	nm := maps.Clone(p.model)
	for k, v := range m {
		nm[k] = v
	}
	save := p.model
	p.model = nm
	v := th.mkViolation("assert", id, msg)
	p.model = save
	w.e.report(v)
	// go on with the executions on which it holds
	th.assume(c)
}

// report records a counterexample.
func (e *Explorer) report(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.addViolation(v)
}

func (e *Explorer) addViolation(v *Violation) {
	e.violN[v.ID]++
	e.stats.Viol++
	if e.violN[v.ID] <= e.violMax {
		e.viols = append(e.viols, v)
	}
	// enough counterexamples: stop exploring
	if e.violN[v.ID] >= 400*e.violMax {
		e.stop = true
	}
}

func (e *Explorer) summary() string {
	s := &e.stats
	var sb strings.Builder
	fmt.Fprintf(&sb, "paths=%d done=%d assumed=%d unsupported=%d budget=%d viol=%d left=%d steps=%d branches=%d asserts=%d folded=%d assertQ=%d queries=%d cache=%d dom=%d solver=%.1fs errs=%d unk=%d cross=%d bad=%d",
		s.Paths, s.Done, s.Assumed, s.Unsupp, s.Budget, s.Viol, e.left, s.Steps, s.Branches, s.Asserts, s.Folded, s.AssertQ, s.Queries, s.CacheHit, s.DomHit, s.SolverTime.Seconds(), s.SolverErr, s.SolverUnk, s.CrossQ, s.CrossBad)
	return sb.String()
}

var _ = os.Exit
var _ = runtime.GC
var _ = debug.Stack
