package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// Goroutines of the interpreted program run as host goroutines, one at a
// time.  At every synchronisation operation the scheduler may deviate from
// "keep running, then round robin"; deviations are explored up to delayMax.

type Chan struct {
	cap    int
	buf    []Value
	bufVC  []vclock
	sendq  []*sendItem
	nrecv  int // receivers blocked
	closed bool
	vc     vclock // accumulated by operations (close, receive for buffered)
}

type sendItem struct {
	v    Value
	done bool
	vc   vclock
	rvc  vclock
}

type lockState struct {
	held   bool
	reads  int
	vc     vclock
	wg     int
	once   int
	doneVC vclock
}

type Thread struct {
	w      *Worker
	p      *Path
	id     int
	fr     *Frame
	depth  int
	wake   chan struct{}
	ready  func() bool // nil: runnable
	dead   bool
	vc     vclock
	where_ string
}

type Sched struct {
	w       *Worker
	p       *Path
	ths     []*Thread
	cur     *Thread
	abort   bool
	end     pathEnd
	hasEnd  bool
	done    chan struct{}
	live    int
	shadow  map[*Value]*shadowCell
	mainEnd bool
}

type vclock []int32

func (a vclock) join(b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (a vclock) copy() vclock { return append(vclock(nil), a...) }

func (a vclock) at(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type shadowCell struct {
	wt    int
	wc    int32
	wpos  string
	reads map[int]int32
	rpos  map[int]string
}

func newSched(w *Worker, p *Path) *Sched {
	return &Sched{w: w, p: p, done: make(chan struct{})}
}

func (s *Sched) newThread() *Thread {
	t := &Thread{w: s.w, p: s.p, id: len(s.ths), wake: make(chan struct{}, 1)}
	s.ths = append(s.ths, t)
	t.vc = make(vclock, t.id+1)
	t.vc[t.id] = 1
	return t
}

// runMain runs the harness to completion and returns how the path ended.
func (s *Sched) runMain(fn *Fn) pathEnd {
	t := s.newThread()
	s.cur = t
	s.live = 1
	go s.body(t, func() { t.callFn(fn, nil, nil) }, true)
	t.wake <- struct{}{}
	<-s.done
	return s.end
}

func (s *Sched) body(t *Thread, f func(), main bool) {
	<-t.wake
	defer func() {
		r := recover()
		if r != nil {
			var pe pathEnd
			switch r := r.(type) {
			case pathEnd:
				pe = r
				if pe.kind == endUnsupported && s.p.tracing {
					pe.why += " at " + t.where()
				}
			case *goPanic:
				s.p.viol = t.mkViolation("panic", "panic", "panic: "+t.panicText(r))
				s.p.viol.Where = r.where
				pe = pathEnd{endViolation, "panic"}
				if strings.HasPrefix(s.p.viol.Msg, "panic: verif-unsupported") {
					pe = pathEnd{endUnsupported, s.p.viol.Msg}
				}
			case runtime.Error:
				pe = unsupported("engine: " + r.Error() + " at " + t.where() + engineStack())
			default:
				pe = unsupported(fmt.Sprintf("engine: %v", r))
			}
			s.finishWith(pe)
		} else if main {
			s.finishWith(pathEnd{endDone, ""})
		}
		t.dead = true
		s.live--
		if s.abort {
			// wake the next thread so that it unwinds
			for _, o := range s.ths {
				if !o.dead {
					s.cur = o
					o.wake <- struct{}{}
					return
				}
			}
			close(s.done)
			return
		}
		// goroutine finished: hand over
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok {
						s.finishWith(pe)
					} else {
						s.finishWith(unsupported(fmt.Sprint("engine: ", r)))
					}
					for _, o := range s.ths {
						if !o.dead {
							s.cur = o
							o.wake <- struct{}{}
							return
						}
					}
					close(s.done)
				}
			}()
			t.switchAway(true)
		}()
	}()
	if s.abort {
		panic(pathEnd{endAborted, ""})
	}
	f()
}

func engineStack() string {
	st := string(debug.Stack())
	// keep the frames below the runtime panic
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/engine/") && strings.Contains(l, ".go:") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.Index(l, " "); i >= 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) > 8 {
				break
			}
		}
	}
	return " [" + strings.Join(out, " ") + "]"
}

func (s *Sched) finishWith(pe pathEnd) {
	if !s.hasEnd {
		s.hasEnd = true
		s.end = pe
	}
	s.abort = true
}

func (th *Thread) panicText(g *goPanic) string {
	iv, ok := g.v.(Iface)
	if !ok {
		return g.String()
	}
	if s, ok := iv.v.(string); ok {
		return s
	}
	defer func() { recover() }()
	if v, ok := th.tryErrorText(iv); ok {
		return th.w.concreteStr(v, th.p.model)
	}
	return g.String()
}

func (th *Thread) runnable() bool {
	return !th.dead && (th.ready == nil || th.ready())
}

// candidates in round-robin order starting at th.
func (s *Sched) candidates(th *Thread, self bool) []*Thread {
	var c []*Thread
	n := len(s.ths)
	for k := 0; k < n; k++ {
		o := s.ths[(th.id+k)%n]
		if o == th && !self {
			continue
		}
		if o.runnable() {
			c = append(c, o)
		}
	}
	return c
}

// pick chooses the next thread; deviations from the first candidate cost delays.
func (s *Sched) pick(th *Thread, c []*Thread) *Thread {
	k := 0
	left := s.w.e.delayMax - s.p.delays
	n := len(c)
	if n > left+1 {
		n = left + 1
	}
	if n > 1 && s.w.base == 0 {
		k = th.choose(n)
		s.p.delays += k
		if k > 0 {
			s.p.schedDec = append(s.p.schedDec, k)
		}
	}
	return c[k]
}

// yield is a scheduling point before a synchronisation operation.
func (th *Thread) yield() {
	s := th.p.sched
	if len(s.ths) == 1 || th.w.base > 0 {
		return
	}
	if s.p.delays >= s.w.e.delayMax {
		return
	}
	c := s.candidates(th, true)
	if len(c) <= 1 {
		return
	}
	n := s.pick(th, c)
	if n != th {
		th.handOver(n)
	}
}

func (th *Thread) handOver(n *Thread) {
	s := th.p.sched
	s.cur = n
	n.wake <- struct{}{}
	<-th.wake
	if s.abort {
		panic(pathEnd{endAborted, ""})
	}
}

// block waits until ready() holds.
func (th *Thread) block(what string, ready func() bool) {
	if th.w.base > 0 {
		panic(unsupported("blocking during initialisation"))
	}
	if ready() {
		return
	}
	th.ready = ready
	th.where_ = what
	th.switchAway(false)
	th.ready = nil
}

// switchAway gives the processor to another thread.
func (th *Thread) switchAway(exiting bool) {
	s := th.p.sched
	c := s.candidates(th, !exiting)
	if len(c) == 0 {
		// deadlock: every thread is blocked and main has not returned
		var ws []string
		for _, o := range s.ths {
			if !o.dead && o != th || (o == th && !exiting) {
				ws = append(ws, fmt.Sprintf("g%d %s at %s", o.id, o.where_, o.where()))
			}
		}
		s.p.viol = th.mkViolation("deadlock", "deadlock", "all goroutines are blocked: "+strings.Join(ws, "; "))
		panic(pathEnd{endViolation, "deadlock"})
	}
	n := s.pick(th, c)
	if n == th {
		return
	}
	if exiting {
		s.cur = n
		n.wake <- struct{}{}
		return
	}
	th.handOver(n)
}

func (th *Thread) execGo(fr *Frame, ci *CInstr) {
	args := make([]Value, len(ci.args))
	for i := range ci.args {
		args[i] = fr.get(th, &ci.args[i])
	}
	if ci.bi != nil {
		panic(unsupported("go builtin"))
	}
	f, recv := th.callee(fr, ci)
	if recv != nil {
		args = append([]Value{recv}, args...)
	}
	th.spawn(f, args)
}

func (th *Thread) spawn(f Value, args []Value) {
	if th.w.base > 0 {
		return // goroutines started by package initialisation are not modelled
	}
	s := th.p.sched
	if len(s.ths) > 64 {
		panic(pathEnd{endBudget, "too many goroutines"})
	}
	t := s.newThread()
	t.vc = t.vc.join(th.vc)
	t.vc[t.id] = 1
	th.tick()
	s.live++
	go s.body(t, func() { t.callValue(f, args) }, false)
	th.yield()
}

func (th *Thread) tick() {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id]++
}

func (th *Thread) acquire(vc vclock) { th.vc = th.vc.join(vc) }

func (th *Thread) release() vclock {
	c := th.vc.copy()
	th.tick()
	return c
}

// ---- channels ----

func asChan(v Value) *Chan {
	c, ok := v.(*Chan)
	if !ok {
		panic(unsupported(fmt.Sprintf("channel is %T", v)))
	}
	return c
}

func (th *Thread) chanSend(cv, v Value) {
	c := asChan(cv)
	th.yield()
	if c == nil {
		th.block("send on nil channel", func() bool { return false })
	}
	if c.closed {
		th.goPanicStr("send on closed channel")
	}
	if c.cap > 0 {
		th.block("chan send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			th.goPanicStr("send on closed channel")
		}
		th.acquire(c.vc)
		c.buf = append(c.buf, copyVal(v))
		c.bufVC = append(c.bufVC, th.release())
		return
	}
	it := &sendItem{v: copyVal(v), vc: th.release()}
	c.sendq = append(c.sendq, it)
	th.block("chan send", func() bool { return it.done || c.closed })
	if !it.done {
		th.goPanicStr("send on closed channel")
	}
	th.acquire(it.rvc)
}

func (th *Thread) goPanicStr(msg string) {
	th.rtPanic(msg)
}

func (c *Chan) canRecv() bool {
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}

func (th *Thread) doRecv(c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		th.acquire(c.bufVC[0])
		c.buf = c.buf[1:]
		c.bufVC = c.bufVC[1:]
		c.vc = c.vc.join(th.release())
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.done = true
		th.acquire(it.vc)
		it.rvc = th.release()
		return it.v, true
	}
	th.acquire(c.vc)
	return nil, false
}

func (th *Thread) chanRecv(cv Value) (Value, bool) {
	c := asChan(cv)
	th.yield()
	if c == nil {
		th.block("receive from nil channel", func() bool { return false })
	}
	c.nrecv++
	th.block("chan receive", c.canRecv)
	c.nrecv--
	return th.doRecv(c)
}

func (th *Thread) chanClose(cv Value) {
	c := asChan(cv)
	th.yield()
	if c == nil {
		th.goPanicStr("close of nil channel")
	}
	if c.closed {
		th.goPanicStr("close of closed channel")
	}
	c.closed = true
	c.vc = c.vc.join(th.release())
}

func (th *Thread) execSelect(fr *Frame, ci *CInstr) Value {
	type cs struct {
		c    *Chan
		send bool
		v    Value
	}
	sel := selectOf(ci)
	var cases []cs
	for i, st := range sel.States {
		cv := fr.get(th, &ci.args[2*i])
		c := asChan(cv)
		k := cs{c: c, send: st.Dir == 1}
		if k.send {
			k.v = fr.get(th, &ci.args[2*i+1])
		}
		cases = append(cases, k)
	}
	ready := func() []int {
		var r []int
		for i, k := range cases {
			if k.c == nil {
				continue
			}
			if k.send {
				if k.c.closed || len(k.c.buf) < k.c.cap || (k.c.cap == 0 && k.c.nrecv > len(k.c.sendq)) {
					r = append(r, i)
				}
			} else if k.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	th.yield()
	r := ready()
	if len(r) == 0 {
		if !ci.ok {
			return th.selResult(sel, -1, nil, false)
		}
		for _, k := range cases {
			if k.c != nil && !k.send {
				k.c.nrecv++
			}
		}
		th.block("select", func() bool { return len(ready()) > 0 })
		for _, k := range cases {
			if k.c != nil && !k.send {
				k.c.nrecv--
			}
		}
		r = ready()
	}
	pick := r[0]
	if len(r) > 1 {
		pick = r[th.choose(len(r))]
	}
	k := cases[pick]
	if k.send {
		if k.c.closed {
			th.goPanicStr("send on closed channel")
		}
		if k.c.cap > 0 {
			th.acquire(k.c.vc)
			k.c.buf = append(k.c.buf, copyVal(k.v))
			k.c.bufVC = append(k.c.bufVC, th.release())
		} else {
			k.c.sendq = append(k.c.sendq, &sendItem{v: copyVal(k.v), vc: th.release()})
		}
		return th.selResult(sel, pick, nil, false)
	}
	v, ok := th.doRecv(k.c)
	return th.selResult(sel, pick, v, ok)
}

// ---- race detection ----

func (th *Thread) access(p *Value, write bool) {
	if th.w.base > 0 {
		return
	}
	s := th.p.sched
	if len(s.ths) == 1 {
		return
	}
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			th.access(&v[i], write)
		}
		return
	case Array:
		for i := range v {
			th.access(&v[i], write)
		}
		return
	}
	if s.shadow == nil {
		s.shadow = map[*Value]*shadowCell{}
	}
	c := s.shadow[p]
	if c == nil {
		c = &shadowCell{wt: -1}
		s.shadow[p] = c
	}
	if c.wt >= 0 && c.wt != th.id && c.wc > th.vc.at(c.wt) {
		th.reportRace(c.wpos, write, true)
	}
	if write {
		for r, ck := range c.reads {
			if r != th.id && ck > th.vc.at(r) {
				th.reportRace(c.rpos[r], true, false)
			}
		}
		c.wt = th.id
		c.wc = th.vc.at(th.id)
		c.wpos = th.shortWhere()
		c.reads, c.rpos = nil, nil
		return
	}
	if c.reads == nil {
		c.reads = map[int]int32{}
		c.rpos = map[int]string{}
	}
	if c.reads[th.id] != th.vc.at(th.id) {
		c.reads[th.id] = th.vc.at(th.id)
		c.rpos[th.id] = th.shortWhere()
	}
}

func (th *Thread) shortWhere() string {
	if th.fr == nil {
		return "?"
	}
	return th.fr.fn.name
}

func (th *Thread) reportRace(other string, write, otherWrite bool) {
	kind := map[bool]string{true: "write", false: "read"}
	s := th.p.sched
	msg := fmt.Sprintf("data race: %s in %s, concurrent with %s in %s", kind[write], th.where(), kind[otherWrite], other)
	s.p.viol = th.mkViolation("race", "race", msg)
	panic(pathEnd{endViolation, "race"})
}
