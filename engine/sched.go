package main

// Goroutines, channels, select, timers: a cooperative scheduler whose choices
// are decisions of the path.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id      int
	p       *path
	wake    chan struct{}
	ready   func() bool // nil: runnable
	timer   int64       // >0: sleeping until this virtual time
	done    bool
	what    string
	depth   int
	vc      vclock
	parent  int
	started bool
}

type schan struct {
	id     int
	cap    int
	buf    []value
	bufvc  []vclock
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	vc     vclock
	recvvc []vclock
}

type selState struct {
	fired       bool
	idx         int
	val         value
	ok          bool
	panicClosed bool
}

type waiter struct {
	g   *gor
	sel *selState
	idx int
	val value
}

func (p *path) newChan(n int) *schan { return &schan{id: p.id(), cap: n} }

func (p *path) newGor(parent *gor) *gor {
	g := &gor{id: len(p.gors), p: p, wake: make(chan struct{}, 1)}
	if parent != nil {
		g.parent = parent.id
	}
	p.gors = append(p.gors, g)
	if p.race != nil {
		p.race.fork(parent, g)
	}
	return g
}

// spawn starts a target goroutine.
func (p *path) spawn(fr *frame, fn value, args []value) {
	g := p.newGor(fr.g)
	g.what = fnName(fn)
	p.w.wg.Add(1)
	go func() {
		defer p.w.wg.Done()
		<-g.wake
		if p.abort {
			return
		}
		defer func() {
			x := recover()
			g.done = true
			if p.abort {
				return
			}
			if x != nil {
				if tp, ok := x.(targetPanic); ok {
					x = goPanic{tp, g.what}
				}
				p.why = x
				p.abort = true
				p.wakeAll(g)
				return
			}
			// hand the baton on
			var next *gor
			func() {
				defer func() {
					if y := recover(); y != nil {
						p.why = y
					}
				}()
				next = p.pick(g, true)
			}()
			if next == nil && p.why != nil {
				p.abort = true
				p.wakeAll(g)
				return
			}
			if next == nil {
				p.why = ctlDeadlock{}
				p.abort = true
				p.wakeAll(g)
				return
			}
			p.cur = next
			next.wake <- struct{}{}
		}()
		p.call(nil, g, fn, args)
	}()
	p.yield(fr.g, "go")
}

type goPanic struct {
	tp   targetPanic
	what string
}
type ctlDeadlock struct{}

// ctlForever: the path runs on although all limits on time have passed.
type ctlForever struct{}

// ctlStack: calls nest without end.
type ctlStack struct{}

const (
	maxDepth  = 20000
	spinSteps = 20_000_000
	spinTime  = 3600 * 1000000000 // virtual
)

func fnName(fn value) string {
	switch f := fn.(type) {
	case *ssa.Function:
		return f.String()
	case *closure:
		return f.fn.String()
	}
	return fmt.Sprintf("%T", fn)
}

func (p *path) wakeAll(except *gor) {
	for _, g := range p.gors {
		if g != except {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
}

// runnable returns the goroutines that can make a step now.
func (p *path) runnable() []*gor {
	var r []*gor
	for _, g := range p.gors {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses the next goroutine when the current one cannot continue.
func (p *path) pick(cur *gor, exiting bool) *gor {
	for {
		r := p.runnable()
		if p.earlyTmr || len(r) == 0 {
			// the earliest sleeper may also wake now
			var s *gor
			for _, g := range p.gors {
				if !g.done && g.timer > p.now && (s == nil || g.timer < s.timer) {
					s = g
				}
			}
			if len(r) == 0 {
				if s == nil {
					return nil
				}
				p.now = s.timer
				continue
			}
			if s != nil && p.preempts > 0 {
				if p.choose("timer-early", 2) == 1 {
					p.preempts--
					p.now = s.timer
					p.logSched("timer fires early at %d", p.now)
					continue
				}
			}
		}
		i := 0
		if p.schedAll {
			i = p.choose("sched", len(r))
		}
		p.logSched("run g%d %s", r[i].id, r[i].what)
		return r[i]
	}
}

func (p *path) logSched(f string, a ...interface{}) {
	if len(p.schedLog) < 200 {
		p.schedLog = append(p.schedLog, fmt.Sprintf(f, a...))
	}
}

// block parks the current goroutine until ready() holds.
func (p *path) block(g *gor, ready func() bool, what string) {
	g.ready = ready
	old := g.what
	for {
		next := p.pick(g, false)
		if next == nil {
			panic(ctlDeadlock{})
		}
		if next == g {
			break
		}
		p.switchTo(g, next)
		break
	}
	g.ready = nil
	g.timer = 0
	g.what = old
}

func (p *path) switchTo(g, next *gor) {
	p.cur = next
	next.wake <- struct{}{}
	<-g.wake
	if p.abort {
		panic(ctlAbort{"stop"})
	}
}

// yield is a preemption point.
func (p *path) yield(g *gor, what string) {
	if p.preempts <= 0 {
		return
	}
	r := p.runnable()
	var others []*gor
	for _, x := range r {
		if x != g {
			others = append(others, x)
		}
	}
	nt := 0
	var s *gor
	if p.earlyTmr {
		for _, x := range p.gors {
			if !x.done && x.timer > p.now && (s == nil || x.timer < s.timer) {
				s = x
			}
		}
		if s != nil {
			nt = 1
		}
	}
	if len(others)+nt == 0 {
		return
	}
	c := p.choose("preempt", 1+len(others)+nt)
	if c == 0 {
		return
	}
	p.preempts--
	if c <= len(others) {
		p.logSched("preempt g%d at %s -> g%d", g.id, what, others[c-1].id)
		p.switchTo(g, others[c-1])
		return
	}
	p.now = s.timer
	p.logSched("preempt g%d at %s: timer fires, g%d", g.id, what, s.id)
	p.switchTo(g, s)
}

// passTime lets the polling goroutine g use up some time: others that can run, and sleepers that are due, do.
func (p *path) passTime(g *gor) {
	p.now += p.spin
	if p.now > spinTime {
		panic(ctlForever{})
	}
	for _, x := range p.gors {
		if x != g && !x.done && (x.ready == nil || x.ready()) {
			p.logSched("g%d spins until %d, g%d runs", g.id, p.now, x.id)
			p.switchTo(g, x)
			return
		}
	}
}

func (p *path) sleep(g *gor, d int64) {
	if d <= 0 {
		p.yield(g, "sleep")
		return
	}
	t := p.now + d
	g.timer = t
	p.block(g, func() bool { return p.now >= t }, "sleep")
}

// ---- channels -------------------------------------------------------------------

type selCase struct {
	send bool
	ch   *schan
	val  value
}

func firstWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.sel.fired {
			*q = (*q)[1:]
			continue
		}
		return w
	}
	return nil
}

func (c *selCase) isReady() bool {
	if c.ch == nil {
		return false
	}
	if c.send {
		return c.ch.closed || firstWaiter(&c.ch.recvq) != nil || len(c.ch.buf) < c.ch.cap
	}
	return len(c.ch.buf) > 0 || c.ch.closed || firstWaiter(&c.ch.sendq) != nil
}

// selectOp performs a select; idx -1 means default.
func (p *path) selectOp(fr *frame, cases []selCase, hasDefault bool) (idx int, v value, ok bool) {
	g := fr.g
	p.yield(g, "chan")
	var ready []int
	for i := range cases {
		if cases[i].isReady() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 && p.schedAll {
			i = ready[p.choose("select", len(ready))]
		}
		v, ok = p.fire(fr, &cases[i])
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	st := &selState{}
	for i := range cases {
		c := &cases[i]
		if c.ch == nil {
			continue
		}
		w := &waiter{g: g, sel: st, idx: i, val: c.val}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	p.block(g, func() bool { return st.fired }, "chan")
	if st.panicClosed {
		p.rtPanicPlain("send on closed channel")
	}
	return st.idx, st.val, st.ok
}

// fire performs a ready case.
func (p *path) fire(fr *frame, c *selCase) (value, bool) {
	ch := c.ch
	if c.send {
		if ch.closed {
			p.rtPanicPlain("send on closed channel")
		}
		if w := firstWaiter(&ch.recvq); w != nil {
			ch.recvq = ch.recvq[1:]
			w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, copyVal(c.val), true
			if p.race != nil {
				p.race.sync2(fr.g, w.g)
			}
			return nil, true
		}
		ch.buf = append(ch.buf, copyVal(c.val))
		if p.race != nil {
			ch.bufvc = append(ch.bufvc, p.race.release(fr.g))
		}
		return nil, true
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if p.race != nil && len(ch.bufvc) > 0 {
			p.race.acquire(fr.g, ch.bufvc[0])
			ch.bufvc = ch.bufvc[1:]
		}
		if w := firstWaiter(&ch.sendq); w != nil {
			ch.sendq = ch.sendq[1:]
			ch.buf = append(ch.buf, copyVal(w.val))
			if p.race != nil {
				ch.bufvc = append(ch.bufvc, p.race.release(w.g))
			}
			w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, true
		}
		return v, true
	}
	if w := firstWaiter(&ch.sendq); w != nil {
		ch.sendq = ch.sendq[1:]
		w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, true
		if p.race != nil {
			p.race.sync2(fr.g, w.g)
		}
		return copyVal(w.val), true
	}
	// closed
	if p.race != nil {
		p.race.acquire(fr.g, ch.vc)
	}
	return nil, false
}

func (p *path) chanSend(fr *frame, ch *schan, v value) {
	p.selectOp(fr, []selCase{{send: true, ch: ch, val: v}}, false)
}

func (p *path) chanRecv(fr *frame, ch *schan) (value, bool) {
	_, v, ok := p.selectOp(fr, []selCase{{ch: ch}}, false)
	if !ok {
		return nil, false
	}
	return v, true
}

func (p *path) chanClose(fr *frame, ch *schan) {
	if ch == nil {
		p.rtPanicPlain("close of nil channel")
	}
	if ch.closed {
		p.rtPanicPlain("close of closed channel")
	}
	ch.closed = true
	if p.race != nil {
		ch.vc = p.race.release(fr.g)
	}
	for _, w := range ch.recvq {
		if !w.sel.fired {
			w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, nil, false
			if p.race != nil {
				p.race.acquire(w.g, ch.vc)
			}
		}
	}
	for _, w := range ch.sendq {
		if !w.sel.fired {
			w.sel.fired, w.sel.idx, w.sel.panicClosed = true, w.idx, true
		}
	}
	ch.recvq, ch.sendq = nil, nil
	p.yield(fr.g, "close")
}

func (p *path) execSelect(fr *frame, in *ssa.Select, c *cinstr) value {
	var cases []selCase
	for i, st := range in.States {
		ch, _ := fr.get(&c.ops[2*i]).(*schan)
		sc := selCase{ch: ch, send: st.Dir == types.SendOnly}
		if sc.send {
			sc.val = fr.get(&c.ops[2*i+1])
		}
		cases = append(cases, sc)
	}
	idx, v, ok := p.selectOp(fr, cases, !in.Blocking)
	if idx < 0 && p.spin > 0 {
		p.passTime(fr.g)
	}
	r := tuple{int64(idx), ok}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			if i == idx && ok {
				r = append(r, v)
			} else {
				r = append(r, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	if idx >= 0 && in.States[idx].Dir == types.SendOnly {
		r[1] = false
	}
	return r
}

// drain lets every other goroutine run (and time pass) until nothing can
// move; it returns the number of goroutines that remain stuck.
func (p *path) drain(g *gor) int {
	p.block(g, func() bool {
		// main resumes only when nobody else is runnable and no timer is pending
		for _, x := range p.gors {
			if x == g || x.done {
				continue
			}
			if x.timer > p.now {
				return false
			}
			if x.ready == nil || x.ready() {
				return false
			}
		}
		return true
	}, "drain")
	n := 0
	for _, x := range p.gors {
		if x != g && !x.done {
			n++
		}
	}
	return n
}

// ---- data races (vector clocks) ---------------------------------------------

type vclock map[int]int

type raceState struct {
	p     *path
	last  map[interface{}]*accInfo
	found map[string]bool
}

type accInfo struct {
	wg, wc int
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

func newRace(p *path) *raceState {
	return &raceState{p: p, last: map[interface{}]*accInfo{}, found: map[string]bool{}}
}

func (r *raceState) vc(g *gor) vclock {
	if g.vc == nil {
		g.vc = vclock{g.id: 1}
	}
	return g.vc
}

func (r *raceState) fork(parent, g *gor) {
	g.vc = vclock{}
	if parent != nil {
		for k, v := range r.vc(parent) {
			g.vc[k] = v
		}
		parent.vc[parent.id]++
	}
	g.vc[g.id] = 1
}

func (r *raceState) release(g *gor) vclock {
	c := vclock{}
	for k, v := range r.vc(g) {
		c[k] = v
	}
	g.vc[g.id]++
	return c
}

func (r *raceState) acquire(g *gor, o vclock) {
	v := r.vc(g)
	for k, x := range o {
		if v[k] < x {
			v[k] = x
		}
	}
}

func (r *raceState) sync2(a, b *gor) {
	ra := r.release(a)
	rb := r.release(b)
	r.acquire(a, rb)
	r.acquire(b, ra)
}

func (r *raceState) access(fr *frame, key interface{}, write bool) {
	if fr == nil || fr.g == nil || len(r.p.gors) < 2 {
		return
	}
	g := fr.g
	v := r.vc(g)
	a := r.last[key]
	if a == nil {
		a = &accInfo{wg: -1}
		r.last[key] = a
	}
	pos := fr.posString()
	if a.wg >= 0 && a.wg != g.id && v[a.wg] < a.wc {
		r.report(a.wpos, pos)
	}
	if write {
		for rg, rc := range a.reads {
			if rg != g.id && v[rg] < rc {
				r.report(a.rpos[rg], pos)
			}
		}
		a.wg, a.wc, a.wpos = g.id, v[g.id], pos
		a.reads, a.rpos = nil, nil
	} else {
		if a.reads == nil {
			a.reads, a.rpos = map[int]int{}, map[int]string{}
		}
		a.reads[g.id] = v[g.id]
		a.rpos[g.id] = pos
	}
}

func (r *raceState) accessMap(fr *frame, m *smap, write bool) { r.access(fr, m, write) }

func (r *raceState) report(a, b string) {
	if b < a {
		a, b = b, a
	}
	r.found[a+" <-> "+b] = true
}

func (fr *frame) posString() string {
	for f := fr; f != nil; f = f.caller {
		if f.fi == nil || f.fi.fn == nil {
			continue
		}
		if f.fi.std {
			continue
		}
		if f.pos.IsValid() {
			ps := f.p.w.ex.prog.Fset.Position(f.pos)
			return fmt.Sprintf("%s:%d", short(ps.Filename), ps.Line)
		}
		return f.fi.name
	}
	return "?"
}
