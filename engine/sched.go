package main

import (
	"fmt"
	"sort"
)

// Interpreted goroutines run on real goroutines that pass a baton: exactly one
// runs at a time, and every scheduling choice is a recorded decision.

type Goroutine struct {
	id      int
	name    string
	resume  chan struct{}
	f       func(m *Machine)
	started bool
	done    bool
	blocked bool
	on      string
	settle  int64
	top     *frame
	wakeVal Value
	wakeOk  bool
	exited  chan struct{}
	vc      vclock
}

type waitKey struct {
	a *Agg
	i uint64
}

type vtimer struct {
	when   int64
	seq    int
	f      func(m *Machine)
	active bool
	period int64
	extra  *Expr // a symbolic delay, which counts when it is over
}

func (m *Machine) newG(name string, f func(m *Machine)) *Goroutine {
	g := &Goroutine{id: len(m.gs), name: name, resume: make(chan struct{}), f: f, exited: make(chan struct{})}
	m.gs = append(m.gs, g)
	return g
}

func (m *Machine) spawn(name string, f func(m *Machine)) {
	if m.initDepth > 0 {
		panic(m.unsup("goroutine during package initialisation"))
	}
	m.cur.tick()
	g := m.newG(name, f)
	g.vc.join(m.cur.vc)
	g.tick()
	m.cur.tick()
	m.yield("go")
}

// body runs a goroutine until it ends, then passes the baton on.
func (m *Machine) body(g *Goroutine) {
	defer close(g.exited)
	<-g.resume
	if m.killing {
		g.done = true
		return
	}
	end := m.runTop(g)
	g.done = true
	if _, ok := end.(killSig); ok {
		return
	}
	if pe, ok := end.(*pathEnd); ok {
		m.finish(pe)
		return
	}
	if g.id == 0 {
		m.finish(&pathEnd{kind: "done"})
		return
	}
	// hand over
	pe := m.guard(func() { m.dispatch(nil) })
	if pe != nil {
		m.finish(pe)
	}
}

func (m *Machine) guard(f func()) (pe *pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*pathEnd); ok {
				pe = e
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (m *Machine) runTop(g *Goroutine) (end any) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case *pathEnd, killSig:
			end = e
		case *ipanic:
			msg := m.panicString(e)
			pe := m.guard(func() { m.violation("panic: " + msg) })
			if pe == nil {
				pe = &pathEnd{kind: "violation", msg: msg}
			}
			end = pe
		default:
			if m.ex_.debug {
				panic(r)
			}
			end = &pathEnd{kind: "internal", msg: fmt.Sprintf("%v%s", r, m.where())}
		}
	}()
	g.f(m)
	return nil
}

func (m *Machine) finish(pe *pathEnd) {
	m.ended = pe
	m.doneCh <- struct{}{}
}

// runPath executes the entry function on a fresh scheduler state.
func (m *Machine) runPath(f func(m *Machine)) *pathEnd {
	m.gs = nil
	m.now = 0
	m.extra, m.nowExtra = nil, nil
	m.timers = nil
	m.waitq = map[waitKey][]*Goroutine{}
	m.muState = map[waitKey]*Goroutine{}
	m.killing = false
	m.shadows = map[shadowKey]*shadow{}
	m.clocks = map[any]vclock{}
	m.ended = nil
	m.schedLog = nil
	m.doneCh = make(chan struct{}, 1)
	g := m.newG("main", f)
	m.cur = g
	g.started = true
	go m.body(g)
	g.resume <- struct{}{}
	<-m.doneCh
	m.killing = true
	for _, g := range m.gs {
		if g.started && !g.done {
			g.resume <- struct{}{}
			<-g.exited
		} else if g.started {
			<-g.exited
		}
	}
	m.cur = nil
	return m.ended
}

// switchTo gives the baton to g; me is nil when the caller has ended.
func (m *Machine) switchTo(me, g *Goroutine) {
	if me == g {
		return
	}
	m.cur = g
	if !g.started {
		g.started = true
		go m.body(g)
	}
	g.resume <- struct{}{}
	if me == nil {
		return
	}
	<-me.resume
	if m.killing {
		me.done = true
		panic(killSig{})
	}
	m.cur = me
}

func (m *Machine) runnable(except *Goroutine) []*Goroutine {
	var r []*Goroutine
	n := len(m.gs)
	start := 0
	if except != nil {
		start = except.id + 1
	} else if m.cur != nil {
		start = m.cur.id + 1
	}
	for i := 0; i < n; i++ {
		g := m.gs[(start+i)%n]
		if g != except && !g.done && !g.blocked {
			r = append(r, g)
		}
	}
	return r
}

// yield is a scheduling point at which the running goroutine could be preempted.
func (m *Machine) yield(what string) {
	if m.initDepth > 0 || m.budget <= 0 || len(m.gs) == 1 && len(m.timers) == 0 {
		return
	}
	me := m.cur
	rs := m.runnable(me)
	nt := 0
	if m.opts.timerRace && m.nextTimer() != nil {
		nt = 1
	}
	if len(rs)+nt == 0 {
		return
	}
	k := m.choose(1+len(rs)+nt, "sched")
	if k == 0 {
		return
	}
	m.budget--
	if k <= len(rs) {
		m.schedLog = append(m.schedLog, fmt.Sprintf("preempt g%d at %s -> g%d", me.id, what, rs[k-1].id))
		m.switchTo(me, rs[k-1])
		return
	}
	m.schedLog = append(m.schedLog, "timer fires early")
	m.fireTimer()
}

// block suspends the running goroutine until some other one unblocks it.
func (m *Machine) block(on string) {
	if m.initDepth > 0 {
		panic(m.unsup("blocking during package initialisation: " + on))
	}
	me := m.cur
	me.blocked = true
	me.on = on
	m.dispatch(me)
}

// dispatch picks the next goroutine to run; me (blocked) may be chosen again
// once something unblocks it. With me == nil the caller has ended.
func (m *Machine) dispatch(me *Goroutine) {
	for {
		rs := m.runnable(nil)
		if len(rs) > 0 {
			k := 0
			nt := 0
			if m.opts.timerRace && m.budget > 0 && m.nextTimer() != nil {
				nt = 1
			}
			if len(rs)+nt > 1 && (m.opts.freeBlock || m.budget > 0) {
				k = m.choose(len(rs)+nt, "sched")
				if k > 0 && !m.opts.freeBlock {
					m.budget--
				}
			}
			if k == len(rs) {
				m.budget--
				m.fireTimer()
				continue
			}
			m.switchTo(me, rs[k])
			return
		}
		if n := len(m.settlers); n > 0 {
			g := m.settlers[n-1]
			if t := m.nextTimer(); t != nil && t.extra == nil && t.when <= g.settle {
				m.fireTimer()
				continue
			}
			m.settlers = m.settlers[:n-1]
			g.blocked = false
			continue
		}
		if m.nextTimer() != nil {
			m.fireTimer()
			continue
		}
		// deadlock
		msg := "deadlock:"
		for _, g := range m.gs {
			if !g.done {
				msg += fmt.Sprintf(" g%d(%s) blocked on %s;", g.id, shortName(g.name), g.on)
			}
		}
		if m.opts.noDeadlock {
			panic(&pathEnd{kind: "infeasible", msg: msg})
		}
		m.violation(msg)
		panic(&pathEnd{kind: "violation", msg: msg})
	}
}

func (m *Machine) ready(g *Goroutine) { g.blocked = false }

func (m *Machine) nextTimer() *vtimer {
	var b *vtimer
	live := m.timers[:0]
	for _, t := range m.timers {
		if t.active {
			live = append(live, t)
		}
	}
	m.timers = live
	for _, t := range m.timers {
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	return b
}

func (m *Machine) addTimer(d int64, f func(m *Machine)) *vtimer {
	if d < 0 {
		d = 0
	}
	m.timerSeq++
	for _, t := range m.timers {
		if t.active && t.extra != nil {
			panic(m.unsup("a timer next to one of symbolic duration"))
		}
	}
	w := m.now + d
	if w < m.now {
		w = 1<<63 - 1
	}
	t := &vtimer{when: w, seq: m.timerSeq, f: f, active: true}
	m.timers = append(m.timers, t)
	return t
}

func (m *Machine) fireTimer() {
	t := m.nextTimer()
	if t.extra != nil {
		if m.extra == nil {
			m.extra = m.ctx.Const(64, 0)
		}
		m.extra, t.extra = m.ctx.Add(m.extra, t.extra), nil
	}
	if t.when > m.now {
		m.now = t.when
	}
	if t.period > 0 {
		m.timerSeq++
		t.when = m.now + t.period
		t.seq = m.timerSeq
	} else {
		t.active = false
	}
	t.f(m)
}

// delay returns a duration for a timer. A symbolic one is possible as long as
// there is no other timer whose order matters: it is over when nothing else can
// run, and is added to the clock then.
func (m *Machine) delay(v Value) (d int64, extra *Expr) {
	if v.r == nil {
		return int64(v.n), nil
	}
	for _, t := range m.timers {
		if t.active {
			return int64(m.concInt(v, 64)), nil
		}
	}
	e, zero := m.ex(v, 64), m.ctx.Const(64, 0)
	return 0, m.ctx.Ite(m.ctx.Slt(e, zero), zero, e)
}

// elapsed is the virtual time.
func (m *Machine) elapsed() Value {
	if m.extra == nil {
		return Value{n: uint64(m.now)}
	}
	return m.ev(m.ctx.Add(m.extra, m.ctx.Const(64, uint64(m.now))))
}

func (m *Machine) sleepFor(v Value) {
	d, extra := m.delay(v)
	if extra == nil {
		m.sleep(d)
		return
	}
	me := m.cur
	m.addTimer(0, func(m *Machine) { m.ready(me) }).extra = extra
	m.block("sleep")
}

func (m *Machine) sleep(d int64) {
	if d <= 0 {
		m.yield("sleep")
		return
	}
	me := m.cur
	m.addTimer(d, func(m *Machine) { m.ready(me) })
	m.block("sleep")
}

// ---- wait queues (mutexes, wait groups, conditions) ----

func (m *Machine) waitOn(k waitKey, what string) {
	m.waitq[k] = append(m.waitq[k], m.cur)
	m.block(what)
}

func (m *Machine) wakeAll(k waitKey) {
	for _, g := range m.waitq[k] {
		m.ready(g)
	}
	delete(m.waitq, k)
}

func (m *Machine) wakeOne(k waitKey) {
	q := m.waitq[k]
	if len(q) == 0 {
		return
	}
	m.ready(q[0])
	if len(q) == 1 {
		delete(m.waitq, k)
	} else {
		m.waitq[k] = q[1:]
	}
}

// ---- channels ----

type selCase struct {
	ch   *ChanV
	send bool
	val  Value
}

func (q *ChanV) popRecv() *waiter {
	for len(q.recvq) > 0 {
		w := q.recvq[0]
		q.recvq = q.recvq[1:]
		if w.token.done {
			continue
		}
		return w
	}
	return nil
}

func (q *ChanV) popSend() *waiter {
	for len(q.sendq) > 0 {
		w := q.sendq[0]
		q.sendq = q.sendq[1:]
		if w.token.done {
			continue
		}
		return w
	}
	return nil
}

func (q *ChanV) hasRecv() bool {
	for _, w := range q.recvq {
		if !w.token.done {
			return true
		}
	}
	return false
}

func (q *ChanV) hasSend() bool {
	for _, w := range q.sendq {
		if !w.token.done {
			return true
		}
	}
	return false
}

func (m *Machine) complete(w *waiter, v Value, ok bool) {
	// a direct hand-over orders both sides
	if me := m.cur; me != nil {
		w.g.vc.join(me.vc)
		me.vc.join(w.g.vc)
		me.tick()
		w.g.tick()
	}
	w.token.done = true
	w.token.idx = w.sel
	w.token.val = v
	w.token.ok = ok
	m.ready(w.g)
}

// try performs a ready case.
func (m *Machine) try(c *selCase) (v Value, ok, done bool) {
	q := c.ch
	if q == nil {
		return
	}
	if c.send {
		if q.closed {
			panic(&ipanic{val: m.rtErr("send on closed channel"), msg: "send on closed channel", where: m.where()})
		}
		if w := q.popRecv(); w != nil {
			m.complete(w, c.val, true)
			return Value{}, false, true
		}
		if len(q.buf) < q.cap {
			m.acqrel(q)
			q.buf = append(q.buf, c.val)
			return Value{}, false, true
		}
		return
	}
	if len(q.buf) > 0 {
		m.acqrel(q)
		v = q.buf[0]
		q.buf = append([]Value(nil), q.buf[1:]...)
		if w := q.popSend(); w != nil {
			q.buf = append(q.buf, w.val)
			m.complete(w, Value{}, false)
		}
		return v, true, true
	}
	if w := q.popSend(); w != nil {
		m.complete(w, Value{}, false)
		return w.val, true, true
	}
	if q.closed {
		m.acquire(q)
		return Value{}, false, true
	}
	return
}

func (c *selCase) ready() bool {
	q := c.ch
	if q == nil {
		return false
	}
	if c.send {
		return q.closed || q.hasRecv() || len(q.buf) < q.cap
	}
	return len(q.buf) > 0 || q.hasSend() || q.closed
}

func (m *Machine) rtErr(s string) Value {
	if t := m.ld.pkgType("runtime", "errorString"); t != nil {
		return Value{r: &Iface{t: m.ld.rtype(t), v: strVal(s)}}
	}
	return Value{}
}

func (m *Machine) selectStmt(cases []selCase, blocking bool) (int, Value, bool) {
	m.yield("select")
	var rd []int
	for i := range cases {
		if cases[i].ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		k := 0
		if len(rd) > 1 {
			k = m.choose(len(rd), "select")
		}
		v, ok, _ := m.try(&cases[rd[k]])
		return rd[k], v, ok
	}
	if !blocking {
		return -1, Value{}, false
	}
	tok := &selToken{idx: -1}
	for i := range cases {
		q := cases[i].ch
		if q == nil {
			continue
		}
		w := &waiter{g: m.cur, val: cases[i].val, sel: i, isSend: cases[i].send, token: tok}
		if cases[i].send {
			q.sendq = append(q.sendq, w)
		} else {
			q.recvq = append(q.recvq, w)
		}
	}
	m.block("select" + m.where())
	if tok.panic {
		panic(&ipanic{val: m.rtErr("send on closed channel"), msg: "send on closed channel", where: m.where()})
	}
	return tok.idx, tok.val, tok.ok
}

func (m *Machine) chanSend(ch, v Value) {
	c := selCase{send: true, val: v}
	if ch.r != nil {
		c.ch = ch.r.(*ChanV)
	}
	m.chanOp(c, "chan send")
}

func (m *Machine) chanRecv(ch Value) (Value, bool) {
	c := selCase{}
	if ch.r != nil {
		c.ch = ch.r.(*ChanV)
	}
	return m.chanOp(c, "chan receive")
}

func (m *Machine) chanOp(c selCase, what string) (Value, bool) {
	m.yield(what)
	if v, ok, done := m.try(&c); done {
		return v, ok
	}
	tok := &selToken{idx: -1}
	w := &waiter{g: m.cur, val: c.val, isSend: c.send, token: tok}
	if c.ch != nil {
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	m.block(what + m.where())
	if tok.panic {
		panic(&ipanic{val: m.rtErr("send on closed channel"), msg: "send on closed channel", where: m.where()})
	}
	return tok.val, tok.ok
}

func (m *Machine) chanClose(v Value) {
	if v.r == nil {
		panic(&ipanic{val: m.rtErr("close of nil channel"), msg: "close of nil channel", where: m.where()})
	}
	q := v.r.(*ChanV)
	if q.closed {
		panic(&ipanic{val: m.rtErr("close of closed channel"), msg: "close of closed channel", where: m.where()})
	}
	m.yield("close")
	q.closed = true
	m.release(q)
	for {
		w := q.popRecv()
		if w == nil {
			break
		}
		m.complete(w, Value{}, false)
	}
	for {
		w := q.popSend()
		if w == nil {
			break
		}
		w.token.panic = true
		m.complete(w, Value{}, false)
	}
	m.yield("closed")
}

// orderMap fixes the iteration order of a map range.
func (m *Machine) orderMap(it *mapIter) {
	n := len(it.order)
	if n < 2 || m.initDepth > 0 || !m.opts.mapOrders {
		return
	}
	if m.choose(2, "maporder") == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			it.order[i], it.order[j] = it.order[j], it.order[i]
		}
	}
}

func (m *Machine) goroutineSummary() string {
	s := ""
	var on []string
	for _, g := range m.gs {
		if !g.done {
			on = append(on, fmt.Sprintf("g%d:%s(%s)", g.id, shortName(g.name), g.on))
		}
	}
	sort.Strings(on)
	for _, x := range on {
		s += x + " "
	}
	return s
}
