package main

import (
	"fmt"
	"go/token"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking of the memory accesses made by the repository's own
// code. Interleavings are explored at synchronisation operations only, which
// suffices for code without data races. Where two accesses are not ordered by
// synchronisation, the entry is explored again with both of them as scheduling
// points; unordered accesses to a map are reported at once, since the runtime
// aborts on them.

type accSite struct {
	fn   string
	pos  token.Pos
	racy int32
}

type epoch struct {
	g    int
	clk  uint32
	site *accSite
}

type shadow struct {
	w     epoch
	reads []epoch
}

type shadowKey struct {
	obj any
	i   int
}

type vclock []uint32

func (v vclock) at(g int) uint32 {
	if g < len(v) {
		return v[g]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (g *Goroutine) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// release publishes the running goroutine's past through k; acquire takes on
// what was published.
func (m *Machine) release(k any) {
	g := m.cur
	if g == nil || len(m.gs) == 1 {
		return
	}
	c := m.clocks[k]
	c.join(g.vc)
	m.clocks[k] = c
	g.tick()
}

func (m *Machine) acquire(k any) {
	g := m.cur
	if g == nil || len(m.gs) == 1 {
		return
	}
	g.vc.join(m.clocks[k])
}

func (m *Machine) acqrel(k any) { m.acquire(k); m.release(k) }

// joinAll: what the harness does after waiting for everyone else is ordered
// after what they did.
func (m *Machine) joinAll() {
	for _, g := range m.gs {
		m.cur.vc.join(g.vc)
		g.tick()
	}
}

func (c *compiler) site(pos token.Pos) *accSite {
	p := fnPkgPath(c.fc.fn)
	if !strings.HasPrefix(p, modPath) || strings.HasPrefix(p, modPath+"/zzverif") || c.fc.isInit {
		return nil
	}
	return &accSite{fn: c.fc.name, pos: pos}
}

// tracked wraps a memory access of the repository's code.
func (c *compiler) tracked(in ssa.Instruction, addr opnd, size int, write bool, o op) op {
	s := c.site(in.Pos())
	if s == nil {
		return o
	}
	if size > 16 {
		size = 16
	}
	return func(m *Machine, fr *frame) {
		if len(m.gs) > 1 {
			if m.spec > 0 {
				panic(specAbort{})
			}
			if atomic.LoadInt32(&s.racy) != 0 && m.ex_.racy[s] {
				m.curFr = fr
				m.yield("access")
			}
			p := addr.get(m, fr)
			switch r := p.r.(type) {
			case *Agg:
				for i := 0; i < size; i++ {
					m.access(s, shadowKey{r, int(p.n) + i}, write)
				}
			case *MapV:
				m.curFr = fr
				m.access(s, shadowKey{r, 0}, write)
			}
		}
		o(m, fr)
		if write && len(m.gs) > 1 {
			// Others may come between a racy write and what follows it.
			m.bulkAfter(s, fr)
		}
	}
}

// bulk tracks a write of n cells by append or copy.
func (m *Machine) bulk(s *accSite, fr *frame, a *Agg, off, n int) {
	if s == nil || len(m.gs) == 1 || n == 0 {
		return
	}
	m.curFr = fr
	if atomic.LoadInt32(&s.racy) != 0 && m.ex_.racy[s] {
		m.yield("access")
	}
	if n > 16 {
		n = 16
	}
	for i := 0; i < n; i++ {
		m.access(s, shadowKey{a, off + i}, true)
	}
}

func (m *Machine) bulkAfter(s *accSite, fr *frame) {
	if s == nil || len(m.gs) == 1 {
		return
	}
	if atomic.LoadInt32(&s.racy) != 0 && m.ex_.racy[s] {
		m.curFr = fr
		m.yield("access")
	}
}

func (m *Machine) access(s *accSite, k shadowKey, write bool) {
	g := m.cur
	if m.initDepth > 0 || g == nil {
		return
	}
	if len(g.vc) <= g.id || g.vc[g.id] == 0 {
		g.tick()
	}
	sh := m.shadows[k]
	if sh == nil {
		sh = new(shadow)
		m.shadows[k] = sh
	}
	if sh.w.clk > 0 && sh.w.g != g.id && sh.w.clk > g.vc.at(sh.w.g) {
		m.race(sh.w.site, s, k)
	}
	me := epoch{g.id, g.vc[g.id], s}
	if !write {
		for i, r := range sh.reads {
			if r.g == g.id {
				sh.reads[i] = me
				return
			}
		}
		sh.reads = append(sh.reads, me)
		return
	}
	for _, r := range sh.reads {
		if r.g != g.id && r.clk > g.vc.at(r.g) {
			m.race(r.site, s, k)
		}
	}
	sh.w = me
	sh.reads = sh.reads[:0]
}

func (m *Machine) race(a, b *accSite, k shadowKey) {
	if _, ok := k.obj.(*MapV); ok {
		m.nondet = true
		msg := fmt.Sprintf("concurrent map access: %s and %s", shortName(a.fn), shortName(b.fn))
		m.violation(msg)
		panic(&pathEnd{kind: "violation", msg: msg})
	}
	for _, s := range []*accSite{a, b} {
		if !m.ex_.racy[s] {
			atomic.StoreInt32(&s.racy, 1)
			m.ex_.noteRace(s)
		}
	}
}

func (ex *Explorer) noteRace(s *accSite) {
	ex.mu.Lock()
	if ex.newRacy == nil {
		ex.newRacy = map[*accSite]bool{}
	}
	ex.newRacy[s] = true
	ex.mu.Unlock()
}
