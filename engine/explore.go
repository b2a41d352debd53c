package main

import (
	"fmt"
	"math/bits"
	"os"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type dkind uint8

const (
	dBranch dkind = iota
	dChoose
	dConc
)

// Decision is one recorded nondeterministic choice of a path.
type Decision struct {
	kind   dkind
	forced bool
	val    uint64 // branch outcome / choice / 1 if equal to arg
	arg    uint64 // concretization candidate
	label  string
}

type workItem struct {
	prefix []Decision
	model  map[string]uint64
}

type component struct {
	conds []*Expr
	id    int
}

// Violation is a candidate counterexample.
type Violation struct {
	Entry    string
	Msg      string
	Values   map[string][]uint64
	Sched    []string
	Dec      []Decision
	Trace    []string
	Reach    []string
	racy     map[*accSite]bool
	exact    bool
	usesSel  bool
	idled    bool
	Replayed string
}

type Explorer struct {
	ld             *Loader
	entry          string
	entryFn        func(m *Machine)
	debug          bool
	lenCap         int
	queryTimeoutMS int
	maxStepsPath   int64
	workers        int
	deadline       atomic.Int64 // unix nanoseconds
	memStopped     atomic.Bool
	isKnown        func(v *Violation) bool
	tier           string

	mu        sync.Mutex
	cond      *sync.Cond
	stack     []workItem
	active    int
	stop      bool
	Paths     int64
	Done      int64
	Infeas    int64
	Unsup     map[string]int64
	Limits    map[string]int64
	Internal  map[string]int64
	Bounds    map[string]int64
	initNotes map[string]int64
	Steps     int64
	Decisions int64
	Reached   map[string]int64
	Asserts   map[string]*assertStat
	Viol      []*Violation
	violSeen  map[string]int
	Timeout   bool
	begun     bool
	Left      int

	DomHits                                 int64
	Queries, Sat, Unsat, Unknown, CacheHits int64
	SolverTime                              time.Duration
	MaxPathSteps                            int64
	Samples                                 []string
	Traces                                  []pathTrace
	maxTraces                               int
	Goroutines                              int
	SchedPoints                             int64
	unknownBranches                         int64
	replayDec                               []Decision
	wantTrace                               bool
	choiceStats                             map[string]int64
	confirm                                 func(v *Violation) bool
	racy, newRacy                           map[*accSite]bool
}

type assertStat struct {
	Checked, Trivial, Unsat, Sat, Unknown int64
}

// pathTrace is a concrete run predicted by the engine, to be compared with the
// native execution of the same harness on the same inputs.
type pathTrace struct {
	conc   bool // several goroutines: the native run may differ in timing
	Values map[string][]uint64
	Obs    []string
}

func NewExplorer(ld *Loader, entry string) *Explorer {
	ex := &Explorer{ld: ld, entry: entry, lenCap: 80, queryTimeoutMS: 20000, maxStepsPath: 40_000_000,
		Unsup: map[string]int64{}, Limits: map[string]int64{}, Internal: map[string]int64{}, Bounds: map[string]int64{},
		initNotes: map[string]int64{}, Reached: map[string]int64{}, Asserts: map[string]*assertStat{}, violSeen: map[string]int{}, workers: 8, maxTraces: 24,
		choiceStats: map[string]int64{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) bound(s string) {
	ex.mu.Lock()
	ex.Bounds[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) initNote(s string) {
	ex.mu.Lock()
	ex.initNotes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) addStats(s *Solver) {
	ex.mu.Lock()
	ex.Queries += s.Queries
	ex.Sat += s.Sat
	ex.Unsat += s.Unsat
	ex.Unknown += s.Unknown
	ex.CacheHits += s.CacheHits
	ex.SolverTime += s.Time
	if s.lastErr != "" {
		ex.Internal["solver: "+s.lastErr]++
	}
	ex.mu.Unlock()
}

func (ex *Explorer) push(items ...workItem) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, items...)
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || ex.expired(0) {
			if !ex.stop && (len(ex.stack) > 0 || ex.active > 0) {
				ex.Timeout = true
			}
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(ex.stack); n > 0 {
			it := ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) finished() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.stack) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// maxHeap is how much memory the exploration may use before it is cut short.
const maxHeap = 16 << 30

func heapInUse() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// expired reports whether exploration should have ended that long ago.
func (ex *Explorer) expired(grace time.Duration) bool {
	return ex.memStopped.Load() || time.Now().UnixNano() > ex.deadline.Load()+int64(grace)
}

// hurry ends exploration soon, because a violation was found.
func (ex *Explorer) hurry(d time.Duration) {
	t := time.Now().Add(d).UnixNano()
	for {
		o := ex.deadline.Load()
		if o <= t || ex.deadline.CompareAndSwap(o, t) {
			return
		}
	}
}

// Run explores all paths of the entry function.
func (ex *Explorer) Run(budget time.Duration) {
	ex.deadline.Store(time.Now().Add(budget).UnixNano())
	if !ex.begun {
		ex.stack = []workItem{{}}
		ex.begun = true
	}
	ex.stop, ex.Timeout = false, false
	stopTick := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-t.C:
				if heapInUse() > maxHeap && !ex.memStopped.Load() {
					ex.memStopped.Store(true)
					ex.bound("memory limit reached")
				}
				ex.cond.Broadcast()
			case <-stopTick:
				return
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := NewMachine(ex.ld, ex, i)
			defer func() {
				ex.addStats(m.sol)
				m.sol.Close()
			}()
			for {
				it, ok := ex.pop()
				if !ok {
					return
				}
				m.explore(it)
				ex.finished()
				if m.ctx.nextID > 2_500_000 {
					m.resetCtx()
				}
			}
		}(i)
	}
	wg.Wait()
	close(stopTick)
	ex.Left = len(ex.stack)
}

// explore runs one path following the item's prefix.
func (m *Machine) explore(it workItem) {
	ex := m.ex_
	m.prefix = it.prefix
	m.dec = append([]Decision(nil), it.prefix...)[:0]
	m.spec = 0
	m.model = &Model{v: map[uint32]uint64{}}
	m.pendingModel = it.model
	m.ev_ = newEval(m.model)
	m.pc = nil
	m.pcSet = map[*Expr]bool{}
	m.comp = map[uint32]*component{}
	m.steps = 0
	m.symSeq = map[string]int{}
	m.dom = map[uint32][4]uint64{}
	m.multi = map[uint32]bool{}
	m.concVals = map[*Expr]uint64{}
	m.settlers = nil
	m.choices = map[string][]uint64{}
	m.symNames = nil
	m.symOrder = nil
	m.reach = map[string]bool{}
	m.obs = nil
	m.opts = pathOpts{maxSteps: ex.maxStepsPath}
	m.aux = map[any]any{}
	m.nextChan = 0
	m.budget = 0
	m.violated = false
	m.nondet, m.idled = false, false
	pe := m.runPath(ex.entryFn)
	var tr *pathTrace
	if pe.kind == "done" && !m.violated {
		tr = m.makeTrace()
	}
	ex.mu.Lock()
	ex.Paths++
	ex.Steps += m.steps
	ex.DomHits += m.domHits
	m.domHits = 0
	ex.Decisions += int64(len(m.dec))
	if m.steps > ex.MaxPathSteps {
		ex.MaxPathSteps = m.steps
	}
	if len(m.gs) > ex.Goroutines {
		ex.Goroutines = len(m.gs)
	}
	switch pe.kind {
	case "done":
		ex.Done++
		if tr != nil {
			if len(ex.Traces) < ex.maxTraces {
				ex.Traces = append(ex.Traces, *tr)
			} else if k := int(ex.Done * 7919 % (ex.Done + 1)); ex.Done&(ex.Done-1) == 0 {
				ex.Traces[k%ex.maxTraces] = *tr
			}
		}
	case "infeasible":
		ex.Infeas++
	case "suspended":
		ex.Paths--
	case "unsupported":
		ex.Unsup[pe.msg]++
	case "limit":
		ex.Limits[pe.msg]++
	case "violation":
	default:
		ex.Internal[pe.kind+": "+pe.msg]++
	}
	if pe.kind == "done" || pe.kind == "violation" {
		for r := range m.reach {
			ex.Reached[r]++
		}
	}
	ex.mu.Unlock()
	m.undo()
	m.gs = nil
	if pe.kind == "internal" && os.Getenv("VDEBUG") != "" {
		fmt.Fprintln(os.Stderr, "internal:", pe.msg)
	}
}

// ---- symbols ----

func (m *Machine) freshName(name string) string {
	k := m.symSeq[name]
	m.symSeq[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s~%d", name, k)
}

func (m *Machine) newSym(name string, w uint8) *Expr {
	e := m.ctx.Sym(name, w)
	if _, ok := m.model.v[e.id]; !ok {
		m.model.v[e.id] = m.pendingModel[name] & mask2(w)
	}
	m.symOrder = append(m.symOrder, e)
	return e
}

func mask2(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (m *Machine) exportModel() map[string]uint64 {
	r := map[string]uint64{}
	for k, v := range m.pendingModel {
		r[k] = v
	}
	for _, e := range m.symOrder {
		r[e.name] = m.model.v[e.id]
	}
	return r
}

// ---- path condition ----

func (m *Machine) addCond(e *Expr) {
	if e.isConst() {
		return
	}
	if m.pcSet[e] {
		return
	}
	if e.op == OAnd {
		m.addCond(e.args[0])
		m.addCond(e.args[1])
		m.pcSet[e] = true
		return
	}
	m.pcSet[e] = true
	m.pc = append(m.pc, e)
	rs := m.ctx.roots(e)
	if ts, x := m.truthSet(e); ts != nil {
		d, ok := m.dom[x]
		if !ok {
			d = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
		for i := range d {
			d[i] &= ts[i]
		}
		m.dom[x] = d
	} else {
		for _, r := range rs {
			m.multi[r] = true
		}
	}
	var into *component
	for _, r := range rs {
		if c := m.comp[r]; c != nil && c != into {
			if into == nil {
				into = c
			} else {
				if len(c.conds) > len(into.conds) {
					c, into = into, c
				}
				into.conds = append(into.conds, c.conds...)
				for k, v := range m.comp {
					if v == c {
						m.comp[k] = into
					}
				}
			}
		}
	}
	if into == nil {
		into = &component{}
	}
	into.conds = append(into.conds, e)
	for _, r := range rs {
		m.comp[r] = into
	}
}

// related collects the path conditions connected to e, closing over UF families.
func (m *Machine) related(e *Expr) []*Expr {
	seen := map[*component]bool{}
	var out []*Expr
	var work []uint32
	work = append(work, m.ctx.roots(e)...)
	fams := map[string]bool{}
	visited := map[uint32]bool{}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		if visited[r] {
			continue
		}
		visited[r] = true
		if x := m.ctx.byID(r); x != nil && x.op == OUF && !fams[x.grp.fam] {
			// every constrained application of the same family interacts
			fams[x.grp.fam] = true
			for k := range m.comp {
				if y := m.ctx.byID(k); y != nil && y.op == OUF && y.grp.fam == x.grp.fam {
					work = append(work, k)
				}
			}
		}
		c := m.comp[r]
		if c == nil || seen[c] {
			continue
		}
		seen[c] = true
		out = append(out, c.conds...)
		for _, x := range c.conds {
			for _, q := range m.ctx.roots(x) {
				if !visited[q] {
					work = append(work, q)
				}
			}
		}
	}
	return out
}

func (m *Machine) check(e *Expr) (int, map[uint32]uint64) {
	if e.isConst() {
		if e.k == 0 {
			return 0, nil
		}
		return 1, nil
	}
	if m.pcSet[m.ctx.Not(e)] {
		return 0, nil
	}
	if ts, x := m.truthSet(e); ts != nil {
		// a condition on a single byte is decided over its whole domain
		d, ok := m.dom[x]
		if !ok {
			d = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
		found, all := -1, true
		for i := 0; i < 4; i++ {
			if b := d[i] & ts[i]; b != 0 {
				if found < 0 {
					found = 64*i + bits.TrailingZeros64(b)
				}
			}
			if d[i]&^ts[i] != 0 {
				all = false
			}
		}
		if found < 0 {
			m.domHits++
			return 0, nil
		}
		if !m.multi[x] {
			m.domHits++
			return 1, map[uint32]uint64{x: uint64(found)}
		}
		if all {
			m.domHits++
			return 1, map[uint32]uint64{}
		}
	}
	return m.sol.Check(append(m.related(e), e))
}

// truthSet is the set of byte values satisfying a condition that depends on a
// single symbol of at most eight bits.
func (m *Machine) truthSet(e *Expr) (*[4]uint64, uint32) {
	if t, ok := m.truth[e]; ok {
		return t.set, t.sym
	}
	var t truthEnt
	rs := m.ctx.roots(e)
	if len(rs) == 1 {
		if x := m.ctx.byID(rs[0]); x != nil && x.op == OSym && x.w <= 8 && !m.ctx.hasUF(e) {
			t.set = new([4]uint64)
			t.sym = x.id
			n := 1 << x.w
			if x.w == 0 {
				n = 2
			}
			mod := &Model{v: map[uint32]uint64{}}
			for v := 0; v < n; v++ {
				mod.v[x.id] = uint64(v)
				if newEval(mod).eval(e) != 0 {
					t.set[v/64] |= 1 << uint(v%64)
				}
			}
		}
	}
	m.truth[e] = t
	return t.set, t.sym
}

type truthEnt struct {
	set *[4]uint64
	sym uint32
}

// withModel merges a solver model over the current one and exports it by name.
func (m *Machine) withModel(sm map[uint32]uint64) map[string]uint64 {
	r := m.exportModel()
	for id, v := range sm {
		if x := m.ctx.byID(id); x != nil && x.op == OSym {
			r[x.name] = v
		}
	}
	return r
}

func (m *Machine) adoptModel(sm map[uint32]uint64) {
	n := m.model.clone()
	for id, v := range sm {
		n.v[id] = v
	}
	m.model = n
	m.ev_ = newEval(n)
}

func (m *Machine) record(d Decision) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.ex_.debug && !d.forced && !m.replaying() {
		w := m.where()
		if len(w) > 160 {
			w = w[:160]
		}
		m.ex_.mu.Lock()
		m.ex_.choiceStats[fmt.Sprintf("%d%s", d.kind, w)]++
		m.ex_.mu.Unlock()
	}
	m.dec = append(m.dec, d)
}

func (m *Machine) replaying() bool { return len(m.dec) < len(m.prefix) }

func (m *Machine) altPrefix(d Decision) []Decision {
	p := make([]Decision, len(m.dec)+1)
	copy(p, m.dec)
	p[len(m.dec)] = d
	return p
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) branch(c *Expr) bool {
	if c.isConst() {
		return c.k != 0
	}
	if m.pcSet[c] {
		return true
	}
	if m.pcSet[m.ctx.Not(c)] {
		return false
	}
	return m.decide(c, dBranch, 0)
}

func (m *Machine) decide(c *Expr, kind dkind, arg uint64) bool {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.initDepth > 0 {
		panic(m.unsup("symbolic branch during package initialisation"))
	}
	nc := m.ctx.Not(c)
	if m.replaying() {
		d := m.prefix[len(m.dec)]
		if d.kind != kind || d.arg != arg && kind == dConc {
			panic(&pathEnd{kind: "internal", msg: "replay divergence" + m.where()})
		}
		m.record(d)
		if d.val != 0 {
			m.addCond(c)
			return true
		}
		m.addCond(nc)
		return false
	}
	if m.ex_.expired(0) {
		m.suspend()
	}
	var side bool
	if m.ctx.hasUF(c) {
		r, sm := m.check(c)
		r2, sm2 := m.check(nc)
		switch {
		case r == 1 && r2 == 1:
			m.ex_.push(workItem{prefix: m.altPrefix(Decision{kind: kind, val: 0, arg: arg}), model: m.withModel(sm2)})
			m.adoptModel(sm)
			m.record(Decision{kind: kind, val: 1, arg: arg})
			m.addCond(c)
			return true
		case r == 1 && r2 == 0, r == 1 && r2 == -1:
			if r2 == -1 {
				m.noteUnknown()
			}
			m.adoptModel(sm)
			m.record(Decision{kind: kind, val: 1, arg: arg, forced: true})
			m.addCond(c)
			return true
		case r2 == 1:
			if r == -1 {
				m.noteUnknown()
			}
			m.adoptModel(sm2)
			m.record(Decision{kind: kind, val: 0, arg: arg, forced: true})
			m.addCond(nc)
			return false
		case r == 0 && r2 == 0:
			panic(&pathEnd{kind: "infeasible", msg: "contradictory path"})
		}
		m.noteUnknown()
		panic(&pathEnd{kind: "limit", msg: "solver gave no answer" + m.where()})
	}
	side = m.ev_.eval(c) != 0
	other := nc
	if !side {
		other = c
	}
	r, sm := m.check(other)
	d := Decision{kind: kind, val: b2u(side), arg: arg}
	switch r {
	case 1:
		m.ex_.push(workItem{prefix: m.altPrefix(Decision{kind: kind, val: b2u(!side), arg: arg}), model: m.withModel(sm)})
	case 0:
		d.forced = true
	default:
		m.noteUnknown()
	}
	m.record(d)
	if side {
		m.addCond(c)
	} else {
		m.addCond(nc)
	}
	return side
}

// suspend puts the current path back on the stack: the time is up.
func (m *Machine) suspend() {
	d := m.dec
	if len(d) < len(m.prefix) {
		d = m.prefix
	}
	p := make([]Decision, len(d))
	copy(p, d)
	mod := m.exportModel()
	m.ex_.mu.Lock()
	m.ex_.Timeout = true
	m.ex_.stack = append(m.ex_.stack, workItem{prefix: p, model: mod})
	m.ex_.mu.Unlock()
	panic(&pathEnd{kind: "suspended"})
}

func (m *Machine) noteUnknown() {
	m.ex_.mu.Lock()
	m.ex_.unknownBranches++
	m.ex_.mu.Unlock()
	m.ex_.bound("solver answered unknown for a branch; that side was not explored" + m.where())
}

// concretize enumerates the feasible values of e, one per path.
func (m *Machine) concretize(e *Expr) uint64 {
	for {
		if e.isConst() {
			return e.k
		}
		if v, ok := m.concVals[e]; ok {
			return v
		}
		v := m.candidate(e)
		c := m.ctx.Eq(e, m.ctx.Const(e.w, v))
		if m.decide(c, dConc, v) {
			m.concVals[e] = v
			return v
		}
	}
}

// concretizeOne picks one feasible value only.
func (m *Machine) concretizeOne(e *Expr) uint64 {
	if e.isConst() {
		return e.k
	}
	v := m.candidate(e)
	c := m.ctx.Eq(e, m.ctx.Const(e.w, v))
	if m.replaying() {
		d := m.prefix[len(m.dec)]
		if d.kind != dConc || d.arg != v {
			panic(&pathEnd{kind: "internal", msg: "replay divergence (one)" + m.where()})
		}
		m.record(d)
	} else {
		m.record(Decision{kind: dConc, val: 1, arg: v})
	}
	m.addCond(c)
	return v
}

func (m *Machine) candidate(e *Expr) uint64 {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.initDepth > 0 {
		panic(m.unsup("symbolic value during package initialisation"))
	}
	if m.replaying() {
		d := m.prefix[len(m.dec)]
		if d.kind != dConc {
			panic(&pathEnd{kind: "internal", msg: "replay divergence (value)" + m.where()})
		}
		return d.arg
	}
	if m.ctx.hasUF(e) {
		r, sm := m.check(m.ctx.Eq(e, e))
		_ = r
		// ask for a model of e by constraining a fresh equality
		r, sm = m.sol.Check(append(m.related(e), m.ctx.Ule(m.ctx.Const(e.w, 0), e)))
		if r == 1 && sm != nil {
			m.adoptModel(sm)
		}
	}
	return m.ev_.eval(e)
}

// choose makes a nondeterministic choice in [0,n).
func (m *Machine) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.initDepth > 0 {
		panic(m.unsup("choice during package initialisation"))
	}
	if m.replaying() {
		d := m.prefix[len(m.dec)]
		if d.kind != dChoose || int(d.val) >= n || d.label != label {
			panic(&pathEnd{kind: "internal", msg: "replay divergence (choice)" + m.where()})
		}
		m.record(d)
		m.noteChoice(label, d.val)
		return int(d.val)
	}
	if m.ex_.expired(0) {
		m.suspend()
	}
	var items []workItem
	mod := m.exportModel()
	for i := n - 1; i >= 1; i-- {
		items = append(items, workItem{prefix: m.altPrefix(Decision{kind: dChoose, val: uint64(i), label: label}), model: mod})
	}
	m.ex_.push(items...)
	m.record(Decision{kind: dChoose, val: 0, label: label})
	m.noteChoice(label, 0)
	return 0
}

func (m *Machine) noteChoice(label string, v uint64) {
	if label == "sched" || label == "select" || label == "maporder" {
		m.nondet = true
	}
}

// assume restricts the path to cond.
func (m *Machine) assume(c *Expr) {
	if c.isConst() {
		if c.k == 0 {
			panic(&pathEnd{kind: "infeasible", msg: "assumption"})
		}
		return
	}
	if m.pcSet[c] {
		return
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.replaying() {
		d := m.prefix[len(m.dec)]
		if d.kind != dBranch || d.val != 1 {
			panic(&pathEnd{kind: "internal", msg: "replay divergence (assume)" + m.where()})
		}
		m.record(d)
		m.addCond(c)
		return
	}
	if m.ctx.hasUF(c) || m.ev_.eval(c) == 0 {
		r, sm := m.check(c)
		if r != 1 {
			if r == -1 {
				m.noteUnknown()
			}
			panic(&pathEnd{kind: "infeasible", msg: "assumption"})
		}
		m.adoptModel(sm)
	}
	m.record(Decision{kind: dBranch, val: 1, forced: true})
	m.addCond(c)
}

func (m *Machine) stat(msg string) *assertStat {
	s := m.ex_.Asserts[msg]
	if s == nil {
		s = &assertStat{}
		m.ex_.Asserts[msg] = s
	}
	return s
}

// assert checks a property assertion on the current path.
func (m *Machine) assert(c *Expr, msg string) {
	ex := m.ex_
	if c.isConst() && c.k != 0 || m.pcSet[c] {
		ex.mu.Lock()
		s := m.stat(msg)
		s.Checked++
		s.Trivial++
		ex.mu.Unlock()
		return
	}
	replay := m.replaying()
	if replay {
		// the assertion was decided when this prefix was first explored
		m.assume(c)
		return
	}
	nc := m.ctx.Not(c)
	r, sm := m.check(nc)
	ex.mu.Lock()
	s := m.stat(msg)
	s.Checked++
	switch r {
	case 1:
		s.Sat++
	case 0:
		s.Unsat++
	default:
		s.Unknown++
	}
	ex.mu.Unlock()
	switch r {
	case 0:
		m.record(Decision{kind: dBranch, val: 1, forced: true})
		m.addCond(c)
		return
	case 1:
		save := m.model
		if sm != nil {
			m.adoptModel(sm)
		}
		m.violationCond(nc, msg)
		m.model = save
		m.ev_ = newEval(save)
	default:
		ex.bound("solver gave no answer for assertion: " + msg)
	}
	m.assume(c)
}

// violation reports that the current path breaks the property.
func (m *Machine) violation(msg string) {
	m.violationCond(m.ctx.True, msg)
	m.violated = true
}

// violationCond finds native-consistent values for pc ∧ extra and records the
// counterexample.
func (m *Machine) violationCond(extra *Expr, msg string) {
	ex := m.ex_
	key := msg
	if i := strings.Index(key, " < "); i > 0 && !strings.HasPrefix(key, "deadlock") {
		key = key[:i]
	}
	ex.mu.Lock()
	if ex.violSeen[key] >= 6 || len(ex.Viol) >= 24 {
		ex.mu.Unlock()
		return
	}
	ex.violSeen[key]++
	ex.mu.Unlock()

	conds := append([]*Expr{}, m.pc...)
	if !extra.isConst() {
		conds = append(conds, extra)
	}
	exact, model := m.refine(conds)
	v := &Violation{Entry: ex.entry, racy: ex.racy, Msg: msg, exact: exact, Dec: append([]Decision(nil), m.dec...), Sched: append([]string(nil), m.schedLog...), usesSel: m.nondet || exact && len(m.gs) > 1, idled: m.idled}
	v.Values = m.valuesUnder(model)
	for r := range m.reach {
		v.Reach = append(v.Reach, r)
	}
	sort.Strings(v.Reach)
	ex.mu.Lock()
	ex.Viol = append(ex.Viol, v)
	ex.mu.Unlock()
	if ex.isKnown == nil || !ex.isKnown(v) {
		ex.hurry(20 * time.Second)
	}
}

// refine searches for a model in which every uninterpreted application that
// has a native meaning takes its native value.
func (m *Machine) refine(conds []*Expr) (bool, *Model) {
	anyUF := false
	for _, c := range conds {
		if m.ctx.hasUF(c) {
			anyUF = true
			break
		}
	}
	holds := func(mod *Model) bool {
		ev := newEval(mod)
		ev.forceNative = true
		for _, c := range conds {
			if ev.eval(c) == 0 {
				return false
			}
		}
		return true
	}
	if holds(m.model) {
		return true, m.model
	}
	if !anyUF {
		r, sm := m.sol.Check(conds)
		if r == 1 {
			mod := m.model.clone()
			for k, v := range sm {
				mod.v[k] = v
			}
			return holds(mod), mod
		}
		return false, m.model
	}
	extra := []*Expr{}
	// pins keeps arguments whose applications already take their native value,
	// as long as that leaves a model.
	var pins []*Expr
	last := m.model
	for it := 0; it < 40; it++ {
		q := append(append([]*Expr{}, conds...), extra...)
		r, sm := m.sol.Check(append(append([]*Expr{}, q...), pins...))
		if r != 1 && len(pins) > 0 {
			r, sm = m.sol.Check(q)
		}
		pins = nil
		if r != 1 {
			return false, last
		}
		mod := m.model.clone()
		for k, v := range sm {
			mod.v[k] = v
		}
		last = mod
		if holds(mod) {
			return true, mod
		}
		// pin native facts for the argument values of this model
		ev := newEval(mod)
		ev.forceNative = true
		plain := newEval(mod)
		seen := map[*UFGroup]bool{}
		var visit func(e *Expr)
		vis := map[*Expr]bool{}
		added := false
		visit = func(e *Expr) {
			if vis[e] {
				return
			}
			vis[e] = true
			for _, a := range e.args {
				visit(a)
			}
			if e.op == OUF && !seen[e.grp] {
				seen[e.grp] = true
				for _, a := range e.grp.args {
					visit(a)
				}
				if e.grp.native == nil {
					return
				}
				vs := make([]uint64, len(e.grp.args))
				cond := m.ctx.True
				for i, a := range e.grp.args {
					vs[i] = ev.eval(a)
					cond = m.ctx.And(cond, m.ctx.Eq(a, m.ctx.Const(a.w, vs[i])))
				}
				out := e.grp.native(vs)
				res := m.ctx.True
				for i, p := range e.grp.parts {
					res = m.ctx.And(res, m.ctx.Eq(p, m.ctx.Const(p.w, out[i])))
				}
				agrees := !cond.isConst()
				for i, p := range e.grp.parts {
					agrees = agrees && plain.eval(p) == out[i]
				}
				if agrees {
					pins = append(pins, cond)
				}
				imp := m.ctx.Or(m.ctx.Not(cond), res)
				if imp != m.ctx.True {
					extra = append(extra, imp)
					added = true
				}
			}
		}
		for _, c := range conds {
			visit(c)
		}
		if !added {
			return false, last
		}
	}
	return false, last
}

func (m *Machine) valuesUnder(mod *Model) map[string][]uint64 {
	r := map[string][]uint64{}
	for _, e := range m.symOrder {
		r[e.name] = []uint64{mod.v[e.id]}
	}
	for k, v := range m.choices {
		r[k] = v
	}
	return r
}

// makeTrace predicts the observations of a completed path under its model.
func (m *Machine) makeTrace() *pathTrace {
	if m.nondet {
		return nil
	}
	ex := m.ex_
	ex.mu.Lock()
	n := ex.Done
	full := len(ex.Traces) >= ex.maxTraces
	ex.mu.Unlock()
	if full && n&(n-1) != 0 {
		return nil
	}
	// symbolic observations need native-consistent values
	exact, mod := true, m.model
	hasUF := false
	for _, c := range m.pc {
		if m.ctx.hasUF(c) {
			hasUF = true
			break
		}
	}
	if hasUF {
		exact, mod = m.refine(m.pc)
	}
	if !exact {
		return nil
	}
	t := &pathTrace{Values: m.valuesUnder(mod), conc: len(m.gs) > 1}
	ev := newEval(mod)
	ev.forceNative = true
	for _, o := range m.obs {
		t.Obs = append(t.Obs, o.key+"="+m.showUnder(o.val, o.ti, ev))
	}
	return t
}

// showUnder renders an observed value under a model, in the same form as the
// native side of the harness library.
func (m *Machine) showUnder(v Value, ti *tinfo, ev *evaluator) string {
	num := func(v Value) uint64 {
		if e, ok := v.r.(*Expr); ok {
			return ev.eval(e)
		}
		return v.n
	}
	switch ti.kind {
	case kBool:
		if num(v) != 0 {
			return "true"
		}
		return "false"
	case kInt:
		return fmt.Sprint(int64(signExtend(num(v), ti.w)))
	case kUint:
		return fmt.Sprint(num(v))
	case kString:
		b := strBytes(v)
		out := make([]byte, len(b))
		for i := range b {
			out[i] = byte(num(b[i]))
		}
		return fmt.Sprintf("%x", out)
	case kSlice:
		b := byteCells(v)
		out := make([]byte, len(b))
		for i := range b {
			out[i] = byte(num(b[i]))
		}
		return fmt.Sprintf("%x", out)
	}
	return "?"
}
