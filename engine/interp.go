package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Control-flow signals inside the interpreter.
type ipanic struct { // a Go panic of the interpreted program
	val   Value
	msg   string
	where string
}

type pathEnd struct { // the current path ends here
	kind string // "infeasible", "unsupported", "limit", "violation", "done", "internal"
	msg  string
}

type killSig struct{}

type Machine struct {
	ld  *Loader
	ctx *Ctx
	sol *Solver
	ex_ *Explorer
	id  int

	globals   []*Agg
	inited    map[*ssa.Package]bool
	initDepth int
	trail     []trailEnt

	// path state
	prefix       []Decision
	dec          []Decision
	model        *Model
	ev_          *evaluator
	pc           []*Expr
	pcSet        map[*Expr]bool
	comp         map[uint32]*component
	steps        int64
	symSeq       map[string]int
	choices      map[string][]uint64
	symNames     []string
	symOrder     []*Expr
	pendingModel map[string]uint64
	violated     bool
	nondet       bool
	idled        bool  // a harness let a long time pass
	extra        *Expr // symbolic part of the virtual time
	nowExtra     *Expr // when the clock was last read
	reach        map[string]bool
	obs          []observation
	curFr        *frame
	opts         pathOpts
	ended        *pathEnd
	aux          map[any]any
	cleanups     []func()

	// scheduler
	gs       []*Goroutine
	cur      *Goroutine
	initTop  *frame
	settlers []*Goroutine
	truth    map[*Expr]truthEnt
	dom      map[uint32][4]uint64
	multi    map[uint32]bool
	domHits  int64
	concVals map[*Expr]uint64
	now      int64
	timers   []*vtimer
	timerSeq int
	waitq    map[waitKey][]*Goroutine
	nextChan int
	budget   int
	blocks   uint32
	killing  bool
	spec     int // > 0 while outcomes are computed for merging
	specWork int
	merges   int64
	doneCh   chan struct{}
	schedLog []string
	shadows  map[shadowKey]*shadow
	clocks   map[any]vclock
	muState  map[waitKey]*Goroutine
}

type pathOpts struct {
	preempt    int
	timerRace  bool
	mapOrders  bool
	hashOrder  int // 0 fork; 1 fixed; 2 reversed
	freeBlock  bool
	noDeadlock bool
	maxSteps   int64
}

type observation struct {
	key string
	val Value
	ti  *tinfo
}

func NewMachine(ld *Loader, ex *Explorer, id int) *Machine {
	m := &Machine{ld: ld, ex_: ex, id: id, inited: map[*ssa.Package]bool{}}
	m.resetCtx()
	return m
}

func (m *Machine) resetCtx() {
	if m.sol != nil {
		m.ex_.addStats(m.sol)
		m.sol.Close()
	}
	m.ctx = NewCtx()
	m.truth = map[*Expr]truthEnt{}
	m.sol = NewSolver(m.ctx, m.ex_.queryTimeoutMS)
}

func (m *Machine) unsup(msg string) *pathEnd {
	return &pathEnd{kind: "unsupported", msg: msg + m.where()}
}

func (m *Machine) where() string {
	var sb strings.Builder
	fr := m.curFrame()
	for i := 0; fr != nil && i < 8; i++ {
		sb.WriteString(" < " + shortName(fr.fc.name))
		fr = fr.caller
	}
	return sb.String()
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		}
		return pre + s[i+1:]
	}
	return s
}

func (m *Machine) curFrame() *frame {
	if m.cur != nil && m.cur.top != nil {
		return m.cur.top
	}
	return m.initTop
}

func (m *Machine) nilDeref() {
	m.runtimePanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) runtimePanic(msg string) {
	v := strVal("runtime error: " + msg)
	var iv Value
	if t := m.ld.pkgType("runtime", "errorString"); t != nil {
		iv = Value{r: &Iface{t: m.ld.rtype(t), v: strVal(msg)}}
	} else {
		iv = Value{r: &Iface{t: m.ld.rtype(types.Typ[types.String]), v: v}}
	}
	panic(&ipanic{val: iv, msg: "runtime error: " + msg, where: m.where()})
}

func (m *Machine) typeAssertPanic(v Value, t types.Type) {
	d := "nil"
	if v.r != nil {
		d = v.r.(*Iface).t.t.String()
	}
	m.runtimePanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, t))
}

func (m *Machine) checkHashable(k Value, kt *tinfo) {
	if kt.kind == kIface && k.r != nil {
		switch m.ld.tinfo(k.r.(*Iface).t.t).kind {
		case kSlice, kMap, kFunc:
			m.runtimePanic("hash of unhashable type " + k.r.(*Iface).t.t.String())
		}
	}
}

// ---- globals and package initialisation ----

func (m *Machine) globalPtr(g *ssa.Global) Value {
	i := m.ld.globalIndex(g)
	for len(m.globals) <= i {
		m.globals = append(m.globals, nil)
	}
	if m.globals[i] == nil {
		ei := m.ld.tinfo(g.Type().Underlying().(*types.Pointer).Elem())
		m.globals[i] = &Agg{cells: make([]Value, max(1, ei.size)), persist: true}
	}
	a := m.globals[i]
	if g.Pkg != nil && !m.inited[g.Pkg] {
		m.initPkg(g.Pkg)
	}
	return Value{r: a}
}

func skipPkgInit(path string) bool {
	switch path {
	case "runtime", "reflect", "syscall", "os", "internal/godebug", "internal/reflectlite", "unicode", "net/http",
		"internal/cpu", "internal/poll", "crypto/tls", "crypto/x509", "net", "google.golang.org/grpc":
		return path != "unicode" && path != "google.golang.org/grpc"
	}
	return false
}

// skipInit lists init functions that only register protobuf descriptors.
func skipInit(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "init#") && f.Pkg != nil && m_isPB(f.Pkg.Pkg.Path())
}

func m_isPB(p string) bool {
	return strings.HasPrefix(p, "google.golang.org/protobuf") || strings.HasSuffix(p, "offersrpc") ||
		strings.Contains(p, "/lnrpc") || strings.HasPrefix(p, "google.golang.org/genproto")
}

func (m *Machine) initPkg(p *ssa.Package) {
	m.inited[p] = true
	path := p.Pkg.Path()
	if skipPkgInit(path) {
		return
	}
	m.ld.build(p)
	f := p.Func("init")
	if f == nil {
		return
	}
	m.initDepth++
	saveSteps, saveBudget := m.steps, m.budget
	m.steps = 0
	defer func() {
		m.initDepth--
		m.steps, m.budget = saveSteps, saveBudget
	}()
	code := m.ld.codeFor(f)
	fr := &frame{fc: code, regs: make([]Value, code.nregs), caller: nil}
	saveTop := m.initTop
	m.initTop = fr
	var saveCur *frame
	if m.cur != nil {
		saveCur = m.cur.top
		m.cur.top = fr
	}
	defer func() {
		m.initTop = saveTop
		if m.cur != nil {
			m.cur.top = saveCur
		}
	}()
	// guard variable: run the body
	b := 0
	for b >= 0 {
		bk := code.blocks[b]
		fr.prev, fr.block = fr.block, b
		m.enterBlock(fr, bk)
		for _, o := range bk.ops {
			m.initStep(o, fr, path)
		}
		n := bk.term(m, fr)
		b = n
	}
}

func (m *Machine) initStep(o op, fr *frame, path string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case *pathEnd:
				m.ex_.initNote(path + ": " + e.msg)
			case *ipanic:
				m.ex_.initNote(path + ": panic " + e.msg + e.where)
			case killSig:
				panic(r)
			default:
				if os.Getenv("VDEBUG") != "" {
					panic(r)
				}
				m.ex_.initNote(fmt.Sprintf("%s: %v", path, r))
			}
			if m.cur != nil {
				m.cur.top = fr
			} else {
				m.initTop = fr
			}
		}
	}()
	o(m, fr)
}

// ---- function calls ----

func (m *Machine) callClosure(cl *Closure, args []Value, fr *frame) Value {
	if cl.nat != nil {
		return cl.nat(m, args)
	}
	return m.callCode(m.ld.codeFor(cl.fn), args, cl.free, fr)
}

func (m *Machine) callFn(f *ssa.Function, args, free []Value, fr *frame) Value {
	return m.callCode(m.ld.codeFor(f), args, free, fr)
}

const maxDepth = 4000

func (m *Machine) callCode(fc *fnCode, args, free []Value, caller *frame) Value {
	if fc.intr != nil {
		v := fc.intr(m, caller, args)
		if _, ok := v.r.(softResult); !ok {
			return v
		}
	}
	if fc.blocks == nil {
		panic(m.unsup("external function " + fc.name))
	}
	fr := &frame{fc: fc, regs: make([]Value, fc.nregs), caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			panic(&pathEnd{kind: "limit", msg: "call depth exceeded in " + fc.name})
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], free)
	m.setTop(fr)
	if fc.hasDefer {
		m.runDeferring(fr)
	} else {
		m.run(fr, 0)
	}
	m.setTop(caller)
	return fr.ret
}

func (m *Machine) setTop(fr *frame) {
	if m.cur != nil {
		m.cur.top = fr
	} else {
		m.initTop = fr
	}
}

func (m *Machine) enterBlock(fr *frame, bk *blk) {
	if fr.merged {
		fr.merged = false
		return
	}
	if len(bk.phis) == 0 {
		return
	}
	pi := -1
	for i, p := range bk.preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	if len(bk.phis) == 1 {
		fr.regs[bk.phis[0].dst] = bk.phis[0].ops[pi].get(m, fr)
		return
	}
	var tmp [8]Value
	vs := tmp[:0]
	for i := range bk.phis {
		vs = append(vs, bk.phis[i].ops[pi].get(m, fr))
	}
	for i := range bk.phis {
		fr.regs[bk.phis[i].dst] = vs[i]
	}
}

func (m *Machine) run(fr *frame, b int) {
	code := fr.fc
	for b >= 0 {
		bk := code.blocks[b]
		fr.prev, fr.block = fr.block, b
		m.enterBlock(fr, bk)
		m.steps += int64(len(bk.ops)) + 1
		if m.steps > m.opts.maxSteps && m.initDepth == 0 {
			panic(&pathEnd{kind: "limit", msg: "step limit" + m.where()})
		}
		if m.blocks++; m.blocks&0xfff == 0 && m.initDepth == 0 && m.ex_.expired(30*time.Second) {
			m.suspend()
		}
		for _, o := range bk.ops {
			o(m, fr)
		}
		b = bk.term(m, fr)
	}
}

func (m *Machine) runDeferring(fr *frame) {
	p := m.protect(fr, func() { m.run(fr, 0) })
	for p != nil {
		// panicking: run deferred calls
		fr.panicking = p
		fr.recovered = false
		p2 := m.protect(fr, func() { m.runDefers(fr) })
		if p2 != nil {
			p = p2
			continue
		}
		if !fr.recovered {
			panic(fr.panicking)
		}
		fr.panicking = nil
		p = nil
		// recovered: return via the recover block (named results)
		if fr.fc.recover >= 0 {
			p = m.protect(fr, func() { m.run(fr, fr.fc.recover) })
		} else {
			fr.ret = zeroResults(fr.fc)
		}
	}
}

func zeroResults(fc *fnCode) Value {
	if len(fc.results) > 1 {
		return Value{r: make([]Value, len(fc.results))}
	}
	return Value{}
}

func (m *Machine) protect(fr *frame, f func()) (p *ipanic) {
	defer func() {
		if r := recover(); r != nil {
			if ip, ok := r.(*ipanic); ok {
				p = ip
				m.setTop(fr)
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d(m)
		m.setTop(fr)
	}
}

// doRecover implements recover(): effective only when called directly by a
// deferred function of a panicking frame.
func (m *Machine) doRecover(fr *frame) Value {
	c := fr.caller
	if c != nil && c.panicking != nil && !c.recovered {
		c.recovered = true
		v := c.panicking.val
		return v
	}
	return Value{}
}

func (m *Machine) panicString(p *ipanic) string {
	if p.msg != "" {
		return p.msg + p.where
	}
	if p.val.r != nil {
		i := p.val.r.(*Iface)
		if s, ok := concStr(i.v); ok && m.ld.tinfo(i.t.t).kind == kString {
			return s
		}
		return m.safeFormat(p.val)
	}
	return "panic(nil)"
}

func (m *Machine) safeFormat(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killSig); ok {
				panic(r)
			}
			s = "panic value of type " + v.r.(*Iface).t.t.String()
		}
	}()
	return m.showIface(v)
}

var startWall = time.Date(2022, 9, 1, 12, 0, 0, 0, time.UTC)
