package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- evaluation under a model ----

// Model assigns symbols (by expression id) and uninterpreted parts.
type Model struct {
	v map[uint32]uint64
}

func (m *Model) clone() *Model {
	n := &Model{v: make(map[uint32]uint64, len(m.v))}
	for k, x := range m.v {
		n.v[k] = x
	}
	return n
}

type evaluator struct {
	m    *Model
	memo map[*Expr]uint64
	// forceNative ignores solver values for uninterpreted parts with a native
	// implementation.
	forceNative bool
}

func evalFP(op Op, v []uint64) uint64 {
	f := math.Float64frombits
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OI2F:
		return math.Float64bits(float64(int64(v[0])))
	case OU2F:
		return math.Float64bits(float64(v[0]))
	case OFAdd:
		return math.Float64bits(f(v[0]) + f(v[1]))
	case OFSub:
		return math.Float64bits(f(v[0]) - f(v[1]))
	case OFMul:
		return math.Float64bits(f(v[0]) * f(v[1]))
	case OFDiv:
		return math.Float64bits(f(v[0]) / f(v[1]))
	case OFLt:
		return b(f(v[0]) < f(v[1]))
	case OFLe:
		return b(f(v[0]) <= f(v[1]))
	case OFEq:
		return b(f(v[0]) == f(v[1]))
	case OF2I:
		return uint64(int64(f(v[0])))
	case OF2U:
		return uint64(f(v[0]))
	}
	panic("evalFP")
}

func newEval(m *Model) *evaluator { return &evaluator{m: m, memo: map[*Expr]uint64{}} }

func (ev *evaluator) eval(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OSym:
		return ev.m.v[e.id]
	}
	if v, ok := ev.memo[e]; ok {
		return v
	}
	v := ev.eval1(e)
	if e.w == 0 {
		v &= 1
	} else {
		v &= mask(e.w)
	}
	ev.memo[e] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ev *evaluator) eval1(e *Expr) uint64 {
	a := func(i int) uint64 { return ev.eval(e.args[i]) }
	sx := func(i int) int64 { return int64(signExtend(ev.eval(e.args[i]), e.args[i].w)) }
	switch e.op {
	case ONot:
		return a(0) ^ 1
	case OAnd:
		if a(0) == 0 {
			return 0
		}
		return a(1)
	case OEq:
		return b2u(a(0) == a(1))
	case OUlt:
		return b2u(a(0) < a(1))
	case OUle:
		return b2u(a(0) <= a(1))
	case OSlt:
		return b2u(sx(0) < sx(1))
	case OSle:
		return b2u(sx(0) <= sx(1))
	case OIte:
		if a(0) != 0 {
			return a(1)
		}
		return a(2)
	case OAdd:
		return a(0) + a(1)
	case OSub:
		return a(0) - a(1)
	case OMul:
		return a(0) * a(1)
	case OUDiv:
		if a(1) == 0 {
			return mask(e.w)
		}
		return a(0) / a(1)
	case OURem:
		if a(1) == 0 {
			return a(0)
		}
		return a(0) % a(1)
	case OSDiv:
		x, y := sx(0), sx(1)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(e.w)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSRem:
		x, y := sx(0), sx(1)
		if y == 0 {
			return uint64(x)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OBAnd:
		return a(0) & a(1)
	case OBOr:
		return a(0) | a(1)
	case OBXor:
		return a(0) ^ a(1)
	case OBNot:
		return ^a(0)
	case OShl:
		if s := a(1); s < 64 {
			return a(0) << s
		}
		return 0
	case OLShr:
		if s := a(1); s < 64 {
			return a(0) >> s
		}
		return 0
	case OAShr:
		s := a(1)
		if s > 63 {
			s = 63
		}
		return uint64(sx(0) >> s)
	case OConcat:
		var r uint64
		var sh uint
		for i, p := range e.args {
			r |= a(i) << sh
			sh += uint(p.w)
		}
		return r
	case OExtract:
		return a(0) >> e.k
	case OSExt:
		return signExtend(a(0), e.args[0].w)
	case OLookup:
		i := a(0)
		if i < uint64(len(e.tab.vals)) {
			return e.tab.vals[i]
		}
		return e.tab.def
	case OUF:
		if !ev.forceNative || e.grp.native == nil {
			if v, ok := ev.m.v[e.id]; ok {
				return v
			}
		}
		if e.grp.native != nil {
			vs := make([]uint64, len(e.grp.args))
			for i, x := range e.grp.args {
				vs[i] = ev.eval(x)
			}
			out := e.grp.native(vs)
			for i, p := range e.grp.parts {
				if p != e {
					ev.memo[p] = out[i]
				}
			}
			return out[e.k]
		}
		return 0
	}
	vs := make([]uint64, len(e.args))
	for i := range e.args {
		vs[i] = a(i)
	}
	return evalFP(e.op, vs)
}

// ---- symbol sets ----

// roots returns the sorted ids of the symbols and UF groups an expression
// depends on. UF groups are represented by the id of their first part.
//
// The sets of small expressions are kept; larger expressions (conjunctions over
// many bytes, say) are only marked, and walked through when asked for.
func (c *Ctx) roots(e *Expr) []uint32 {
	ids, ok := c.smallRoots(e)
	if ok {
		return ids
	}
	if e.syms.ids != nil {
		return e.syms.ids
	}
	set := map[uint32]bool{}
	seen := map[*Expr]bool{}
	work := []*Expr{e}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		ids, ok := c.smallRoots(x)
		if !ok && x.syms.ids == nil {
			if x.op == OUF {
				set[x.grp.parts[0].id] = true
				work = append(work, x.grp.args...)
			} else {
				work = append(work, x.args...)
			}
			continue
		}
		if !ok {
			ids = x.syms.ids
		}
		for _, r := range ids {
			set[r] = true
		}
	}
	e.syms.ids = setKeys(set)
	return e.syms.ids
}

const smallRootsMax = 200

// smallRoots is roots for expressions that depend on few symbols.
func (c *Ctx) smallRoots(e *Expr) ([]uint32, bool) {
	if e.syms != nil {
		if e.syms.big {
			return nil, false
		}
		return e.syms.ids, true
	}
	var res []uint32
	big := false
	switch e.op {
	case OConst:
	case OSym:
		res = []uint32{e.id}
	default:
		args := e.args
		if e.op == OUF {
			args = e.grp.args
			res = []uint32{e.grp.parts[0].id}
		}
		for _, a := range args {
			r, ok := c.smallRoots(a)
			if !ok {
				big = true
				continue
			}
			switch {
			case big || len(r) == 0 || len(r) == len(res) && &r[0] == &res[0]:
			case len(res) == 0:
				res = r
			default:
				res = mergeIDs(res, r)
				big = len(res) > smallRootsMax
			}
		}
	}
	e.syms = &symset{ids: res}
	if big {
		e.syms = &symset{big: true}
		return nil, false
	}
	return res, true
}

// mergeIDs unites two sorted sets, returning x itself if it holds all of y.
func mergeIDs(x, y []uint32) []uint32 {
	extra := 0
	for i, j := 0, 0; j < len(y); {
		switch {
		case i == len(x) || y[j] < x[i]:
			extra++
			j++
		case x[i] < y[j]:
			i++
		default:
			i++
			j++
		}
	}
	if extra == 0 {
		return x
	}
	r := make([]uint32, 0, len(x)+extra)
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case i == len(x) || j < len(y) && y[j] < x[i]:
			r = append(r, y[j])
			j++
		case j == len(y) || x[i] < y[j]:
			r = append(r, x[i])
			i++
		default:
			r = append(r, x[i])
			i++
			j++
		}
	}
	return r
}

func setKeys(s map[uint32]bool) []uint32 {
	r := make([]uint32, 0, len(s))
	for k := range s {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// hasUF reports whether an expression depends on an uninterpreted part.
func (c *Ctx) hasUF(e *Expr) bool {
	seen := map[*Expr]bool{}
	var f func(*Expr) bool
	f = func(x *Expr) bool {
		if x.op == OUF {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(e)
}

// ---- z3 process ----

type Solver struct {
	dump    *os.File
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	tabs    map[string]string
	axioms  map[[2]int]bool
	bufw    strings.Builder

	cache map[string]cacheEnt

	Queries, Sat, Unsat, Unknown, CacheHits int64
	Time                                    time.Duration
	timeoutMS                               int
	lastErr                                 string
}

var _ = os.Getenv

type cacheEnt struct {
	res   int // 1 sat 0 unsat -1 unknown
	model map[uint32]uint64
}

func NewSolver(c *Ctx, timeoutMS int) *Solver {
	s := &Solver{c: c, timeoutMS: timeoutMS, cache: map[string]cacheEnt{}}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3-new: %v", err))
	}
	s.defined = map[uint32]bool{}
	s.tabs = map[string]string{}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeoutMS)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Reset() { s.Close(); s.cache = map[string]cacheEnt{} }

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) name(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.k != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(e.k, 10) + " " + strconv.Itoa(int(e.w)) + ")"
	case OSym:
		return "s" + strconv.Itoa(int(e.id))
	case OUF:
		return "u" + strconv.Itoa(int(e.id))
	}
	return "e" + strconv.Itoa(int(e.id))
}

// define emits definitions for e and everything below it.
func (s *Solver) define(e *Expr, w *strings.Builder) {
	if e.op == OConst || s.defined[e.id] {
		return
	}
	s.defined[e.id] = true
	for _, a := range e.args {
		s.define(a, w)
	}
	n := s.name(e)
	switch e.op {
	case OSym:
		fmt.Fprintf(w, "(declare-const %s %s)\n", n, sortOf(e.w))
		return
	case OUF:
		fmt.Fprintf(w, "(declare-const %s %s)\n", n, sortOf(e.w))
		for _, a := range e.grp.args {
			s.define(a, w)
		}
		for _, p := range e.grp.parts {
			s.define(p, w)
		}
		return
	}
	arg := func(i int) string { return s.name(e.args[i]) }
	body := ""
	switch e.op {
	case ONot:
		body = "(not " + arg(0) + ")"
	case OAnd:
		body = "(and " + arg(0) + " " + arg(1) + ")"
	case OEq:
		body = "(= " + arg(0) + " " + arg(1) + ")"
	case OIte:
		body = "(ite " + arg(0) + " " + arg(1) + " " + arg(2) + ")"
	case OBNot:
		body = "(bvnot " + arg(0) + ")"
	case OConcat:
		var sb strings.Builder
		sb.WriteString("(concat")
		for i := len(e.args) - 1; i >= 0; i-- {
			sb.WriteString(" " + arg(i))
		}
		sb.WriteString(")")
		body = sb.String()
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(e.k)+int(e.w)-1, e.k, arg(0))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.args[0].w, arg(0))
	case OLookup:
		f := s.tableFun(e.tab, e.args[0].w, w)
		body = "(" + f + " " + arg(0) + ")"
	case OI2F:
		body = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", arg(0))
	case OU2F:
		body = fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", arg(0))
	case OFAdd, OFSub, OFMul, OFDiv:
		nm := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[e.op]
		body = fmt.Sprintf("(%s RNE %s %s)", nm, s.fpArg(e.args[0]), s.fpArg(e.args[1]))
	case OFLt, OFLe, OFEq:
		nm := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[e.op]
		body = fmt.Sprintf("(%s %s %s)", nm, s.fpArg(e.args[0]), s.fpArg(e.args[1]))
	case OF2I:
		body = fmt.Sprintf("((_ fp.to_sbv 64) RTZ %s)", s.fpArg(e.args[0]))
	case OF2U:
		body = fmt.Sprintf("((_ fp.to_ubv 64) RTZ %s)", s.fpArg(e.args[0]))
	default:
		body = "(" + opNames[e.op] + " " + arg(0) + " " + arg(1) + ")"
	}
	srt := sortOf(e.w)
	if isFPResult(e.op) {
		srt = "Float64"
	}
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", n, srt, body)
}

func isFPResult(op Op) bool {
	switch op {
	case OI2F, OU2F, OFAdd, OFSub, OFMul, OFDiv:
		return true
	}
	return false
}

func (s *Solver) fpArg(e *Expr) string {
	if isFPResult(e.op) {
		return s.name(e)
	}
	return "((_ to_fp 11 53) " + s.name(e) + ")"
}

func (s *Solver) tableFun(t *Table, iw uint8, w *strings.Builder) string {
	key := fmt.Sprintf("t%d_%d", t.id, iw)
	if _, ok := s.tabs[key]; ok {
		return key
	}
	s.tabs[key] = key
	// runs of slope 0 or slope 1
	type run struct {
		hi    uint64
		slope bool
		v     uint64 // value or value - index
	}
	var runs []run
	n := uint64(len(t.vals))
	lim := n
	if iw < 64 && lim > uint64(1)<<iw {
		lim = uint64(1) << iw
	}
	for i := uint64(0); i < lim; {
		j := i
		for j+1 < lim && t.vals[j+1] == t.vals[i] {
			j++
		}
		if iw == t.w {
			k := i
			for k+1 < lim && t.vals[k+1] == (t.vals[i]+(k+1-i))&mask(t.w) {
				k++
			}
			if k > j {
				runs = append(runs, run{k, true, (t.vals[i] - i) & mask(t.w)})
				i = k + 1
				continue
			}
		}
		runs = append(runs, run{j, false, t.vals[i]})
		i = j + 1
	}
	val := func(r run) string {
		c := fmt.Sprintf("(_ bv%d %d)", r.v, t.w)
		if r.slope {
			return "(bvadd x " + c + ")"
		}
		return c
	}
	full := iw < 64 && lim == uint64(1)<<iw
	var build func(lo, hi int) string
	build = func(lo, hi int) string {
		if lo == hi {
			return val(runs[lo])
		}
		m := (lo + hi) / 2
		return fmt.Sprintf("(ite (bvule x (_ bv%d %d)) %s %s)", runs[m].hi, iw, build(lo, m), build(m+1, hi))
	}
	body := build(0, len(runs)-1)
	if !full {
		body = fmt.Sprintf("(ite (bvult x (_ bv%d %d)) %s (_ bv%d %d))", n, iw, body, t.def, t.w)
	}
	fmt.Fprintf(w, "(define-fun %s ((x %s)) %s %s)\n", key, sortOf(iw), sortOf(t.w), body)
	return key
}

// Check decides satisfiability of the conjunction. res: 1 sat, 0 unsat, -1
// unknown. The model covers every root of the conjunction.
func (s *Solver) Check(conds []*Expr) (int, map[uint32]uint64) {
	var keep []*Expr
	for _, x := range conds {
		if x.isConst() {
			if x.k == 0 {
				return 0, nil
			}
			continue
		}
		keep = append(keep, x)
	}
	if len(keep) == 0 {
		return 1, nil
	}
	ids := make([]uint32, len(keep))
	for i, x := range keep {
		ids[i] = x.id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var kb strings.Builder
	var last uint32 = ^uint32(0)
	for _, i := range ids {
		if i != last {
			fmt.Fprintf(&kb, "%x,", i)
		}
		last = i
	}
	key := kb.String()
	if ce, ok := s.cache[key]; ok {
		s.CacheHits++
		return ce.res, ce.model
	}
	if s.cmd == nil {
		s.start()
	}
	s.Queries++
	t0 := time.Now()
	res, model := s.query(keep)
	s.Time += time.Since(t0)
	switch res {
	case 1:
		s.Sat++
	case 0:
		s.Unsat++
	default:
		s.Unknown++
	}
	s.cache[key] = cacheEnt{res, model}
	return res, model
}

func (s *Solver) query(keep []*Expr) (int, map[uint32]uint64) {
	w := &s.bufw
	w.Reset()
	rootset := map[uint32]bool{}
	for _, x := range keep {
		s.define(x, w)
		for _, r := range s.c.roots(x) {
			rootset[r] = true
		}
	}
	// UF groups involved
	var groups []*UFGroup
	for _, g := range s.c.glist {
		if rootset[g.parts[0].id] {
			groups = append(groups, g)
			for _, p := range g.parts {
				s.define(p, w)
			}
		}
	}
	var ax strings.Builder
	s.consistency(groups, w, &ax)
	w.WriteString("(push 1)\n")
	for _, x := range keep {
		w.WriteString("(assert " + s.name(x) + ")\n")
	}
	w.WriteString(ax.String())
	w.WriteString("(check-sat)\n")
	if d := os.Getenv("VENGINE_DUMP"); d != "" {
		if s.dump == nil {
			s.dump, _ = os.CreateTemp(d, "q*.smt2")
			fmt.Fprintf(s.dump, "(set-option :produce-models true)\n")
		}
		io.WriteString(s.dump, w.String()+"(pop 1)\n")
	}
	if _, err := io.WriteString(s.in, w.String()); err != nil {
		s.lastErr = err.Error()
		s.Close()
		return -1, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.lastErr = err.Error()
		s.Close()
		return -1, nil
	}
	res := -1
	switch line {
	case "sat":
		res = 1
	case "unsat":
		res = 0
	case "unknown", "timeout":
	default:
		s.lastErr = line
		s.Close()
		return -1, nil
	}
	var model map[uint32]uint64
	if res == 1 {
		// get-value of all roots
		var names []string
		var ids []uint32
		for _, r := range setKeys(rootset) {
			e := s.rootExpr(r)
			if e.op == OUF {
				for _, p := range e.grp.parts {
					names = append(names, s.name(p))
					ids = append(ids, p.id)
				}
				continue
			}
			names = append(names, s.name(e))
			ids = append(ids, e.id)
		}
		model = make(map[uint32]uint64, len(ids))
		if len(names) > 0 {
			io.WriteString(s.in, "(get-value ("+strings.Join(names, " ")+"))\n")
			txt, err := s.readSexp()
			if err != nil {
				s.lastErr = err.Error()
				s.Close()
				return -1, nil
			}
			vals := parseValues(txt)
			for i, n := range names {
				v, ok := vals[n]
				if !ok {
					s.lastErr = "missing value for " + n + " in " + txt
					s.Close()
					return -1, nil
				}
				model[ids[i]] = v
			}
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, model
}

func (s *Solver) rootExpr(id uint32) *Expr { return s.c.byID(id) }

// consistency emits functional-consistency and injectivity axioms.
func (s *Solver) consistency(groups []*UFGroup, w, ax *strings.Builder) {
	byFam := map[string][]*UFGroup{}
	for _, g := range groups {
		byFam[g.fam] = append(byFam[g.fam], g)
	}
	var fams []string
	for f := range byFam {
		fams = append(fams, f)
	}
	sort.Strings(fams)
	pairs := 0
	for _, f := range fams {
		gs := byFam[f]
		for i := 0; i < len(gs); i++ {
			for j := i + 1; j < len(gs); j++ {
				a, b := gs[i], gs[j]
				if pairs > 3000 {
					return
				}
				var eqs []string
				possible := len(a.args) == len(b.args)
				if possible {
					for k := range a.args {
						eq := s.c.Eq(a.args[k], b.args[k])
						if eq == s.c.False {
							possible = false
							break
						}
						if eq == s.c.True {
							continue
						}
						s.define(a.args[k], w)
						s.define(b.args[k], w)
						eqs = append(eqs, "(= "+s.name(a.args[k])+" "+s.name(b.args[k])+")")
					}
				}
				if !possible && !a.inj {
					continue
				}
				pairs++
				var outs []string
				for k := range a.parts {
					outs = append(outs, "(= "+s.name(a.parts[k])+" "+s.name(b.parts[k])+")")
				}
				outEq := conj(outs)
				if !possible {
					fmt.Fprintf(ax, "(assert (not %s))\n", outEq)
				} else if a.inj {
					fmt.Fprintf(ax, "(assert (= %s %s))\n", conj(eqs), outEq)
				} else {
					fmt.Fprintf(ax, "(assert (=> %s %s))\n", conj(eqs), outEq)
				}
			}
		}
	}
}

func conj(x []string) string {
	switch len(x) {
	case 0:
		return "true"
	case 1:
		return x[0]
	}
	return "(and " + strings.Join(x, " ") + ")"
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch b {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string) map[string]uint64 {
	res := map[string]uint64{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	// pattern: ( name value ) with value #x.. | #b.. | true | false | ( _ bvN w )
	for i := 0; i+1 < len(toks); i++ {
		if toks[i] == "(" && i+2 < len(toks) && (toks[i+1][0] == 's' || toks[i+1][0] == 'u') {
			n, v := toks[i+1], toks[i+2]
			switch {
			case strings.HasPrefix(v, "#x"):
				x, _ := strconv.ParseUint(v[2:], 16, 64)
				res[n] = x
			case strings.HasPrefix(v, "#b"):
				x, _ := strconv.ParseUint(v[2:], 2, 64)
				res[n] = x
			case v == "true":
				res[n] = 1
			case v == "false":
				res[n] = 0
			case v == "(" && i+4 < len(toks) && strings.HasPrefix(toks[i+4], "bv"):
				x, _ := strconv.ParseUint(toks[i+4][2:], 10, 64)
				res[n] = x
			}
		}
	}
	return res
}
