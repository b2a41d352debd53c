package main

// Symbolic expressions: hash-consed bit-vector / boolean terms of at most 64
// bits, with an aggressive piecewise normal form for concatenations so that
// byte shuffling (big endian packing, masks, shifts, xor with constants)
// cancels syntactically.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OSym Op = iota
	OConst
	ONot  // bool
	OAnd  // bool
	OOr   // bool
	OEq   // any -> bool
	OUlt  // bv -> bool
	OUle  //
	OSlt  //
	OSle  //
	OIte  // bool, x, x
	OAdd  //
	OSub  //
	OMul  //
	OUDiv //
	OURem //
	OSDiv //
	OSRem //
	OBAnd //
	OBOr  //
	OBXor //
	OBNot //
	OShl  // symbolic shift amounts (same width)
	OLShr //
	OAShr //
	OConcat
	OExtract // k = lo, w = width
	OSExt
	OLookup // table, idx
	OUF     // uninterpreted application, name, part in k
	OSel    // bool->bv? (unused)
	OI2F    // int64 -> float64 bits
	OU2F    // uint64 -> float64 bits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OF2I // float64 -> int64 (trunc)
	OF2U // float64 -> uint64 (trunc)
)

var opNames = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle",
}

// Expr is an immutable hash-consed term. w == 0 means boolean.
type Expr struct {
	op     Op
	w      uint8
	id     uint32
	k      uint64
	name   string
	args   []*Expr
	tab    *Table
	lo, hi uint64 // unsigned range (bv) or 0/1 (bool)
	grp    *UFGroup
	hash   uint64
	syms   *symset
}

// Table is a constant lookup table.
type Table struct {
	id   uint32
	vals []uint64
	w    uint8
	def  uint64 // out of range
	hash uint64
}

// UFGroup is one application of an uninterpreted function with several output
// parts; the solver encoding adds functional consistency and (when inj is set)
// injectivity between groups of the same family.
type UFGroup struct {
	id     int
	fam    string
	args   []*Expr
	parts  []*Expr
	inj    bool
	hash   uint64
	native func(args []uint64) []uint64
}

type symset struct {
	ids []uint32 // sorted symbol roots (ids of OSym / OUF-group representative)
	big bool     // too many to keep for every subexpression; ids may be filled in
}

// Ctx is a per-worker expression context.
type Ctx struct {
	tbl     map[uint64][]*Expr
	nextID  uint32
	groups  map[string]*UFGroup
	glist   []*UFGroup
	tables  map[string]*Table
	syms    map[string]*Expr
	rootTab map[uint32]*Expr
	True    *Expr
	False   *Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tbl: map[uint64][]*Expr{}, groups: map[string]*UFGroup{}, tables: map[string]*Table{}, syms: map[string]*Expr{}, rootTab: map[uint32]*Expr{}}
	c.True = c.mk(&Expr{op: OConst, w: 0, k: 1})
	c.False = c.mk(&Expr{op: OConst, w: 0, k: 0})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (e *Expr) isConst() bool { return e.op == OConst }

func hashMix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	return h * 0xff51afd7ed558ccd
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// less is a canonical operand order that does not depend on creation order.
func less(a, b *Expr) bool {
	if a.hash != b.hash {
		return a.hash < b.hash
	}
	return a.id < b.id
}

func (c *Ctx) mk(e *Expr) *Expr {
	h := hashMix(uint64(e.op)<<8|uint64(e.w), e.k)
	for _, a := range e.args {
		h = hashMix(h, a.hash)
	}
	if e.name != "" {
		for i := 0; i < len(e.name); i++ {
			h = hashMix(h, uint64(e.name[i]))
		}
	}
	if e.tab != nil {
		h = hashMix(h, e.tab.hash)
	}
	if e.grp != nil {
		h = hashMix(h, e.grp.hash)
	}
outer:
	for _, o := range c.tbl[h] {
		if o.op != e.op || o.w != e.w || o.k != e.k || o.name != e.name || len(o.args) != len(e.args) || o.tab != e.tab || o.grp != e.grp {
			continue
		}
		for i := range o.args {
			if o.args[i] != e.args[i] {
				continue outer
			}
		}
		return o
	}
	e.id = c.nextID
	c.nextID++
	e.hash = h
	if e.op == OSym || e.op == OUF {
		c.rootTab[e.id] = e
	}
	c.computeRange(e)
	c.tbl[h] = append(c.tbl[h], e)
	return e
}

func (c *Ctx) computeRange(e *Expr) {
	m := mask(e.w)
	if e.w == 0 {
		m = 1
	}
	e.lo, e.hi = 0, m
	switch e.op {
	case OConst:
		e.lo, e.hi = e.k, e.k
	case OConcat:
		var lo, hi uint64
		var sh uint
		for _, a := range e.args {
			lo |= a.lo << sh
			hi |= a.hi << sh
			sh += uint(a.w)
		}
		// ranges per piece combine lexicographically: only exact for hi piece, but
		// sum of piece minima/maxima is a sound bound.
		e.lo, e.hi = lo, hi
	case OExtract:
		a := e.args[0]
		if e.k == 0 && a.hi <= m {
			e.lo, e.hi = a.lo, a.hi
		} else {
			h := a.hi >> e.k
			if h <= m {
				e.lo, e.hi = a.lo>>e.k, h
			}
		}
	case OIte:
		a, b := e.args[1], e.args[2]
		e.lo, e.hi = min(a.lo, b.lo), max(a.hi, b.hi)
	case OAdd:
		a, b := e.args[0], e.args[1]
		s, carry := bits.Add64(a.hi, b.hi, 0)
		if carry == 0 && s <= m {
			e.lo, e.hi = a.lo+b.lo, s
		}
	case OMul:
		a, b := e.args[0], e.args[1]
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			e.lo, e.hi = a.lo*b.lo, l
		}
	case OSub:
		a, b := e.args[0], e.args[1]
		if a.lo >= b.hi {
			e.lo, e.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OUDiv:
		a, b := e.args[0], e.args[1]
		if b.lo > 0 {
			e.lo, e.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		a, b := e.args[0], e.args[1]
		if b.lo > 0 {
			e.lo, e.hi = 0, min(a.hi, b.hi-1)
		}
	case OBAnd:
		e.lo, e.hi = 0, min(e.args[0].hi, e.args[1].hi)
	case OBOr, OBXor:
		h := e.args[0].hi | e.args[1].hi
		n := bits.Len64(h)
		e.lo, e.hi = 0, mask(uint8(n))
		if n == 0 {
			e.hi = 0
		}
	case OLookup:
		lo, hi := ^uint64(0), uint64(0)
		ix := e.args[0]
		n := uint64(len(e.tab.vals))
		for i := ix.lo; i <= ix.hi && i < n; i++ {
			v := e.tab.vals[i]
			lo, hi = min(lo, v), max(hi, v)
		}
		if ix.hi >= n {
			lo, hi = min(lo, e.tab.def), max(hi, e.tab.def)
		}
		e.lo, e.hi = lo, hi
	}
}

func (c *Ctx) Const(w uint8, k uint64) *Expr {
	if w == 0 {
		if k != 0 {
			return c.True
		}
		return c.False
	}
	return c.mk(&Expr{op: OConst, w: w, k: k & mask(w)})
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Sym(name string, w uint8) *Expr {
	if e, ok := c.syms[name]; ok {
		if e.w == w {
			return e
		}
		panic("symbol " + name + " redeclared with another width")
	}
	e := c.mk(&Expr{op: OSym, w: w, name: name})
	c.syms[name] = e
	return e
}

func (c *Ctx) Table(vals []uint64, w uint8, def uint64) *Table {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d:", w, def)
	for _, v := range vals {
		fmt.Fprintf(&sb, "%x,", v)
	}
	k := sb.String()
	if t, ok := c.tables[k]; ok {
		return t
	}
	t := &Table{id: uint32(len(c.tables)), vals: append([]uint64(nil), vals...), w: w, def: def}
	t.hash = strHash(k)
	c.tables[k] = t
	return t
}

// ---- boolean ----

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(&Expr{op: ONot, args: []*Expr{a}})
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if less(b, a) {
		a, b = b, a
	}
	return c.mk(&Expr{op: OAnd, args: []*Expr{a, b}})
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	return c.Not(c.And(c.Not(a), c.Not(b)))
}

func (c *Ctx) AndAll(xs []*Expr) *Expr {
	r := c.True
	for _, x := range xs {
		r = c.And(r, x)
	}
	return r
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
		if b.isConst() {
			switch a.op {
			case OConcat:
				r := c.True
				var sh uint
				for _, p := range a.args {
					r = c.And(r, c.Eq(p, c.Const(p.w, b.k>>sh)))
					if r == c.False {
						return r
					}
					sh += uint(p.w)
				}
				return r
			case OBXor:
				if a.args[1].isConst() {
					return c.Eq(a.args[0], c.Const(a.w, a.args[1].k^b.k))
				}
			case OAdd:
				if a.args[1].isConst() {
					return c.Eq(a.args[0], c.Const(a.w, b.k-a.args[1].k))
				}
			case OIte:
				t, f := a.args[1], a.args[2]
				if t.isConst() && f.isConst() {
					te, fe := t.k == b.k, f.k == b.k
					switch {
					case te && fe:
						return c.True
					case te:
						return a.args[0]
					case fe:
						return c.Not(a.args[0])
					default:
						return c.False
					}
				}
				if t.isConst() || f.isConst() {
					return c.Ite(a.args[0], c.Eq(t, b), c.Eq(f, b))
				}
			case OLookup:
				return c.lookupPred(a, func(v uint64) bool { return v == b.k })
			case OSExt:
				x := a.args[0]
				v := b.k & mask(x.w)
				if signExtend(v, x.w)&mask(a.w) == b.k {
					return c.Eq(x, c.Const(x.w, v))
				}
				return c.False
			}
		} else if a.op == OConcat || b.op == OConcat {
			if r := c.eqPieces(a, b); r != nil {
				return r
			}
		} else if a.op == OBXor && b.op == OBXor {
			// x^k == y^k
			if a.args[1] == b.args[1] {
				return c.Eq(a.args[0], b.args[0])
			}
			if a.args[0] == b.args[0] {
				return c.Eq(a.args[1], b.args[1])
			}
		}
	}
	if less(b, a) {
		a, b = b, a
	}
	return c.mk(&Expr{op: OEq, args: []*Expr{a, b}})
}

// eqPieces splits an equality at common piece boundaries.
func (c *Ctx) eqPieces(a, b *Expr) *Expr {
	cuts := func(e *Expr) []uint {
		var r []uint
		var sh uint
		if e.op == OConcat {
			for _, p := range e.args {
				sh += uint(p.w)
				r = append(r, sh)
			}
			return r
		}
		return []uint{uint(e.w)}
	}
	ca, cb := cuts(a), cuts(b)
	set := map[uint]bool{}
	for _, x := range ca {
		set[x] = true
	}
	var common []uint
	for _, x := range cb {
		if set[x] {
			common = append(common, x)
		}
	}
	if len(common) < 2 {
		return nil
	}
	r := c.True
	var lo uint
	for _, hi := range common {
		r = c.And(r, c.Eq(c.Extract(a, lo, uint8(hi-lo)), c.Extract(b, lo, uint8(hi-lo))))
		if r == c.False {
			return r
		}
		lo = hi
	}
	return r
}

// lookupPred turns a predicate over a table lookup into a predicate over its index.
func (c *Ctx) lookupPred(a *Expr, pred func(uint64) bool) *Expr {
	ix := a.args[0]
	n := uint64(len(a.tab.vals))
	var trues []uint64
	total := uint64(0)
	hi := min(ix.hi, n-1)
	for i := ix.lo; i <= hi; i++ {
		total++
		if pred(a.tab.vals[i]) {
			trues = append(trues, i)
		}
	}
	defT := false
	if ix.hi >= n {
		total++
		defT = pred(a.tab.def)
	}
	nt := uint64(len(trues))
	if defT {
		nt++
	}
	if nt == 0 {
		return c.False
	}
	if nt == total {
		return c.True
	}
	// Build as union of ranges.
	r := c.False
	i := 0
	for i < len(trues) {
		j := i
		for j+1 < len(trues) && trues[j+1] == trues[j]+1 {
			j++
		}
		r = c.Or(r, c.inRange(ix, trues[i], trues[j]))
		i = j + 1
	}
	if defT {
		r = c.Or(r, c.Ule(c.Const(ix.w, n), ix))
	}
	return r
}

func (c *Ctx) inRange(x *Expr, lo, hi uint64) *Expr {
	if lo == hi {
		return c.Eq(x, c.Const(x.w, lo))
	}
	return c.And(c.Ule(c.Const(x.w, lo), x), c.Ule(x, c.Const(x.w, hi)))
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if b.isConst() && a.op == OLookup {
		return c.lookupPred(a, func(v uint64) bool { return v < b.k })
	}
	if a.isConst() && b.op == OLookup {
		return c.lookupPred(b, func(v uint64) bool { return a.k < v })
	}
	a2, b2 := c.stripZ(a, b)
	if a2 != a {
		return c.Ult(a2, b2)
	}
	if b.isConst() && b.k == a.lo+1 {
		return c.Eq(a, c.Const(a.w, a.lo))
	}
	if a.isConst() && b.hi == a.k+1 {
		return c.Eq(b, c.Const(b.w, b.hi))
	}
	return c.mk(&Expr{op: OUlt, args: []*Expr{a, b}})
}

func (c *Ctx) Ule(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.hi <= b.lo {
		return c.True
	}
	if a.lo > b.hi {
		return c.False
	}
	if b.isConst() && a.op == OLookup {
		return c.lookupPred(a, func(v uint64) bool { return v <= b.k })
	}
	if a.isConst() && b.op == OLookup {
		return c.lookupPred(b, func(v uint64) bool { return a.k <= v })
	}
	a2, b2 := c.stripZ(a, b)
	if a2 != a {
		return c.Ule(a2, b2)
	}
	if b.isConst() && b.k == a.lo {
		return c.Eq(a, b)
	}
	if a.isConst() && a.k == b.hi {
		return c.Eq(a, b)
	}
	return c.mk(&Expr{op: OUle, args: []*Expr{a, b}})
}

// stripZ narrows both operands of an unsigned comparison when their high bits
// are known zero.
func (c *Ctx) stripZ(a, b *Expr) (*Expr, *Expr) {
	n := max(zwidth(a), zwidth(b))
	if n < a.w && n > 0 && (a.op == OConcat || b.op == OConcat) {
		return c.Extract(a, 0, n), c.Extract(b, 0, n)
	}
	return a, b
}

// zwidth is the width after removing known-zero top piece.
func zwidth(e *Expr) uint8 {
	if e.isConst() {
		return uint8(bits.Len64(e.k))
	}
	if e.op == OConcat {
		t := e.args[len(e.args)-1]
		if t.isConst() && t.k == 0 {
			return e.w - t.w
		}
	}
	return e.w
}

func signExtend(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	if v>>(w-1)&1 == 1 {
		return v | ^mask(w)
	}
	return v & mask(w)
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	sb := uint64(1) << (a.w - 1)
	if a.isConst() && b.isConst() {
		return c.Bool(int64(signExtend(a.k, a.w)) < int64(signExtend(b.k, b.w)))
	}
	if a.hi < sb && b.hi < sb {
		return c.Ult(a, b)
	}
	if a.lo >= sb && b.hi < sb {
		return c.True
	}
	if b.lo >= sb && a.hi < sb {
		return c.False
	}
	if b.isConst() && a.op == OLookup {
		return c.lookupPred(a, func(v uint64) bool { return int64(signExtend(v, a.w)) < int64(signExtend(b.k, a.w)) })
	}
	if a.isConst() && b.op == OLookup {
		return c.lookupPred(b, func(v uint64) bool { return int64(signExtend(a.k, a.w)) < int64(signExtend(v, a.w)) })
	}
	return c.mk(&Expr{op: OSlt, args: []*Expr{a, b}})
}

func (c *Ctx) Sle(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	sb := uint64(1) << (a.w - 1)
	if a.isConst() && b.isConst() {
		return c.Bool(int64(signExtend(a.k, a.w)) <= int64(signExtend(b.k, b.w)))
	}
	if a.hi < sb && b.hi < sb {
		return c.Ule(a, b)
	}
	if a.lo >= sb && b.hi < sb {
		return c.True
	}
	if b.lo >= sb && a.hi < sb {
		return c.False
	}
	if b.isConst() && a.op == OLookup {
		return c.lookupPred(a, func(v uint64) bool { return int64(signExtend(v, a.w)) <= int64(signExtend(b.k, a.w)) })
	}
	if a.isConst() && b.op == OLookup {
		return c.lookupPred(b, func(v uint64) bool { return int64(signExtend(a.k, a.w)) <= int64(signExtend(v, a.w)) })
	}
	return c.mk(&Expr{op: OSle, args: []*Expr{a, b}})
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.isConst() {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if a.isConst() {
			if a.k != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	return c.mk(&Expr{op: OIte, w: a.w, args: []*Expr{cond, a, b}})
}

// ---- bit pieces ----

func (c *Ctx) pieces(e *Expr) []*Expr {
	if e.op == OConcat {
		return e.args
	}
	return []*Expr{e}
}

// Concat builds the concatenation of pieces, least significant first.
func (c *Ctx) Concat(ps []*Expr) *Expr {
	out := make([]*Expr, 0, len(ps))
	for _, p := range ps {
		for _, q := range c.pieces(p) {
			if q.w == 0 {
				continue
			}
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.isConst() && q.isConst() {
					out[n-1] = c.Const(l.w+q.w, l.k|q.k<<l.w)
					continue
				}
				// adjacent extracts
				ls, llo := l, uint64(0)
				if l.op == OExtract {
					ls, llo = l.args[0], l.k
				}
				if q.op == OExtract && q.args[0] == ls && (l.op == OExtract) && llo+uint64(l.w) == q.k {
					m := c.Extract(ls, uint(llo), l.w+q.w)
					out = append(out[:n-1], c.pieces(m)...)
					continue
				}
			}
			out = append(out, q)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	var w uint8
	for _, p := range out {
		w += p.w
	}
	if w > 64 {
		panic("concat too wide")
	}
	return c.mk(&Expr{op: OConcat, w: w, args: out})
}

// Extract returns bits [lo, lo+w) of e.
func (c *Ctx) Extract(e *Expr, lo uint, w uint8) *Expr {
	if lo == 0 && w == e.w {
		return e
	}
	if w == 0 {
		panic("zero extract")
	}
	if uint(w)+lo > uint(e.w) {
		panic(fmt.Sprintf("extract out of range lo=%d w=%d of %d", lo, w, e.w))
	}
	switch e.op {
	case OConst:
		return c.Const(w, e.k>>lo)
	case OExtract:
		return c.Extract(e.args[0], uint(e.k)+lo, w)
	case OConcat:
		var out []*Expr
		var pos uint
		end := lo + uint(w)
		for _, p := range e.args {
			ps, pe := pos, pos+uint(p.w)
			pos = pe
			if pe <= lo || ps >= end {
				continue
			}
			s, t := max(ps, lo), min(pe, end)
			out = append(out, c.Extract(p, s-ps, uint8(t-s)))
		}
		return c.Concat(out)
	case OBXor, OBAnd, OBOr:
		return c.bitop(e.op, c.Extract(e.args[0], lo, w), c.Extract(e.args[1], lo, w))
	case OBNot:
		return c.BNot(c.Extract(e.args[0], lo, w))
	case OIte:
		if e.args[1].isConst() || e.args[2].isConst() {
			return c.Ite(e.args[0], c.Extract(e.args[1], lo, w), c.Extract(e.args[2], lo, w))
		}
	case OLookup:
		vals := make([]uint64, len(e.tab.vals))
		for i, v := range e.tab.vals {
			vals[i] = v >> lo & mask(w)
		}
		return c.Lookup(c.Table(vals, w, e.tab.def>>lo&mask(w)), e.args[0])
	case OSExt:
		x := e.args[0]
		if lo+uint(w) <= uint(x.w) {
			return c.Extract(x, lo, w)
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			a, b := c.Extract(e.args[0], 0, w), c.Extract(e.args[1], 0, w)
			switch e.op {
			case OAdd:
				return c.Add(a, b)
			case OSub:
				return c.Sub(a, b)
			default:
				return c.Mul(a, b)
			}
		}
	}
	if e.hi>>lo == 0 {
		return c.Const(w, 0)
	}
	// Trim bits known zero.
	n := uint(bits.Len64(e.hi))
	if n < lo+uint(w) && n > lo {
		low := c.mk(&Expr{op: OExtract, w: uint8(n - lo), k: uint64(lo), args: []*Expr{e}})
		return c.Concat([]*Expr{low, c.Const(uint8(lo+uint(w)-n), 0)})
	}
	return c.mk(&Expr{op: OExtract, w: w, k: uint64(lo), args: []*Expr{e}})
}

func (c *Ctx) ZExt(e *Expr, w uint8) *Expr {
	if e.w == w {
		return e
	}
	if e.w > w {
		return c.Extract(e, 0, w)
	}
	if e.isConst() {
		return c.Const(w, e.k)
	}
	if e.op == OLookup {
		return c.Lookup(c.Table(e.tab.vals, w, e.tab.def), e.args[0])
	}
	return c.Concat([]*Expr{e, c.Const(w-e.w, 0)})
}

func (c *Ctx) SExt(e *Expr, w uint8) *Expr {
	if e.w == w {
		return e
	}
	if e.w > w {
		return c.Extract(e, 0, w)
	}
	if e.isConst() {
		return c.Const(w, signExtend(e.k, e.w))
	}
	if e.hi < uint64(1)<<(e.w-1) {
		return c.ZExt(e, w)
	}
	if e.op == OLookup {
		vals := make([]uint64, len(e.tab.vals))
		for i, v := range e.tab.vals {
			vals[i] = signExtend(v, e.w) & mask(w)
		}
		return c.Lookup(c.Table(vals, w, signExtend(e.tab.def, e.w)&mask(w)), e.args[0])
	}
	return c.mk(&Expr{op: OSExt, w: w, args: []*Expr{e}})
}

func (c *Ctx) Lookup(t *Table, ix *Expr) *Expr {
	n := uint64(len(t.vals))
	if ix.isConst() {
		if ix.k < n {
			return c.Const(t.w, t.vals[ix.k])
		}
		return c.Const(t.w, t.def)
	}
	// narrow index: remove zero top
	if z := zwidth(ix); z < ix.w && z > 0 {
		return c.Lookup(t, c.Extract(ix, 0, z))
	}
	if ix.op == OLookup {
		vals := make([]uint64, len(ix.tab.vals))
		f := func(v uint64) uint64 {
			if v < n {
				return t.vals[v]
			}
			return t.def
		}
		for i, v := range ix.tab.vals {
			vals[i] = f(v)
		}
		return c.Lookup(c.Table(vals, t.w, f(ix.tab.def)), ix.args[0])
	}
	// constant over range?
	same := true
	var v0 uint64
	first := true
	hi := min(ix.hi, n)
	for i := ix.lo; i <= hi; i++ {
		v := t.def
		if i < n {
			v = t.vals[i]
		}
		if first {
			v0, first = v, false
		} else if v != v0 {
			same = false
			break
		}
	}
	if same && !first {
		return c.Const(t.w, v0)
	}
	// identity
	if t.w >= ix.w {
		id := true
		for i := ix.lo; i <= hi; i++ {
			v := t.def
			if i < n {
				v = t.vals[i]
			}
			if v != i {
				id = false
				break
			}
		}
		if id && ix.hi < n {
			return c.ZExt(ix, t.w)
		}
	}
	return c.mk(&Expr{op: OLookup, w: t.w, tab: t, args: []*Expr{ix}})
}

// mapTable applies f to all entries of a lookup.
func (c *Ctx) mapLookup(e *Expr, w uint8, f func(uint64) uint64) *Expr {
	vals := make([]uint64, len(e.tab.vals))
	for i, v := range e.tab.vals {
		vals[i] = f(v) & mask(w)
	}
	return c.Lookup(c.Table(vals, w, f(e.tab.def)&mask(w)), e.args[0])
}

// bitop handles BAnd/BOr/BXor piecewise.
func (c *Ctx) bitop(op Op, a, b *Expr) *Expr {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return c.Const(a.w, a.k&b.k)
		case OBOr:
			return c.Const(a.w, a.k|b.k)
		default:
			return c.Const(a.w, a.k^b.k)
		}
	}
	if a == b {
		if op == OBXor {
			return c.Const(a.w, 0)
		}
		return a
	}
	if b.isConst() {
		m := mask(a.w)
		switch op {
		case OBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
		case OBOr:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		case OBXor:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return c.BNot(a)
			}
		}
		if a.op == OLookup {
			return c.mapLookup(a, a.w, func(v uint64) uint64 {
				switch op {
				case OBAnd:
					return v & b.k
				case OBOr:
					return v | b.k
				}
				return v ^ b.k
			})
		}
		// Constant mask: split into runs for and/or.
		if op != OBXor {
			type run struct {
				lo uint
				w  uint8
				v  uint64
			}
			var runs []run
			for i := uint(0); i < uint(a.w); {
				v := b.k >> i & 1
				j := i
				for j < uint(a.w) && b.k>>j&1 == v {
					j++
				}
				runs = append(runs, run{i, uint8(j - i), v})
				i = j
			}
			if len(runs) <= 5 {
				var ps []*Expr
				for _, r := range runs {
					switch {
					case op == OBAnd && r.v == 1, op == OBOr && r.v == 0:
						ps = append(ps, c.Extract(a, r.lo, r.w))
					case op == OBAnd:
						ps = append(ps, c.Const(r.w, 0))
					default:
						ps = append(ps, c.Const(r.w, mask(r.w)))
					}
				}
				return c.Concat(ps)
			}
		}
	}
	// xor cancellation
	if op == OBXor {
		if a.op == OBXor {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
			if a.args[1].isConst() && b.isConst() {
				return c.bitop(OBXor, a.args[0], c.Const(a.w, a.args[1].k^b.k))
			}
		}
		if b.op == OBXor {
			if b.args[0] == a {
				return b.args[1]
			}
			if b.args[1] == a {
				return b.args[0]
			}
		}
	}
	if a.op == OConcat || b.op == OConcat {
		// split at union of boundaries
		var cuts []uint
		add := func(e *Expr) {
			var sh uint
			for _, p := range c.pieces(e) {
				sh += uint(p.w)
				cuts = append(cuts, sh)
			}
		}
		add(a)
		add(b)
		sortUints(cuts)
		var ps []*Expr
		var lo uint
		for _, hi := range cuts {
			if hi <= lo {
				continue
			}
			w := uint8(hi - lo)
			ps = append(ps, c.bitop(op, c.Extract(a, lo, w), c.Extract(b, lo, w)))
			lo = hi
		}
		return c.Concat(ps)
	}
	if !b.isConst() && less(b, a) {
		a, b = b, a
	}
	return c.mk(&Expr{op: op, w: a.w, args: []*Expr{a, b}})
}

func sortUints(x []uint) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func (c *Ctx) BNot(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return c.Const(a.w, ^a.k)
	case OBNot:
		return a.args[0]
	case OConcat:
		var ps []*Expr
		for _, p := range a.args {
			ps = append(ps, c.BNot(p))
		}
		return c.Concat(ps)
	case OLookup:
		return c.mapLookup(a, a.w, func(v uint64) uint64 { return ^v })
	}
	return c.mk(&Expr{op: OBNot, w: a.w, args: []*Expr{a}})
}

func (c *Ctx) ShlK(a *Expr, k uint) *Expr {
	if k == 0 {
		return a
	}
	if k >= uint(a.w) {
		return c.Const(a.w, 0)
	}
	return c.Concat([]*Expr{c.Const(uint8(k), 0), c.Extract(a, 0, a.w-uint8(k))})
}

func (c *Ctx) LShrK(a *Expr, k uint) *Expr {
	if k == 0 {
		return a
	}
	if k >= uint(a.w) {
		return c.Const(a.w, 0)
	}
	return c.Concat([]*Expr{c.Extract(a, k, a.w-uint8(k)), c.Const(uint8(k), 0)})
}

func (c *Ctx) AShrK(a *Expr, k uint) *Expr {
	if k == 0 {
		return a
	}
	if k >= uint(a.w) {
		k = uint(a.w) - 1
	}
	return c.SExt(c.Extract(a, k, a.w-uint8(k)), a.w)
}

// ---- arithmetic ----

func (c *Ctx) Add(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.k+b.k)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.args[1].isConst() {
			return c.Add(a.args[0], c.Const(a.w, a.args[1].k+b.k))
		}
		if a.op == OLookup {
			return c.mapLookup(a, a.w, func(v uint64) uint64 { return v + b.k })
		}
		if a.op == OSub && a.args[0].isConst() {
			return c.Sub(c.Const(a.w, a.args[0].k+b.k), a.args[1])
		}
		return c.mk(&Expr{op: OAdd, w: a.w, args: []*Expr{a, b}})
	}
	// (x + k) + y => (x+y)+k
	if a.op == OAdd && a.args[1].isConst() {
		return c.Add(c.Add(a.args[0], b), a.args[1])
	}
	if b.op == OAdd && b.args[1].isConst() {
		return c.Add(c.Add(a, b.args[0]), b.args[1])
	}
	if b.op == OSub && b.args[1] == a {
		return b.args[0]
	}
	if a.op == OSub && a.args[1] == b {
		return a.args[0]
	}
	if a.op == OConcat || b.op == OConcat {
		// disjoint bits: or
		if disjoint(c, a, b) {
			return c.bitop(OBOr, a, b)
		}
	}
	if less(b, a) {
		a, b = b, a
	}
	return c.mk(&Expr{op: OAdd, w: a.w, args: []*Expr{a, b}})
}

func possBits(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OConcat:
		var r uint64
		var sh uint
		for _, p := range e.args {
			r |= possBits(p) << sh
			sh += uint(p.w)
		}
		return r
	}
	return mask(uint8(bits.Len64(e.hi)))
}

func disjoint(c *Ctx, a, b *Expr) bool { return possBits(a)&possBits(b) == 0 }

func (c *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.Const(a.w, -b.k))
	}
	if a.isConst() && b.op == OLookup {
		return c.mapLookup(b, a.w, func(v uint64) uint64 { return a.k - v })
	}
	if a.op == OAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[1].isConst() {
			return c.Add(c.Sub(a.args[0], b), a.args[1])
		}
	}
	if b.op == OAdd && b.args[1].isConst() {
		return c.Add(c.Sub(a, b.args[0]), c.Const(a.w, -b.args[1].k))
	}
	return c.mk(&Expr{op: OSub, w: a.w, args: []*Expr{a, b}})
}

func (c *Ctx) Mul(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.k*b.k)
		}
		switch {
		case b.k == 0:
			return b
		case b.k == 1:
			return a
		case b.k&(b.k-1) == 0:
			return c.ShlK(a, uint(bits.TrailingZeros64(b.k)))
		}
		if a.op == OLookup {
			return c.mapLookup(a, a.w, func(v uint64) uint64 { return v * b.k })
		}
		if a.op == OMul && a.args[1].isConst() {
			return c.Mul(a.args[0], c.Const(a.w, a.args[1].k*b.k))
		}
		return c.mk(&Expr{op: OMul, w: a.w, args: []*Expr{a, b}})
	}
	if less(b, a) {
		a, b = b, a
	}
	return c.mk(&Expr{op: OMul, w: a.w, args: []*Expr{a, b}})
}

// noOvfMulConst reports a = x*k without unsigned overflow (and below limit).
func noOvfMulConst(a *Expr, limit uint64) (*Expr, uint64, bool) {
	if a.op == OMul && a.args[1].isConst() {
		h, l := bits.Mul64(a.args[0].hi, a.args[1].k)
		if h == 0 && l <= limit {
			return a.args[0], a.args[1].k, true
		}
	}
	return nil, 0, false
}

func (c *Ctx) UDiv(a, b *Expr) *Expr {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return c.Const(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return c.LShrK(a, uint(bits.TrailingZeros64(b.k)))
		}
		if a.hi < b.k {
			return c.Const(a.w, 0)
		}
		if x, k, ok := noOvfMulConst(a, mask(a.w)); ok && k%b.k == 0 {
			return c.Mul(x, c.Const(a.w, k/b.k))
		}
		if a.op == OLookup {
			return c.mapLookup(a, a.w, func(v uint64) uint64 { return v / b.k })
		}
	}
	return c.mk(&Expr{op: OUDiv, w: a.w, args: []*Expr{a, b}})
}

func (c *Ctx) URem(a, b *Expr) *Expr {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return c.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return c.bitop(OBAnd, a, c.Const(a.w, b.k-1))
		}
		if a.hi < b.k {
			return a
		}
		if _, k, ok := noOvfMulConst(a, mask(a.w)); ok && k%b.k == 0 {
			return c.Const(a.w, 0)
		}
		if a.op == OLookup {
			return c.mapLookup(a, a.w, func(v uint64) uint64 { return v % b.k })
		}
	}
	return c.mk(&Expr{op: OURem, w: a.w, args: []*Expr{a, b}})
}

func (c *Ctx) SDiv(a, b *Expr) *Expr {
	sb := uint64(1) << (a.w - 1)
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := int64(signExtend(a.k, a.w)), int64(signExtend(b.k, b.w))
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	if a.hi < sb && b.hi < sb {
		return c.UDiv(a, b)
	}
	return c.mk(&Expr{op: OSDiv, w: a.w, args: []*Expr{a, b}})
}

func (c *Ctx) SRem(a, b *Expr) *Expr {
	sb := uint64(1) << (a.w - 1)
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := int64(signExtend(a.k, a.w)), int64(signExtend(b.k, b.w))
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	if a.hi < sb && b.hi < sb {
		return c.URem(a, b)
	}
	return c.mk(&Expr{op: OSRem, w: a.w, args: []*Expr{a, b}})
}

// Shift with a symbolic amount. amt has the same width as a (already clamped).
func (c *Ctx) Shift(op Op, a, amt *Expr) *Expr {
	if amt.isConst() {
		k := amt.k
		if k > 64 {
			k = 64
		}
		switch op {
		case OShl:
			return c.ShlK(a, uint(k))
		case OLShr:
			return c.LShrK(a, uint(k))
		default:
			return c.AShrK(a, uint(k))
		}
	}
	if a.isConst() && amt.hi < 64 && amt.hi <= 255 {
		// constant shifted by a small symbolic amount: table
		n := amt.hi + 1
		vals := make([]uint64, n)
		for i := range vals {
			switch op {
			case OShl:
				vals[i] = a.k << uint(i) & mask(a.w)
			case OLShr:
				vals[i] = a.k >> uint(i)
			default:
				vals[i] = uint64(int64(signExtend(a.k, a.w))>>uint(i)) & mask(a.w)
			}
		}
		return c.Lookup(c.Table(vals, a.w, 0), amt)
	}
	return c.mk(&Expr{op: op, w: a.w, args: []*Expr{a, amt}})
}

// UF applies an uninterpreted function; returns its output parts.
func (c *Ctx) UF(fam string, args []*Expr, outW []uint8, inj bool, native func([]uint64) []uint64) []*Expr {
	if native != nil {
		vs := make([]uint64, len(args))
		all := true
		for i, a := range args {
			all = all && a.isConst()
			vs[i] = a.k
		}
		if all {
			out := make([]*Expr, len(outW))
			for i, v := range native(vs) {
				out[i] = c.Const(outW[i], v)
			}
			return out
		}
	}
	var sb strings.Builder
	sb.WriteString(fam)
	for _, a := range args {
		sb.WriteByte('|')
		fmt.Fprintf(&sb, "%x", a.id)
	}
	key := sb.String()
	g, ok := c.groups[key]
	if !ok {
		g = &UFGroup{id: len(c.glist), fam: fam, args: args, inj: inj, native: native}
		g.hash = strHash(fam)
		for _, a := range args {
			g.hash = hashMix(g.hash, a.hash)
		}
		c.groups[key] = g
		c.glist = append(c.glist, g)
		for i, w := range outW {
			g.parts = append(g.parts, c.mk(&Expr{op: OUF, w: w, name: fam, k: uint64(i), grp: g, args: nil}))
		}
	}
	return g.parts
}

// FP helper nodes (64-bit patterns).
func (c *Ctx) fp(op Op, w uint8, args ...*Expr) *Expr {
	allc := true
	for _, a := range args {
		if !a.isConst() {
			allc = false
		}
	}
	if allc {
		vs := make([]uint64, len(args))
		for i, a := range args {
			vs[i] = a.k
		}
		return c.Const(w, evalFP(op, vs))
	}
	if op == OF2U || op == OF2I {
		// uint64(float64(int x)) == x when x < 2^53
		if (args[0].op == OI2F || args[0].op == OU2F) && args[0].args[0].hi < 1<<53 {
			return args[0].args[0]
		}
	}
	if op == OFAdd && args[1].isConst() && args[1].k == 0 && (args[0].op == OI2F || args[0].op == OU2F) {
		return args[0]
	}
	return c.mk(&Expr{op: op, w: w, args: args})
}

// byID finds a root expression by id (symbols and UF parts only).
func (c *Ctx) byID(id uint32) *Expr { return c.rootTab[id] }
