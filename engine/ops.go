package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// symPtr addresses one of n consecutive scalar cells chosen by a symbolic index.
type symPtr struct {
	a   *Agg
	off int
	n   int
	idx *Expr
	w   uint8
}

func toF64(n uint64, w uint8) uint64 { return n }

func (c *compiler) binop(in *ssa.BinOp, dst int) op {
	l := c.l
	x, y := c.op(in.X), c.op(in.Y)
	ti := l.tinfo(in.X.Type())
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		if ti.kind == kInt || ti.kind == kUint || ti.kind == kBool {
			return func(m *Machine, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if a.r == nil && b.r == nil {
					fr.regs[dst] = bval((a.n == b.n) != neg)
					return
				}
				e := m.equal(a, b, ti)
				if neg {
					e = m.ctx.Not(e)
				}
				fr.regs[dst] = m.ev(e)
			}
		}
		// comparisons between interface and concrete are already converted by ssa
		return func(m *Machine, fr *frame) {
			e := m.equal(x.get(m, fr), y.get(m, fr), ti)
			if neg {
				e = m.ctx.Not(e)
			}
			fr.regs[dst] = m.ev(e)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		opk := in.Op
		switch ti.kind {
		case kInt, kUint:
			signed := ti.kind == kInt
			w := ti.w
			return func(m *Machine, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				o := opk
				if o == token.GTR || o == token.GEQ {
					a, b = b, a
					if o == token.GTR {
						o = token.LSS
					} else {
						o = token.LEQ
					}
				}
				if a.r == nil && b.r == nil {
					var lt bool
					if signed {
						p, q := int64(signExtend(a.n, w)), int64(signExtend(b.n, w))
						lt = p < q || (o == token.LEQ && p == q)
					} else {
						lt = a.n < b.n || (o == token.LEQ && a.n == b.n)
					}
					fr.regs[dst] = bval(lt)
					return
				}
				ea, eb := m.ex(a, w), m.ex(b, w)
				var e *Expr
				switch {
				case signed && o == token.LSS:
					e = m.ctx.Slt(ea, eb)
				case signed:
					e = m.ctx.Sle(ea, eb)
				case o == token.LSS:
					e = m.ctx.Ult(ea, eb)
				default:
					e = m.ctx.Ule(ea, eb)
				}
				fr.regs[dst] = m.ev(e)
			}
		case kFloat:
			return func(m *Machine, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				o := OFLt
				if opk == token.LEQ || opk == token.GEQ {
					o = OFLe
				}
				if opk == token.GTR || opk == token.GEQ {
					a, b = b, a
				}
				fr.regs[dst] = m.ev(m.ctx.fp(o, 0, m.ex(a, 64), m.ex(b, 64)))
			}
		case kString:
			return func(m *Machine, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				sa, ok1 := concStr(a)
				sb, ok2 := concStr(b)
				if ok1 && ok2 {
					var r bool
					switch opk {
					case token.LSS:
						r = sa < sb
					case token.LEQ:
						r = sa <= sb
					case token.GTR:
						r = sa > sb
					default:
						r = sa >= sb
					}
					fr.regs[dst] = bval(r)
					return
				}
				if opk == token.GTR || opk == token.GEQ {
					a, b = b, a
				}
				e := m.bytesLess(strBytes(a), strBytes(b), opk == token.LEQ || opk == token.GEQ)
				fr.regs[dst] = m.ev(e)
			}
		}
		panic("compare " + in.String())
	case token.SHL, token.SHR:
		w, signed := ti.w, ti.kind == kInt
		yt := l.tinfo(in.Y.Type())
		left := in.Op == token.SHL
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if b.r == nil {
				if yt.kind == kInt && int64(signExtend(b.n, yt.w)) < 0 {
					m.runtimePanic("negative shift amount")
				}
				k := b.n
				if a.r == nil {
					var r uint64
					switch {
					case left:
						if k < 64 {
							r = a.n << k & mask(w)
						}
					case signed:
						if k > 63 {
							k = 63
						}
						r = uint64(int64(signExtend(a.n, w))>>k) & mask(w)
					default:
						if k < 64 {
							r = a.n >> k
						}
					}
					fr.regs[dst] = Value{n: r}
					return
				}
				if k > 255 {
					k = 255
				}
				e := m.ex(a, w)
				switch {
				case left:
					e = m.ctx.ShlK(e, uint(k))
				case signed:
					e = m.ctx.AShrK(e, uint(k))
				default:
					e = m.ctx.LShrK(e, uint(k))
				}
				fr.regs[dst] = m.ev(e)
				return
			}
			be := m.ex(b, yt.w)
			if yt.kind == kInt {
				m.curFr = fr
				if m.branch(m.ctx.Slt(be, m.ctx.Const(yt.w, 0))) {
					m.runtimePanic("negative shift amount")
				}
			}
			// clamp to width
			lim := uint64(w)
			big := m.ctx.False
			if be.hi >= lim {
				big = m.ctx.Ule(m.ctx.Const(yt.w, min(lim, mask(yt.w))), be)
			}
			var amt *Expr
			if yt.w >= w {
				amt = m.ctx.Extract(be, 0, w)
			} else {
				amt = m.ctx.ZExt(be, w)
			}
			ea := m.ex(a, w)
			var e, over *Expr
			over = m.ctx.Const(w, 0)
			switch {
			case left:
				e = m.ctx.Shift(OShl, ea, amt)
			case signed:
				e = m.ctx.Shift(OAShr, ea, amt)
				over = m.ctx.AShrK(ea, uint(w)-1)
			default:
				e = m.ctx.Shift(OLShr, ea, amt)
			}
			fr.regs[dst] = m.ev(m.ctx.Ite(big, over, e))
		}
	}
	switch ti.kind {
	case kString:
		return func(m *Machine, fr *frame) {
			fr.regs[dst] = strConcat(x.get(m, fr), y.get(m, fr))
		}
	case kFloat:
		opk := in.Op
		w := ti.w
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			var o Op
			switch opk {
			case token.ADD:
				o = OFAdd
			case token.SUB:
				o = OFSub
			case token.MUL:
				o = OFMul
			case token.QUO:
				o = OFDiv
			}
			if w == 32 && (a.r != nil || b.r != nil) {
				panic(m.unsup("symbolic float32"))
			}
			v := m.ev(m.ctx.fp(o, 64, m.ex(a, 64), m.ex(b, 64)))
			if w == 32 {
				v.n = math.Float64bits(float64(float32(math.Float64frombits(v.n))))
			}
			fr.regs[dst] = v
		}
	case kBool:
		opk := in.Op
		return func(m *Machine, fr *frame) {
			a, b := m.ex(x.get(m, fr), 0), m.ex(y.get(m, fr), 0)
			switch opk {
			case token.AND:
				fr.regs[dst] = m.ev(m.ctx.And(a, b))
			case token.OR:
				fr.regs[dst] = m.ev(m.ctx.Or(a, b))
			default:
				panic(m.unsup("bool binop"))
			}
		}
	case kInt, kUint:
		opk := in.Op
		w, signed := ti.w, ti.kind == kInt
		mk := mask(w)
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.r == nil && b.r == nil {
				var r uint64
				switch opk {
				case token.ADD:
					r = a.n + b.n
				case token.SUB:
					r = a.n - b.n
				case token.MUL:
					r = a.n * b.n
				case token.AND:
					r = a.n & b.n
				case token.OR:
					r = a.n | b.n
				case token.XOR:
					r = a.n ^ b.n
				case token.AND_NOT:
					r = a.n &^ b.n
				case token.QUO, token.REM:
					if b.n == 0 {
						m.runtimePanic("integer divide by zero")
					}
					if signed {
						p, q := int64(signExtend(a.n, w)), int64(signExtend(b.n, w))
						switch {
						case q == -1 && opk == token.QUO:
							r = uint64(-p)
						case q == -1:
							r = 0
						case opk == token.QUO:
							r = uint64(p / q)
						default:
							r = uint64(p % q)
						}
					} else if opk == token.QUO {
						r = a.n / b.n
					} else {
						r = a.n % b.n
					}
				}
				fr.regs[dst] = Value{n: r & mk}
				return
			}
			if isPtrBits(a) || isPtrBits(b) {
				// pointer arithmetic on uintptr: only x^0 and x+0 (noescape idiom)
				if isPtrBits(a) && b.r == nil && b.n == 0 {
					fr.regs[dst] = a
					return
				}
				panic(m.unsup("arithmetic on pointer bits"))
			}
			ea, eb := m.ex(a, w), m.ex(b, w)
			var e *Expr
			cx := m.ctx
			switch opk {
			case token.ADD:
				e = cx.Add(ea, eb)
			case token.SUB:
				e = cx.Sub(ea, eb)
			case token.MUL:
				e = cx.Mul(ea, eb)
			case token.AND:
				e = cx.bitop(OBAnd, ea, eb)
			case token.OR:
				e = cx.bitop(OBOr, ea, eb)
			case token.XOR:
				e = cx.bitop(OBXor, ea, eb)
			case token.AND_NOT:
				e = cx.bitop(OBAnd, ea, cx.BNot(eb))
			case token.QUO, token.REM:
				m.curFr = fr
				if m.branch(cx.Eq(eb, cx.Const(w, 0))) {
					m.runtimePanic("integer divide by zero")
				}
				switch {
				case signed && opk == token.QUO:
					e = cx.SDiv(ea, eb)
				case signed:
					e = cx.SRem(ea, eb)
				case opk == token.QUO:
					e = cx.UDiv(ea, eb)
				default:
					e = cx.URem(ea, eb)
				}
			}
			fr.regs[dst] = m.ev(e)
		}
	case kComplex:
		return func(m *Machine, fr *frame) { panic(m.unsup("complex arithmetic")) }
	}
	panic("binop " + in.String() + " on " + in.X.Type().String())
}

// bytesLess is the lexicographic comparison a < b (or <=).
func (m *Machine) bytesLess(a, b []Value, orEq bool) *Expr {
	c := m.ctx
	n := min(len(a), len(b))
	var tail *Expr
	if orEq {
		tail = c.Bool(len(a) <= len(b))
	} else {
		tail = c.Bool(len(a) < len(b))
	}
	// Work on 64-bit big-endian chunks from the end.
	r := tail
	for end := n; end > 0; {
		start := (end - 1) / 8 * 8
		var pa, pb []*Expr
		for i := end - 1; i >= start; i-- {
			pa = append(pa, m.ex(a[i], 8))
			pb = append(pb, m.ex(b[i], 8))
		}
		x, y := c.Concat(pa), c.Concat(pb)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
		end = start
	}
	return r
}

func (c *compiler) unop(in *ssa.UnOp, dst int) op {
	l := c.l
	x := c.op(in.X)
	ti := l.tinfo(in.X.Type())
	switch in.Op {
	case token.MUL:
		ei := l.tinfo(in.X.Type().Underlying().(*types.Pointer).Elem())
		return c.tracked(in, x, ei.size, false, func(m *Machine, fr *frame) { fr.regs[dst] = m.loadMem(x.get(m, fr), ei) })
	case token.NOT:
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.r == nil {
				fr.regs[dst] = Value{n: v.n ^ 1}
				return
			}
			fr.regs[dst] = m.ev(m.ctx.Not(m.ex(v, 0)))
		}
	case token.SUB:
		if ti.kind == kFloat {
			return func(m *Machine, fr *frame) {
				v := x.get(m, fr)
				if v.r != nil {
					panic(m.unsup("symbolic float negation"))
				}
				fr.regs[dst] = Value{n: math.Float64bits(-math.Float64frombits(v.n))}
			}
		}
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.r == nil {
				fr.regs[dst] = Value{n: -v.n & mask(ti.w)}
				return
			}
			fr.regs[dst] = m.ev(m.ctx.Sub(m.ctx.Const(ti.w, 0), m.ex(v, ti.w)))
		}
	case token.XOR:
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.r == nil {
				fr.regs[dst] = Value{n: ^v.n & mask(ti.w)}
				return
			}
			fr.regs[dst] = m.ev(m.ctx.BNot(m.ex(v, ti.w)))
		}
	case token.ARROW:
		commaOk := in.CommaOk
		return func(m *Machine, fr *frame) {
			m.curFr = fr
			v, ok := m.chanRecv(x.get(m, fr))
			if commaOk {
				fr.regs[dst] = Value{r: []Value{v, bval(ok)}}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + in.String())
}

func (c *compiler) convert(xv ssa.Value, t types.Type, dst int) op {
	l := c.l
	x := c.op(xv)
	from, to := l.tinfo(xv.Type()), l.tinfo(t)
	switch {
	case (from.kind == kInt || from.kind == kUint) && (to.kind == kInt || to.kind == kUint):
		fw, tw, signed := from.w, to.w, from.kind == kInt
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.r == nil {
				n := v.n
				if signed && tw > fw {
					n = signExtend(n, fw)
				}
				fr.regs[dst] = Value{n: n & mask(tw)}
				return
			}
			if isPtrBits(v) {
				fr.regs[dst] = v
				return
			}
			e := m.ex(v, fw)
			switch {
			case tw < fw:
				e = m.ctx.Extract(e, 0, tw)
			case tw > fw && signed:
				e = m.ctx.SExt(e, tw)
			case tw > fw:
				e = m.ctx.ZExt(e, tw)
			}
			fr.regs[dst] = m.ev(e)
		}
	case (from.kind == kInt || from.kind == kUint) && to.kind == kFloat:
		signed, fw, tw := from.kind == kInt, from.w, to.w
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.r == nil {
				var f float64
				if signed {
					f = float64(int64(signExtend(v.n, fw)))
				} else {
					f = float64(v.n)
				}
				if tw == 32 {
					f = float64(float32(f))
				}
				fr.regs[dst] = Value{n: math.Float64bits(f)}
				return
			}
			if tw == 32 {
				panic(m.unsup("symbolic float32"))
			}
			e := m.ex(v, fw)
			if signed {
				fr.regs[dst] = m.ev(m.ctx.fp(OI2F, 64, m.ctx.SExt(e, 64)))
			} else {
				fr.regs[dst] = m.ev(m.ctx.fp(OU2F, 64, m.ctx.ZExt(e, 64)))
			}
		}
	case from.kind == kFloat && (to.kind == kInt || to.kind == kUint):
		signed, tw := to.kind == kInt, to.w
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.r == nil {
				f := math.Float64frombits(v.n)
				if signed {
					fr.regs[dst] = Value{n: uint64(int64(f)) & mask(tw)}
				} else {
					fr.regs[dst] = Value{n: uint64(f) & mask(tw)}
				}
				return
			}
			o := OF2U
			if signed {
				o = OF2I
			}
			fr.regs[dst] = m.ev(m.ctx.Extract(m.ctx.fp(o, 64, m.ex(v, 64)), 0, tw))
		}
	case from.kind == kFloat && to.kind == kFloat:
		tw := to.w
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.r == nil && tw == 32 {
				v.n = math.Float64bits(float64(float32(math.Float64frombits(v.n))))
			}
			fr.regs[dst] = v
		}
	case from.kind == kString && to.kind == kSlice:
		ei := l.tinfo(t.Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			return func(m *Machine, fr *frame) {
				fr.regs[dst] = m.newByteSlice(strBytes(x.get(m, fr)))
			}
		}
		return func(m *Machine, fr *frame) {
			b := strBytes(x.get(m, fr))
			var out []Value
			for len(b) > 0 {
				r, n := m.decodeRune(b)
				out = append(out, r)
				b = b[n:]
			}
			fr.regs[dst] = m.newByteSlice(out)
		}
	case from.kind == kSlice && to.kind == kString:
		ei := l.tinfo(xv.Type().Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			return func(m *Machine, fr *frame) {
				b := byteCells(x.get(m, fr))
				fr.regs[dst] = symStrVal(append([]Value(nil), b...))
			}
		}
		return func(m *Machine, fr *frame) {
			var s []byte
			for _, v := range byteCells(x.get(m, fr)) {
				if v.r != nil {
					panic(m.unsup("symbolic rune to string"))
				}
				s = utf8.AppendRune(s, rune(int32(v.n)))
			}
			fr.regs[dst] = strVal(string(s))
		}
	case (from.kind == kInt || from.kind == kUint) && to.kind == kString:
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			n := v.n
			if v.r != nil {
				e := m.ex(v, from.w)
				if e.hi < 128 {
					fr.regs[dst] = symStrVal([]Value{m.ev(m.ctx.Extract(e, 0, 8))})
					return
				}
				n = m.concretize(e)
			}
			fr.regs[dst] = strVal(string(rune(sext(n, from))))
		}
	case from.kind == kString && to.kind == kString,
		from.kind == kPtr, from.kind == kUnsafe, to.kind == kUnsafe:
		return func(m *Machine, fr *frame) { fr.regs[dst] = x.get(m, fr) }
	case from.kind == to.kind:
		return func(m *Machine, fr *frame) { fr.regs[dst] = x.get(m, fr) }
	case from.kind == kSlice && to.kind == kArray:
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			a, off, n, _ := slicePart(v)
			if n < to.alen {
				m.runtimePanic("cannot convert slice to array")
			}
			cells := make([]Value, to.size)
			if to.size > 0 {
				copy(cells, a.cells[off:off+to.size])
			}
			fr.regs[dst] = aggVal(cells)
		}
	}
	s := fmt.Sprintf("convert %s to %s", xv.Type(), t)
	return func(m *Machine, fr *frame) { panic(m.unsup(s)) }
}

// ---- indexing ----

func (m *Machine) checkIndex(iv Value, it *tinfo, n int) *Expr {
	e := m.ex(iv, it.w)
	var ok *Expr
	c := m.ctx
	if n == 0 {
		ok = c.False
	} else if it.kind == kInt || it.w == 64 || uint64(n) <= mask(it.w) {
		// signed negative values are huge unsigned
		ok = c.Ult(e, c.Const(it.w, uint64(n)))
	} else {
		ok = c.True
	}
	if it.kind == kInt && uint64(n) > mask(it.w)>>1 {
		ok = c.Sle(c.Const(it.w, 0), e)
	}
	if !m.branch(ok) {
		m.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return e
}

func (m *Machine) indexPanic(i int64, n int) {
	m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
}

func (m *Machine) elemPtr(a *Agg, off, n int, iv Value, it, ei *tinfo) Value {
	if iv.r == nil {
		i := sext(iv.n, it)
		if i < 0 || i >= int64(n) {
			m.indexPanic(i, n)
		}
		return Value{r: a, n: uint64(off + int(i)*ei.size)}
	}
	e := m.checkIndex(iv, it, n)
	if e.isConst() {
		return Value{r: a, n: uint64(off + int(e.k)*ei.size)}
	}
	if !ei.isScalar() {
		i := m.concretize(e)
		return Value{r: a, n: uint64(off + int(i)*ei.size)}
	}
	return Value{r: &symPtr{a: a, off: off, n: n, idx: e, w: ei.w}}
}

// selectCell reads cells[off+idx] for a symbolic idx already known in range.
func (m *Machine) selectCell(cells []Value, off, n0 int, idx *Expr, w uint8) Value {
	c := m.ctx
	n := len(cells)
	allc := true
	for _, v := range cells {
		if v.r != nil {
			allc = false
			break
		}
	}
	lo, hi := int(min(idx.lo, uint64(n-1))), int(min(idx.hi, uint64(n-1)))
	if allc && w > 0 {
		vals := make([]uint64, n)
		for i, v := range cells {
			vals[i] = v.n
		}
		return m.ev(c.Lookup(c.Table(vals, w, vals[n-1]), idx))
	}
	r := m.ex(cells[hi], w)
	for i := hi - 1; i >= lo; i-- {
		r = c.Ite(c.Eq(idx, c.Const(idx.w, uint64(i))), m.ex(cells[i], w), r)
	}
	return m.ev(r)
}

func (m *Machine) loadSym(p *symPtr) Value {
	return m.selectCell(p.a.cells[p.off:p.off+p.n], 0, p.n, p.idx, p.w)
}

func (m *Machine) storeSym(p *symPtr, v Value) {
	c := m.ctx
	m.touch(p.a, p.off, p.n)
	ve := m.ex(v, p.w)
	for i := 0; i < p.n; i++ {
		if uint64(i) < p.idx.lo || uint64(i) > p.idx.hi {
			continue
		}
		old := m.ex(p.a.cells[p.off+i], p.w)
		p.a.cells[p.off+i] = m.ev(c.Ite(c.Eq(p.idx, c.Const(p.idx.w, uint64(i))), ve, old))
	}
}

// ---- making things concrete ----

func (m *Machine) concInt(v Value, w uint8) uint64 {
	if v.r == nil {
		return v.n
	}
	return m.concretize(m.ex(v, w))
}

// concBound makes a slice bound concrete; out-of-range values collapse to one.
func (m *Machine) concBound(v Value, ti *tinfo, limit int64) int64 {
	if v.r == nil {
		return sext(v.n, ti)
	}
	e := m.ex(v, ti.w)
	c := m.ctx
	in := c.True
	if uint64(limit) < e.hi {
		in = c.Ule(e, c.Const(ti.w, uint64(limit)))
	}
	if !m.branch(in) {
		return -1
	}
	return int64(m.concretize(e))
}

// concLen makes an allocation length concrete. Lengths above the configured
// cap are represented by single witnesses and reported as a reduced bound.
func (m *Machine) concLen(v Value, ti *tinfo) int64 {
	if v.r == nil {
		return sext(v.n, ti)
	}
	e := m.ex(v, ti.w)
	c := m.ctx
	lim := uint64(m.ex_.lenCap)
	if e.hi <= lim {
		return sext(m.concretize(e), ti)
	}
	if m.branch(c.Ule(e, c.Const(ti.w, lim))) {
		return sext(m.concretize(e), ti)
	}
	m.ex_.bound(fmt.Sprintf("allocation lengths above %d are represented by one value each", lim))
	return sext(m.concretizeOne(e), ti)
}

func (m *Machine) decodeRune(b []Value) (Value, int) {
	v := b[0]
	if v.r == nil && v.n < 0x80 {
		return v, 1
	}
	if v.r != nil {
		e := m.ex(v, 8)
		if m.branch(m.ctx.Ult(e, m.ctx.Const(8, 0x80))) {
			return m.ev(m.ctx.ZExt(e, 32)), 1
		}
	}
	n := min(len(b), 4)
	bs := make([]byte, n)
	for i := 0; i < n; i++ {
		// only as many continuation bytes as needed
		bs[i] = byte(m.concInt(b[i], 8))
		if utf8.FullRune(bs[:i+1]) {
			r, k := utf8.DecodeRune(bs[:i+1])
			return Value{n: uint64(uint32(r))}, k
		}
	}
	r, k := utf8.DecodeRune(bs)
	return Value{n: uint64(uint32(r))}, k
}

// ---- builtins ----

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []opnd) func(m *Machine, fr *frame) Value {
	l := c.l
	name := b.Name()
	var at types.Type
	if len(cc.Args) > 0 {
		at = cc.Args[0].Type()
	}
	switch name {
	case "len", "cap":
		isCap := name == "cap"
		ti := l.tinfo(at)
		switch ti.kind {
		case kString:
			return func(m *Machine, fr *frame) Value { return Value{n: uint64(strLen(args[0].get(m, fr)))} }
		case kSlice:
			return func(m *Machine, fr *frame) Value {
				_, _, n, cp := slicePart(args[0].get(m, fr))
				if isCap {
					n = cp
				}
				return Value{n: uint64(n)}
			}
		case kMap:
			return func(m *Machine, fr *frame) Value {
				v := args[0].get(m, fr)
				if v.r == nil {
					return Value{}
				}
				return Value{n: uint64(v.r.(*MapV).n)}
			}
		case kChan:
			return func(m *Machine, fr *frame) Value {
				v := args[0].get(m, fr)
				if v.r == nil {
					return Value{}
				}
				ch := v.r.(*ChanV)
				if isCap {
					return Value{n: uint64(ch.cap)}
				}
				return Value{n: uint64(len(ch.buf))}
			}
		case kArray:
			return func(m *Machine, fr *frame) Value { return Value{n: uint64(ti.alen)} }
		case kPtr:
			n := uint64(l.tinfo(at.Underlying().(*types.Pointer).Elem()).alen)
			return func(m *Machine, fr *frame) Value { return Value{n: n} }
		}
	case "append":
		ei := l.tinfo(at.Underlying().(*types.Slice).Elem())
		es := ei.size
		fromStr := l.tinfo(cc.Args[1].Type()).kind == kString
		site := c.site(b.Pos())
		return func(m *Machine, fr *frame) Value {
			x, y := args[0].get(m, fr), args[1].get(m, fr)
			var src []Value
			var yn int
			if fromStr {
				src = strBytes(y)
				yn = len(src)
			} else {
				ya, yo, n, _ := slicePart(y)
				yn = n
				if n > 0 {
					src = ya.cells[yo : yo+n*es]
				}
			}
			if site != nil && len(m.gs) > 1 {
				if xa, xo, xn, xc := slicePart(x); xn+yn <= xc && yn > 0 {
					m.bulk(site, fr, xa, xo+xn*es, yn*es)
					v := m.appendCells(x, src, yn, es)
					m.bulkAfter(site, fr)
					return v
				}
			}
			return m.appendCells(x, src, yn, es)
		}
	case "copy":
		site := c.site(b.Pos())
		st := l.tinfo(cc.Args[1].Type())
		es := l.tinfo(at.Underlying().(*types.Slice).Elem()).size
		return func(m *Machine, fr *frame) Value {
			x, y := args[0].get(m, fr), args[1].get(m, fr)
			xa, xo, xn, _ := slicePart(x)
			var src []Value
			if st.kind == kString {
				src = strBytes(y)
			} else if ya, yo, yn, _ := slicePart(y); yn > 0 {
				src = ya.cells[yo : yo+yn*es]
			}
			n := xn
			if es > 0 {
				n = min(xn, len(src)/es)
			}
			if n > 0 && es > 0 {
				m.bulk(site, fr, xa, xo, n*es)
				m.touch(xa, xo, n*es)
				copy(xa.cells[xo:xo+n*es], src[:n*es])
				m.bulkAfter(site, fr)
			}
			return Value{n: uint64(n)}
		}
	case "close":
		return func(m *Machine, fr *frame) Value { m.chanClose(args[0].get(m, fr)); return Value{} }
	case "delete":
		kt := l.keyInfo(l.tinfo(at))
		del := c.site(b.Pos())
		return func(m *Machine, fr *frame) Value {
			v := args[0].get(m, fr)
			if v.r != nil {
				m.curFr = fr
				if del != nil && len(m.gs) > 1 {
					m.access(del, shadowKey{v.r.(*MapV), 0}, true)
				}
				m.mapDelete(v.r.(*MapV), args[1].get(m, fr), kt)
			}
			return Value{}
		}
	case "panic":
		return func(m *Machine, fr *frame) Value { panic(&ipanic{val: args[0].get(m, fr)}) }
	case "recover":
		return func(m *Machine, fr *frame) Value { return m.doRecover(fr) }
	case "print", "println":
		return func(m *Machine, fr *frame) Value { return Value{} }
	case "ssa:wrapnilchk":
		return func(m *Machine, fr *frame) Value {
			v := args[0].get(m, fr)
			if v.r == nil {
				m.nilDeref()
			}
			return v
		}
	case "min", "max":
		ti := l.tinfo(at)
		isMax := name == "max"
		return func(m *Machine, fr *frame) Value {
			r := args[0].get(m, fr)
			for i := 1; i < len(args); i++ {
				y := args[i].get(m, fr)
				var lt *Expr
				switch ti.kind {
				case kInt:
					lt = m.ctx.Slt(m.ex(y, ti.w), m.ex(r, ti.w))
				case kUint:
					lt = m.ctx.Ult(m.ex(y, ti.w), m.ex(r, ti.w))
				default:
					panic(m.unsup("min/max on " + ti.t.String()))
				}
				if isMax {
					lt = m.ctx.Not(lt)
				}
				r = m.ev(m.ctx.Ite(lt, m.ex(y, ti.w), m.ex(r, ti.w)))
			}
			return r
		}
	case "clear":
		ti := l.tinfo(at)
		if ti.kind == kMap {
			return func(m *Machine, fr *frame) Value {
				v := args[0].get(m, fr)
				if v.r != nil {
					mv := v.r.(*MapV)
					m.touchMap(mv)
					mv.ents, mv.idx, mv.n, mv.symKeys = nil, map[any]int{}, 0, false
				}
				return Value{}
			}
		}
		es := l.tinfo(at.Underlying().(*types.Slice).Elem()).size
		return func(m *Machine, fr *frame) Value {
			a, off, n, _ := slicePart(args[0].get(m, fr))
			if n > 0 {
				m.touch(a, off, n*es)
				for i := off; i < off+n*es; i++ {
					a.cells[i] = Value{}
				}
			}
			return Value{}
		}
	case "String": // unsafe.String
		return func(m *Machine, fr *frame) Value {
			p, n := args[0].get(m, fr), args[1].get(m, fr)
			k := int(m.concInt(n, 64))
			if k == 0 {
				return Value{}
			}
			a := p.r.(*Agg)
			return symStrVal(append([]Value(nil), a.cells[int(p.n):int(p.n)+k]...))
		}
	case "StringData":
		return func(m *Machine, fr *frame) Value {
			b := strBytes(args[0].get(m, fr))
			if len(b) == 0 {
				return Value{}
			}
			a := m.newAgg(len(b))
			copy(a.cells, b)
			return Value{r: a}
		}
	case "SliceData":
		return func(m *Machine, fr *frame) Value {
			a, off, _, _ := slicePart(args[0].get(m, fr))
			if a == nil {
				return Value{}
			}
			return Value{r: a, n: uint64(off)}
		}
	case "Slice": // unsafe.Slice
		return func(m *Machine, fr *frame) Value {
			p, n := args[0].get(m, fr), args[1].get(m, fr)
			k := int(m.concInt(n, 64))
			if p.r == nil {
				return Value{}
			}
			return Value{r: &SliceV{a: p.r.(*Agg), off: int(p.n), len: k, cap: k}}
		}
	}
	msg := "builtin " + name
	return func(m *Machine, fr *frame) Value { panic(m.unsup(msg)) }
}

func (m *Machine) appendCells(x Value, src []Value, yn, es int) Value {
	xa, xo, xn, xc := slicePart(x)
	if yn == 0 {
		return x
	}
	if xn+yn <= xc {
		m.touch(xa, xo+xn*es, yn*es)
		copy(xa.cells[xo+xn*es:], src[:yn*es])
		return Value{r: &SliceV{a: xa, off: xo, len: xn + yn, cap: xc}}
	}
	nc := growCap(xc, xn+yn, es)
	a := m.newAgg(nc * es)
	if xn > 0 {
		copy(a.cells, xa.cells[xo:xo+xn*es])
	}
	copy(a.cells[xn*es:], src[:yn*es])
	return Value{r: &SliceV{a: a, len: xn + yn, cap: nc}}
}

// growCap follows the runtime's growth policy (without size-class rounding
// except for bytes and words, where it matters for append aliasing).
func growCap(old, need, es int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	if es == 1 && nc <= 2048 {
		for _, s := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048} {
			if s >= nc {
				nc = s
				break
			}
		}
	} else if bits.OnesCount(uint(nc)) > 1 && nc%2 == 1 {
		nc++
	}
	return nc
}
