package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The compiler turns each SSA function into a list of closures over a register
// frame. It is run lazily, on the functions a harness actually reaches.

type op func(m *Machine, fr *frame)

type phi struct {
	dst int
	ops []opnd
}

type blk struct {
	phis  []phi
	ops   []op
	term  func(m *Machine, fr *frame) int
	preds []int

	// for merging
	isIf bool
	cond opnd
	t, f int
	rets []opnd
	reg  *region
}

type fnCode struct {
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	nfree    int
	blocks   []*blk
	hasDefer bool
	recover  int // recover block or -1
	isInit   bool
	intr     intrinsic
	results  []*tinfo
	pos      []token.Pos
}

type opnd struct {
	reg int // >= 0: register
	g   *ssa.Global
	v   Value
}

type deferEnt struct {
	fn   func(m *Machine)
	call *ssa.CallCommon
}

type frame struct {
	fc        *fnCode
	regs      []Value
	defers    []func(m *Machine)
	block     int
	prev      int
	ret       Value
	caller    *frame
	panicking *ipanic
	recovered bool
	depth     int
	merged    bool // the phis of the next block have their values
}

func (o *opnd) get(m *Machine, fr *frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.g != nil {
		return m.globalPtr(o.g)
	}
	return o.v
}

type compiler struct {
	l    *Loader
	fc   *fnCode
	regs map[ssa.Value]int
	pdom [][]bool
}

func (l *Loader) codeFor(f *ssa.Function) *fnCode {
	if c, ok := l.ccur.Load(f); ok {
		return c.(*fnCode)
	}
	if f.Blocks == nil && f.Pkg != nil {
		l.build(f.Pkg)
	}
	l.cmu.Lock()
	defer l.cmu.Unlock()
	if c, ok := l.ccur.Load(f); ok {
		return c.(*fnCode)
	}
	l.bmu.Lock() // types/ssa lazily mutate shared state
	c := l.compile(f)
	l.bmu.Unlock()
	l.ccur.Store(f, c)
	return c
}

func fnPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (l *Loader) compile(f *ssa.Function) *fnCode {
	fc := &fnCode{fn: f, name: f.String(), recover: -1}
	fc.isInit = f.Pkg != nil && f.Synthetic == "package initializer"
	if in := findIntrinsic(f); in != nil {
		fc.intr = in
	}
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		fc.results = append(fc.results, l.tinfo(sig.Results().At(i).Type()))
	}
	fc.nparams = len(f.Params)
	fc.nfree = len(f.FreeVars)
	if fc.intr != nil && !soft[fc.name] || f.Blocks == nil {
		return fc
	}
	if strings.HasPrefix(fnPkgPath(f), modPath) {
		l.noteFunc(f)
	}
	c := &compiler{l: l, fc: fc, regs: map[ssa.Value]int{}}
	n := 0
	for _, p := range f.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fc.hasDefer = true
			}
		}
	}
	fc.nregs = n
	if f.Recover != nil {
		fc.recover = f.Recover.Index
	}
	for _, b := range f.Blocks {
		bk := &blk{}
		for _, p := range b.Preds {
			bk.preds = append(bk.preds, p.Index)
		}
		for i, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := phi{dst: c.regs[p]}
				for _, e := range p.Edges {
					ph.ops = append(ph.ops, c.op(e))
				}
				bk.phis = append(bk.phis, ph)
				continue
			}
			if i == len(b.Instrs)-1 {
				bk.term = c.terminator(b, in, bk)
				break
			}
			o := c.instr(in)
			if o != nil {
				bk.ops = append(bk.ops, o)
			}
		}
		fc.blocks = append(fc.blocks, bk)
	}
	return fc
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, v: c.l.constVal(v)}
	case *ssa.Global:
		return opnd{reg: -1, g: v}
	case *ssa.Function:
		return opnd{reg: -1, v: Value{r: c.l.fnValue(v)}}
	case *ssa.Builtin:
		return opnd{reg: -1, v: Value{r: v}}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), c.fc.name))
	}
	return opnd{reg: r}
}

func (l *Loader) constVal(v *ssa.Const) Value {
	ti := l.tinfo(v.Type())
	if v.Value == nil {
		return Value{}
	}
	switch ti.kind {
	case kBool:
		return bval(constant.BoolVal(v.Value))
	case kInt, kUint:
		x := constant.ToInt(v.Value)
		if u, ok := constant.Uint64Val(x); ok {
			return Value{n: u & mask(ti.w)}
		}
		i, _ := constant.Int64Val(x)
		return Value{n: uint64(i) & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(v.Value)
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case kString:
		if v.Value.Kind() == constant.String {
			return strVal(constant.StringVal(v.Value))
		}
		x, _ := constant.Int64Val(v.Value)
		return strVal(string(rune(x)))
	case kUnsafe, kPtr:
		return Value{}
	case kComplex:
		return Value{}
	}
	panic("const of type " + v.Type().String())
}

func (c *compiler) terminator(b *ssa.BasicBlock, in ssa.Instruction, bk *blk) func(m *Machine, fr *frame) int {
	switch in := in.(type) {
	case *ssa.Jump:
		t := b.Succs[0].Index
		bk.t = t
		return func(m *Machine, fr *frame) int { return t }
	case *ssa.If:
		cond := c.op(in.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		bk.isIf, bk.cond, bk.t, bk.f = true, cond, t, f
		bk.reg = c.findRegion(b)
		self := b.Index
		return func(m *Machine, fr *frame) int {
			v := cond.get(m, fr)
			if v.r == nil {
				if v.n != 0 {
					return t
				}
				return f
			}
			m.curFr = fr
			e := m.ex(v, 0)
			if bk.reg != nil {
				if next, ok := m.tryMerge(fr, self, bk, e); ok {
					return next
				}
			}
			if m.branch(e) {
				return t
			}
			return f
		}
	case *ssa.Return:
		var ops []opnd
		for _, r := range in.Results {
			ops = append(ops, c.op(r))
		}
		bk.rets = ops
		switch len(ops) {
		case 0:
			return func(m *Machine, fr *frame) int { return -1 }
		case 1:
			return func(m *Machine, fr *frame) int { fr.ret = ops[0].get(m, fr); return -1 }
		}
		return func(m *Machine, fr *frame) int {
			t := make([]Value, len(ops))
			for i := range ops {
				t[i] = ops[i].get(m, fr)
			}
			fr.ret = Value{r: t}
			return -1
		}
	case *ssa.Panic:
		x := c.op(in.X)
		return func(m *Machine, fr *frame) int {
			panic(&ipanic{val: x.get(m, fr)})
		}
	}
	panic(fmt.Sprintf("terminator %T in %s", in, c.fc.name))
}

func (c *compiler) instr(in ssa.Instruction) op {
	l := c.l
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		ei := l.tinfo(in.Type().Underlying().(*types.Pointer).Elem())
		sz := ei.size
		if sz == 0 {
			sz = 1
		}
		return func(m *Machine, fr *frame) {
			fr.regs[dst] = Value{r: m.newAgg(sz)}
		}
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.Call:
		call := c.call(&in.Call, in.Pos())
		return func(m *Machine, fr *frame) {
			fr.regs[dst] = call(m, fr)
		}
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		return func(m *Machine, fr *frame) { fr.regs[dst] = x.get(m, fr) }
	case *ssa.ChangeType:
		x := c.op(in.X)
		return func(m *Machine, fr *frame) { fr.regs[dst] = x.get(m, fr) }
	case *ssa.Convert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		at := l.tinfo(in.Type().Underlying().(*types.Pointer).Elem())
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			a, off, n, _ := slicePart(v)
			if n < at.alen {
				m.runtimePanic("cannot convert slice to array pointer")
			}
			if a == nil {
				fr.regs[dst] = Value{}
				return
			}
			fr.regs[dst] = Value{r: a, n: uint64(off)}
		}
	case *ssa.MakeInterface:
		x := c.op(in.X)
		rt := l.rtype(in.X.Type())
		return func(m *Machine, fr *frame) {
			fr.regs[dst] = Value{r: &Iface{t: rt, v: x.get(m, fr)}}
		}
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var ops []opnd
		for _, b := range in.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(m *Machine, fr *frame) {
			cl := &Closure{fn: f, free: make([]Value, len(ops))}
			for i := range ops {
				cl.free[i] = ops[i].get(m, fr)
			}
			fr.regs[dst] = Value{r: cl}
		}
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(m *Machine, fr *frame) {
			mv := newMapV(kt)
			mv.persist = m.initDepth > 0
			fr.regs[dst] = Value{r: mv}
		}
	case *ssa.MakeChan:
		sz := c.op(in.Size)
		return func(m *Machine, fr *frame) {
			n := m.concInt(sz.get(m, fr), 64)
			m.nextChan++
			fr.regs[dst] = Value{r: &ChanV{id: m.nextChan, cap: int(n)}}
		}
	case *ssa.MakeSlice:
		ei := l.tinfo(in.Type().Underlying().(*types.Slice).Elem())
		ln, cp := c.op(in.Len), c.op(in.Cap)
		lt, ct := l.tinfo(in.Len.Type()), l.tinfo(in.Cap.Type())
		return func(m *Machine, fr *frame) {
			lv, cv := ln.get(m, fr), cp.get(m, fr)
			n := m.concLen(lv, lt)
			k := n
			if lv != cv {
				k = m.concLen(cv, ct)
			}
			if n < 0 || n > 1<<32 {
				m.runtimePanic("makeslice: len out of range")
			}
			if k < n || k > 1<<32 {
				m.runtimePanic("makeslice: cap out of range")
			}
			if k*int64(ei.size) > 1<<24 {
				panic(m.unsup("very large allocation"))
			}
			fr.regs[dst] = Value{r: &SliceV{a: m.newAgg(int(k) * ei.size), len: int(n), cap: int(k)}}
		}
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.FieldAddr:
		x := c.op(in.X)
		st := l.tinfo(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.foff[in.Field])
		return func(m *Machine, fr *frame) {
			p := x.get(m, fr)
			if p.r == nil {
				m.nilDeref()
			}
			if _, ok := p.r.(*Agg); !ok {
				panic(m.unsup(fmt.Sprintf("field address through %T", p.r)))
			}
			fr.regs[dst] = Value{r: p.r, n: p.n + off}
		}
	case *ssa.Field:
		x := c.op(in.X)
		st := l.tinfo(in.X.Type())
		off := st.foff[in.Field]
		fi := st.fields[in.Field]
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			fr.regs[dst] = cellVal(cellsOf(v, st.size), off, fi)
		}
	case *ssa.IndexAddr:
		x, ix := c.op(in.X), c.op(in.Index)
		it := l.tinfo(in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			ei := l.tinfo(u.Elem())
			return func(m *Machine, fr *frame) {
				a, off, n, _ := slicePart(x.get(m, fr))
				iv := ix.get(m, fr)
				fr.regs[dst] = m.elemPtr(a, off, n, iv, it, ei)
			}
		case *types.Pointer:
			at := l.tinfo(u.Elem())
			ei := at.elem
			return func(m *Machine, fr *frame) {
				p := x.get(m, fr)
				if p.r == nil {
					m.nilDeref()
				}
				a, ok := p.r.(*Agg)
				if !ok {
					panic(m.unsup(fmt.Sprintf("index address through %T", p.r)))
				}
				fr.regs[dst] = m.elemPtr(a, int(p.n), at.alen, ix.get(m, fr), it, ei)
			}
		}
		panic("IndexAddr " + in.X.Type().String())
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		it := l.tinfo(in.Index.Type())
		xt := l.tinfo(in.X.Type())
		if xt.kind == kString {
			return func(m *Machine, fr *frame) {
				s := x.get(m, fr)
				n := strLen(s)
				iv := ix.get(m, fr)
				if iv.r == nil {
					i := sext(iv.n, it)
					if i < 0 || i >= int64(n) {
						m.indexPanic(i, n)
					}
					fr.regs[dst] = strAt(s, int(i))
					return
				}
				ie := m.checkIndex(iv, it, n)
				fr.regs[dst] = m.selectCell(strBytes(s), 0, 1, ie, 8)
			}
		}
		ei := xt.elem
		return func(m *Machine, fr *frame) {
			cells := cellsOf(x.get(m, fr), xt.size)
			iv := ix.get(m, fr)
			if iv.r == nil {
				i := sext(iv.n, it)
				if i < 0 || i >= int64(xt.alen) {
					m.indexPanic(i, xt.alen)
				}
				fr.regs[dst] = cellVal(cells, int(i)*ei.size, ei)
				return
			}
			ie := m.checkIndex(iv, it, xt.alen)
			if !ei.isScalar() {
				i := m.concretize(ie)
				fr.regs[dst] = cellVal(cells, int(i)*ei.size, ei)
				return
			}
			fr.regs[dst] = m.selectCell(cells[:xt.alen], 0, 1, ie, ei.w)
		}
	case *ssa.Lookup:
		x, ix := c.op(in.X), c.op(in.Index)
		mt := in.X.Type().Underlying().(*types.Map)
		kt, vt := l.tinfo(mt.Key()), l.tinfo(mt.Elem())
		commaOk := in.CommaOk
		return c.tracked(in, x, 1, false, func(m *Machine, fr *frame) {
			var mv *MapV
			if r := x.get(m, fr).r; r != nil {
				mv = r.(*MapV)
			}
			k := ix.get(m, fr)
			m.checkHashable(k, kt)
			m.curFr = fr
			i := m.mapFind(mv, k, kt)
			var v Value
			if i >= 0 {
				v = mv.ents[i].v
			}
			_ = vt
			if commaOk {
				fr.regs[dst] = Value{r: []Value{v, bval(i >= 0)}}
			} else {
				fr.regs[dst] = v
			}
		})
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		kt := l.tinfo(mt.Key())
		return c.tracked(in, x, 1, true, func(m *Machine, fr *frame) {
			mm := x.get(m, fr)
			if mm.r == nil {
				m.runtimePanic("assignment to entry in nil map")
			}
			kv := k.get(m, fr)
			m.checkHashable(kv, kt)
			m.curFr = fr
			m.mapSet(mm.r.(*MapV), kv, v.get(m, fr), kt)
		})
	case *ssa.Range:
		x := c.op(in.X)
		if l.tinfo(in.X.Type()).kind == kString {
			return func(m *Machine, fr *frame) {
				fr.regs[dst] = Value{r: &strIter{b: strBytes(x.get(m, fr))}}
			}
		}
		return c.tracked(in, x, 1, false, func(m *Machine, fr *frame) {
			var mv *MapV
			if r := x.get(m, fr).r; r != nil {
				mv = r.(*MapV)
			}
			it := &mapIter{m: mv}
			if mv != nil {
				it.order = mv.live()
				m.curFr = fr
				m.orderMap(it)
			}
			fr.regs[dst] = Value{r: it}
		})
	case *ssa.Next:
		x := c.op(in.Iter)
		if in.IsString {
			iter := c.regs[in.Iter]
			return func(m *Machine, fr *frame) {
				it := x.get(m, fr).r.(*strIter)
				if it.pos >= len(it.b) {
					fr.regs[dst] = Value{r: []Value{{}, {}, {}}}
					return
				}
				i := it.pos
				r, n := m.decodeRune(it.b[i:])
				fr.regs[iter] = Value{r: &strIter{b: it.b, pos: i + n}}
				fr.regs[dst] = Value{r: []Value{{n: 1}, {n: uint64(i)}, r}}
			}
		}
		return func(m *Machine, fr *frame) {
			it := x.get(m, fr).r.(*mapIter)
			for it.pos < len(it.order) {
				e := &it.m.ents[it.order[it.pos]]
				it.pos++
				if e.deleted {
					continue
				}
				fr.regs[dst] = Value{r: []Value{{n: 1}, e.k, e.v}}
				return
			}
			fr.regs[dst] = Value{r: []Value{{}, {}, {}}}
		}
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(m *Machine, fr *frame) {
			fr.regs[dst] = x.get(m, fr).r.([]Value)[i]
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		ti := l.tinfo(in.Val.Type())
		return c.tracked(in, a, ti.size, true, func(m *Machine, fr *frame) {
			m.storeMem(a.get(m, fr), v.get(m, fr), ti)
		})
	case *ssa.Defer:
		call := c.prepCall(&in.Call, in.Pos())
		return func(m *Machine, fr *frame) {
			fr.defers = append(fr.defers, call(m, fr))
		}
	case *ssa.RunDefers:
		return func(m *Machine, fr *frame) { m.runDefers(fr) }
	case *ssa.Go:
		call := c.prepCall(&in.Call, in.Pos())
		name := in.Call.String()
		return func(m *Machine, fr *frame) {
			f := call(m, fr)
			m.spawn(name, f)
		}
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(m *Machine, fr *frame) {
			m.chanSend(ch.get(m, fr), x.get(m, fr))
		}
	case *ssa.Select:
		return c.selectOp(in, dst)
	}
	panic(fmt.Sprintf("instruction %T in %s", in, c.fc.name))
}

func sext(n uint64, ti *tinfo) int64 {
	if ti.kind == kInt {
		return int64(signExtend(n, ti.w))
	}
	if n > math.MaxInt64 {
		return math.MaxInt64
	}
	return int64(n)
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) op {
	l := c.l
	x := c.op(in.X)
	commaOk := in.CommaOk
	at := in.AssertedType
	if it, ok := at.Underlying().(*types.Interface); ok {
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			ok := v.r != nil && l.implements(v.r.(*Iface).t, it)
			if !ok {
				if !commaOk {
					m.typeAssertPanic(v, at)
				}
				fr.regs[dst] = Value{r: []Value{{}, {}}}
				return
			}
			if commaOk {
				fr.regs[dst] = Value{r: []Value{v, {n: 1}}}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	rt := l.rtype(at)
	return func(m *Machine, fr *frame) {
		v := x.get(m, fr)
		if v.r == nil || v.r.(*Iface).t != rt {
			if !commaOk {
				m.typeAssertPanic(v, at)
			}
			fr.regs[dst] = Value{r: []Value{{}, {}}}
			return
		}
		iv := v.r.(*Iface).v
		if commaOk {
			fr.regs[dst] = Value{r: []Value{iv, {n: 1}}}
		} else {
			fr.regs[dst] = iv
		}
	}
}

func (c *compiler) slice(in *ssa.Slice, dst int) op {
	l := c.l
	x := c.op(in.X)
	var lo, hi, mx *opnd
	var lt, ht, mt *tinfo
	set := func(v ssa.Value) (*opnd, *tinfo) {
		if v == nil {
			return nil, nil
		}
		o := c.op(v)
		return &o, l.tinfo(v.Type())
	}
	lo, lt = set(in.Low)
	hi, ht = set(in.High)
	mx, mt = set(in.Max)
	xt := in.X.Type().Underlying()
	if b, ok := xt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return func(m *Machine, fr *frame) {
			m.curFr = fr
			s := x.get(m, fr)
			n := int64(strLen(s))
			i, j := int64(0), n
			if hi != nil {
				j = m.concBound(hi.get(m, fr), ht, n)
			}
			if lo != nil {
				i = m.concBound(lo.get(m, fr), lt, n)
			}
			if j < 0 || j > n || i < 0 || i > j {
				m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", i, j, n))
			}
			fr.regs[dst] = strSlice(s, int(i), int(j))
		}
	}
	var es, alen int
	isArr := false
	switch u := xt.(type) {
	case *types.Slice:
		es = l.tinfo(u.Elem()).size
	case *types.Pointer:
		at := l.tinfo(u.Elem())
		es, alen, isArr = at.elem.size, at.alen, true
	default:
		panic("slice of " + xt.String())
	}
	return func(m *Machine, fr *frame) {
		m.curFr = fr
		v := x.get(m, fr)
		var a *Agg
		var off, n, cp int
		if isArr {
			if v.r == nil {
				m.nilDeref()
			}
			a, off, n, cp = v.r.(*Agg), int(v.n), alen, alen
		} else {
			a, off, n, cp = slicePart(v)
		}
		i, j, k := int64(0), int64(n), int64(cp)
		if mx != nil {
			k = m.concBound(mx.get(m, fr), mt, int64(cp))
		}
		if hi != nil {
			j = m.concBound(hi.get(m, fr), ht, int64(cp))
		}
		if lo != nil {
			i = m.concBound(lo.get(m, fr), lt, int64(cp))
		}
		if k < 0 || k > int64(cp) || j < 0 || j > k || i < 0 || i > j {
			m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", i, j, k, cp))
		}
		if a == nil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{r: &SliceV{a: a, off: off + int(i)*es, len: int(j - i), cap: int(k - i)}}
	}
}

// ---- calls ----

// call compiles a call expression.
func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(m *Machine, fr *frame) Value {
	l := c.l
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	getArgs := func(m *Machine, fr *frame, extra int) []Value {
		vs := make([]Value, len(args)+extra)
		for i := range args {
			vs[i+extra] = args[i].get(m, fr)
		}
		return vs
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		meth := cc.Method
		intr := findInvokeIntrinsic(cc.Value.Type(), meth)
		nres := meth.Type().(*types.Signature).Results().Len()
		return func(m *Machine, fr *frame) Value {
			v := x.get(m, fr)
			if intr != nil {
				m.curFr = fr
				return intr(m, fr, getArgs(m, fr, 0))
			}
			if v.r == nil {
				m.nilDeref()
			}
			_ = nres
			ifc := v.r.(*Iface)
			f := l.lookupMethod(ifc.t, meth)
			if f == nil {
				panic(m.unsup("no method " + meth.Name() + " on " + ifc.t.t.String()))
			}
			vs := getArgs(m, fr, 1)
			vs[0] = ifc.v
			return m.callFn(f, vs, nil, fr)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, cc, args)
	case *ssa.Function:
		var code *fnCode
		if c.fc.isInit && (f.Synthetic == "package initializer" || skipInit(f)) {
			return func(m *Machine, fr *frame) Value { return Value{} }
		}
		return func(m *Machine, fr *frame) Value {
			if code == nil {
				code = l.codeFor(f)
			}
			return m.callCode(code, getArgs(m, fr, 0), nil, fr)
		}
	}
	fv := c.op(cc.Value)
	return func(m *Machine, fr *frame) Value {
		v := fv.get(m, fr)
		if v.r == nil {
			m.nilDeref()
		}
		cl := v.r.(*Closure)
		return m.callClosure(cl, getArgs(m, fr, 0), fr)
	}
}

// prepCall evaluates operands now and returns the suspended call.
func (c *compiler) prepCall(cc *ssa.CallCommon, pos token.Pos) func(m *Machine, fr *frame) func(m *Machine) {
	l := c.l
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	ev := func(m *Machine, fr *frame, extra int) []Value {
		vs := make([]Value, len(args)+extra)
		for i := range args {
			vs[i+extra] = args[i].get(m, fr)
		}
		return vs
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		meth := cc.Method
		return func(m *Machine, fr *frame) func(m *Machine) {
			v := x.get(m, fr)
			if v.r == nil {
				m.nilDeref()
			}
			ifc := v.r.(*Iface)
			f := l.lookupMethod(ifc.t, meth)
			vs := ev(m, fr, 1)
			vs[0] = ifc.v
			return func(m *Machine) { m.callFn(f, vs, nil, fr) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		regs := make([]opnd, len(args))
		for i := range regs {
			regs[i] = opnd{reg: i}
		}
		call := c.builtin(b, cc, regs)
		return func(m *Machine, fr *frame) func(m *Machine) {
			vs := ev(m, fr, 0)
			return func(m *Machine) {
				tmp := &frame{fc: fr.fc, regs: vs, caller: fr}
				call(m, tmp)
			}
		}
	}
	fv := c.op(cc.Value)
	return func(m *Machine, fr *frame) func(m *Machine) {
		v := fv.get(m, fr)
		vs := ev(m, fr, 0)
		return func(m *Machine) {
			if v.r == nil {
				m.nilDeref()
			}
			m.callClosure(v.r.(*Closure), vs, fr)
		}
	}
}

func (c *compiler) selectOp(in *ssa.Select, dst int) op {
	type st struct {
		dir  types.ChanDir
		ch   opnd
		send *opnd
	}
	var sts []st
	for _, s := range in.States {
		x := st{dir: s.Dir, ch: c.op(s.Chan)}
		if s.Send != nil {
			o := c.op(s.Send)
			x.send = &o
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(m *Machine, fr *frame) {
		cases := make([]selCase, len(sts))
		nrecv := 0
		for i := range sts {
			cv := sts[i].ch.get(m, fr)
			var ch *ChanV
			if cv.r != nil {
				ch = cv.r.(*ChanV)
			}
			cases[i] = selCase{ch: ch}
			if sts[i].dir == types.SendOnly {
				cases[i].send = true
				cases[i].val = sts[i].send.get(m, fr)
			} else {
				nrecv++
			}
		}
		m.curFr = fr
		idx, val, ok := m.selectStmt(cases, blocking)
		res := make([]Value, 2+nrecv)
		res[0] = Value{n: uint64(int64(idx))}
		res[1] = bval(ok)
		k := 2
		for i := range cases {
			if !cases[i].send {
				if i == idx {
					res[k] = val
				}
				k++
			}
		}
		fr.regs[dst] = Value{r: res}
	}
}
