package main

import (
	"go/types"
	"strings"
)

// softResult is returned by an intrinsic that leaves a call to the function
// itself.
type softResult struct{}

// soft names the functions whose intrinsics may do so.
var soft = map[string]bool{"encoding/binary.Read": true, "encoding/binary.Write": true}

func initStd() {
	intr["context.WithValue"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r == nil {
			panic(&ipanic{val: m.errVal("cannot create context from nil parent"), msg: "cannot create context from nil parent", where: m.where()})
		}
		if a[1].r == nil {
			panic(&ipanic{val: m.errVal("nil key"), msg: "nil key", where: m.where()})
		}
		t := m.ld.pkgType("context", "valueCtx")
		o := m.newAgg(m.ld.tinfo(t).size)
		copy(o.cells, a)
		return Value{r: &Iface{t: m.ld.rtype(types.NewPointer(t)), v: Value{r: o}}}
	}
	intr["reflect.DeepEqual"] = func(m *Machine, fr *frame, a []Value) Value {
		return bval(m.branch(m.deepEqual(a[0], a[1], m.ld.tinfo(types.NewInterfaceType(nil, nil)), map[[2]any]bool{})))
	}
	// Generated protobuf messages.
	intr["google.golang.org/protobuf/proto.Equal"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r == nil || a[1].r == nil {
			return bval(a[0].r == nil && a[1].r == nil)
		}
		x, y := a[0].r.(*Iface), a[1].r.(*Iface)
		if x.t != y.t {
			return bval(false)
		}
		return bval(m.branch(m.protoEqual(x.v, y.v, m.ld.tinfo(x.t.t))))
	}
	intr["google.golang.org/protobuf/proto.Clone"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r == nil {
			return Value{}
		}
		x := a[0].r.(*Iface)
		return Value{r: &Iface{t: x.t, v: m.protoClone(x.v, m.ld.tinfo(x.t.t))}}
	}
	// Values that encoding/binary handles by reflection.
	intr["encoding/binary.Read"] = func(m *Machine, fr *frame, a []Value) Value {
		p, ti, n := m.fixedData(a[2], true)
		little := m.byteOrder(a[1])
		if ti == nil {
			return Value{r: softResult{}}
		}
		buf := m.newByteSlice(make([]Value, n))
		r := m.callFn(m.ld.pkgFunc("io", "ReadFull"), []Value{a[0], buf}, nil, fr).r.([]Value)
		if r[1].r != nil {
			return r[1]
		}
		s := buf.r.(*SliceV)
		pos := 0
		m.eachScalar(p, ti, true, func(q Value, f *tinfo) {
			k := scalarSize(f)
			var bs []*Expr
			for i := 0; i < k; i++ {
				j := pos + k - 1 - i
				if little {
					j = pos + i
				}
				bs = append(bs, m.ex(s.a.cells[s.off+j], 8))
			}
			pos += k
			if q.r == nil {
				return
			}
			e := bs[0]
			if k > 1 {
				e = m.ctx.Concat(bs)
			}
			v := m.ev(e)
			if f.kind == kBool {
				v = m.ev(m.ctx.Not(m.ctx.Eq(e, m.ctx.Const(8, 0))))
			}
			m.storeMem(q, v, f)
		})
		return Value{}
	}
	intr["encoding/binary.Write"] = func(m *Machine, fr *frame, a []Value) Value {
		p, ti, _ := m.fixedData(a[2], false)
		little := m.byteOrder(a[1])
		if ti == nil {
			return Value{r: softResult{}}
		}
		var out []Value
		m.eachScalar(p, ti, true, func(q Value, f *tinfo) {
			k := scalarSize(f)
			at := len(out)
			out = append(out, make([]Value, k)...)
			if q.r == nil {
				return
			}
			v := m.loadMem(q, f)
			e := m.ex(v, f.w)
			if f.kind == kBool {
				e = m.ctx.Ite(e, m.ctx.Const(8, 1), m.ctx.Const(8, 0))
			}
			for i := 0; i < k; i++ {
				j := at + k - 1 - i
				if little {
					j = at + i
				}
				out[j] = m.ev(m.ctx.Extract(e, uint(8*i), 8))
			}
		})
		w := a[0].r.(*Iface)
		f := m.ld.methodByName(w.t.t, "Write")
		return m.callFn(f, []Value{w.v, m.newByteSlice(out)}, nil, fr).r.([]Value)[1]
	}
}

func scalarSize(f *tinfo) int {
	if f.kind == kBool {
		return 1
	}
	return int(f.w) / 8
}

func (m *Machine) byteOrder(v Value) bool {
	return v.r != nil && strings.Contains(v.r.(*Iface).t.t.String(), "ittle")
}

// fixedData returns where a struct or array to encode lies, and its size in
// bytes; no type if it is of another kind.
func (m *Machine) fixedData(v Value, ptr bool) (Value, *tinfo, int) {
	if v.r == nil {
		return Value{}, nil, 0
	}
	i := v.r.(*Iface)
	ti := m.ld.tinfo(i.t.t)
	p := i.v
	if ti.kind == kPtr && p.r != nil {
		ti = m.ld.elemInfo(ti)
	} else if ptr {
		return Value{}, nil, 0
	} else if ti.isAgg() {
		p = aggVal(append([]Value{}, cellsOf(p, ti.size)...))
	}
	if !ti.isAgg() {
		return Value{}, nil, 0
	}
	n := 0
	if !m.eachScalar(p, ti, false, func(_ Value, f *tinfo) { n += scalarSize(f) }) {
		return Value{}, nil, 0
	}
	return p, ti, n
}

// eachScalar visits the numbers of a value in order; fields named _ have no
// place.
func (m *Machine) eachScalar(p Value, ti *tinfo, blank bool, f func(Value, *tinfo)) bool {
	at := func(off int) Value {
		if p.r == nil {
			return p
		}
		return Value{r: p.r, n: p.n + uint64(off)}
	}
	switch ti.kind {
	case kBool, kInt, kUint:
		if b, ok := ti.t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
			return false
		}
		f(p, ti)
		return true
	case kArray:
		for i := 0; i < ti.alen; i++ {
			if !m.eachScalar(at(i*ti.elem.size), ti.elem, blank, f) {
				return false
			}
		}
		return true
	case kStruct:
		st := ti.t.Underlying().(*types.Struct)
		for i, x := range ti.fields {
			q := at(ti.foff[i])
			if blank && st.Field(i).Name() == "_" {
				q = Value{}
			}
			if !m.eachScalar(q, x, blank, f) {
				return false
			}
		}
		return true
	}
	return false
}

// deepEqual is reflect.DeepEqual for two values of a type.
func (m *Machine) deepEqual(a, b Value, ti *tinfo, seen map[[2]any]bool) *Expr {
	c := m.ctx
	switch ti.kind {
	case kIface:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return c.False
		}
		return m.deepEqual(x.v, y.v, m.ld.tinfo(x.t.t), seen)
	case kPtr:
		if a.r == nil || b.r == nil || a.r == b.r && a.n == b.n {
			return c.Bool(a.r == b.r && a.n == b.n)
		}
		k := [2]any{[2]any{a.r, a.n}, [2]any{b.r, b.n}}
		if seen[k] {
			return c.True
		}
		seen[k] = true
		e := m.ld.elemInfo(ti)
		return m.deepEqual(m.loadMem(a, e), m.loadMem(b, e), e, seen)
	case kSlice:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*SliceV), b.r.(*SliceV)
		if x.len != y.len {
			return c.False
		}
		e := m.ld.elemInfo(ti)
		r := c.True
		for i := 0; i < x.len && r != c.False; i++ {
			r = c.And(r, m.deepEqual(m.loadMem(Value{r: x.a, n: uint64(x.off + i*e.size)}, e), m.loadMem(Value{r: y.a, n: uint64(y.off + i*e.size)}, e), e, seen))
		}
		return r
	case kMap:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*MapV), b.r.(*MapV)
		if x.n != y.n {
			return c.False
		}
		r := c.True
		kt := m.ld.keyInfo(ti)
		for _, i := range x.live() {
			j := m.mapFind(y, x.ents[i].k, kt)
			if j < 0 {
				return c.False
			}
			r = c.And(r, m.deepEqual(x.ents[i].v, y.ents[j].v, m.ld.elemInfo(ti), seen))
		}
		return r
	case kFunc:
		return c.Bool(a.r == nil && b.r == nil)
	case kStruct:
		ca, cb := cellsOf(a, ti.size), cellsOf(b, ti.size)
		r := c.True
		for i, f := range ti.fields {
			if r == c.False {
				return r
			}
			r = c.And(r, m.deepEqual(cellVal(ca, ti.foff[i], f), cellVal(cb, ti.foff[i], f), f, seen))
		}
		return r
	case kArray:
		ca, cb := cellsOf(a, ti.size), cellsOf(b, ti.size)
		r := c.True
		for i := 0; i < ti.alen && r != c.False; i++ {
			r = c.And(r, m.deepEqual(cellVal(ca, i*ti.elem.size, ti.elem), cellVal(cb, i*ti.elem.size, ti.elem), ti.elem, seen))
		}
		return r
	}
	return m.equal(a, b, ti)
}

// protoField reports whether a field of a generated message holds data.
func protoField(ti *tinfo, i int) bool {
	st, ok := ti.t.Underlying().(*types.Struct)
	return !ok || st.Field(i).Exported()
}

// protoEqual is proto.Equal for two values of a field or message.
func (m *Machine) protoEqual(a, b Value, ti *tinfo) *Expr {
	c := m.ctx
	switch ti.kind {
	case kIface: // one of several
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return c.False
		}
		return m.protoEqual(x.v, y.v, m.ld.tinfo(x.t.t))
	case kPtr:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		e := m.ld.elemInfo(ti)
		return m.protoEqual(m.loadMem(a, e), m.loadMem(b, e), e)
	case kSlice:
		x, y := sliceOf(a), sliceOf(b)
		if x.len != y.len {
			return c.False
		}
		e := m.ld.elemInfo(ti)
		r := c.True
		for i := 0; i < x.len && r != c.False; i++ {
			r = c.And(r, m.protoEqual(m.loadMem(Value{r: x.a, n: uint64(x.off + i*e.size)}, e), m.loadMem(Value{r: y.a, n: uint64(y.off + i*e.size)}, e), e))
		}
		return r
	case kMap:
		x, _ := a.r.(*MapV)
		y, _ := b.r.(*MapV)
		if x == nil || y == nil {
			return c.Bool((x == nil || x.n == 0) && (y == nil || y.n == 0))
		}
		if x.n != y.n {
			return c.False
		}
		r := c.True
		for _, i := range x.live() {
			j := m.mapFind(y, x.ents[i].k, m.ld.keyInfo(ti))
			if j < 0 {
				return c.False
			}
			r = c.And(r, m.protoEqual(x.ents[i].v, y.ents[j].v, m.ld.elemInfo(ti)))
		}
		return r
	case kStruct:
		ca, cb := cellsOf(a, ti.size), cellsOf(b, ti.size)
		r := c.True
		for i, f := range ti.fields {
			if r == c.False {
				return r
			}
			if protoField(ti, i) {
				r = c.And(r, m.protoEqual(cellVal(ca, ti.foff[i], f), cellVal(cb, ti.foff[i], f), f))
			}
		}
		return r
	}
	return m.equal(a, b, ti)
}

// protoClone is proto.Clone for a value of a field or message.
func (m *Machine) protoClone(v Value, ti *tinfo) Value {
	switch ti.kind {
	case kIface:
		if v.r == nil {
			return v
		}
		x := v.r.(*Iface)
		return Value{r: &Iface{t: x.t, v: m.protoClone(x.v, m.ld.tinfo(x.t.t))}}
	case kPtr:
		if v.r == nil {
			return v
		}
		e := m.ld.elemInfo(ti)
		o := m.newAgg(e.size)
		m.storeMem(Value{r: o}, m.protoClone(m.loadMem(v, e), e), e)
		return Value{r: o}
	case kSlice:
		x := sliceOf(v)
		if x.len == 0 {
			return Value{}
		}
		e := m.ld.elemInfo(ti)
		o := m.newAgg(x.len * e.size)
		for i := 0; i < x.len; i++ {
			at := uint64(i * e.size)
			m.storeMem(Value{r: o, n: at}, m.protoClone(m.loadMem(Value{r: x.a, n: uint64(x.off) + at}, e), e), e)
		}
		return Value{r: &SliceV{a: o, len: x.len, cap: x.len}}
	case kMap:
		x, _ := v.r.(*MapV)
		if x == nil || x.n == 0 {
			return Value{}
		}
		kt := m.ld.keyInfo(ti)
		o := newMapV(kt.t)
		for _, i := range x.live() {
			m.mapSet(o, x.ents[i].k, m.protoClone(x.ents[i].v, m.ld.elemInfo(ti)), kt)
		}
		return Value{r: o}
	case kStruct:
		src := cellsOf(v, ti.size)
		out := make([]Value, ti.size)
		for i, f := range ti.fields {
			if !protoField(ti, i) {
				continue
			}
			w := m.protoClone(cellVal(src, ti.foff[i], f), f)
			if f.isAgg() {
				copy(out[ti.foff[i]:], cellsOf(w, f.size))
			} else {
				out[ti.foff[i]] = w
			}
		}
		return aggVal(out)
	}
	return v
}

func sliceOf(v Value) *SliceV {
	if s, ok := v.r.(*SliceV); ok {
		return s
	}
	return &SliceV{}
}
