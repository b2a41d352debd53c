package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Value is one memory cell / register.
//
//	scalar:    r == nil (n holds the bits) or r == *Expr
//	pointer:   r == *Agg, n = cell index; nil pointer: r == nil
//	struct, array: r == *Agg (immutable, by value); zero value: r == nil
//	slice:     r == *SliceV; nil slice: r == nil
//	string:    r == string or *SymStr; empty: r == nil
//	interface: r == *Iface; nil: r == nil
//	func:      r == *Closure; nil: r == nil
//	map, chan: r == *MapV, *ChanV; nil: r == nil
//	tuple:     r == []Value
type Value struct {
	n uint64
	r any
}

// Agg is a block of memory cells.
type Agg struct {
	cells   []Value
	persist bool
}

type SliceV struct {
	a        *Agg
	off      int // cell offset
	len, cap int // elements
}

type SymStr struct{ b []Value }

type RType struct {
	t       types.Type
	id      int
	impls   map[*types.Interface]bool
	methods map[string]*ssa.Function
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(m *Machine, args []Value) Value
	name string
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

type MapV struct {
	ents    []mapEntry
	idx     map[any]int
	n       int
	symKeys bool
	persist bool
	kt      types.Type
}

type mapIter struct {
	m     *MapV
	order []int
	pos   int
}

type strIter struct {
	b   []Value
	pos int
}

type waiter struct {
	g      *Goroutine
	val    Value
	sel    int // select case index
	isSend bool
	token  *selToken
	ok     bool
}

type selToken struct {
	done  bool
	idx   int
	val   Value
	ok    bool
	panic bool
}

type ChanV struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

// ---- type layout ----

type tkind uint8

const (
	kBool tkind = iota
	kInt
	kUint
	kFloat
	kComplex
	kString
	kPtr
	kUnsafe
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
)

type tinfo struct {
	t      types.Type
	kind   tkind
	w      uint8 // scalar width (bool: 0)
	size   int   // cells
	elem   *tinfo
	alen   int
	fields []*tinfo
	foff   []int
	key    *tinfo
}

func (l *Loader) tinfo(t types.Type) *tinfo {
	if v, ok := l.tcache.Load(t); ok {
		return v.(*tinfo)
	}
	ti := &tinfo{t: t, size: 1}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.w = kBool, 0
		case types.Int8:
			ti.kind, ti.w = kInt, 8
		case types.Int16:
			ti.kind, ti.w = kInt, 16
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w = kInt, 32
		case types.Int64, types.Int, types.UntypedInt:
			ti.kind, ti.w = kInt, 64
		case types.Uint8:
			ti.kind, ti.w = kUint, 8
		case types.Uint16:
			ti.kind, ti.w = kUint, 16
		case types.Uint32:
			ti.kind, ti.w = kUint, 32
		case types.Uint64, types.Uint, types.Uintptr:
			ti.kind, ti.w = kUint, 64
		case types.Float32:
			ti.kind, ti.w = kFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = kFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind, ti.w = kComplex, 64
		case types.String, types.UntypedString:
			ti.kind = kString
		case types.UnsafePointer:
			ti.kind = kUnsafe
		case types.UntypedNil:
			ti.kind = kPtr
		default:
			panic("basic kind " + u.String())
		}
	case *types.Pointer:
		ti.kind = kPtr
		// element resolved lazily to allow recursive types
	case *types.Slice:
		ti.kind = kSlice
	case *types.Map:
		ti.kind = kMap
	case *types.Chan:
		ti.kind = kChan
	case *types.Signature:
		ti.kind = kFunc
	case *types.Interface:
		ti.kind = kIface
	case *types.Struct:
		ti.kind = kStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := l.tinfo(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.foff = append(ti.foff, off)
			off += f.size
		}
		ti.size = off
	case *types.Array:
		ti.kind = kArray
		ti.elem = l.tinfo(u.Elem())
		ti.alen = int(u.Len())
		ti.size = ti.elem.size * ti.alen
	case *types.Tuple:
		ti.kind = kTuple
	case *types.TypeParam:
		panic("type param " + t.String())
	default:
		panic(fmt.Sprintf("tinfo %T", u))
	}
	l.tcache.Store(t, ti)
	return ti
}

func (l *Loader) elemInfo(ti *tinfo) *tinfo {
	if e, ok := l.ecache.Load(ti); ok {
		return e.(*tinfo)
	}
	var e *tinfo
	switch u := ti.t.Underlying().(type) {
	case *types.Pointer:
		e = l.tinfo(u.Elem())
	case *types.Slice:
		e = l.tinfo(u.Elem())
	case *types.Array:
		e = l.tinfo(u.Elem())
	case *types.Map:
		e = l.tinfo(u.Elem())
	case *types.Chan:
		e = l.tinfo(u.Elem())
	default:
		panic("elemInfo " + ti.t.String())
	}
	l.ecache.Store(ti, e)
	return e
}

func (l *Loader) keyInfo(ti *tinfo) *tinfo {
	return l.tinfo(ti.t.Underlying().(*types.Map).Key())
}

func (ti *tinfo) isAgg() bool { return ti.kind == kStruct || ti.kind == kArray }
func (ti *tinfo) isScalar() bool {
	switch ti.kind {
	case kBool, kInt, kUint, kFloat:
		return true
	}
	return false
}

// ---- scalars ----

func cval(n uint64) Value { return Value{n: n} }
func bval(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func (m *Machine) ev(e *Expr) Value {
	if e.op == OConst {
		return Value{n: e.k}
	}
	return Value{r: e}
}

// ex turns a scalar value into an expression of width w (0 = bool).
func (m *Machine) ex(v Value, w uint8) *Expr {
	if e, ok := v.r.(*Expr); ok {
		if e.w != w {
			panic(m.unsup(fmt.Sprintf("scalar width mismatch: have %d want %d", e.w, w)))
		}
		return e
	}
	if v.r != nil {
		panic(m.unsup(fmt.Sprintf("scalar expected, have %T", v.r)))
	}
	return m.ctx.Const(w, v.n)
}

func isSym(v Value) bool { _, ok := v.r.(*Expr); return ok }

// ---- aggregates ----

// cellsOf returns the cells of a struct/array value of the given size.
func cellsOf(v Value, size int) []Value {
	if v.r == nil {
		return make([]Value, size)
	}
	a := v.r.(*Agg)
	return a.cells
}

func aggVal(cells []Value) Value { return Value{r: &Agg{cells: cells}} }

// loadMem reads a value of type ti at pointer p.
func (m *Machine) loadMem(p Value, ti *tinfo) Value {
	a, ok := p.r.(*Agg)
	if !ok {
		if p.r == nil {
			m.nilDeref()
		}
		if sp, ok := p.r.(*symPtr); ok {
			return m.loadSym(sp)
		}
		panic(m.unsup(fmt.Sprintf("load through %T", p.r)))
	}
	i := int(p.n)
	if ti.isAgg() {
		if i+ti.size > len(a.cells) {
			panic(m.unsup("aggregate load out of block"))
		}
		c := make([]Value, ti.size)
		copy(c, a.cells[i:i+ti.size])
		return Value{r: &Agg{cells: c}}
	}
	if i >= len(a.cells) {
		panic(m.unsup("load out of block"))
	}
	return a.cells[i]
}

func (m *Machine) storeMem(p Value, v Value, ti *tinfo) {
	a, ok := p.r.(*Agg)
	if !ok {
		if p.r == nil {
			m.nilDeref()
		}
		if sp, ok := p.r.(*symPtr); ok {
			m.storeSym(sp, v)
			return
		}
		panic(m.unsup(fmt.Sprintf("store through %T", p.r)))
	}
	i := int(p.n)
	if ti.isAgg() {
		src := cellsOf(v, ti.size)
		m.touch(a, i, ti.size)
		copy(a.cells[i:i+ti.size], src)
		return
	}
	if i >= len(a.cells) {
		panic(m.unsup("store out of block"))
	}
	if a.persist {
		m.touch(a, i, 1)
	}
	a.cells[i] = v
}

type trailEnt struct {
	a   *Agg
	i   int
	old []Value
	mp  *MapV
	mo  MapV
}

// touch records old contents of persistent memory before a write.
func (m *Machine) touch(a *Agg, i, n int) {
	if !a.persist || m.initDepth > 0 {
		return
	}
	if n == 0 {
		return
	}
	old := make([]Value, n)
	copy(old, a.cells[i:i+n])
	m.trail = append(m.trail, trailEnt{a: a, i: i, old: old})
}

func (m *Machine) touchMap(mv *MapV) {
	if !mv.persist || m.initDepth > 0 {
		return
	}
	cp := MapV{n: mv.n, symKeys: mv.symKeys, persist: true, kt: mv.kt}
	cp.ents = append([]mapEntry(nil), mv.ents...)
	cp.idx = make(map[any]int, len(mv.idx))
	for k, v := range mv.idx {
		cp.idx[k] = v
	}
	m.trail = append(m.trail, trailEnt{mp: mv, mo: cp})
	mv.persist = false // log only once; restored by undo
}

func (m *Machine) undo() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		t := &m.trail[i]
		if t.mp != nil {
			*t.mp = t.mo
			continue
		}
		copy(t.a.cells[t.i:], t.old)
	}
	m.trail = m.trail[:0]
}

func (m *Machine) newAgg(n int) *Agg {
	return &Agg{cells: make([]Value, n), persist: m.initDepth > 0}
}

// ---- strings and byte slices ----

func strVal(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: s}
}

// symStr builds a string value from byte cells (concrete when possible).
func symStrVal(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	conc := true
	for _, x := range b {
		if x.r != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.n)
		}
		return Value{r: string(bs)}
	}
	return Value{r: &SymStr{b: b}}
}

func strLen(v Value) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.r))
}

func strAt(v Value, i int) Value {
	switch s := v.r.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = Value{n: uint64(s[i])}
		}
		return b
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func strSlice(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.r.(type) {
	case string:
		return Value{r: s[lo:hi]}
	case *SymStr:
		return symStrVal(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return Value{r: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	return symStrVal(append(append(make([]Value, 0, len(x)+len(y)), x...), y...))
}

// concStr returns the Go string if fully concrete.
func concStr(v Value) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func slicePart(v Value) (a *Agg, off, ln, cp int) {
	if v.r == nil {
		return nil, 0, 0, 0
	}
	s := v.r.(*SliceV)
	return s.a, s.off, s.len, s.cap
}

// byteCells returns the cells of a byte slice (not copied).
func byteCells(v Value) []Value {
	a, off, n, _ := slicePart(v)
	if n == 0 {
		return nil
	}
	return a.cells[off : off+n]
}

func (m *Machine) newByteSlice(b []Value) Value {
	a := m.newAgg(len(b))
	copy(a.cells, b)
	return Value{r: &SliceV{a: a, len: len(b), cap: len(b)}}
}

func (m *Machine) bytesVal(b []byte) Value {
	a := m.newAgg(len(b))
	for i, x := range b {
		a.cells[i].n = uint64(x)
	}
	return Value{r: &SliceV{a: a, len: len(b), cap: len(b)}}
}

func concBytes(cs []Value) ([]byte, bool) {
	b := make([]byte, len(cs))
	for i, x := range cs {
		if x.r != nil {
			return nil, false
		}
		b[i] = byte(x.n)
	}
	return b, true
}

// ---- equality ----

// equal compares two values of a type; returns a boolean expression.
func (m *Machine) equal(a, b Value, ti *tinfo) *Expr {
	c := m.ctx
	switch ti.kind {
	case kBool, kInt, kUint:
		if a.r == nil && b.r == nil {
			return c.Bool(a.n == b.n)
		}
		if isPtrBits(a) || isPtrBits(b) { // uintptr holding a pointer
			return c.Bool(a.r == b.r && a.n == b.n)
		}
		return c.Eq(m.ex(a, ti.w), m.ex(b, ti.w))
	case kFloat:
		if a.r == nil && b.r == nil {
			return c.Bool(evalFP(OFEq, []uint64{toF64(a.n, ti.w), toF64(b.n, ti.w)}) == 1)
		}
		return c.fp(OFEq, 0, m.ex(a, 64), m.ex(b, 64))
	case kString:
		la, lb := strLen(a), strLen(b)
		if la != lb {
			return c.False
		}
		if x, ok := concStr(a); ok {
			if y, ok := concStr(b); ok {
				return c.Bool(x == y)
			}
		}
		r := c.True
		for i := 0; i < la && r != c.False; i++ {
			r = c.And(r, c.Eq(m.ex(strAt(a, i), 8), m.ex(strAt(b, i), 8)))
		}
		return r
	case kPtr, kUnsafe, kMap, kChan:
		return c.Bool(a.r == b.r && a.n == b.n)
	case kSlice:
		return c.Bool(a.r == b.r) // only against nil
	case kFunc:
		return c.Bool(a.r == b.r)
	case kIface:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return c.False
		}
		tt := m.ld.tinfo(x.t.t)
		switch tt.kind {
		case kSlice, kMap, kFunc:
			m.runtimePanic("comparing uncomparable type " + x.t.t.String())
		}
		return m.equal(x.v, y.v, tt)
	case kStruct:
		ca, cb := cellsOf(a, ti.size), cellsOf(b, ti.size)
		r := c.True
		for i, f := range ti.fields {
			if r == c.False {
				return r
			}
			r = c.And(r, m.equal(cellVal(ca, ti.foff[i], f), cellVal(cb, ti.foff[i], f), f))
		}
		return r
	case kArray:
		ca, cb := cellsOf(a, ti.size), cellsOf(b, ti.size)
		if ti.elem.kind == kUint && ti.elem.w == 8 {
			return m.eqCells(ca[:ti.alen], cb[:ti.alen])
		}
		r := c.True
		for i := 0; i < ti.alen; i++ {
			if r == c.False {
				return r
			}
			r = c.And(r, m.equal(cellVal(ca, i*ti.elem.size, ti.elem), cellVal(cb, i*ti.elem.size, ti.elem), ti.elem))
		}
		return r
	}
	panic(m.unsup("equal on " + ti.t.String()))
}

func isPtrBits(v Value) bool {
	if v.r == nil {
		return false
	}
	_, ok := v.r.(*Expr)
	return !ok
}

// cellVal extracts a sub-value of type f at offset off of a cell block.
func cellVal(c []Value, off int, f *tinfo) Value {
	if f.isAgg() {
		return Value{r: &Agg{cells: c[off : off+f.size : off+f.size]}}
	}
	return c[off]
}

// ---- maps ----

// concKey returns a hashable Go key for a fully concrete key value.
func (m *Machine) concKey(v Value, ti *tinfo) (any, bool) {
	switch ti.kind {
	case kBool, kInt, kUint:
		if v.r != nil {
			return nil, false
		}
		return v.n, true
	case kFloat:
		if v.r != nil {
			return nil, false
		}
		return v.n, true
	case kString:
		s, ok := concStr(v)
		return s, ok
	case kPtr, kUnsafe, kChan, kMap:
		return v, true
	case kIface:
		if v.r == nil {
			return nil, true
		}
		x := v.r.(*Iface)
		k, ok := m.concKey(x.v, m.ld.tinfo(x.t.t))
		if !ok {
			return nil, false
		}
		return [2]any{x.t, k}, true
	case kStruct, kArray:
		var buf []byte
		cells := cellsOf(v, ti.size)
		var rec func(ti *tinfo, off int) bool
		rec = func(ti *tinfo, off int) bool {
			switch ti.kind {
			case kStruct:
				for i, f := range ti.fields {
					if !rec(f, off+ti.foff[i]) {
						return false
					}
				}
				return true
			case kArray:
				for i := 0; i < ti.alen; i++ {
					if !rec(ti.elem, off+i*ti.elem.size) {
						return false
					}
				}
				return true
			}
			k, ok := m.concKey(cells[off], ti)
			if !ok {
				return false
			}
			buf = append(buf, fmt.Sprintf("%v|", k)...)
			return true
		}
		if !rec(ti, 0) {
			return nil, false
		}
		return string(buf), true
	}
	panic(m.unsup("map key " + ti.t.String()))
}

// mapFind returns the entry index or -1; it may fork on symbolic equality.
func (m *Machine) mapFind(mv *MapV, k Value, kt *tinfo) int {
	if mv == nil {
		return -1
	}
	ck, conc := m.concKey(k, kt)
	if conc && !mv.symKeys {
		if i, ok := mv.idx[ck]; ok {
			return i
		}
		return -1
	}
	if conc {
		if i, ok := mv.idx[ck]; ok {
			return i
		}
	}
	for i := range mv.ents {
		e := &mv.ents[i]
		if e.deleted {
			continue
		}
		if m.branch(m.equal(e.k, k, kt)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mv *MapV, k, v Value, kt *tinfo) {
	i := m.mapFind(mv, k, kt)
	m.touchMap(mv)
	if i >= 0 {
		mv.ents[i].v = v
		return
	}
	ck, conc := m.concKey(k, kt)
	if conc {
		mv.idx[ck] = len(mv.ents)
	} else {
		mv.symKeys = true
	}
	mv.ents = append(mv.ents, mapEntry{k: k, v: v})
	mv.n++
}

func (m *Machine) mapDelete(mv *MapV, k Value, kt *tinfo) {
	if mv == nil {
		return
	}
	i := m.mapFind(mv, k, kt)
	if i < 0 {
		return
	}
	m.touchMap(mv)
	if ck, ok := m.concKey(mv.ents[i].k, kt); ok {
		delete(mv.idx, ck)
	}
	mv.ents[i].deleted = true
	mv.ents[i].v = Value{}
	mv.n--
}

func newMapV(kt types.Type) *MapV { return &MapV{idx: map[any]int{}, kt: kt} }

func (mv *MapV) live() []int {
	var r []int
	for i := range mv.ents {
		if !mv.ents[i].deleted {
			r = append(r, i)
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
