package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Merging. Where a condition with two outcomes only selects a value (x && y,
// a flag set in a branch, a comparison written as nested ifs), both outcomes
// are computed and joined by an if-then-else term: no path is split. The
// blocks between the condition and the join have to be free of effects, and
// the joined values booleans or bytes. What turns out on the way to depend on
// another decision, to panic or to touch memory shared with another goroutine
// is not merged: the path splits as usual.

// region is the code between a condition and the join of its outcomes.
type region struct {
	join int // -1: the outcomes return
	in   map[int]bool
	ws   []uint8 // width per joined value; sameVal: not merged
	live []int   // registers set on the way that are used later on

	cyclic bool
}

const sameVal = 255

type specAbort struct{}

const maxRegion = 16

const maxSpec = 600

var mergeInts = os.Getenv("VNOMERGEINTS") == ""

var noMerge = os.Getenv("VNOMERGE") != ""

func mergeWidth(ti *tinfo) (uint8, bool) {
	switch ti.kind {
	case kBool:
		return 0, true
	case kInt, kUint:
		if ti.w == 8 || mergeInts {
			return ti.w, true
		}
	}
	return 0, false
}

// pureInstr reports whether the instruction has no effect but its value.
func (c *compiler) pureInstr(in ssa.Instruction, depth int) bool {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr,
		*ssa.IndexAddr, *ssa.Extract:
		return true
	case *ssa.Index:
		return true
	case *ssa.Next:
		return in.IsString
	case *ssa.Lookup:
		_, str := in.X.Type().Underlying().(*types.Basic)
		return str
	case *ssa.Convert:
		_, x := mergeBasic(in.X.Type())
		_, y := mergeBasic(in.Type())
		return x && y
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.BinOp:
		_, ok := mergeBasic(in.X.Type())
		if in.Op == token.EQL || in.Op == token.NEQ {
			return ok
		}
		return ok
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		f := in.Call.StaticCallee()
		return f != nil && depth < 2 && c.pureFn(f, depth+1)
	}
	return false
}

func mergeBasic(t types.Type) (*types.Basic, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	return b, b.Info()&(types.IsBoolean|types.IsInteger) != 0
}

// pureFn reports whether the function is small and has no effects.
func (c *compiler) pureFn(f *ssa.Function, depth int) bool {
	if f.Blocks == nil || len(f.Blocks) > 8 || f.Signature.Results().Len() != 1 || findIntrinsic(f) != nil {
		return false
	}
	if _, ok := mergeBasic(f.Signature.Results().At(0).Type()); !ok {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			if !c.pureInstr(in, depth) {
				return false
			}
		}
	}
	return true
}

func (c *compiler) pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		if !c.pureInstr(in, 0) {
			return false
		}
	}
	return true
}

// findRegion looks for the join of the outcomes of b's condition: the first
// block that every way from b leads to.
func (c *compiler) findRegion(b *ssa.BasicBlock) *region {
	if noMerge || c.fc.hasDefer {
		return nil
	}
	r := &region{in: map[int]bool{}, join: c.postDom(b)}
	var j *ssa.BasicBlock
	if r.join >= 0 {
		j = c.fc.fn.Blocks[r.join]
	}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range x.Succs {
			if s == j {
				continue
			}
			if s == b {
				r.cyclic = true
			}
			if r.in[s.Index] {
				continue
			}
			if len(r.in) == maxRegion || !c.pureBlock(s) {
				return nil
			}
			r.in[s.Index] = true
			work = append(work, s)
		}
	}
	if r.in[b.Index] && !c.pureBlock(b) {
		return nil
	}
	for i := range r.in {
		x := c.fc.fn.Blocks[i]
		for _, in := range x.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			for _, u := range *n.Iter.Referrers() {
				if !r.in[u.Block().Index] {
					return nil
				}
			}
		}
		for _, s := range x.Succs {
			if r.in[s.Index] && s.Dominates(x) {
				r.cyclic = true
			}
		}
	}
	if j == nil {
		res := c.fc.fn.Signature.Results()
		if res.Len() != 1 {
			return nil
		}
		w, ok := c.mergeWidth(res.At(0).Type())
		if !ok {
			return nil
		}
		r.ws = []uint8{w}
		return r
	}
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var first ssa.Value
		same := true
		for i, e := range p.Edges {
			if j.Preds[i] != b && !r.in[j.Preds[i].Index] {
				continue
			}
			if first == nil {
				first = e
			} else if first != e {
				same = false
			}
		}
		if same && !c.definedIn(first, r) {
			r.ws = append(r.ws, sameVal)
			continue
		}
		w, ok := c.mergeWidth(p.Type())
		if !ok {
			return nil
		}
		r.ws = append(r.ws, w)
	}
	// What else is computed on the way and used later on.
	if r.cyclic {
		for _, x := range c.fc.fn.Blocks {
			if !r.in[x.Index] {
				continue
			}
			for _, in := range x.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, u := range *v.Referrers() {
					if r.in[u.Block().Index] {
						continue
					}
					if p, ok := u.(*ssa.Phi); ok && u.Block() == j && onlyFrom(p, v, r) {
						continue
					}
					w, ok := c.mergeWidth(v.Type())
					if !ok {
						return nil
					}
					r.live = append(r.live, c.regs[v])
					r.ws = append(r.ws, w)
					break
				}
			}
		}
	}
	return r
}

// onlyFrom reports whether p uses v on edges from the region only.
func onlyFrom(p *ssa.Phi, v ssa.Value, r *region) bool {
	for i, e := range p.Edges {
		if e == v && !r.in[p.Block().Preds[i].Index] {
			return false
		}
	}
	return true
}

func (c *compiler) definedIn(v ssa.Value, r *region) bool {
	in, ok := v.(ssa.Instruction)
	return ok && r.in[in.Block().Index]
}

func (c *compiler) mergeWidth(t types.Type) (uint8, bool) {
	if _, ok := mergeBasic(t); !ok {
		return 0, false
	}
	return mergeWidth(c.l.tinfo(t))
}

// postDom is the immediate post-dominator of b, or -1 if that is the end of
// the function.
func (c *compiler) postDom(b *ssa.BasicBlock) int {
	if c.pdom == nil {
		blocks := c.fc.fn.Blocks
		n := len(blocks)
		// sets as bit vectors; entry n is the end
		full := make([]bool, n+1)
		for i := range full {
			full[i] = true
		}
		c.pdom = make([][]bool, n)
		for i := range c.pdom {
			c.pdom[i] = append([]bool(nil), full...)
		}
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				set := make([]bool, n+1)
				if len(blocks[i].Succs) == 0 {
					set[n] = true
				} else {
					copy(set, c.pdom[blocks[i].Succs[0].Index])
					for _, s := range blocks[i].Succs[1:] {
						for k := range set {
							set[k] = set[k] && c.pdom[s.Index][k]
						}
					}
				}
				set[i] = true
				for k := range set {
					if set[k] != c.pdom[i][k] {
						c.pdom[i] = set
						changed = true
						break
					}
				}
			}
		}
	}
	// The immediate one is post-dominated by all the others.
	count := func(s []bool) int {
		k := 0
		for _, x := range s {
			if x {
				k++
			}
		}
		return k
	}
	best, bn := -1, -1
	for k, in := range c.pdom[b.Index] {
		if !in || k == b.Index || k == len(c.pdom) {
			continue
		}
		if x := count(c.pdom[k]); x > bn {
			best, bn = k, x
		}
	}
	return best
}

// tryMerge computes both outcomes of the condition at the end of block b. It
// returns the block to go on with.
func (m *Machine) tryMerge(fr *frame, b int, bk *blk, c *Expr) (next int, ok bool) {
	if m.initDepth > 0 || m.pcSet[c] || m.pcSet[m.ctx.Not(c)] || m.ctx.hasUF(c) {
		return 0, false
	}
	if ts, x := m.truthSet(c); ts != nil {
		if d, ok := m.dom[x]; ok {
			some, all := false, true
			for i := 0; i < 4; i++ {
				some = some || d[i]&ts[i] != 0
				all = all && d[i]&^ts[i] == 0
			}
			if !some || all {
				return 0, false
			}
		}
	}
	var saveTop *frame
	if m.cur != nil {
		saveTop = m.cur.top
	}
	var saveRegs []Value
	if bk.reg.cyclic {
		saveRegs = append(saveRegs, fr.regs...)
	}
	depth := m.spec
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specAbort, *ipanic:
			case *pathEnd:
				if e.kind == "suspended" {
					panic(r)
				}
			default:
				panic(r)
			}
			if depth > 0 {
				// An outer merge is abandoned altogether.
				m.spec = depth
				panic(specAbort{})
			}
			m.spec = depth
			fr.block = b
			copy(fr.regs, saveRegs)
			if m.cur != nil {
				m.cur.top = saveTop
			} else {
				m.initTop = fr
			}
			next, ok = 0, false
		}
	}()
	m.spec++
	r := bk.reg
	if depth == 0 {
		m.specWork = 0
	}
	vs := m.specSplit(fr, r, b, bk, c)
	m.spec--
	m.merges++
	if r.join < 0 {
		fr.ret = vs[0]
		return -1, true
	}
	j := fr.fc.blocks[r.join]
	for i := range j.phis {
		fr.regs[j.phis[i].dst] = vs[i]
	}
	for i, d := range r.live {
		fr.regs[d] = vs[len(j.phis)+i]
	}
	fr.merged = true
	return r.join, true
}

func (m *Machine) mergeVals(r *region, c *Expr, x, y []Value) []Value {
	vs := make([]Value, len(r.ws))
	for i, w := range r.ws {
		if w == sameVal {
			vs[i] = x[i]
			continue
		}
		if x[i].r == nil && y[i].r == nil && x[i].n == y[i].n {
			vs[i] = x[i]
			continue
		}
		vs[i] = m.ev(m.ctx.Ite(c, m.ex(x[i], w), m.ex(y[i], w)))
	}
	return vs
}

// specSplit computes both outcomes of a condition.
func (m *Machine) specSplit(fr *frame, r *region, b int, bk *blk, c *Expr) []Value {
	var save []Value
	if r.cyclic {
		save = append(save, fr.regs...)
	}
	x := m.specWalk(fr, r, b, bk.t)
	if r.cyclic {
		copy(fr.regs, save)
	}
	y := m.specWalk(fr, r, b, bk.f)
	return m.mergeVals(r, c, x, y)
}

// specWalk runs from the edge prev -> cur to the join and returns the values
// that arrive there.
func (m *Machine) specWalk(fr *frame, r *region, prev, cur int) []Value {
	for {
		bk := fr.fc.blocks[cur]
		fr.prev, fr.block = prev, cur
		if cur == r.join {
			pi := -1
			for i, p := range bk.preds {
				if p == prev {
					pi = i
				}
			}
			vs := make([]Value, 0, len(r.ws))
			for i := range bk.phis {
				vs = append(vs, bk.phis[i].ops[pi].get(m, fr))
			}
			for _, d := range r.live {
				vs = append(vs, fr.regs[d])
			}
			return vs
		}
		if m.specWork++; m.specWork > maxSpec {
			panic(specAbort{})
		}
		m.enterBlock(fr, bk)
		m.steps += int64(len(bk.ops)) + 1
		for _, o := range bk.ops {
			o(m, fr)
		}
		prev = cur
		switch {
		case bk.isIf:
			v := bk.cond.get(m, fr)
			if v.r == nil {
				if cur = bk.f; v.n != 0 {
					cur = bk.t
				}
				continue
			}
			c := m.ex(v, 0)
			switch {
			case m.pcSet[c]:
				cur = bk.t
				continue
			case m.pcSet[m.ctx.Not(c)]:
				cur = bk.f
				continue
			case m.ctx.hasUF(c):
				panic(specAbort{})
			}
			return m.specSplit(fr, r, prev, bk, c)
		case bk.rets != nil:
			return []Value{bk.rets[0].get(m, fr)}
		default:
			cur = bk.t
		}
	}
}
