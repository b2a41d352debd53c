package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fr *frame, a []Value) Value

var intr = map[string]intrinsic{}

const symPkg = modPath + "/zzverif/sym."

func findIntrinsic(f *ssa.Function) intrinsic {
	n := f.String()
	if in, ok := intr[n]; ok {
		return in
	}
	if o := f.Origin(); o != nil {
		if in, ok := intr[o.String()]; ok {
			return in
		}
	}
	// logging helpers never affect behaviour
	if strings.HasPrefix(n, "github.com/lightningnetwork/lnd/build.") {
		return func(m *Machine, fr *frame, a []Value) Value { return zeroFor(f) }
	}
	return nil
}

func zeroFor(f *ssa.Function) Value {
	if n := f.Signature.Results().Len(); n > 1 {
		return Value{r: make([]Value, n)}
	}
	return Value{}
}

func findInvokeIntrinsic(t types.Type, meth *types.Func) intrinsic {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "btcsuite/btclog") && n.Obj().Name() == "Logger" {
			return func(m *Machine, fr *frame, a []Value) Value { return Value{} }
		}
	}
	return nil
}

func tuple(vs ...Value) Value { return Value{r: vs} }

func (m *Machine) mustStr(v Value) string {
	s, ok := concStr(v)
	if !ok {
		panic(m.unsup("concrete string expected"))
	}
	return s
}

func (m *Machine) errVal(msg string) Value {
	t := m.ld.pkgType("errors", "errorString")
	a := m.newAgg(1)
	a.cells[0] = strVal(msg)
	return Value{r: &Iface{t: m.ld.rtype(types.NewPointer(t)), v: Value{r: a}}}
}

// globalErr returns the value of a package-level error variable.
func (m *Machine) globalErr(pkg, name string) Value {
	p := m.ld.pkgs[pkg]
	if p == nil {
		panic(m.unsup("package not loaded: " + pkg))
	}
	g := p.Var(name)
	return m.loadMem(m.globalPtr(g), m.ld.tinfo(g.Type().Underlying().(*types.Pointer).Elem()))
}

func nop(m *Machine, fr *frame, a []Value) Value { return Value{} }

func init() {
	S := func(name string, f intrinsic) { intr[symPkg+name] = f }
	scalar := func(w uint8) intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			return m.ev(m.newSym(m.freshName(m.mustStr(a[0])), w))
		}
	}
	S("Bool", scalar(0))
	S("Byte", scalar(8))
	S("Uint16", scalar(16))
	S("Uint32", scalar(32))
	S("Uint64", scalar(64))
	S("Int64", scalar(64))
	S("Int", func(m *Machine, fr *frame, a []Value) Value {
		lo, hi := int64(a[1].n), int64(a[2].n)
		name := m.freshName(m.mustStr(a[0]))
		var e *Expr
		if w := bits.Len64(uint64(hi)); lo >= 0 && hi > 0 && w < 63 {
			// as narrow as the range allows, so that ranges are known
			e = m.ctx.ZExt(m.newSym(name, uint8(w)), 64)
		} else {
			e = m.newSym(name, 64)
		}
		m.assume(m.ctx.Sle(m.ctx.Const(64, uint64(lo)), e))
		m.assume(m.ctx.Sle(e, m.ctx.Const(64, uint64(hi))))
		return m.ev(e)
	})
	symBytes := func(m *Machine, name string, n int) []Value {
		name = m.freshName(name)
		b := make([]Value, n)
		for i := range b {
			b[i] = m.ev(m.newSym(name+"["+strconv.Itoa(i)+"]", 8))
		}
		return b
	}
	S("Bytes", func(m *Machine, fr *frame, a []Value) Value {
		n := int(m.concInt(a[1], 64))
		return m.newByteSlice(symBytes(m, m.mustStr(a[0]), n))
	})
	S("String", func(m *Machine, fr *frame, a []Value) Value {
		n := int(m.concInt(a[1], 64))
		return symStrVal(symBytes(m, m.mustStr(a[0]), n))
	})
	S("Choose", func(m *Machine, fr *frame, a []Value) Value {
		name := m.freshName(m.mustStr(a[0]))
		k := m.choose(int(m.concInt(a[1], 64)), name)
		m.choices[name] = []uint64{uint64(k)}
		return Value{n: uint64(k)}
	})
	S("Assume", func(m *Machine, fr *frame, a []Value) Value { m.assume(m.ex(a[0], 0)); return Value{} })
	S("Assert", func(m *Machine, fr *frame, a []Value) Value {
		if os.Getenv("VDEBUG") == "2" {
			fmt.Fprintln(os.Stderr, m.mustStr(a[1]), m.ex(a[0], 0).str(12))
		}
		m.assert(m.ex(a[0], 0), m.mustStr(a[1]))
		return Value{}
	})
	S("Fail", func(m *Machine, fr *frame, a []Value) Value {
		msg := m.mustStr(a[0])
		m.ex_.mu.Lock()
		m.stat(msg).Checked++
		m.stat(msg).Sat++
		m.ex_.mu.Unlock()
		m.violation(msg)
		panic(&pathEnd{kind: "violation", msg: msg})
	})
	S("Skip", func(m *Machine, fr *frame, a []Value) Value {
		panic(&pathEnd{kind: "infeasible", msg: "skipped"})
	})
	S("Reach", func(m *Machine, fr *frame, a []Value) Value { m.reach[m.mustStr(a[0])] = true; return Value{} })
	S("Observe", func(m *Machine, fr *frame, a []Value) Value {
		i, ok := a[1].r.(*Iface)
		if !ok {
			return Value{}
		}
		v := i.v
		ti := m.ld.tinfo(i.t.t)
		if ti.kind == kSlice {
			v = m.newByteSlice(byteCells(v)) // snapshot
		}
		m.obs = append(m.obs, observation{m.mustStr(a[0]), v, ti})
		return Value{}
	})
	S("And", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.ctx.And(m.ex(a[0], 0), m.ex(a[1], 0)))
	})
	S("Or", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.ctx.Or(m.ex(a[0], 0), m.ex(a[1], 0)))
	})
	S("Not", func(m *Machine, fr *frame, a []Value) Value { return m.ev(m.ctx.Not(m.ex(a[0], 0))) })
	S("Implies", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.ctx.Or(m.ctx.Not(m.ex(a[0], 0)), m.ex(a[1], 0)))
	})
	S("Iff", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.ctx.Eq(m.ex(a[0], 0), m.ex(a[1], 0)))
	})
	S("Ite64", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.ctx.Ite(m.ex(a[0], 0), m.ex(a[1], 64), m.ex(a[2], 64)))
	})
	S("EqBytes", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.eqCells(byteCells(a[0]), byteCells(a[1])))
	})
	S("EqStr", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.eqCells(strBytes(a[0]), strBytes(a[1])))
	})
	S("LessBytes", func(m *Machine, fr *frame, a []Value) Value {
		return m.ev(m.bytesLess(byteCells(a[0]), byteCells(a[1]), false))
	})
	// Pick makes a value concrete, one path per feasible value.
	S("Pick", func(m *Machine, fr *frame, a []Value) Value { return Value{n: m.concInt(a[0], 64)} })
	S("Preempt", func(m *Machine, fr *frame, a []Value) Value {
		m.opts.preempt = int(a[0].n)
		m.budget = int(a[0].n)
		return Value{}
	})
	S("TimerRaces", func(m *Machine, fr *frame, a []Value) Value { m.opts.timerRace = a[0].n != 0; return Value{} })
	S("FreeBlock", func(m *Machine, fr *frame, a []Value) Value { m.opts.freeBlock = a[0].n != 0; return Value{} })
	S("MapOrders", func(m *Machine, fr *frame, a []Value) Value { m.opts.mapOrders = a[0].n != 0; return Value{} })
	S("HashOrder", func(m *Machine, fr *frame, a []Value) Value { m.opts.hashOrder = int(a[0].n); return Value{} })
	S("LenCap", func(m *Machine, fr *frame, a []Value) Value {
		m.ex_.mu.Lock()
		m.ex_.lenCap = int(a[0].n)
		m.ex_.mu.Unlock()
		return Value{}
	})
	S("Thorough", func(m *Machine, fr *frame, a []Value) Value { return bval(m.ex_.tier == "thorough") })
	S("Symbolic", func(m *Machine, fr *frame, a []Value) Value { return Value{n: 1} })
	S("Settle", func(m *Machine, fr *frame, a []Value) Value { m.settle(); m.joinAll(); return Value{} })
	S("Advance", func(m *Machine, fr *frame, a []Value) Value {
		m.sleep(int64(a[0].n))
		m.joinAll()
		return Value{}
	})
	S("Idle", func(m *Machine, fr *frame, a []Value) Value {
		m.idled = true
		m.sleep(int64(a[0].n))
		m.joinAll()
		return Value{}
	})
	S("Blocked", func(m *Machine, fr *frame, a []Value) Value {
		n := 0
		for _, g := range m.gs {
			if !g.done && g != m.cur {
				n++
			}
		}
		return Value{n: uint64(n)}
	})
	S("Elapsed", func(m *Machine, fr *frame, a []Value) Value { return m.elapsed() })
	S("Virtual", func(m *Machine, fr *frame, a []Value) Value { m.nondet = true; return Value{} })

	// ---- runtime ----
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory",
		"(*strings.Builder).copyCheck", "internal/race.Enable", "internal/race.Disable", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"sync.runtime_registerPoolCleanup", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "sync.throw", "sync.fatal",
		"internal/godebug.registerMetric", "internal/bisect.Marker"} {
		intr[n] = nop
	}
	intr["runtime.Gosched"] = func(m *Machine, fr *frame, a []Value) Value { m.yield("gosched"); return Value{} }
	intr["runtime.NumGoroutine"] = func(m *Machine, fr *frame, a []Value) Value {
		n := 0
		for _, g := range m.gs {
			if !g.done {
				n++
			}
		}
		return Value{n: uint64(n)}
	}
	intr["runtime.Goexit"] = func(m *Machine, fr *frame, a []Value) Value { panic(m.unsup("Goexit")) }
	intr["runtime.Caller"] = func(m *Machine, fr *frame, a []Value) Value { return tuple(Value{}, Value{}, Value{}, Value{}) }
	intr["runtime.Callers"] = nop
	intr["runtime/debug.Stack"] = nop
	intr["internal/abi.NoEscape"] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	intr["strings.noescape"] = intr["internal/abi.NoEscape"]
	intr["(*internal/godebug.Setting).Value"] = nop
	intr["(*internal/godebug.Setting).IncNonDefault"] = nop
	intr["math.Float64bits"] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	intr["math.Float64frombits"] = intr["math.Float64bits"]
	intr["math.Float32bits"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r != nil {
			panic(m.unsup("symbolic float32"))
		}
		return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
	}
	mathfn := func(name string, f func(float64) float64) {
		intr["math."+name] = func(m *Machine, fr *frame, a []Value) Value {
			if a[0].r != nil {
				panic(m.unsup("symbolic math." + name))
			}
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
		}
	}
	mathfn("Floor", math.Floor)
	mathfn("Ceil", math.Ceil)
	mathfn("Trunc", math.Trunc)
	mathfn("Sqrt", math.Sqrt)
	mathfn("Abs", math.Abs)
	mathfn("Log2", math.Log2)
	mathfn("Log", math.Log)
	intr["math.Pow"] = func(m *Machine, fr *frame, a []Value) Value {
		return Value{n: math.Float64bits(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}
	}

	// ---- bytes and strings ----
	eqB := func(m *Machine, fr *frame, a []Value) Value { return m.ev(m.eqCells(byteCells(a[0]), byteCells(a[1]))) }
	intr["bytes.Equal"] = eqB
	intr["internal/bytealg.Equal"] = eqB
	intr["crypto/subtle.ConstantTimeCompare"] = func(m *Machine, fr *frame, a []Value) Value {
		e := m.eqCells(byteCells(a[0]), byteCells(a[1]))
		return m.ev(m.ctx.Ite(e, m.ctx.Const(64, 1), m.ctx.Const(64, 0)))
	}
	intr["crypto/hmac.Equal"] = eqB
	cmp := func(m *Machine, x, y []Value) Value {
		lt := m.bytesLess(x, y, false)
		eq := m.eqCells(x, y)
		c := m.ctx
		if lt.isConst() && eq.isConst() {
			return m.ev(c.Ite(lt, c.Const(64, ^uint64(0)), c.Ite(eq, c.Const(64, 0), c.Const(64, 1))))
		}
		if m.hashPair(x, y) && m.opts.hashOrder != 0 {
			// The order of two opaque digests is arbitrary; fix one total
			// order per mode.
			kx, ky := digestKey(x, m.opts.hashOrder), digestKey(y, m.opts.hashOrder)
			if kx != ky {
				if kx > ky {
					return Value{n: 1}
				}
				return Value{n: ^uint64(0)}
			}
		}
		return m.ev(c.Ite(lt, c.Const(64, ^uint64(0)), c.Ite(eq, c.Const(64, 0), c.Const(64, 1))))
	}
	intr["internal/bytealg.Compare"] = func(m *Machine, fr *frame, a []Value) Value { return cmp(m, byteCells(a[0]), byteCells(a[1])) }
	// Statuses are immutable: a clone may share.
	for _, n := range []string{"github.com/golang/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Clone"} {
		intr[n] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	}
	intr["bytes.Compare"] = intr["internal/bytealg.Compare"]
	intr["internal/bytealg.CompareString"] = func(m *Machine, fr *frame, a []Value) Value { return cmp(m, strBytes(a[0]), strBytes(a[1])) }
	intr["strings.Compare"] = intr["internal/bytealg.CompareString"]
	idx := func(m *Machine, b []Value, c Value) Value {
		ce := m.ex(c, 8)
		if !ce.isConst() && len(b) > 1 {
			// A table lookup: the position as a function of the character.
			table := true
			for _, x := range b {
				table = table && x.r == nil
			}
			if table {
				vals := make([]uint64, 256)
				for i := range vals {
					vals[i] = ^uint64(0)
				}
				for i := len(b) - 1; i >= 0; i-- {
					vals[b[i].n&255] = uint64(i)
				}
				return m.ev(m.ctx.Lookup(m.ctx.Table(vals, 64, ^uint64(0)), ce))
			}
		}
		for i, x := range b {
			if m.branch(m.ctx.Eq(m.ex(x, 8), ce)) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	}
	lastIdx := func(m *Machine, b []Value, c Value) Value {
		ce := m.ex(c, 8)
		for i := len(b) - 1; i >= 0; i-- {
			if m.branch(m.ctx.Eq(m.ex(b[i], 8), ce)) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	}
	count := func(m *Machine, b []Value, c Value) Value {
		ce := m.ex(c, 8)
		r := m.ctx.Const(64, 0)
		for _, x := range b {
			e := m.ctx.Eq(m.ex(x, 8), ce)
			r = m.ctx.Add(r, m.ctx.Ite(e, m.ctx.Const(64, 1), m.ctx.Const(64, 0)))
		}
		return m.ev(r)
	}
	intr["internal/bytealg.IndexByte"] = func(m *Machine, fr *frame, a []Value) Value { return idx(m, byteCells(a[0]), a[1]) }
	intr["internal/bytealg.IndexByteString"] = func(m *Machine, fr *frame, a []Value) Value { return idx(m, strBytes(a[0]), a[1]) }
	intr["internal/bytealg.LastIndexByte"] = func(m *Machine, fr *frame, a []Value) Value { return lastIdx(m, byteCells(a[0]), a[1]) }
	intr["internal/bytealg.LastIndexByteString"] = func(m *Machine, fr *frame, a []Value) Value { return lastIdx(m, strBytes(a[0]), a[1]) }
	intr["internal/bytealg.Count"] = func(m *Machine, fr *frame, a []Value) Value { return count(m, byteCells(a[0]), a[1]) }
	intr["internal/bytealg.CountString"] = func(m *Machine, fr *frame, a []Value) Value { return count(m, strBytes(a[0]), a[1]) }
	intr["internal/bytealg.MakeNoZero"] = func(m *Machine, fr *frame, a []Value) Value {
		n := int(m.concInt(a[0], 64))
		return Value{r: &SliceV{a: m.newAgg(n), len: n, cap: n}}
	}
	index := func(m *Machine, s, sub []Value) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if m.branch(m.eqCells(s[i:i+len(sub)], sub)) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	}
	intr["strings.Index"] = func(m *Machine, fr *frame, a []Value) Value { return index(m, strBytes(a[0]), strBytes(a[1])) }
	intr["bytes.Index"] = func(m *Machine, fr *frame, a []Value) Value { return index(m, byteCells(a[0]), byteCells(a[1])) }
	intr["internal/stringslite.Index"] = intr["strings.Index"]
	caseMap := func(upper bool) intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				if upper {
					return strVal(strings.ToUpper(s))
				}
				return strVal(strings.ToLower(s))
			}
			// ASCII fast path of the library; a non-ASCII byte is outside it.
			b := strBytes(a[0])
			out := make([]Value, len(b))
			c := m.ctx
			for i, v := range b {
				e := m.ex(v, 8)
				if !m.branch(c.Ult(e, c.Const(8, 0x80))) {
					panic(m.unsup("case mapping of a non-ASCII string"))
				}
				lo, d := uint64('A'), uint64(32)
				if upper {
					lo, d = 'a', ^uint64(31)
				}
				if e.op == OLookup {
					out[i] = m.ev(c.mapLookup(e, 8, func(v uint64) uint64 {
						if v >= lo && v <= lo+25 {
							v += d
						}
						return v
					}))
					continue
				}
				in := c.And(c.Ule(c.Const(8, lo), e), c.Ule(e, c.Const(8, lo+25)))
				out[i] = m.ev(c.Ite(in, c.Add(e, c.Const(8, d)), e))
			}
			return symStrVal(out)
		}
	}
	intr["strings.ToLower"] = caseMap(false)
	intr["strings.ToUpper"] = caseMap(true)

	// ---- errors ----
	intr["errors.Is"] = func(m *Machine, fr *frame, a []Value) Value { return bval(m.errorsIs(fr, a[0], a[1])) }
	intr["errors.As"] = func(m *Machine, fr *frame, a []Value) Value { return bval(m.errorsAs(fr, a[0], a[1])) }

	// ---- fmt ----
	intr["fmt.Errorf"] = func(m *Machine, fr *frame, a []Value) Value { return m.errorf(fr, a) }
	intr["fmt.Sprintf"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.sprintf(fr, m.mustStr(a[0]), ifaceArgs(a[1]))
	}
	intr["fmt.Sprint"] = func(m *Machine, fr *frame, a []Value) Value { return m.sprint(fr, ifaceArgs(a[0]), false) }
	intr["fmt.Sprintln"] = func(m *Machine, fr *frame, a []Value) Value { return m.sprint(fr, ifaceArgs(a[0]), true) }
	printed := func(m *Machine, fr *frame, a []Value) Value { return tuple(Value{}, Value{}) }
	intr["fmt.Println"] = printed
	intr["fmt.Printf"] = printed
	intr["fmt.Print"] = printed
	intr["fmt.Fprintf"] = func(m *Machine, fr *frame, a []Value) Value {
		s := m.sprintf(fr, m.mustStr(a[1]), ifaceArgs(a[2]))
		return m.writeTo(fr, a[0], s)
	}
	intr["fmt.Fprint"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.writeTo(fr, a[0], m.sprint(fr, ifaceArgs(a[1]), false))
	}
	intr["fmt.Fprintln"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.writeTo(fr, a[0], m.sprint(fr, ifaceArgs(a[1]), true))
	}

	// ---- sort ----
	intr["sort.Slice"] = func(m *Machine, fr *frame, a []Value) Value { m.sortSlice(fr, a[0], a[1]); return Value{} }
	intr["sort.SliceStable"] = intr["sort.Slice"]

	// RegisterService checks its types by reflection, then registers.
	intr["(*google.golang.org/grpc.Server).RegisterService"] = func(m *Machine, fr *frame, a []Value) Value {
		ti := m.ld.tinfo(m.ld.pkgType("google.golang.org/grpc", "Server"))
		f := m.ld.prog.LookupMethod(types.NewPointer(ti.t), m.ld.pkgs["google.golang.org/grpc"].Pkg, "register")
		if f == nil {
			panic(m.unsup("RegisterService"))
		}
		return m.callFn(f, a, nil, fr)
	}

	// ---- time ----
	mkTime := func(m *Machine) Value {
		m.nowExtra = m.extra
		t := startWall.Add(time.Duration(m.now))
		// wall encoding without monotonic reading; UTC location pointer is nil
		sec := uint64(t.Unix() + 62135596800)
		return aggVal([]Value{{n: uint64(t.Nanosecond())}, {n: sec}, {}})
	}
	intr["time.Now"] = func(m *Machine, fr *frame, a []Value) Value { return mkTime(m) }
	intr["time.Since"] = func(m *Machine, fr *frame, a []Value) Value {
		c := cellsOf(a[0], 3)
		if m.extra != m.nowExtra {
			panic(m.unsup("time.Since after a symbolic delay"))
		}
		if c[0].r != nil || c[1].r != nil {
			panic(m.unsup("time.Since of a symbolic time"))
		}
		return Value{n: uint64(m.now) + uint64(startWall.Unix()+62135596800)*1e9 - (c[1].n*1e9 + c[0].n&(1<<30-1))}
	}
	intr["time.Until"] = func(m *Machine, fr *frame, a []Value) Value {
		return Value{n: -intr["time.Since"](m, fr, a).n}
	}
	intr["time.runtimeNano"] = func(m *Machine, fr *frame, a []Value) Value { return Value{n: uint64(m.now) + 1} }
	intr["time.Sleep"] = func(m *Machine, fr *frame, a []Value) Value { m.sleepFor(a[0]); return Value{} }
	timerObj := func(m *Machine, name string, dv Value, period bool, f func(m *Machine)) Value {
		ti := m.ld.tinfo(m.ld.pkgType("time", name))
		obj := m.newAgg(ti.size)
		m.nextChan++
		ch := &ChanV{id: m.nextChan, cap: 1}
		if f == nil {
			obj.cells[0] = Value{r: ch}
			f = func(m *Machine) {
				if len(ch.buf) == 0 || ch.hasRecv() {
					m.try(&selCase{ch: ch, send: true, val: mkTime(m)})
				}
			}
		}
		d, extra := m.delay(dv)
		t := m.addTimer(d, f)
		t.extra = extra
		if period {
			t.period = d
		}
		m.aux[obj] = t
		return Value{r: obj}
	}
	intr["time.NewTimer"] = func(m *Machine, fr *frame, a []Value) Value {
		return timerObj(m, "Timer", a[0], false, nil)
	}
	intr["time.NewTicker"] = func(m *Machine, fr *frame, a []Value) Value {
		d := int64(m.concInt(a[0], 64))
		if d <= 0 {
			panic(&ipanic{val: m.errVal("non-positive interval for NewTicker"), msg: "non-positive interval for NewTicker", where: m.where()})
		}
		return timerObj(m, "Ticker", Value{n: uint64(d)}, true, nil)
	}
	intr["time.After"] = func(m *Machine, fr *frame, a []Value) Value {
		p := timerObj(m, "Timer", a[0], false, nil)
		return p.r.(*Agg).cells[0]
	}
	intr["time.Tick"] = func(m *Machine, fr *frame, a []Value) Value {
		p := timerObj(m, "Ticker", Value{n: m.concInt(a[0], 64)}, true, nil)
		return p.r.(*Agg).cells[0]
	}
	intr["time.AfterFunc"] = func(m *Machine, fr *frame, a []Value) Value {
		cl := a[1].r.(*Closure)
		return timerObj(m, "Timer", a[0], false, func(m *Machine) {
			m.newG("time.AfterFunc", func(m *Machine) { m.callClosure(cl, nil, nil) })
		})
	}
	stop := func(m *Machine, fr *frame, a []Value) Value {
		t, _ := m.aux[a[0].r].(*vtimer)
		if t == nil {
			return Value{}
		}
		was := t.active
		t.active = false
		if ch, ok := a[0].r.(*Agg).cells[0].r.(*ChanV); ok {
			if len(ch.buf) > 0 {
				was = true
			}
			ch.buf = nil
		}
		return bval(was)
	}
	intr["(*time.Timer).Stop"] = stop
	intr["(*time.Ticker).Stop"] = stop
	reset := func(m *Machine, fr *frame, a []Value) Value {
		t, _ := m.aux[a[0].r].(*vtimer)
		if t == nil {
			panic(m.unsup("reset of unknown timer"))
		}
		was := t.active
		d := int64(m.concInt(a[1], 64))
		t.active = false
		n := m.addTimer(d, t.f)
		if t.period > 0 {
			n.period = d
		}
		m.aux[a[0].r] = n
		if ch, ok := a[0].r.(*Agg).cells[0].r.(*ChanV); ok {
			ch.buf = nil
		}
		return bval(was)
	}
	intr["(*time.Timer).Reset"] = reset
	intr["(*time.Ticker).Reset"] = reset

	initSync()
	initCrypto()
	initIO()
	initStd()
}

func (m *Machine) eqCells(x, y []Value) *Expr {
	if len(x) != len(y) {
		return m.ctx.False
	}
	if m.zeroHash(x, y) || m.zeroHash(y, x) {
		return m.ctx.False
	}
	r := m.ctx.True
	for i := 0; i < len(x); i++ {
		if x[i] == y[i] {
			continue
		}
		if i%8 == 0 && i+8 <= len(x) && isUFByte(x[i]) && isUFByte(y[i]) {
			n := len(x) &^ 7
			r = m.ctx.And(r, m.eqWords(m.words(x[i:n]), m.words(y[i:n])))
			i = n - 1
			continue
		}
		r = m.ctx.And(r, m.known(m.ctx.Eq(m.ex(x[i], 8), m.ex(y[i], 8))))
		if r == m.ctx.False {
			return r
		}
	}
	return r
}

// zeroHash tells whether h is the whole result of an injective function and z
// is all zeros: nobody knows a preimage of zero.
func (m *Machine) zeroHash(h, z []Value) bool {
	if len(h) < 32 || len(h)%8 != 0 || !isUFByte(h[0]) {
		return false
	}
	for i := range h {
		if e := m.ex(z[i], 8); !e.isConst() || e.k != 0 {
			return false
		}
	}
	w := m.words(h)
	return wholeGroup(w) == len(w)
}

// known replaces a condition on one byte that the byte's remaining values decide.
func (m *Machine) known(e *Expr) *Expr {
	if e.isConst() {
		return e
	}
	ts, x := m.truthSet(e)
	if ts == nil {
		return e
	}
	d, ok := m.dom[x]
	if !ok {
		d = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		if w := m.ctx.byID(x).w; w < 8 {
			n := uint(1) << w
			if w == 0 {
				n = 2
			}
			d = [4]uint64{}
			for v := uint(0); v < n; v++ {
				d[v/64] |= 1 << (v % 64)
			}
		}
	}
	all, none := true, true
	for i := range d {
		all = all && d[i]&^ts[i] == 0
		none = none && d[i]&ts[i] == 0
	}
	switch {
	case none:
		return m.ctx.False
	case all:
		return m.ctx.True
	}
	return e
}

func isUFByte(v Value) bool {
	e, ok := v.r.(*Expr)
	return ok && e.op == OExtract && e.args[0].op == OUF && e.args[0].grp.inj
}

// eqWords compares word sequences. Two whole results of an injective function
// are equal exactly when its arguments are.
func (m *Machine) eqWords(x, y []*Expr) *Expr {
	c := m.ctx
	r := c.True
	for i := 0; i < len(x); i++ {
		a, b := x[i], y[i]
		if a == b {
			continue
		}
		if n := wholeGroup(x[i:]); n > 0 && n == wholeGroup(y[i:]) && a.grp.fam == b.grp.fam {
			if len(a.grp.args) != len(b.grp.args) {
				return c.False
			}
			r = c.And(r, m.eqWords(a.grp.args, b.grp.args))
			i += n - 1
		} else {
			r = c.And(r, c.Eq(a, b))
		}
		if r == c.False {
			return r
		}
	}
	return r
}

// wholeGroup is the number of parts when xs starts with all parts of the result
// of an injective function.
func wholeGroup(xs []*Expr) int {
	e := xs[0]
	if e.op != OUF || !e.grp.inj || len(e.grp.parts) > len(xs) {
		return 0
	}
	for i, p := range e.grp.parts {
		if xs[i] != p {
			return 0
		}
	}
	return len(e.grp.parts)
}

// hashPair reports whether both byte strings are opaque digests.
func (m *Machine) hashPair(x, y []Value) bool {
	is := func(b []Value) bool {
		if len(b) != 32 {
			return false
		}
		e, ok := b[0].r.(*Expr)
		if !ok {
			return false
		}
		for e.op == OExtract {
			e = e.args[0]
		}
		return e.op == OUF
	}
	return is(x) || is(y)
}

// digestKey places a digest in the fixed order of a mode: by creation, reversed,
// or scrambled.
func digestKey(b []Value, mode int) uint64 {
	var id uint64
	if e, ok := b[0].r.(*Expr); ok {
		for e.op == OExtract {
			e = e.args[0]
		}
		id = uint64(e.id)
	}
	switch mode {
	case 1:
		return id
	case 2:
		return ^id
	}
	h := (id + uint64(mode)) * 0x9e3779b97f4a7c15
	return h ^ h>>29
}

// settle lets every other goroutine run until nothing is runnable and no timer
// is pending within the current instant.
// settleTime is how far the clock may run while a harness waits for the code to
// come to rest (less than it waits when compiled).
const settleTime = int64(10 * 1000 * 1000)

func (m *Machine) settle() {
	me := m.cur
	until := m.now + settleTime
	if t := m.nextTimer(); len(m.runnable(me)) == 0 && (t == nil || t.extra != nil || t.when > until) {
		return
	}
	me.settle = until
	me.blocked = true
	me.on = "settle"
	m.settlers = append(m.settlers, me)
	m.dispatch(me)
}

func ifaceArgs(v Value) []Value {
	a, off, n, _ := slicePart(v)
	if n == 0 {
		return nil
	}
	return a.cells[off : off+n]
}

func (m *Machine) writeTo(fr *frame, w, s Value) Value {
	if w.r == nil {
		m.nilDeref()
	}
	i := w.r.(*Iface)
	f := m.ld.methodByName(i.t.t, "Write")
	if f == nil {
		panic(m.unsup("Fprintf to " + i.t.t.String()))
	}
	return m.callFn(f, []Value{i.v, m.newByteSlice(strBytes(s))}, nil, fr)
}

// ---- errors ----

func (m *Machine) errorsIs(fr *frame, err, target Value) bool {
	if err.r == nil || target.r == nil {
		return err.r == nil && target.r == nil
	}
	tt := m.ld.tinfo(target.r.(*Iface).t.t)
	comparable := types.Comparable(tt.t)
	for {
		e := err.r.(*Iface)
		if comparable && e.t == target.r.(*Iface).t && m.branch(m.equal(e.v, target.r.(*Iface).v, tt)) {
			return true
		}
		if f := m.ld.methodByName(e.t.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			r := m.callFn(f, []Value{e.v, target}, nil, fr)
			if m.branch(m.ex(r, 0)) {
				return true
			}
		}
		f := m.ld.methodByName(e.t.t, "Unwrap")
		if f == nil {
			return false
		}
		r := m.callFn(f, []Value{e.v}, nil, fr)
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			for _, x := range ifaceArgs(r) {
				if m.errorsIs(fr, x, target) {
					return true
				}
			}
			return false
		}
		if r.r == nil {
			return false
		}
		err = r
	}
}

func (m *Machine) errorsAs(fr *frame, err, target Value) bool {
	if err.r == nil {
		return false
	}
	ti := target.r.(*Iface)
	pt, ok := ti.t.t.Underlying().(*types.Pointer)
	if !ok {
		panic(m.unsup("errors.As target"))
	}
	et := pt.Elem()
	eti := m.ld.tinfo(et)
	for {
		e := err.r.(*Iface)
		match := false
		if it, ok := et.Underlying().(*types.Interface); ok {
			match = m.ld.implements(e.t, it)
			if match {
				m.storeMem(ti.v, err, eti)
				return true
			}
		} else if m.ld.rtype(et) == e.t {
			m.storeMem(ti.v, e.v, eti)
			return true
		}
		if f := m.ld.methodByName(e.t.t, "As"); f != nil && f.Signature.Params().Len() == 1 {
			r := m.callFn(f, []Value{e.v, target}, nil, fr)
			if m.branch(m.ex(r, 0)) {
				return true
			}
		}
		f := m.ld.methodByName(e.t.t, "Unwrap")
		if f == nil {
			return false
		}
		r := m.callFn(f, []Value{e.v}, nil, fr)
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			for _, x := range ifaceArgs(r) {
				if m.errorsAs(fr, x, target) {
					return true
				}
			}
			return false
		}
		if r.r == nil {
			return false
		}
		err = r
	}
}

func (m *Machine) errorf(fr *frame, a []Value) Value {
	format := m.mustStr(a[0])
	args := ifaceArgs(a[1])
	var wrapped []Value
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(args) && args[ai].r != nil {
			if m.ld.methodByName(args[ai].r.(*Iface).t.t, "Error") != nil {
				wrapped = append(wrapped, args[ai])
			}
		}
		ai++
	}
	msg := m.sprintf(fr, strings.ReplaceAll(format, "%w", "%v"), args)
	switch len(wrapped) {
	case 0:
		t := m.ld.pkgType("errors", "errorString")
		o := m.newAgg(1)
		o.cells[0] = msg
		return Value{r: &Iface{t: m.ld.rtype(types.NewPointer(t)), v: Value{r: o}}}
	case 1:
		t := m.ld.pkgType("fmt", "wrapError")
		o := m.newAgg(2)
		o.cells[0] = msg
		o.cells[1] = wrapped[0]
		return Value{r: &Iface{t: m.ld.rtype(types.NewPointer(t)), v: Value{r: o}}}
	}
	t := m.ld.pkgType("fmt", "wrapErrors")
	o := m.newAgg(2)
	o.cells[0] = msg
	l := m.newAgg(len(wrapped))
	copy(l.cells, wrapped)
	o.cells[1] = Value{r: &SliceV{a: l, len: len(wrapped), cap: len(wrapped)}}
	return Value{r: &Iface{t: m.ld.rtype(types.NewPointer(t)), v: Value{r: o}}}
}

// ---- formatting ----

func (m *Machine) sprintf(fr *frame, format string, args []Value) Value {
	var out []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, Value{n: uint64(s[i])})
		}
	}
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, Value{n: uint64(format[i])})
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[j]
		flags := format[i+1 : j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		out = append(out, m.formatArg(fr, args[ai], verb, flags)...)
		ai++
	}
	return symStrVal(out)
}

func lits(s string) []Value {
	out := make([]Value, len(s))
	for i := range out {
		out[i] = Value{n: uint64(s[i])}
	}
	return out
}

func (m *Machine) formatArg(fr *frame, a Value, verb byte, flags string) []Value {
	if a.r == nil {
		if verb == 'T' || verb == 'v' || verb == 's' {
			return lits("<nil>")
		}
		return lits("%!" + string(verb) + "(<nil>)")
	}
	i := a.r.(*Iface)
	if verb == 'T' {
		return lits(types.TypeString(i.t.t, func(p *types.Package) string { return p.Name() }))
	}
	if i.v.r != nil && i.t.t.String() == "time.Duration" {
		return lits("<duration>")
	}
	if strings.IndexByte("vsxXq", verb) >= 0 && flags != "#" {
		for _, name := range []string{"Error", "String"} {
			f := m.ld.methodByName(i.t.t, name)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if m.ld.tinfo(i.t.t).kind == kPtr && i.v.r == nil {
				return lits("<nil>")
			}
			s := m.callFn(f, []Value{i.v}, nil, fr)
			return m.formatStr(s, verb, flags)
		}
	}
	return m.formatVal(fr, i.v, i.t.t, verb, flags)
}

func (m *Machine) formatStr(s Value, verb byte, flags string) []Value {
	if c, ok := concStr(s); ok {
		return lits(fmt.Sprintf("%"+flags+string(verb), c))
	}
	b := strBytes(s)
	switch verb {
	case 'x', 'X':
		return m.hexCells(b)
	case 'q':
		return append(append(lits("\""), b...), lits("\"")...)
	}
	return b
}

func (m *Machine) hexCells(b []Value) []Value {
	var out []Value
	c := m.ctx
	vals := make([]uint64, 16)
	for i := range vals {
		vals[i] = uint64("0123456789abcdef"[i])
	}
	t := c.Table(vals, 8, 0)
	for _, v := range b {
		e := m.ex(v, 8)
		out = append(out, m.ev(c.Lookup(t, c.Extract(e, 4, 4))), m.ev(c.Lookup(t, c.Extract(e, 0, 4))))
	}
	return out
}

func (m *Machine) formatVal(fr *frame, v Value, t types.Type, verb byte, flags string) []Value {
	ti := m.ld.tinfo(t)
	f := "%" + flags + string(verb)
	switch ti.kind {
	case kBool:
		if v.r != nil {
			return lits("<bool>")
		}
		return lits(fmt.Sprintf(f, v.n != 0))
	case kInt:
		if v.r != nil {
			return lits("<int>")
		}
		return lits(fmt.Sprintf(f, int64(signExtend(v.n, ti.w))))
	case kUint:
		if v.r != nil {
			return lits("<uint>")
		}
		if ti.w == 8 {
			return lits(fmt.Sprintf(f, uint8(v.n)))
		}
		return lits(fmt.Sprintf(f, v.n))
	case kFloat:
		if v.r != nil {
			return lits("<float>")
		}
		return lits(fmt.Sprintf(f, math.Float64frombits(v.n)))
	case kString:
		return m.formatStr(v, verb, flags)
	case kSlice, kArray:
		var et *tinfo
		var cells []Value
		n := 0
		if ti.kind == kSlice {
			et = m.ld.elemInfo(ti)
			a, off, k, _ := slicePart(v)
			n = k
			if k > 0 {
				cells = a.cells[off : off+k*et.size]
			}
		} else {
			et, n = ti.elem, ti.alen
			cells = cellsOf(v, ti.size)
		}
		if et.kind == kUint && et.w == 8 && strings.IndexByte("xXs", verb) >= 0 {
			if b, ok := concBytes(cells[:n]); ok {
				return lits(fmt.Sprintf(f, b))
			}
			if verb == 's' {
				return cells
			}
			return m.hexCells(cells)
		}
		out := lits("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(out, lits(" ")...)
			}
			x := cellVal(cells, i*et.size, et)
			if et.kind == kIface {
				out = append(out, m.formatArg(fr, x, verb, flags)...)
			} else {
				out = append(out, m.formatArg(fr, Value{r: &Iface{t: m.ld.rtype(et.t), v: x}}, verb, flags)...)
			}
		}
		return append(out, lits("]")...)
	case kPtr:
		if v.r == nil {
			return lits("<nil>")
		}
		return lits("0xc000000000")
	case kStruct:
		return lits("{" + types.TypeString(t, func(p *types.Package) string { return p.Name() }) + "}")
	}
	return lits("(" + types.TypeString(t, func(p *types.Package) string { return p.Name() }) + ")")
}

func (m *Machine) sprint(fr *frame, args []Value, ln bool) Value {
	var out []Value
	for i, a := range args {
		if i > 0 {
			out = append(out, lits(" ")...)
		}
		out = append(out, m.formatArg(fr, a, 'v', "")...)
	}
	if ln {
		out = append(out, lits("\n")...)
	}
	return symStrVal(out)
}

func (m *Machine) showIface(v Value) string {
	b := m.formatArg(nil, v, 'v', "")
	s := make([]byte, len(b))
	for i, x := range b {
		if x.r != nil {
			s[i] = '?'
		} else {
			s[i] = byte(x.n)
		}
	}
	return string(s)
}

// ---- sort ----

func (m *Machine) sortSlice(fr *frame, x, less Value) {
	i := x.r.(*Iface)
	et := m.ld.elemInfo(m.ld.tinfo(i.t.t))
	a, off, n, _ := slicePart(i.v)
	cl := less.r.(*Closure)
	es := et.size
	swap := func(p, q int) {
		m.touch(a, off, n*es)
		for k := 0; k < es; k++ {
			a.cells[off+p*es+k], a.cells[off+q*es+k] = a.cells[off+q*es+k], a.cells[off+p*es+k]
		}
	}
	for p := 1; p < n; p++ {
		for q := p; q > 0; q-- {
			r := m.callClosure(cl, []Value{{n: uint64(q)}, {n: uint64(q - 1)}}, fr)
			if !m.branch(m.ex(r, 0)) {
				break
			}
			swap(q, q-1)
		}
	}
}

// initIO: (*io.LimitedReader).Read with a symbolic limit over an in-memory
// reader. A limit at or above what the reader still holds reads the same bytes
// whatever its value, so only limits inside the data are made concrete.
func initIO() {
	intr["(*io.LimitedReader).Read"] = func(m *Machine, fr *frame, a []Value) Value {
		l := a[0].r.(*Agg)
		base := int(a[0].n)
		r, nv := l.cells[base], l.cells[base+1]
		c := m.ctx
		ne := m.ex(nv, 64)
		eof := func() Value { return tuple(Value{}, m.globalErr("io", "EOF")) }
		if m.branch(c.Sle(ne, c.Const(64, 0))) {
			return eof()
		}
		pa, off, pn, pc := slicePart(a[1])
		take := pn
		if nv.r != nil {
			if rem := m.remaining(r); rem >= 0 {
				lim := min(pn, max(rem, 1))
				if m.branch(c.Ule(c.Const(64, uint64(lim)), ne)) {
					take = lim
				} else {
					take = int(m.concretize(ne))
				}
			} else if m.branch(c.Ult(ne, c.Const(64, uint64(pn)))) {
				take = int(m.concretize(ne))
			}
		} else if int64(nv.n) < int64(pn) {
			take = int(nv.n)
		}
		p := a[1]
		if take != pn {
			p = Value{r: &SliceV{a: pa, off: off, len: take, cap: pc}}
		}
		if r.r == nil {
			m.nilDeref()
		}
		i := r.r.(*Iface)
		f := m.ld.methodByName(i.t.t, "Read")
		if f == nil {
			panic(m.unsup("Read of " + i.t.t.String()))
		}
		res := m.callFn(f, []Value{i.v, p}, nil, fr)
		n := res.r.([]Value)[0]
		m.touch(l, base+1, 1)
		l.cells[base+1] = m.ev(c.Sub(ne, m.ex(n, 64)))
		return res
	}
}

// remaining is the number of unread bytes of an in-memory reader, or -1.
func (m *Machine) remaining(r Value) int {
	i, ok := r.r.(*Iface)
	if !ok || i.v.r == nil {
		return -1
	}
	a, ok := i.v.r.(*Agg)
	if !ok {
		return -1
	}
	switch i.t.t.String() {
	case "*bytes.Reader", "*bytes.Buffer":
		s, off := a.cells[i.v.n], a.cells[i.v.n+1]
		_, _, n, _ := slicePart(s)
		if off.r != nil {
			return -1
		}
		return max(0, n-int(off.n))
	case "*io.LimitedReader":
		in := m.remaining(a.cells[i.v.n])
		if in < 0 {
			return -1
		}
		if lim := a.cells[i.v.n+1]; lim.r == nil {
			return min(in, int(lim.n))
		}
		return in
	}
	return -1
}
