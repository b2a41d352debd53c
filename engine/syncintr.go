package main

func key(v Value) waitKey { return waitKey{v.r.(*Agg), v.n} }

// rkey is the clock of a lock's readers.
func rkey(v Value) waitKey { k := key(v); k.i += 1 << 41; return k }

func initSync() {
	cell := func(v Value, k int) *Value { return &v.r.(*Agg).cells[int(v.n)+k] }
	set := func(m *Machine, v Value, k int, n uint64) {
		m.touch(v.r.(*Agg), int(v.n)+k, 1)
		cell(v, k).n = n
	}
	lock := func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r == nil {
			m.nilDeref()
		}
		m.yield("lock")
		for cell(a[0], 0).n != 0 {
			m.waitOn(key(a[0]), "mutex"+m.where())
		}
		set(m, a[0], 0, 1)
		m.acquire(key(a[0]))
		return Value{}
	}
	unlock := func(m *Machine, fr *frame, a []Value) Value {
		if cell(a[0], 0).n == 0 {
			m.violation("fatal error: sync: unlock of unlocked mutex" + m.where())
			panic(&pathEnd{kind: "violation", msg: "unlock of unlocked mutex"})
		}
		set(m, a[0], 0, 0)
		m.release(key(a[0]))
		m.wakeAll(key(a[0]))
		m.yield("unlock")
		return Value{}
	}
	intr["(*sync.Mutex).Lock"] = lock
	intr["(*sync.Mutex).Unlock"] = unlock
	intr["(*sync.Mutex).TryLock"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("trylock")
		if cell(a[0], 0).n != 0 {
			return Value{}
		}
		set(m, a[0], 0, 1)
		m.acquire(key(a[0]))
		return Value{n: 1}
	}
	// RWMutex: cell 0 writer flag, cell 1 reader count
	intr["(*sync.RWMutex).Lock"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("lock")
		for cell(a[0], 0).n != 0 || cell(a[0], 1).n != 0 {
			m.waitOn(key(a[0]), "rwmutex"+m.where())
		}
		set(m, a[0], 0, 1)
		m.acquire(key(a[0]))
		m.acquire(rkey(a[0]))
		return Value{}
	}
	intr["(*sync.RWMutex).Unlock"] = unlock
	intr["(*sync.RWMutex).RLock"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("rlock")
		for cell(a[0], 0).n != 0 {
			m.waitOn(key(a[0]), "rwmutex"+m.where())
		}
		set(m, a[0], 1, cell(a[0], 1).n+1)
		m.acquire(key(a[0]))
		return Value{}
	}
	intr["(*sync.RWMutex).RUnlock"] = func(m *Machine, fr *frame, a []Value) Value {
		if cell(a[0], 1).n == 0 {
			m.violation("fatal error: sync: RUnlock of unlocked RWMutex")
			panic(&pathEnd{kind: "violation", msg: "RUnlock of unlocked RWMutex"})
		}
		set(m, a[0], 1, cell(a[0], 1).n-1)
		m.release(rkey(a[0]))
		m.wakeAll(key(a[0]))
		m.yield("runlock")
		return Value{}
	}
	// WaitGroup: counter in cell 0
	add := func(m *Machine, v Value, d int64) {
		n := int64(cell(v, 0).n) + d
		if n < 0 {
			panic(&ipanic{val: m.errVal("sync: negative WaitGroup counter"), msg: "sync: negative WaitGroup counter", where: m.where()})
		}
		set(m, v, 0, uint64(n))
		if n == 0 {
			m.wakeAll(key(v))
		}
	}
	intr["(*sync.WaitGroup).Add"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("wg.Add")
		add(m, a[0], int64(a[1].n))
		return Value{}
	}
	intr["(*sync.WaitGroup).Done"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("wg.Done")
		m.release(key(a[0]))
		add(m, a[0], -1)
		return Value{}
	}
	intr["(*sync.WaitGroup).Wait"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("wg.Wait")
		for cell(a[0], 0).n != 0 {
			m.waitOn(key(a[0]), "WaitGroup"+m.where())
		}
		m.acquire(key(a[0]))
		return Value{}
	}
	// Cond {noCopy, L Locker, notify, checker}: L is cell 0
	condWait := func(m *Machine, fr *frame, a []Value) Value {
		l := cell(a[0], 0).r.(*Iface)
		un := m.ld.methodByName(l.t.t, "Unlock")
		lk := m.ld.methodByName(l.t.t, "Lock")
		me := m.cur
		k := key(a[0])
		k.i += 1 << 40
		m.waitq[k] = append(m.waitq[k], me)
		m.callFn(un, []Value{l.v}, nil, fr)
		still := false
		for _, g := range m.waitq[k] {
			if g == me {
				still = true
			}
		}
		if still {
			m.block("cond")
		}
		m.callFn(lk, []Value{l.v}, nil, fr)
		return Value{}
	}
	intr["(*sync.Cond).Wait"] = condWait
	intr["(*sync.Cond).Signal"] = func(m *Machine, fr *frame, a []Value) Value {
		k := key(a[0])
		k.i += 1 << 40
		m.wakeOne(k)
		m.yield("signal")
		return Value{}
	}
	intr["(*sync.Cond).Broadcast"] = func(m *Machine, fr *frame, a []Value) Value {
		k := key(a[0])
		k.i += 1 << 40
		m.wakeAll(k)
		m.yield("broadcast")
		return Value{}
	}
	// Pool: always empty, so every Get makes a fresh object (a legal behaviour).
	intr["(*sync.Pool).Get"] = func(m *Machine, fr *frame, a []Value) Value {
		ti := m.ld.tinfo(m.ld.pkgType("sync", "Pool"))
		c := cell(a[0], ti.size-1) // New is the last field
		if c.r == nil {
			return Value{}
		}
		return m.callClosure(c.r.(*Closure), nil, fr)
	}
	intr["(*sync.Pool).Put"] = nop

	type aop struct {
		suffix string
		w      uint8
	}
	ops := []aop{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}}
	for _, o := range ops {
		o := o
		intr["sync/atomic.Load"+o.suffix] = func(m *Machine, fr *frame, a []Value) Value {
			if a[0].r == nil {
				m.nilDeref()
			}
			m.acquire(key(a[0]))
			return *cell(a[0], 0)
		}
		store := func(m *Machine, p, v Value) {
			if p.r == nil {
				m.nilDeref()
			}
			m.touch(p.r.(*Agg), int(p.n), 1)
			m.acqrel(key(p))
			*cell(p, 0) = v
		}
		intr["sync/atomic.Store"+o.suffix] = func(m *Machine, fr *frame, a []Value) Value {
			m.yield("atomic store")
			store(m, a[0], a[1])
			return Value{}
		}
		intr["sync/atomic.Swap"+o.suffix] = func(m *Machine, fr *frame, a []Value) Value {
			m.yield("atomic swap")
			if a[0].r == nil {
				m.nilDeref()
			}
			old := *cell(a[0], 0)
			store(m, a[0], a[1])
			return old
		}
		intr["sync/atomic.CompareAndSwap"+o.suffix] = func(m *Machine, fr *frame, a []Value) Value {
			m.yield("atomic cas")
			if a[0].r == nil {
				m.nilDeref()
			}
			old := *cell(a[0], 0)
			eq := old == a[1]
			if !eq && o.w != 0 && (isSym(old) || isSym(a[1])) {
				eq = m.branch(m.ctx.Eq(m.ex(old, o.w), m.ex(a[1], o.w)))
			}
			if eq {
				store(m, a[0], a[2])
			} else {
				m.acquire(key(a[0]))
			}
			return bval(eq)
		}
		if o.w != 0 {
			intr["sync/atomic.Add"+o.suffix] = func(m *Machine, fr *frame, a []Value) Value {
				m.yield("atomic add")
				if a[0].r == nil {
					m.nilDeref()
				}
				old := *cell(a[0], 0)
				var v Value
				if old.r == nil && a[1].r == nil {
					v = Value{n: (old.n + a[1].n) & mask(o.w)}
				} else {
					v = m.ev(m.ctx.Add(m.ex(old, o.w), m.ex(a[1], o.w)))
				}
				store(m, a[0], v)
				return v
			}
		}
	}
	intr["(*sync/atomic.Value).Load"] = func(m *Machine, fr *frame, a []Value) Value { m.acquire(key(a[0])); return *cell(a[0], 0) }
	intr["(*sync/atomic.Value).Store"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("atomic store")
		if a[1].r == nil {
			panic(&ipanic{val: m.errVal("sync/atomic: store of nil value into Value"), msg: "sync/atomic: store of nil value into Value"})
		}
		m.touch(a[0].r.(*Agg), int(a[0].n), 1)
		m.acqrel(key(a[0]))
		*cell(a[0], 0) = a[1]
		return Value{}
	}
	intr["(*sync/atomic.Value).CompareAndSwap"] = func(m *Machine, fr *frame, a []Value) Value {
		m.yield("atomic cas")
		if *cell(a[0], 0) != a[1] {
			return Value{}
		}
		m.touch(a[0].r.(*Agg), int(a[0].n), 1)
		m.acqrel(key(a[0]))
		*cell(a[0], 0) = a[2]
		return Value{n: 1}
	}
}
