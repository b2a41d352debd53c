package main

import (
	"errors"
	"time"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/tlv"
)

// call runs f, which may block, and reports whether it returned and what.
type call struct {
	done bool
	err  error
}

func start(f func() error) *call {
	c := new(call)
	go func() {
		c.err = f()
		c.done = true
	}()
	return c
}

// C18_History: any history of registrations, deregistrations and messages for
// any types.
func C18_History() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	k := 3
	if sym.Thorough() {
		k = 4
	}
	type entry struct {
		typ     uint64
		handler int
	}
	var table []entry
	find := func(t uint64) int {
		for i, e := range table {
			if e.typ == t {
				return i
			}
		}
		return -1
	}
	for i := 0; i < k; i++ {
		t := sym.Uint64("type")
		op := sym.Choose("op", 3)
		at := -1
		if t >= 64 {
			at = find(t)
		}
		switch op {
		case 0:
			err := m.RegisterHandler(tlv.Type(t), b.handler(i))
			sym.Observe("register", err == nil)
			switch {
			case t < 64:
				sym.Assert(errors.Is(err, lnwire.ErrNotFinalPayload), "types below 64 are refused as such")
			case at >= 0:
				sym.Assert(errors.Is(err, onionmsg.ErrHandlerRegistered), "a second handler is refused as such")
				sym.Reach("registered twice")
			default:
				sym.Assert(err == nil, "a free type can be registered")
				table = append(table, entry{t, i})
			}
		case 1:
			err := m.DeregisterHandler(tlv.Type(t))
			sym.Observe("deregister", err == nil)
			switch {
			case t < 64:
				sym.Assert(errors.Is(err, lnwire.ErrNotFinalPayload), "types below 64 are refused as such")
			case at < 0:
				sym.Assert(errors.Is(err, onionmsg.ErrHandlerNotFound), "a missing handler is reported as such")
			default:
				sym.Assert(err == nil, "a registered type can be deregistered")
				table = append(table[:at], table[at+1:]...)
				sym.Reach("deregistered")
			}
		case 2:
			sym.Assume(t >= 64)
			before := len(b.got)
			deliver(n, msgType, toUs(sessionKey+i, hlib.PutPayload(nil, nil, finals(t, []byte{byte(i)}))))
			if at < 0 {
				sym.Assert(len(b.got) == before, "a message for a type without a handler is not delivered")
				continue
			}
			sym.Assert(len(b.got) == before+1, "a message is delivered once")
			if len(b.got) == before+1 {
				g := b.got[before]
				sym.Assert(g.handler == table[at].handler, "a message goes to the handler registered at the moment")
				sym.Assert(sym.EqBytes(g.val, []byte{byte(i)}), "the message arrives")
				sym.Reach("delivered")
			}
		}
	}
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C18_Many: any number of types, registered again and again.
func C18_Many() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	k, rounds := 70, 2
	if sym.Thorough() {
		k, rounds = 130, 4
	}
	step := []uint64{1, 256, 1 << 32}[sym.Choose("step", 3)]
	order := sym.Choose("order", 2)
	at := func(i int) tlv.Type {
		if order == 1 {
			i = k - 1 - i
		}
		return tlv.Type(64 + uint64(i)*step)
	}
	for r := 0; r < rounds; r++ {
		for i := 0; i < k; i++ {
			sym.Assert(m.RegisterHandler(at(i), b.handler(i+1000*r)) == nil, "a free type can be registered")
		}
		for i := 0; i < k; i++ {
			sym.Assert(errors.Is(m.RegisterHandler(at(i), b.handler(-1)), onionmsg.ErrHandlerRegistered), "a second handler is refused as such")
		}
		for i := 0; i < k; i += 7 {
			b.got = nil
			deliver(n, msgType, toUs(100+i+k*r, hlib.PutPayload(nil, nil, finals(uint64(at(i)), []byte{byte(i)}))))
			sym.Assert(len(b.got) == 1 && b.got[0].handler == i+1000*r, "a message goes to the handler registered at the moment")
		}
		for i := k - 1; i >= 0; i-- {
			sym.Assert(m.DeregisterHandler(at(i)) == nil, "a registered type can be deregistered")
		}
		for i := 0; i < k; i++ {
			sym.Assert(errors.Is(m.DeregisterHandler(at(i)), onionmsg.ErrHandlerNotFound), "a missing handler is reported as such")
		}
	}
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C18_Slow: a handler takes its time while others are registered and
// deregistered.
func C18_Slow() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	slow := time.Duration([]int{1500, 4000}[sym.Choose("slow", 2)]) * time.Millisecond
	busy := false
	sym.Assert(m.RegisterHandler(1000, func(*lnwire.ReplyPath, []byte, []byte) error {
		busy = true
		time.Sleep(slow)
		busy = false
		return nil
	}) == nil, "a free type can be registered")
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a free type can be registered")
	deliver(n, msgType, toUs(sessionKey, hlib.PutPayload(nil, nil, finals(uint64(1000), []byte{1}))))
	sym.Assert(busy, "the handler runs")
	t := 64 + uint64(sym.Choose("type", 2))
	register := sym.Choose("register", 2) == 1
	c := start(func() error {
		if register {
			return m.RegisterHandler(tlv.Type(t), b.handler(1))
		}
		return m.DeregisterHandler(tlv.Type(t))
	})
	time.Sleep(2 * slow)
	sym.Settle()
	sym.Assert(c.done && !busy, "the call returns")
	if !c.done {
		return
	}
	has := t == 64
	switch {
	case register && has:
		sym.Assert(errors.Is(c.err, onionmsg.ErrHandlerRegistered), "a second handler is refused as such")
	case !register && !has:
		sym.Assert(errors.Is(c.err, onionmsg.ErrHandlerNotFound), "a missing handler is reported as such")
	default:
		sym.Assert(c.err == nil, "the call succeeds")
		has = register
		sym.Reach("slow")
	}
	deliver(n, msgType, toUs(sessionKey+1, hlib.PutPayload(nil, nil, finals(t, []byte{1}))))
	if has {
		sym.Assert(len(b.got) == 1, "a message is delivered once")
	} else {
		sym.Assert(len(b.got) == 0, "a message for a type without a handler is not delivered")
	}
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C18_NotStarted: calls before the start.
func C18_NotStarted() {
	n := newNode()
	m, _ := messenger(n, ourKey)
	var b inbox
	t := sym.Uint64("type")
	var err error
	if sym.Choose("op", 2) == 0 {
		err = m.RegisterHandler(tlv.Type(t), b.handler(0))
	} else {
		err = m.DeregisterHandler(tlv.Type(t))
	}
	if t < 64 {
		sym.Assert(err != nil && (errors.Is(err, lnwire.ErrNotFinalPayload) || errors.Is(err, onionmsg.ErrNotStarted)),
			"refused as invalid or not started")
	} else {
		sym.Assert(errors.Is(err, onionmsg.ErrNotStarted), "refused as not started")
	}
	// None of it has an effect later.
	sym.Assert(m.Start() == nil, "the messenger starts")
	if t >= 64 {
		sym.Assert(m.RegisterHandler(tlv.Type(t), b.handler(1)) == nil, "a free type can be registered")
	}
	sym.Assert(m.Stop() == nil, "the messenger stops")
}

// C18_Concurrent: two callers at once.
func C18_Concurrent() {
	sym.Preempt(2)
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	kind := sym.Choose("kind", 4)
	if kind == 1 || kind == 2 {
		sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a free type can be registered")
	}
	var c1, c2 *call
	reg := func(i int) func() error {
		return func() error { return m.RegisterHandler(64, b.handler(i)) }
	}
	dereg := func() error { return m.DeregisterHandler(64) }
	switch kind {
	case 0: // register twice
		c1, c2 = start(reg(1)), start(reg(2))
	case 1: // deregister twice
		c1, c2 = start(dereg), start(dereg)
	case 2: // replace
		c1, c2 = start(dereg), start(reg(2))
	case 3: // register and deregister
		c1, c2 = start(reg(1)), start(dereg)
	}
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(c1.done && c2.done, "both calls return")
	owner := -1
	switch kind {
	case 0:
		sym.Assert((c1.err == nil) != (c2.err == nil), "exactly one of two registrations succeeds")
		if c1.err == nil {
			owner = 1
			sym.Assert(errors.Is(c2.err, onionmsg.ErrHandlerRegistered), "the other is refused as such")
		} else {
			owner = 2
			sym.Assert(errors.Is(c1.err, onionmsg.ErrHandlerRegistered), "the other is refused as such")
			sym.Reach("second first")
		}
	case 1:
		sym.Assert((c1.err == nil) != (c2.err == nil), "exactly one of two deregistrations succeeds")
		if c1.err == nil {
			sym.Assert(errors.Is(c2.err, onionmsg.ErrHandlerNotFound), "the other is refused as such")
		} else {
			sym.Assert(errors.Is(c1.err, onionmsg.ErrHandlerNotFound), "the other is refused as such")
		}
	case 2:
		sym.Assert(c1.err == nil, "a registered type can be deregistered")
		if c2.err == nil {
			owner = 2
		} else {
			sym.Assert(errors.Is(c2.err, onionmsg.ErrHandlerRegistered), "a second handler is refused as such")
		}
	case 3:
		sym.Assert(c1.err == nil, "a free type can be registered")
		if c2.err != nil {
			owner = 1
			sym.Assert(errors.Is(c2.err, onionmsg.ErrHandlerNotFound), "a missing handler is reported as such")
		}
	}
	deliver(n, msgType, toUs(sessionKey, hlib.PutPayload(nil, nil, finals(uint64(64), []byte{1}))))
	if owner < 0 {
		sym.Assert(len(b.got) == 0, "nobody receives the message")
	} else {
		sym.Assert(len(b.got) == 1 && b.got[0].handler == owner, "the registered handler receives the message")
	}
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C18_Shutdown: calls during and after the shutdown return.
func C18_Shutdown() {
	n := newNode()
	m, _ := started(n, ourKey)
	var b inbox
	had := sym.Choose("had", 2) == 1
	if had {
		sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a free type can be registered")
	}
	f := func() error { return m.RegisterHandler(64, b.handler(1)) }
	if sym.Choose("op", 2) == 1 {
		f = func() error { return m.DeregisterHandler(64) }
	}
	switch sym.Choose("when", 3) {
	case 0: // concurrently
		sym.Preempt(2)
		c := start(f)
		stop := start(m.Stop)
		sym.Settle()
		sym.Preempt(0)
		sym.Assert(stop.done && stop.err == nil, "the messenger stops")
		sym.Assert(c.done, "a call concurrent with the shutdown returns")
		if errors.Is(c.err, onionmsg.ErrShuttingDown) {
			sym.Reach("shutting down")
		} else {
			sym.Assert(c.err == nil || errors.Is(c.err, onionmsg.ErrHandlerRegistered) ||
				errors.Is(c.err, onionmsg.ErrHandlerNotFound), "a call concurrent with the shutdown is answered")
			sym.Reach("answered")
		}
	case 1: // afterwards
		sym.Assert(m.Stop() == nil, "the messenger stops")
		c := start(f)
		sym.Settle()
		sym.Assert(c.done && errors.Is(c.err, onionmsg.ErrShuttingDown), "a call after the shutdown is refused as such")
	case 2: // after lnd went away
		if sym.Choose("stream", 2) == 0 {
			close(n.msgs)
		} else {
			n.errs <- errLnd
		}
		sym.Settle()
		c := start(f)
		sym.Settle()
		sym.Assert(m.Stop() == nil, "the messenger stops")
		sym.Settle()
		sym.Assert(c.done && errors.Is(c.err, onionmsg.ErrShuttingDown), "a call is released by the shutdown")
	}
	// Calls keep being refused.
	c := start(f)
	sym.Settle()
	sym.Assert(c.done && errors.Is(c.err, onionmsg.ErrShuttingDown), "a call after the shutdown is refused as such")
}
