package main

import (
	"errors"
	"time"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"google.golang.org/grpc/codes"
)

const subType = 101

// message is an incoming message for the type given, numbered by its session.
func message(session int, typ uint64, rp *lnwire.ReplyPath, value []byte) []byte {
	return toUs(60+session, hlib.PutPayload(rp, nil, finals(typ, value)))
}

// resubscribes checks that the type can be subscribed again and that messages
// are delivered; it leaves the server stopped.
func resubscribes(n *lnd, s *rpcserver.Server, d *shutdowns) {
	st := newStream()
	c := subscribe(s, subType, st)
	sym.Assert(!c.done, "the type can be subscribed again")
	if c.done {
		return
	}
	delivered := start(func() error {
		n.msgs <- msgOf(message(9, subType, nil, []byte{1, 2, 3}))
		return nil
	})
	sym.Settle()
	sym.Assert(delivered.done, "the messenger takes further messages")
	// A message that was on its way before may come first.
	got := len(st.got) > 0 && sym.EqBytes(st.got[len(st.got)-1].Value, []byte{1, 2, 3})
	sym.Assert(got, "messages are delivered to the new subscription")
	stops(s, d)
	sym.Assert(c.done && code(c.err, codes.Aborted), "the new subscription ends with the server")
}

// stops checks that the server can be stopped.
func stops(s *rpcserver.Server, d *shutdowns) {
	c := start(s.Stop)
	sym.Settle()
	sym.Assert(c.done, "stopping the server does not hang")
	sym.Assert(!c.done || c.err == nil, "the server can be stopped")
	sym.Assert(len(d.errs) == 0, "no shutdown is requested")
	sym.Assert(sym.Blocked() == 0, "nothing keeps running once the server is stopped")
}

// C27_Order: messages of any types, with and without reply paths, to a
// subscriber that takes its time.
func C27_Order() {
	n := newLnd()
	s, d := started(n)
	st := newStream()
	slow := sym.Choose("slow", 2) == 1
	if slow {
		st.slow = make(chan error)
	}
	c := subscribe(s, subType, st)
	k := 3
	if sym.Thorough() {
		k = 4
	}
	type msg struct {
		rp *lnwire.ReplyPath
		v  []byte
	}
	var want []msg
	waiting := 0
	for i := 0; i < k; i++ {
		m := msg{v: sym.Bytes("value", i)}
		if sym.Choose("reply", 2) == 1 {
			m.rp = &lnwire.ReplyPath{
				FirstNodeID: hlib.Priv(30 + i).PubKey(), BlindingPoint: hlib.Priv(34).PubKey(),
				Hops: []*lnwire.BlindedHop{{BlindedNodeID: hlib.Priv(35).PubKey(), EncryptedData: sym.Bytes("data", 2)}},
			}
		}
		switch sym.Choose("kind", 3) {
		case 0:
			want = append(want, m)
			waiting++
			deliver(n, msgType, message(i, subType, m.rp, m.v))
		case 1: // some other type
			deliver(n, msgType, message(i, subType+2, m.rp, m.v))
		case 2: // both
			fs := finals(uint64(subType-2), []byte{9}, uint64(subType), m.v)
			want = append(want, m)
			waiting++
			deliver(n, msgType, toUs(60+i, hlib.PutPayload(m.rp, nil, fs)))
		}
		// Let go of some, so that not more wait than can.
		if slow && waiting > 0 && (waiting > 2 || sym.Choose("go", 2) == 1) {
			st.slow <- nil
			waiting--
			sym.Settle()
		}
	}
	for ; slow && waiting > 0; waiting-- {
		st.slow <- nil
		sym.Settle()
	}
	sym.Assert(!c.done, "the subscription goes on")
	sym.Observe("got", len(st.got))
	sym.Assert(len(st.got) == len(want), "each message of the type is sent exactly once")
	for i := range st.got {
		if i < len(want) {
			sym.Assert(sym.EqBytes(st.got[i].Value, want[i].v), "messages are sent in order")
			sym.Assert(sameRPCPath(want[i].rp, st.got[i].ReplyPath), "messages are sent with their reply paths")
		}
	}
	st.slow = nil
	stops(s, d)
	sym.Assert(c.done && code(c.err, codes.Aborted), "the subscription ends with the server")
}

// C27_Idle: a long time passes between messages, or before the subscriber
// takes them.
func C27_Idle() {
	n := newLnd()
	s, d := started(n)
	st := newStream()
	slow := sym.Choose("slow", 2) == 1
	if slow {
		st.slow = make(chan error)
	}
	c := subscribe(s, subType, st)
	var want [][]byte
	k := 3
	for i := 0; i < k; i++ {
		idle := sym.Choose("idle", 2) == 1
		if idle {
			sym.Idle(11 * time.Minute)
			sym.Assert(!c.done, "the subscription goes on")
		}
		v := sym.Bytes("value", 2)
		want = append(want, v)
		n.msgs <- msgOf(message(i, subType, nil, v))
		sym.Settle()
	}
	if slow {
		sym.Assert(len(st.got) == 0, "the subscriber has not taken anything")
		for range want {
			if sym.Choose("idle", 2) == 1 {
				sym.Idle(11 * time.Minute)
			}
			sym.Assert(!c.done, "the subscription goes on")
			if c.done {
				return
			}
			st.slow <- nil
			sym.Settle()
		}
	}
	sym.Assert(len(st.got) == len(want), "each message of the type is sent exactly once")
	for i := range st.got {
		if i < len(want) {
			sym.Assert(sym.EqBytes(st.got[i].Value, want[i]), "messages are sent in order")
		}
	}
	sym.Idle(11 * time.Minute)
	sym.Assert(!c.done, "the subscription goes on")
	sym.Assert(len(d.errs) == 0, "no shutdown is requested")
	stops(s, d)
	sym.Assert(c.done && code(c.err, codes.Aborted), "the subscription ends with the server")
}

// C27_Type: any type.
func C27_Type() {
	n := newLnd()
	s, d := started(n)
	st := newStream()
	t := sym.Uint64("type")
	c := subscribe(s, t, st)
	if t < 64 {
		sym.Reach("refused")
		sym.Assert(c.done && code(c.err, codes.InvalidArgument), "a reserved type is an invalid argument")
		stops(s, d)
		return
	}
	sym.Assert(!c.done, "any other type can be subscribed")
	st.cancel()
	sym.Settle()
	sym.Assert(c.done && code(c.err, codes.Canceled), "the subscription ends with the client")
	stops(s, d)
}

// C27_End: the subscription ends at any point of a delivery.
func C27_End() {
	n := newLnd()
	s, d := started(n)
	st := newStream()
	how := sym.Choose("how", 3) // client, failing send, server
	msgs := sym.Choose("messages", 5)
	slow := sym.Choose("slow", 2) == 1
	if slow {
		st.slow = make(chan error)
	} else if how == 1 {
		st.fail = sym.Choose("fail", 4)
	}
	c := subscribe(s, subType, st)
	// Messages keep coming, whether or not they are taken.
	source := start(func() error {
		for i := 0; i < msgs; i++ {
			n.msgs <- msgOf(message(i, subType, nil, []byte{byte(i)}))
		}
		return nil
	})
	sym.Settle()
	var want error
	wantCode := codes.Canceled
	switch how {
	case 0:
		st.cancel()
		if slow && msgs > 0 {
			// The stream of a client that left is broken.
			st.slow <- errSend
			want = errSend
		}
	case 1:
		if slow {
			if msgs == 0 {
				sym.Skip()
			}
			if sym.Choose("first", 2) == 1 && msgs > 1 {
				st.slow <- nil
				sym.Settle()
			}
			st.slow <- errSend
		} else if msgs <= st.fail {
			sym.Skip()
		}
		want = errSend
	case 2:
		stop := start(s.Stop)
		sym.Settle()
		sym.Assert(stop.done || slow && msgs > 0, "stopping the server does not hang")
		if slow && msgs > 0 {
			// What is being sent when the server stops.
			close(st.slow)
		}
		sym.Settle()
		sym.Assert(stop.done && stop.err == nil, "the server can be stopped")
		wantCode = codes.Aborted
	}
	sym.Settle()
	sym.Assert(c.done, "the subscription ends")
	if !c.done {
		return
	}
	sym.Observe("got", len(st.got))
	if want != nil {
		sym.Assert(errors.Is(c.err, want) || how == 0 && code(c.err, codes.Canceled), "with the error of the stream")
	} else {
		sym.Assert(code(c.err, wantCode), "with the matching error")
	}
	for i, g := range st.got {
		sym.Assert(sym.EqBytes(g.Value, []byte{byte(i)}), "messages are sent in order, each once")
	}
	if how == 2 {
		return
	}
	sym.Assert(source.done, "the messenger does not hang")
	if source.done {
		resubscribes(n, s, d)
	}
}

// C27_Errors: any kind of error of the stream ends the subscription, with that
// error.
func C27_Errors() {
	n := newLnd()
	s, d := started(n)
	st := newStream()
	st.fail = sym.Choose("fail", 3)
	st.failure = anyError()
	c := subscribe(s, subType, st)
	for i := 0; i <= st.fail; i++ {
		sym.Assert(!c.done, "the subscription goes on")
		deliver(n, msgType, message(i, subType, nil, []byte{byte(i)}))
	}
	sym.Assert(c.done, "the subscription ends")
	if !c.done {
		return
	}
	sym.Assert(c.err != nil && errors.Is(c.err, st.failure), "with the error of the stream")
	sym.Assert(len(st.got) == st.fail, "all messages are sent before that")
	resubscribes(n, s, d)
}

// C27_Race: the end of a subscription races with messages, at any point.
func C27_Race() {
	sym.Preempt(1)
	if sym.Thorough() {
		sym.Preempt(2)
	}
	n := newLnd()
	s, d := started(n)
	st := newStream()
	how := sym.Choose("how", 3)
	if how == 1 {
		st.fail = sym.Choose("fail", 2)
	}
	c := subscribe(s, subType, st)
	msgs := 1 + sym.Choose("messages", 2)
	var blobs [][]byte
	for i := 0; i < msgs; i++ {
		blobs = append(blobs, message(i, subType, nil, []byte{byte(i)}))
	}
	if how == 1 && msgs <= st.fail {
		sym.Skip()
	}
	quit := make(chan struct{})
	go func() {
		for _, b := range blobs {
			m := msgOf(b)
			select {
			case n.msgs <- m:
			case <-quit:
			}
		}
	}()
	var stop *call
	switch how {
	case 0:
		st.cancel()
	case 2:
		stop = start(s.Stop)
	}
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(c.done, "the subscription ends")
	for i, g := range st.got {
		sym.Assert(sym.EqBytes(g.Value, []byte{byte(i)}), "messages are sent in order, each once")
	}
	switch {
	case !c.done:
		return
	case how == 0:
		sym.Assert(code(c.err, codes.Canceled), "with the matching error")
	case how == 1:
		sym.Assert(errors.Is(c.err, errSend), "with the error of the stream")
		sym.Assert(len(st.got) == st.fail, "all messages are sent before that")
	case how == 2:
		close(quit)
		sym.Settle()
		sym.Assert(code(c.err, codes.Aborted), "with the matching error")
		sym.Assert(stop.done && stop.err == nil, "the server can be stopped")
		return
	}
	resubscribes(n, s, d)
}

// C27_Second: several subscribers.
func C27_Second() {
	n := newLnd()
	s, d := started(n)
	a, b := newStream(), newStream()
	ca := subscribe(s, subType, a)
	other := sym.Choose("other", 2) == 1
	t := uint64(subType)
	if other {
		t = sym.Uint64("type")
		sym.Assume(t >= 64 && t != subType)
	}
	cb := subscribe(s, t, b)
	sym.Assert(!ca.done, "the first subscription goes on")
	if !other {
		sym.Assert(cb.done && code(cb.err, codes.Unavailable), "a second subscription to a type is refused as unavailable")
	} else {
		sym.Assert(!cb.done, "another type can be subscribed")
	}
	if sym.Choose("gone", 2) == 1 {
		b.cancel()
		sym.Settle()
		sym.Assert(cb.done, "the subscription ends with the client")
	}
	deliver(n, msgType, message(1, subType, nil, []byte{5}))
	sym.Assert(len(a.got) == 1 && len(b.got) == 0, "messages go to the subscriber of their type")
	sym.Assert(!ca.done, "the first subscription goes on")
	a.cancel()
	sym.Settle()
	sym.Assert(ca.done && code(ca.err, codes.Canceled), "the subscription ends with the client")
	b.cancel()
	sym.Settle()
	resubscribes(n, s, d)
}

// C27_Again: each message arrives as it is, whatever the ones before held.
func C27_Again() {
	n := newLnd()
	s, d := started(n)
	st := newStream()
	c := subscribe(s, subType, st)
	paths := []*lnwire.ReplyPath{nil, anyPath(1), anyPath(2), anyPath(1)}
	// The same introduction node, though another path.
	paths[2].FirstNodeID = paths[1].FirstNodeID
	k := 2
	if sym.Thorough() {
		k = 3
	}
	type sent struct {
		rp  *lnwire.ReplyPath
		val []byte
	}
	var all []sent
	for i := 0; i < k; i++ {
		m := sent{rp: paths[sym.Choose("reply", len(paths))], val: sym.Bytes("value", sym.Choose("len", 2))}
		all = append(all, m)
		deliver(n, msgType, toUs(100+i, hlib.PutPayload(m.rp, nil, finals(uint64(subType), m.val))))
	}
	sym.Assert(len(st.got) == k, "each message of the type is sent exactly once")
	if len(st.got) != k {
		return
	}
	for i, m := range all {
		sym.Assert(sym.EqBytes(st.got[i].Value, m.val), "the value arrives as sent")
		sym.Assert(sameRPCPath(m.rp, st.got[i].ReplyPath), "the reply path arrives as sent")
	}
	sym.Assert(!c.done, "the subscription goes on")
	st.cancel()
	sym.Settle()
	resubscribes(n, s, d)
}

// C27_Many: a long subscription, and many short ones.
func C27_Many() {
	n := newLnd()
	s, d := started(n)
	k := 60
	if sym.Thorough() {
		k = 100
	}
	if sym.Choose("kind", 2) == 0 {
		st, other := newStream(), newStream()
		c := subscribe(s, subType, st)
		o := subscribe(s, subType+1, other)
		for i := 0; i < k; i++ {
			v := append(sym.Bytes("value", 1), byte(i))
			typ := uint64(subType + i%3%2)
			deliver(n, msgType, message(100+i, typ, nil, v))
			to := st
			if typ != subType {
				to = other
			}
			sym.Assert(len(st.got)+len(other.got) == i+1, "each message of the type is sent exactly once")
			l := len(to.got)
			sym.Assert(l > 0 && sym.EqBytes(to.got[l-1].Value, v), "messages are sent in order")
		}
		sym.Assert(!c.done && !o.done, "the subscription goes on")
		st.cancel()
		sym.Settle()
		sym.Assert(c.done && code(c.err, codes.Canceled), "the subscription ends with the client")
		sym.Assert(!o.done, "another subscription goes on")
		deliver(n, msgType, message(100+k, subType+1, nil, []byte{7}))
		l := len(other.got)
		sym.Assert(l > 0 && sym.EqBytes(other.got[l-1].Value, []byte{7}), "another subscription goes on")
		other.cancel()
		sym.Settle()
		resubscribes(n, s, d)
		return
	}
	fails := sym.Choose("fails", 2) == 1
	for i := 0; i < k; i++ {
		st := newStream()
		if fails {
			st.fail = 1
		}
		c := subscribe(s, subType, st)
		sym.Assert(!c.done, "the type can be subscribed again")
		deliver(n, msgType, message(100+2*i, subType, nil, []byte{byte(i)}))
		sym.Assert(len(st.got) == 1 && sym.EqBytes(st.got[0].Value, []byte{byte(i)}), "each message of the type is sent exactly once")
		if fails {
			deliver(n, msgType, message(101+2*i, subType, nil, []byte{byte(i)}))
			sym.Assert(c.done && errors.Is(c.err, errSend), "with the error of the stream")
		} else {
			st.cancel()
			sym.Settle()
			sym.Assert(c.done && code(c.err, codes.Canceled), "the subscription ends with the client")
		}
	}
	stops(s, d)
}

// C27_EndOne: of two subscriptions, one ends at any point.
func C27_EndOne() {
	n := newLnd()
	s, d := started(n)
	a, b := newStream(), newStream()
	ca, cb := subscribe(s, subType, a), subscribe(s, subType+1, b)
	first := sym.Choose("first", 2)
	if sym.Choose("how", 2) == 0 {
		a.cancel()
		sym.Settle()
	} else {
		a.fail = 0
		deliver(n, msgType, message(1, subType, nil, []byte{5}))
	}
	sym.Assert(ca.done, "the subscription ends")
	sym.Assert(!cb.done, "another subscription goes on")
	if first == 1 {
		deliver(n, msgType, message(2, subType, nil, []byte{6}))
	}
	deliver(n, msgType, toUs(63, hlib.PutPayload(nil, nil, finals(uint64(subType), []byte{8}, uint64(subType+1), []byte{9}))))
	sym.Assert(len(b.got) == 1 && sym.EqBytes(b.got[0].Value, []byte{9}), "another subscription goes on")
	sym.Assert(len(a.got) == 0, "nothing is sent to a subscription that has ended")
	resubscribes(n, s, d)
	sym.Assert(cb.done && code(cb.err, codes.Aborted), "the subscription ends with the server")
}
