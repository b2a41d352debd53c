package main

import (
	"context"
	"sync"
	"time"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
)

// rpc is a call of one of the methods.
type rpc struct {
	*call
	kind   int
	st     *stream
	cancel func()
	expire func()
	resp   interface{}
	some   bool
}

// ending is a context that ends in either way.
type ending struct {
	context.Context
	mu   sync.Mutex
	err  error
	done chan struct{}
}

func (c *ending) Done() <-chan struct{} { return c.done }

func (c *ending) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ending) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}

const (
	callSend = iota
	callDecode
	callRoute
	callSubscribe
	calls
)

// begin calls a method, in a way that can succeed unless it is malformed.
func begin(s *rpcserver.Server, kind int, malformed bool) *rpc {
	r := &rpc{kind: kind}
	ctx := &ending{Context: context.Background(), done: make(chan struct{})}
	r.cancel = func() { ctx.end(context.Canceled) }
	r.expire = func() { ctx.end(context.DeadlineExceeded) }
	switch kind {
	case callSend:
		req := &offersrpc.SendOnionMessageRequest{
			Pubkey: hlib.Priv(target).PubKey().SerializeCompressed(), DirectConnect: true,
			FinalPayloads: map[uint64][]byte{101: {1}},
		}
		if malformed {
			req.Pubkey = nil
		}
		r.call = start(func() error {
			resp, err := s.SendOnionMessage(ctx, req)
			r.some = resp != nil
			return err
		})
	case callDecode:
		r.call = start(func() error {
			// Without a description, even a readable offer is refused.
			resp, err := s.DecodeOffer(ctx, &offersrpc.DecodeOfferRequest{})
			r.some = resp != nil
			return err
		})
	case callRoute:
		req := &offersrpc.GenerateBlindedRouteRequest{}
		if malformed {
			req.Features = []uint64{1 << 16}
		}
		r.call = start(func() error {
			resp, err := s.GenerateBlindedRoute(ctx, req)
			r.some = resp != nil
			return err
		})
	case callSubscribe:
		r.st = newStream()
		r.st.ctx = ctx
		t := uint64(subType)
		if malformed {
			t = 1
		}
		r.call = start(func() error {
			return s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: t}, r.st)
		})
	}
	return r
}

// waits checks that a call has neither returned nor done anything.
func (r *rpc) waits(n *lnd, what string) {
	sym.Assert(!r.done, what)
	sym.Assert(n.calls == 0, "lnd is not called before the server is ready")
}

// unavailable checks that a call has failed for want of a ready server.
func (r *rpc) unavailable(n *lnd) {
	sym.Assert(r.done, "a call that waits ends with its context")
	sym.Assert(!r.done || code(r.err, codes.Unavailable), "it fails as unavailable")
	sym.Assert(!r.some, "a call that fails has no response")
	sym.Assert(n.calls == 0, "lnd is not called before the server is ready")
}

// proceeds checks that a call has done what it does on a ready server.
func (r *rpc) proceeds(malformed bool) {
	if r.kind == callSubscribe && !malformed {
		sym.Assert(!r.done, "a subscription goes on")
		return
	}
	sym.Assert(r.done, "the call proceeds once the server is ready")
	switch {
	case !r.done:
	case malformed || r.kind == callDecode:
		sym.Assert(code(r.err, codes.InvalidArgument), "a malformed request is refused")
	default:
		sym.Assert(r.err == nil && r.some, "the call succeeds once the server is ready")
	}
}

func willing() *lnd {
	n := newLnd()
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	withPeer(n, onionFeature)
	return n
}

// fails prepares a start that fails.
func fails(n *lnd) {
	switch sym.Choose("fail", 3) {
	case 0:
		n.identityErr = errLnd
	case 1:
		n.identity = make([]byte, 33)
	case 2: // not on the curve
		n.identity = append([]byte{4}, n.identity[1:]...)
	}
}

// C28_Ready: calls made before the server starts.
func C28_Ready() {
	n := willing()
	s, d := server()
	kind := sym.Choose("kind", calls)
	malformed := sym.Choose("malformed", 2) == 1
	r := begin(s, kind, malformed)
	sym.Settle()
	r.waits(n, "a call waits for the server to be ready")
	sym.Idle(11 * time.Minute)
	r.waits(n, "a call waits for the server to be ready")
	sym.Assert(n.startCalls == 0, "lnd is not called before the server is started")
	gone := sym.Choose("gone", 2) == 1
	if gone {
		if sym.Choose("late", 2) == 1 {
			r.expire()
		} else {
			r.cancel()
		}
		sym.Settle()
		r.unavailable(n)
		sym.Assert(sym.Blocked() == 0, "nothing keeps running for a call that failed")
		sym.Assert(s.Start(services(n)) == nil, "the server starts")
		sym.Settle()
		sym.Assert(n.calls == 0, "a call that failed does nothing")
	} else {
		sym.Assert(s.Start(services(n)) == nil, "the server starts")
		sym.Settle()
		r.proceeds(malformed)
	}
	sym.Idle(11 * time.Minute)
	sym.Assert(len(d.errs) == 0, "no shutdown is requested")
	if kind == callSubscribe && !malformed && !gone {
		sym.Assert(!r.done, "a subscription goes on")
	}
	later := begin(s, sym.Choose("later", calls-1), false)
	sym.Settle()
	later.proceeds(false)
	sym.Assert(s.Start(services(n)) != nil, "a server starts only once")
	stops(s, d)
	sym.Assert(s.Stop() != nil, "a server stops only once")
	if kind == callSubscribe {
		sym.Assert(r.done, "a subscription ends with the server")
	}
}

// C28_FailedStart: calls made before and after a start that fails.
func C28_FailedStart() {
	n := willing()
	fails(n)
	s, d := server()
	first := sym.Choose("first", 2) == 1
	kind := sym.Choose("kind", calls)
	malformed := sym.Choose("malformed", 2) == 1
	var r *rpc
	if first {
		r = begin(s, kind, malformed)
		sym.Settle()
	}
	c := start(func() error { return s.Start(services(n)) })
	sym.Settle()
	sym.Assert(c.done, "starting does not hang")
	sym.Assert(!c.done || c.err != nil, "a start without the identity of the node fails")
	if !first {
		r = begin(s, kind, malformed)
		sym.Settle()
	}
	r.waits(n, "a call waits after a start that failed")
	// It does not start later, either.
	n.identityErr, n.identity = nil, newLnd().identity
	sym.Assert(s.Start(services(n)) != nil, "a server starts only once")
	sym.Settle()
	r.waits(n, "a call waits after a start that failed")
	stop := sym.Choose("stop", 2) == 1
	if stop {
		c = start(s.Stop)
		sym.Settle()
		sym.Assert(c.done && c.err == nil, "a server that failed to start can be stopped")
	}
	if !r.done {
		r.cancel()
		sym.Settle()
	}
	r.unavailable(n)
	if !stop {
		stops(s, d)
	}
	sym.Assert(sym.Blocked() == 0, "nothing keeps running")
	sym.Assert(s.Stop() != nil, "a server stops only once")
}

// C28_Race: a call, its end, and the start of the server, at once.
func C28_Race() {
	n := willing()
	s, d := server()
	kind := sym.Choose("kind", calls)
	failing := sym.Choose("failing", 2) == 1
	if failing {
		n.identityErr = errLnd
	}
	gone := sym.Choose("gone", 2) == 1
	sym.Preempt(2)
	if sym.Thorough() {
		sym.Preempt(3)
	}
	c := start(func() error { return s.Start(services(n)) })
	r := begin(s, kind, false)
	if gone {
		r.cancel()
	}
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(c.done && (c.err == nil) == !failing, "starting succeeds unless lnd fails")
	switch {
	case failing && !gone:
		r.waits(n, "a call waits after a start that failed")
		r.cancel()
		sym.Settle()
		r.unavailable(n)
	case failing:
		r.unavailable(n)
	case gone && kind == callSubscribe:
		sym.Assert(r.done && (code(r.err, codes.Unavailable) || code(r.err, codes.Canceled)), "a subscription ends with its client")
	case gone && r.done && code(r.err, codes.Unavailable):
		sym.Reach("gone first")
		r.unavailable(n)
	default:
		sym.Reach("ready first")
		r.proceeds(false)
	}
	stops(s, d)
	sym.Assert(r.done, "every call has ended once the server is stopped")
}

// C28_Twice: starting and stopping twice, at once or in turn.
func C28_Twice() {
	n := willing()
	s, d := server()
	ran := sym.Choose("start", 2) == 1
	which := sym.Choose("at once", 3)
	twice := func(f func() error, what string, atOnce bool) {
		if atOnce {
			sym.Preempt(2)
		}
		a := start(f)
		if !atOnce {
			sym.Settle()
		}
		b := start(f)
		sym.Settle()
		sym.Preempt(0)
		sym.Assert(a.done && b.done, what+" returns")
		sym.Assert((a.err == nil) != (b.err == nil), what+" succeeds exactly once")
	}
	var sub *call
	if ran {
		twice(func() error { return s.Start(services(n)) }, "Start", which == 1)
		sym.Assert(n.startCalls == 2, "the server is started once")
		sub = subscribe(s, subType, newStream())
		sym.Assert(!sub.done, "the server is ready")
	}
	twice(s.Stop, "Stop", which == 2)
	sym.Assert(sub == nil || sub.done && code(sub.err, codes.Aborted), "a subscription ends with the server")
	sym.Assert(!ran || n.subCtx.Err() != nil, "the messenger ends with the server")
	sym.Assert(sym.Blocked() == 0, "nothing keeps running once the server is stopped")
	sym.Assert(len(d.errs) == 0, "no shutdown is requested")
}

// C28_Stop: stopping ends what goes on, whatever lnd does.
func C28_Stop() {
	n := willing()
	s, d := server()
	if sym.Choose("buffered", 2) == 1 {
		n.msgs = make(chan lndclient.CustomMessage, 3)
	}
	trouble := sym.Choose("trouble", 5)
	if trouble == 1 {
		n.subErr = errLnd
	}
	sym.Assert(s.Start(services(n)) == nil, "the server starts")
	var subs []*call
	var sts []*stream
	for i, k := 0, sym.Choose("subs", 3); i < k; i++ {
		st := newStream()
		sts = append(sts, st)
		subs = append(subs, subscribe(s, uint64(subType+2*i), st))
	}
	switch trouble {
	case 2:
		close(n.msgs)
	case 3:
		close(n.errs)
	case 4:
		quit := make(chan struct{})
		defer close(quit)
		go func() {
			select {
			case n.errs <- errLnd:
			case <-quit:
			}
		}()
	}
	race := sym.Choose("race", 2) == 1
	if race {
		sym.Preempt(1)
		if sym.Thorough() {
			sym.Preempt(2)
		}
	} else {
		sym.Settle()
		sym.Assert(trouble == 0 || len(d.errs) == 1, "the messenger's failure is reported")
	}
	if trouble == 0 && sym.Choose("message", 2) == 1 {
		blob := message(0, subType, nil, []byte{1})
		quit := make(chan struct{})
		defer close(quit)
		go func() {
			select {
			case n.msgs <- msgOf(blob):
			case <-quit:
			}
		}()
	}
	stop := start(s.Stop)
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(stop.done, "stopping does not hang")
	sym.Assert(!stop.done || stop.err == nil, "the server can be stopped")
	for _, c := range subs {
		sym.Assert(c.done, "subscriptions end with the server")
		sym.Assert(!c.done || c.err != nil, "a subscription that is ended by the server fails")
	}
	for i := 1; i < len(sts); i++ {
		sym.Assert(len(sts[i].got) == 0, "messages go to the subscriber of their type")
	}
	sym.Assert(len(d.errs) <= 1 && (trouble != 0 || len(d.errs) == 0), "an ordinary stop requests no shutdown")
	// Calls that come late end, too.
	late := begin(s, callSubscribe, false)
	sym.Settle()
	sym.Assert(late.done, "a subscription to a server that has stopped ends")
	sym.Assert(late.done && late.err != nil, "a subscription to a server that has stopped fails")
}

// C28_Stuck: stopping does not wait for a client that takes nothing.
func C28_Stuck() {
	n := willing()
	s, d := server()
	sym.Assert(s.Start(services(n)) == nil, "the server starts")
	st := newStream()
	st.stuck = true
	c := subscribe(s, subType, st)
	msgs := sym.Choose("messages", 5)
	blobs := make([][]byte, msgs)
	for i := range blobs {
		blobs[i] = message(i, subType, nil, []byte{byte(i)})
	}
	quit := make(chan struct{})
	go func() {
		for _, b := range blobs {
			select {
			case n.msgs <- msgOf(b):
			case <-quit:
				return
			}
		}
	}()
	race := sym.Choose("race", 2) == 1
	if race {
		sym.Preempt(1)
	} else {
		sym.Settle()
	}
	stop := start(s.Stop)
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(stop.done, "stopping does not wait for a client")
	sym.Assert(!stop.done || stop.err == nil, "the server can be stopped")
	st.cancel()
	close(quit)
	sym.Settle()
	sym.Assert(c.done && c.err != nil, "subscriptions end with the server")
	sym.Assert(len(d.errs) == 0, "an ordinary stop requests no shutdown")
	sym.Assert(sym.Blocked() == 0, "nothing keeps running once the server is stopped")
}

// C28_Identity: lnd names any identity.
func C28_Identity() {
	n := willing()
	n.identity = sym.Bytes("identity", 33)
	s, d := server()
	err := s.Start(services(n))
	if parses(n.identity) {
		sym.Reach("valid")
		sym.Assert(err == nil, "the server starts")
	} else {
		sym.Reach("invalid")
		sym.Assert(err != nil, "a start without the identity of the node fails")
	}
	r := begin(s, callSubscribe, false)
	sym.Settle()
	sym.Assert(!r.done, "a subscription waits or goes on")
	r.cancel()
	sym.Settle()
	want := codes.Canceled
	if err != nil {
		want = codes.Unavailable
	}
	sym.Assert(r.done && code(r.err, want), "a call is unavailable exactly if the start failed")
	stops(s, d)
}

// C28_Waiters: several calls that wait, some of which end before the server
// starts.
func C28_Waiters() {
	n := willing()
	s, d := server()
	var all []*rpc
	k := 3
	if sym.Thorough() {
		k = 4
	}
	gone := make([]bool, k)
	for i := 0; i < k; i++ {
		kind := sym.Choose("kind", calls)
		for _, r := range all {
			if r.kind == callSubscribe && kind == callSubscribe {
				sym.Skip() // a second subscription is refused
			}
		}
		all = append(all, begin(s, kind, false))
		sym.Settle()
		gone[i] = sym.Choose("gone", 2) == 1
	}
	for i, r := range all {
		r.waits(n, "a call waits for the server to be ready")
		if gone[i] {
			r.cancel()
			sym.Settle()
			r.unavailable(n)
		}
	}
	sym.Assert(s.Start(services(n)) == nil, "the server starts")
	sym.Settle()
	for i, r := range all {
		if gone[i] {
			sym.Assert(code(r.err, codes.Unavailable), "it fails as unavailable")
		} else {
			r.proceeds(false)
		}
	}
	later := begin(s, sym.Choose("later", calls-1), false)
	sym.Settle()
	later.proceeds(false)
	stops(s, d)
	for _, r := range all {
		sym.Assert(r.done, "every call has ended once the server is stopped")
	}
}
