package main

import (
	"context"

	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc"
)

const onionType = 513

// passOn puts messages to pass on in lnd's stream and notes whether one is
// sent once stopped is set.
type passOn struct {
	stopped, late bool
	sent          int
}

func (p *passOn) put(n *lnd, k int) {
	n.msgs = make(chan lndclient.CustomMessage, k+1)
	n.onSend = func() {
		p.sent++
		p.late = p.late || p.stopped
	}
	blinding := hlib.Priv(31)
	next := hlib.Priv(2).PubKey()
	us := hlib.BlindedID(hlib.Priv(1), blinding.PubKey())
	enc := hlib.PutPayload(nil, hlib.Seal(hlib.Priv(1), blinding, hlib.RouteData(next, nil)), nil)
	for i := 0; i < k; i++ {
		n.msgs <- lndclient.CustomMessage{MsgType: onionType, Data: hlib.Message(blinding.PubKey(), hlib.Onion(hlib.Priv(40+i),
			hlib.To{Key: us, Payload: enc}, hlib.To{Key: next, Payload: []byte{1, 0}},
		))}
	}
}

// both runs the start and the stop of something in either order or at once;
// it reports the result of the start.
func both(begin, stop func() error, p *passOn) error {
	f := func() error {
		err := stop()
		p.stopped = true
		return err
	}
	var a, z *call
	switch sym.Choose("order", 3) {
	case 0:
		z = start(f)
		sym.Settle()
		a = start(begin)
	case 1:
		sym.Preempt(2)
		if sym.Thorough() {
			sym.Preempt(3)
		}
		z = start(f)
		a = start(begin)
	case 2:
		sym.Preempt(2)
		if sym.Thorough() {
			sym.Preempt(3)
		}
		a = start(begin)
		z = start(f)
	}
	sym.Settle()
	sym.Preempt(0)
	if !a.done || !z.done {
		sym.Fail("starting and stopping return")
	}
	sym.Assert(z.err == nil, "stopping succeeds")
	sym.Assert(!p.late, "no message is processed once stopping has returned")
	if p.sent > 0 {
		sym.Reach("passed on")
	}
	if a.err != nil {
		sym.Reach("refused")
	} else {
		sym.Reach("started")
	}
	return a.err
}

// nothing checks that nothing is left of what was started.
func nothing(n *lnd, asked int) {
	sym.Assert(n.subCtx == nil || n.subCtx.Err() != nil, "no subscription to lnd's messages stays open")
	sym.Assert(asked == 0, "stopping requests no shutdown")
	sym.Assert(sym.Blocked() == 0, "nothing keeps running")
}

// C33_Messenger: the messenger is stopped before or while it starts.
func C33_Messenger() {
	n := newLnd()
	var p passOn
	p.put(n, sym.Choose("messages", 3))
	asked := 0
	m := onionmsg.NewOnionMessenger(&chaincfg.Params{}, n, hlib.ECDH(hlib.Priv(1)), func(error) { asked++ })
	both(m.Start, m.Stop, &p)
	nothing(n, asked)
}

type stream struct {
	grpc.ServerStream
	ctx context.Context
}

func (s *stream) Context() context.Context                            { return s.ctx }
func (s *stream) Send(*offersrpc.SubscribeOnionPayloadResponse) error { return nil }

// C33_Server: the RPC server is stopped before or while it starts; a
// subscription may wait for it.
func C33_Server() {
	n := newLnd()
	var p passOn
	p.put(n, sym.Choose("messages", 2))
	asked := 0
	s, err := rpcserver.NewServer(func(error) { asked++ })
	sym.Assert(err == nil, "a server can be made")
	ctx, cancel := context.WithCancel(context.Background())
	var sub *call
	if sym.Choose("subscription", 2) == 1 {
		sub = start(func() error {
			return s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: 101}, &stream{ctx: ctx})
		})
		sym.Settle()
	}
	err = both(func() error {
		return s.Start(&lndclient.LndServices{Client: n, Signer: signer{}, ChainParams: &chaincfg.Params{}})
	}, s.Stop, &p)
	if sub != nil {
		sym.Assert(sub.done || err != nil, "a subscription ends with the server")
		cancel()
		sym.Settle()
		sym.Assert(sub.done && sub.err != nil, "a subscription that waits ends with its context")
	}
	cancel()
	nothing(n, asked)
}

// C33_Daemon: the daemon is stopped before or while it starts, which may take
// some attempts.
func C33_Daemon() {
	good := sym.Choose("good", 3)
	w := newWorld(func(i int) bool { return i == good })
	var p passOn
	p.put(w.n, sym.Choose("messages", 2))
	asked := 0
	b := daemon(func(c *boltnd.Config) {
		c.LNDRetires = 1
		c.RequestShutdown = func() { asked++ }
	})
	both(b.Start, b.Stop, &p)
	want := 0
	if w.attempts > good {
		want = 1
	}
	sym.Assert(w.closed == want, "each connection to lnd is closed exactly once")
	nothing(w.n, asked)
}
