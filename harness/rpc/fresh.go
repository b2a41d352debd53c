package main

import (
	"context"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
)

// fresh holds the keys seen.
type fresh map[string]bool

// own checks that a public key has not been seen, whatever its parity.
func (f fresh) own(k []byte, why string) {
	if len(k) != 33 {
		sym.Fail("a key is returned")
	}
	sym.Assert(!f[string(k[1:])], why)
	f[string(k[1:])] = true
}

// message sends one message and looks at its keys.
func (f fresh) message(n *lnd, s *rpcserver.Server) {
	n.sent = nil
	to := target + sym.Choose("target", 2)
	fail := sym.Choose("fail", 2) == 1
	n.sendErr = nil
	if fail {
		n.sendErr = errLnd
	}
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}, {Pubkey: vertex(target + 1)}}
	req := &offersrpc.SendOnionMessageRequest{
		Pubkey: hlib.Priv(to).PubKey().SerializeCompressed(), FinalPayloads: map[uint64][]byte{101: {1}},
	}
	switch sym.Choose("how", 3) {
	case 0:
		req.DirectConnect = true
	case 1:
		n.route = routeVia(to)
	case 2:
		n.route = routeVia(target+2, to)
	}
	_, err := s.SendOnionMessage(context.Background(), req)
	sym.Assert((err != nil) == fail, "a message can be sent")
	if len(n.sent) != 1 || len(n.sent[0].Data) != 33+2+1366 {
		sym.Fail("one message is sent")
	}
	d := n.sent[0].Data
	f.own(d[:33], "each message has a blinding point of its own")
	f.own(d[36:69], "each message has a session key of its own")
}

// route generates one route and looks at its keys.
func (f fresh) route(n *lnd, s *rpcserver.Server) {
	fail := sym.Choose("fail", 2) == 1
	if n.channelsErr = nil; fail {
		n.channelsErr = errLnd
	}
	resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{})
	sym.Assert((err != nil) == fail, "a route can be made")
	if fail || err != nil {
		return
	}
	checkRoute(resp.Route)
	f.own(resp.Route.BlindingPoint, "each route has a blinding point of its own")
	for _, h := range resp.Route.Hops {
		f.own(h.BlindedNodeId, "each route has blinded nodes of its own")
	}
}

// C32_Sequence: any sequence of messages and routes.
func C32_Sequence() {
	n := newLnd()
	s, _ := started(n)
	withPeer(n, onionFeature)
	f := fresh{}
	k := 3
	if sym.Thorough() {
		k = 4
	}
	for i := 0; i < k; i++ {
		if sym.Choose("what", 2) == 0 {
			f.message(n, s)
		} else {
			f.route(n, s)
		}
	}
}

// C32_Blinded: messages to the same blinded destination. A message that goes
// straight to it has the blinding point of the destination.
func C32_Blinded() {
	n := newLnd()
	s, _ := started(n)
	f := fresh{}
	dest := &offersrpc.BlindedPath{
		IntroductionNode: hlib.Priv(target).PubKey().SerializeCompressed(),
		BlindingPoint:    hlib.Priv(50).PubKey().SerializeCompressed(),
	}
	hops := 1 + sym.Choose("hops", 2)
	for i := 0; i < hops; i++ {
		dest.Hops = append(dest.Hops, &offersrpc.BlindedHop{
			BlindedNodeId: hlib.Priv(51 + i).PubKey().SerializeCompressed(), EncryptedData: sym.Bytes("data", 20),
		})
	}
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	n.route = routeVia(target+2, target)
	for i := 0; i < 3; i++ {
		n.sent = nil
		direct := sym.Choose("direct", 2) == 1
		_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
			BlindedDestination: dest, DirectConnect: direct, FinalPayloads: map[uint64][]byte{101: {1}},
		})
		sym.Assert(err == nil, "a message can be sent")
		if len(n.sent) != 1 || len(n.sent[0].Data) != 33+2+1366 {
			sym.Fail("one message is sent")
		}
		d := n.sent[0].Data
		if !direct {
			f.own(d[:33], "each message has a blinding point of its own")
		}
		f.own(d[36:69], "each message has a session key of its own")
	}
}

// C32_Many: nothing changes after many of them.
func C32_Many() {
	n := newLnd()
	s, _ := started(n)
	withPeer(n, onionFeature)
	f := fresh{}
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	k := 20
	if sym.Thorough() {
		k = 60
	}
	req := &offersrpc.SendOnionMessageRequest{
		Pubkey: hlib.Priv(target).PubKey().SerializeCompressed(), FinalPayloads: map[uint64][]byte{101: {1}}, DirectConnect: true,
	}
	for i := 0; i < k; i++ {
		n.sent = nil
		_, err := s.SendOnionMessage(context.Background(), req)
		if err != nil || len(n.sent) != 1 || len(n.sent[0].Data) != 33+2+1366 {
			sym.Fail("one message is sent")
		}
		f.own(n.sent[0].Data[:33], "each message has a blinding point of its own")
		f.own(n.sent[0].Data[36:69], "each message has a session key of its own")
		resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{})
		if err != nil {
			sym.Fail("a route can be made")
		}
		f.own(resp.Route.BlindingPoint, "each route has a blinding point of its own")
		for _, h := range resp.Route.Hops {
			f.own(h.BlindedNodeId, "each route has blinded nodes of its own")
		}
	}
}

// C32_Restart: nor are keys used again by another server.
func C32_Restart() {
	f := fresh{}
	for i := 0; i < 2; i++ {
		n := newLnd()
		s, _ := started(n)
		withPeer(n, onionFeature)
		f.message(n, s)
		f.route(n, s)
		if err := s.Stop(); err != nil {
			sym.Fail("a server stops")
		}
	}
}

// C32_Concurrent: nor by requests at the same time.
func C32_Concurrent() {
	n := newLnd()
	s, _ := started(n)
	withPeer(n, onionFeature)
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	f := fresh{}
	what := sym.Choose("what", 2)
	routes := make([]*offersrpc.BlindedPath, 2)
	for i := 0; i < 2; i++ {
		i := i
		c := func() error {
			if i == 0 && what == 0 || what == 1 {
				resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{})
				if err == nil {
					routes[i] = resp.Route
				}
				return err
			}
			_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
				Pubkey: hlib.Priv(target).PubKey().SerializeCompressed(), FinalPayloads: map[uint64][]byte{101: {1}}, DirectConnect: true,
			})
			return err
		}
		done := start(c)
		if i == 1 {
			sym.Settle()
			sym.Assert(done.done && done.err == nil, "requests are served")
		}
	}
	for _, m := range n.sent {
		f.own(m.Data[:33], "each message has a blinding point of its own")
		f.own(m.Data[36:69], "each message has a session key of its own")
	}
	for _, r := range routes {
		if r != nil {
			f.own(r.BlindingPoint, "each route has a blinding point of its own")
			for _, h := range r.Hops {
				f.own(h.BlindedNodeId, "each route has blinded nodes of its own")
			}
		}
	}
}
