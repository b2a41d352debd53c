package main

import (
	"context"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
)

const onionFeature = 39

func withPeer(n *lnd, features ...lndwire.FeatureBit) {
	n.channels = []lndclient.ChannelInfo{{PubKeyBytes: vertex(peerKey), Active: true}}
	n.features = map[route.Vertex][]lndwire.FeatureBit{vertex(peerKey): features}
}

// checkRoute checks a route from our peer to us, and returns it.
func checkRoute(r *offersrpc.BlindedPath) *lnwire.ReplyPath {
	if r == nil {
		sym.Fail("a route is returned")
	}
	peer, us := hlib.Priv(peerKey), hlib.Priv(ourKey)
	sym.Assert(sym.EqBytes(r.IntroductionNode, peer.PubKey().SerializeCompressed()), "the introduction node is our peer")
	if !parses(r.BlindingPoint) || len(r.BlindingPoint) != 33 {
		sym.Fail("the route has a blinding point")
	}
	if len(r.Hops) != 2 {
		sym.Fail("every hop is returned")
	}
	b := key(r.BlindingPoint)
	sym.Assert(sym.EqBytes(r.Hops[0].BlindedNodeId, hlib.BlindedID(peer, b).SerializeCompressed()), "the first hop is our peer")
	data, err := sphinx.DecryptBlindedData(hlib.ECDH(peer), b, r.Hops[0].EncryptedData)
	sym.Assert(err == nil, "our peer can open its data")
	sym.Assert(sym.EqBytes(data, hlib.RouteData(us.PubKey(), nil)), "our peer is told to forward to us")
	next, err := sphinx.NextEphemeral(hlib.ECDH(peer), b)
	if err != nil {
		sym.Skip()
	}
	sym.Assert(sym.EqBytes(r.Hops[1].BlindedNodeId, hlib.BlindedID(us, next).SerializeCompressed()), "the last hop is our node")
	_, err = sphinx.DecryptBlindedData(hlib.ECDH(us), next, r.Hops[1].EncryptedData)
	sym.Assert(err == nil, "we can open our data")
	p := &lnwire.ReplyPath{FirstNodeID: key(r.IntroductionNode), BlindingPoint: b}
	for _, h := range r.Hops {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{BlindedNodeID: key(h.BlindedNodeId), EncryptedData: h.EncryptedData})
	}
	return p
}

// C25_Features: any list of feature numbers.
func C25_Features() {
	n := newLnd()
	s, _ := started(n)
	has := sym.Uint16("has")
	withPeer(n, onionFeature, lndwire.FeatureBit(has))
	count := sym.Choose("count", 3)
	var fs []uint64
	small, met := true, true
	for i := 0; i < count; i++ {
		f := sym.Uint64("feature")
		fs = append(fs, f)
		small = sym.And(small, f <= 65535)
		// Odd features are not required, even ones are.
		met = sym.And(met, sym.Or(f&1 == 1, f == uint64(has)))
	}
	resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{Features: fs})
	if !small {
		sym.Reach("too large")
		sym.Assert(code(err, codes.InvalidArgument), "a feature that is too large is an invalid argument")
		sym.Assert(resp == nil, "a refused request has no response")
		sym.Assert(n.calls == 0, "lnd is not called for a refused request")
		return
	}
	if !met {
		sym.Reach("no peer")
		sym.Assert(code(err, codes.Internal) && resp == nil, "a failure to make a route is reported as such")
		return
	}
	sym.Reach("route")
	sym.Assert(err == nil && resp != nil, "a route can be made through our peer")
	if err == nil && resp != nil {
		checkRoute(resp.Route)
	}
}

// C25_Fails: lnd fails, or has no suitable peer.
func C25_Fails() {
	n := newLnd()
	s, _ := started(n)
	withPeer(n, onionFeature)
	switch sym.Choose("fail", 4) {
	case 0:
		n.channelsErr = errLnd
	case 1:
		n.channels = nil
	case 2:
		n.features = nil
	case 3:
		resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{})
		sym.Assert(err == nil && resp != nil, "a route can be made through our peer")
		if err == nil {
			checkRoute(resp.Route)
		}
		return
	}
	resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{})
	sym.Assert(code(err, codes.Internal) && resp == nil, "a failure to make a route is reported as such")
}

// C25_RoundTrip: a generated route, used as the destination or the reply path
// of a message.
func C25_RoundTrip() {
	n := newLnd()
	s, _ := started(n)
	withPeer(n, onionFeature)
	resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{})
	if err != nil {
		sym.Fail("a route can be made through our peer")
	}
	p := checkRoute(resp.Route)
	value := sym.Bytes("value", 3)
	req := &offersrpc.SendOnionMessageRequest{FinalPayloads: map[uint64][]byte{101: value}, DirectConnect: true}
	if sym.Choose("reply", 2) == 1 {
		req.Pubkey = hlib.Priv(target).PubKey().SerializeCompressed()
		req.ReplyPath = resp.Route
		n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
		_, err = s.SendOnionMessage(context.Background(), req)
		sym.Assert(err == nil, "a message with the route as its reply path can be sent")
		if payload, ok := arrived(n, target); ok {
			sym.Assert(sym.EqBytes(clear(payload), hlib.PutPayload(p, nil, finals(uint64(101), value))), "the reply path arrives as generated")
		}
		return
	}
	req.BlindedDestination = resp.Route
	n.peers = []lndclient.Peer{{Pubkey: vertex(peerKey)}}
	_, err = s.SendOnionMessage(context.Background(), req)
	sym.Assert(err == nil, "a message can be sent along the route")
	if len(n.sent) != 1 || len(n.sent[0].Data) != 33+2+1366 {
		sym.Fail("one message is sent")
	}
	msg := n.sent[0]
	sym.Assert(msg.Peer == vertex(peerKey), "the message goes to the introduction node")
	b := key(msg.Data[:33])
	l, err := hlib.Peel(hlib.Priv(peerKey), b, msg.Data[35:])
	if err != nil {
		sym.Fail("the introduction node can open the onion")
	}
	sym.Assert(sym.EqBytes(l.Payload, hlib.PutPayload(nil, p.Hops[0].EncryptedData, nil)), "with its data")
	next := hlib.NextBlinding(hlib.Priv(peerKey), b)
	l, err = hlib.Peel(hlib.Priv(ourKey), next, l.Next)
	if err != nil {
		sym.Fail("we can open the onion")
	}
	sym.Assert(sym.EqBytes(l.Payload, hlib.PutPayload(nil, p.Hops[1].EncryptedData, finals(uint64(101), value))), "with our data and the payload")
}

// C25_Path: any path in a message reaches the subscriber, and from there the
// recipient of another message, unchanged.
func C25_Path() {
	n := newLnd()
	s, _ := started(n)
	max := 2
	if sym.Thorough() {
		max = 3
	}
	st := newStream()
	c := subscribe(s, 64, st)
	p := anyPath(1 + sym.Choose("hops", max))
	deliver(n, msgType, toUs(60, hlib.PutPayload(p, nil, finals(uint64(64), []byte{7}))))
	sym.Assert(!c.done && len(st.got) == 1, "a message is delivered")
	if len(st.got) != 1 {
		return
	}
	got := st.got[0]
	sym.Assert(sym.EqBytes(got.Value, []byte{7}), "with its payload")
	sym.Assert(sameRPCPath(p, got.ReplyPath), "with the reply path of the message")
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
		Pubkey: hlib.Priv(target).PubKey().SerializeCompressed(), DirectConnect: true,
		ReplyPath: got.ReplyPath,
	})
	sym.Assert(err == nil, "the path can be passed on")
	if payload, ok := arrived(n, target); ok {
		sym.Assert(sym.EqBytes(clear(payload), hlib.PutPayload(p, nil, nil)), "the path arrives as it came")
	}
}

// C25_Again: each route answers its own request, whatever peers there are by
// then.
func C25_Again() {
	n := newLnd()
	s, _ := started(n)
	k := 3
	if sym.Thorough() {
		k = 4
	}
	var made []*offersrpc.BlindedPath
	for i := 0; i < k; i++ {
		n.channels, n.features, n.channelsErr = nil, nil, nil
		has := sym.Choose("peer", 4)
		switch has {
		case 1:
			withPeer(n, onionFeature)
		case 2:
			withPeer(n, onionFeature, 20)
		case 3:
			n.channelsErr = errLnd
		}
		needs := sym.Choose("needs", 2)
		req := new(offersrpc.GenerateBlindedRouteRequest)
		if needs == 1 {
			req.Features = []uint64{20}
		}
		resp, err := s.GenerateBlindedRoute(context.Background(), req)
		if has == 2 || has == 1 && needs == 0 {
			sym.Assert(err == nil && resp != nil, "a route can be made through our peer")
			if err == nil {
				checkRoute(resp.Route)
				made = append(made, resp.Route)
			}
		} else {
			sym.Assert(code(err, codes.Internal) && resp == nil, "a failure to make a route is reported as such")
		}
	}
	// Nor do they change afterwards.
	for _, r := range made {
		checkRoute(r)
	}
}

// C25_Concurrent: nor by requests at the same time, whichever is served first.
func C25_Concurrent() {
	n := newLnd()
	s, _ := started(n)
	has := sym.Choose("has", 2) == 1
	if has {
		withPeer(n, onionFeature, 20)
	} else {
		withPeer(n, onionFeature)
	}
	bad := sym.Choose("bad", 2) == 1
	type one struct {
		req  *offersrpc.GenerateBlindedRouteRequest
		resp *offersrpc.GenerateBlindedRouteResponse
		call *call
	}
	all := []*one{
		{req: new(offersrpc.GenerateBlindedRouteRequest)},
		{req: &offersrpc.GenerateBlindedRouteRequest{Features: []uint64{20}}},
	}
	if bad {
		all[0].req.Features = []uint64{65536}
	}
	sym.Preempt(2)
	for _, o := range all {
		o := o
		o.call = start(func() (err error) {
			o.resp, err = s.GenerateBlindedRoute(context.Background(), o.req)
			return err
		})
	}
	sym.Settle()
	sym.Preempt(0)
	for i, o := range all {
		if !o.call.done {
			sym.Fail("a request is answered")
		}
		switch {
		case i == 0 && bad:
			sym.Assert(code(o.call.err, codes.InvalidArgument), "a feature that is too large is an invalid argument")
		case i == 1 && !has:
			sym.Assert(code(o.call.err, codes.Internal) && o.resp == nil, "a failure to make a route is reported as such")
		default:
			sym.Assert(o.call.err == nil && o.resp != nil, "a route can be made through our peer")
			if o.call.err == nil {
				checkRoute(o.resp.Route)
			}
		}
	}
}
