package main

import (
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
)

func parses(b []byte) bool {
	_, err := btcec.ParsePubKey(b)
	return err == nil
}

// anyKey is an arbitrary string in place of a public key.
func anyKey(name string) []byte {
	lens := []int{33, 0, 32}
	if sym.Thorough() {
		lens = []int{33, 0, 1, 32, 34, 64, 65, 66}
	}
	return sym.Bytes(name, pick(name+".len", lens...))
}

// refused checks the answer to a malformed request.
func refused(n *lnd, resp *offersrpc.SendOnionMessageResponse, err error) {
	sym.Assert(code(err, codes.InvalidArgument), "a malformed request is an invalid argument")
	sym.Assert(resp == nil, "a malformed request has no response")
	sym.Assert(n.calls == 0, "lnd is not called for a malformed request")
}

// outcome arranges for lnd to succeed or to fail, and returns the code for it.
func outcome(n *lnd, direct bool) codes.Code {
	n.route = routeVia(target)
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	k := sym.Choose("outcome", 5)
	switch {
	case k == 1 && direct:
		n.peersErr = errLnd
	case k == 1:
		n.routeErr = errLnd
	case k == 2 && !direct:
		n.routeErr = lndclient.ErrNoRouteFound
		return codes.NotFound
	case k == 3 && !direct:
		n.route = routeVia()
		return codes.NotFound
	case k == 4:
		n.sendErr = errLnd
	case k == 0:
		return codes.OK
	default:
		sym.Skip()
	}
	return codes.Internal
}

// answered checks the answer to a well formed request.
func answered(want codes.Code, n *lnd, resp *offersrpc.SendOnionMessageResponse, err error) bool {
	sym.Assert(code(err, want), "the answer tells the outcome")
	sym.Assert((resp != nil) == (want == codes.OK), "there is a response when the message was sent")
	if want != codes.OK && n.sendErr == nil {
		sym.Assert(len(n.sent) == 0, "nothing is sent")
	}
	return want == codes.OK && err == nil
}

// C24_Key: any string as the public key.
func C24_Key() {
	n := newLnd()
	s, _ := started(n)
	k := anyKey("pubkey")
	n.routeErr = errLnd
	want := codes.Internal
	if sym.Choose("unreachable", 2) == 1 {
		n.routeErr, want = lndclient.ErrNoRouteFound, codes.NotFound
	}
	resp, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
		Pubkey:        k,
		FinalPayloads: map[uint64][]byte{64: {1}},
	})
	if !parses(k) {
		sym.Reach("bad key")
		refused(n, resp, err)
		return
	}
	sym.Reach("good key")
	sym.Assert(resp == nil && code(err, want), "the answer tells the outcome")
	sym.Assert(len(n.queried) == 1 && n.calls == 1, "a route is queried")
	if len(n.queried) == 1 && len(k) == 33 {
		sym.Assert(sym.EqBytes(n.queried[0][:], k), "to the key given")
	}
}

// pathWith is a path with one arbitrary key; ok tells whether it is usable.
func pathWith(max int) (p *offersrpc.BlindedPath, ok bool) {
	hops := sym.Choose("hops", max+1)
	p = &offersrpc.BlindedPath{
		IntroductionNode: hlib.Priv(target).PubKey().SerializeCompressed(),
		BlindingPoint:    hlib.Priv(50).PubKey().SerializeCompressed(),
	}
	for i := 0; i < hops; i++ {
		id := hlib.Priv(51 + i).PubKey()
		if i == 0 {
			id = hlib.BlindedID(hlib.Priv(target), hlib.Priv(50).PubKey())
		}
		// Hops may have no data.
		data := 5
		if i%2 != 0 {
			data = 0
		}
		p.Hops = append(p.Hops, &offersrpc.BlindedHop{
			BlindedNodeId: id.SerializeCompressed(), EncryptedData: sym.Bytes("data", data),
		})
	}
	k := anyKey("key")
	switch at := sym.Choose("at", 3+hops); at {
	case 0:
		return p, hops > 0
	case 1:
		p.IntroductionNode = k
	case 2:
		p.BlindingPoint = k
	default:
		p.Hops[at-3].BlindedNodeId = k
	}
	return p, hops > 0 && parses(k)
}

// anyPubkey is a public key in one of its forms, or something else; the lengths
// of what is not a key matter when there is another destination.
func anyPubkey(long bool) []byte {
	k := hlib.Priv(target).PubKey()
	switch c := sym.Choose("form", 3); {
	case c == 0:
		return k.SerializeCompressed()
	case c == 1:
		return k.SerializeUncompressed()
	case !long:
		return k.SerializeCompressed()[:32]
	}
	return sym.Bytes("pubkey", pick("pubkey.len", 1, 2, 31, 32, 34, 64, 66))
}

// C24_Destination: any combination of destinations, with any keys.
func C24_Destination() {
	n := newLnd()
	s, _ := started(n)
	req := &offersrpc.SendOnionMessageRequest{FinalPayloads: map[uint64][]byte{64: {1}}}
	kind := sym.Choose("kind", 4)
	if kind&1 != 0 {
		req.Pubkey = anyPubkey(kind == 3)
	} else if sym.Choose("empty", 2) == 1 {
		req.Pubkey = []byte{}
	}
	ok := kind == 1 && parses(req.Pubkey)
	if kind&2 != 0 {
		max := 1
		if kind == 2 {
			max = 2
		}
		p, usable := pathWith(max)
		req.BlindedDestination = p
		ok = kind == 2 && usable
	}
	n.routeErr = errLnd
	want := codes.Internal
	if sym.Choose("unreachable", 2) == 1 {
		n.routeErr, want = lndclient.ErrNoRouteFound, codes.NotFound
	}
	resp, err := s.SendOnionMessage(context.Background(), req)
	sym.Observe("ok", ok)
	if !ok {
		sym.Reach("refused")
		refused(n, resp, err)
		return
	}
	sym.Reach("accepted")
	sym.Assert(resp == nil && code(err, want), "the answer tells the outcome")
	sym.Assert(len(n.queried) == 1 && n.calls == 1, "a route is queried")
	if p := req.BlindedDestination; len(n.queried) == 1 && (p == nil || len(p.IntroductionNode) == 33) {
		to := hlib.Priv(target).PubKey().SerializeCompressed()
		if p != nil {
			to = p.IntroductionNode
		}
		sym.Assert(sym.EqBytes(n.queried[0][:], to), "to the destination")
	}
}

// clear is a payload without the encrypted data that our own node made up.
func clear(payload []byte) (b []byte) {
	recs, ok := hlib.Parse(payload, nil)
	sym.Assert(ok, "the payload is a stream of records")
	for _, r := range recs {
		if r.Type != 4 {
			b = hlib.PutRec(b, r.Type, r.Val)
		}
	}
	return b
}

// C24_ReplyPath: any reply path arrives unaltered, or the request is refused.
func C24_ReplyPath() {
	n := newLnd()
	s, _ := started(n)
	direct := sym.Choose("direct", 2) == 1
	want := outcome(n, direct)
	req := &offersrpc.SendOnionMessageRequest{
		Pubkey:        hlib.Priv(target).PubKey().SerializeCompressed(),
		FinalPayloads: map[uint64][]byte{64: sym.Bytes("value", 2)},
		DirectConnect: direct,
	}
	ok := true
	if sym.Choose("reply", 2) == 1 {
		req.ReplyPath, ok = pathWith(2)
	}
	resp, err := s.SendOnionMessage(context.Background(), req)
	sym.Observe("ok", ok)
	if !ok {
		sym.Reach("refused")
		refused(n, resp, err)
		return
	}
	if !answered(want, n, resp, err) {
		return
	}
	sym.Reach("accepted")
	payload, ok := arrived(n, target)
	if !ok {
		return
	}
	var rp *lnwire.ReplyPath
	if p := req.ReplyPath; p != nil {
		rp = new(lnwire.ReplyPath)
		rp.FirstNodeID, _ = btcec.ParsePubKey(p.IntroductionNode)
		rp.BlindingPoint, _ = btcec.ParsePubKey(p.BlindingPoint)
		for _, h := range p.Hops {
			id, _ := btcec.ParsePubKey(h.BlindedNodeId)
			rp.Hops = append(rp.Hops, &lnwire.BlindedHop{BlindedNodeID: id, EncryptedData: h.EncryptedData})
		}
	}
	sym.Assert(sym.EqBytes(clear(payload), hlib.PutPayload(rp, nil, finals(uint64(64), req.FinalPayloads[64]))), "the message arrives as given")
}

// C24_Errors: lnd failing in any way, in any of the calls made for a message.
func C24_Errors() {
	n := newLnd()
	s, _ := started(n)
	direct := sym.Choose("direct", 2) == 1
	n.route = routeVia(target)
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	err := anyError()
	switch {
	case sym.Choose("at", 2) == 1:
		n.sendErr = err
	case direct:
		n.peersErr = err
	default:
		n.routeErr = err
	}
	resp, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
		Pubkey:        hlib.Priv(target).PubKey().SerializeCompressed(),
		FinalPayloads: map[uint64][]byte{64: {1}},
		DirectConnect: direct,
	})
	answered(codes.Internal, n, resp, err)
}

// C24_Finals: any final payloads.
func C24_Finals() {
	n := newLnd()
	s, _ := started(n)
	direct := sym.Choose("direct", 2) == 1
	want := outcome(n, direct)
	req := &offersrpc.SendOnionMessageRequest{DirectConnect: direct}
	var enc []byte
	if sym.Choose("blinded", 2) == 1 {
		b := hlib.Priv(50).PubKey()
		enc = sym.Bytes("enc", 4)
		req.BlindedDestination = rpcPath(&lnwire.ReplyPath{
			FirstNodeID: hlib.Priv(target).PubKey(), BlindingPoint: b,
			Hops: []*lnwire.BlindedHop{{BlindedNodeID: hlib.BlindedID(hlib.Priv(target), b), EncryptedData: enc}},
		})
	} else {
		req.Pubkey = hlib.Priv(target).PubKey().SerializeCompressed()
	}
	count := sym.Choose("count", 3)
	ok := true
	var fs []*lnwire.FinalHopPayload
	req.FinalPayloads = map[uint64][]byte{}
	for i := 0; i < count; i++ {
		t := sym.Uint64("type")
		for _, f := range fs {
			sym.Assume(t != uint64(f.TLVType))
		}
		var v []byte
		if l := pick("len", -1, 0, 2); l >= 0 {
			v = sym.Bytes("value", l)
		}
		req.FinalPayloads[t] = v
		fs = append(fs, finals(t, v)...)
		ok = sym.And(ok, t >= 64)
	}
	resp, err := s.SendOnionMessage(context.Background(), req)
	if !ok {
		sym.Reach("refused")
		refused(n, resp, err)
		return
	}
	if !answered(want, n, resp, err) {
		return
	}
	sym.Reach("accepted")
	sym.Assert(direct == (len(n.queried) == 0), "a route is queried unless the connection is direct")
	if payload, ok := arrived(n, target); ok {
		if enc == nil {
			payload = clear(payload)
		}
		sym.Assert(sym.EqBytes(payload, hlib.PutPayload(nil, enc, fs)), "the message arrives as given")
	}
}

// one is a request that was sent once, and what became of it.
type one struct {
	req  *offersrpc.SendOnionMessageRequest
	want []byte // what arrives
	to   int
	resp *offersrpc.SendOnionMessageResponse
	err  error
}

// anyRequest makes the i-th request, to a node of its own or to the same one.
func anyRequest(i int) *one {
	o := &one{to: []int{target, target + 1, -target}[sym.Choose("target", 3)]}
	o.req = &offersrpc.SendOnionMessageRequest{
		Pubkey: priv(o.to).PubKey().SerializeCompressed(), DirectConnect: true,
	}
	var fs []*lnwire.FinalHopPayload
	content := sym.Choose("content", 4)
	switch content {
	case 0, 3:
	case 1:
		fs = finals(uint64(64), sym.Bytes("value", 2))
	case 2:
		fs = finals(uint64(64), sym.Bytes("value", 1), uint64(101), sym.Bytes("value", 3))
	}
	o.req.FinalPayloads = map[uint64][]byte{}
	for _, f := range fs {
		o.req.FinalPayloads[uint64(f.TLVType)] = f.Value
	}
	var rp *lnwire.ReplyPath
	if content >= 2 {
		rp = &lnwire.ReplyPath{FirstNodeID: hlib.Priv(33 + i).PubKey(), BlindingPoint: hlib.Priv(35 + i).PubKey()}
		rp.Hops = []*lnwire.BlindedHop{{BlindedNodeID: hlib.Priv(37 + i).PubKey(), EncryptedData: sym.Bytes("data", 3)}}
		o.req.ReplyPath = rpcPath(rp)
	}
	o.want = hlib.PutPayload(rp, nil, fs)
	return o
}

func (o *one) send(s *rpcserver.Server) {
	o.resp, o.err = s.SendOnionMessage(context.Background(), o.req)
}

// arrives checks that a message holds what was asked for.
func (o *one) arrives(n *lnd) {
	payload, ok := arrived(n, o.to)
	if ok {
		sym.Assert(sym.EqBytes(clear(payload), o.want), "the message arrives as given")
	}
}

func connected(n *lnd) {
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}, {Pubkey: vertex(target + 1)}, {Pubkey: vertex(-target)}}
}

// C24_Again: a request is answered whatever came before it.
func C24_Again() {
	n := newLnd()
	s, _ := started(n)
	connected(n)
	before := 1 + sym.Choose("before", 2)
	if sym.Thorough() {
		before++
	}
	for i := 0; i < before; i++ {
		n.sent = nil
		switch sym.Choose("what", 4) {
		case 0: // another message
			o := anyRequest(i)
			o.send(s)
			sym.Assert(o.err == nil && o.resp != nil, "a message can be sent")
			o.arrives(n)
		case 1: // a failure
			n.sendErr = errLnd
			o := anyRequest(i)
			o.send(s)
			sym.Assert(code(o.err, codes.Internal) && o.resp == nil, "a failure is reported")
			n.sendErr = nil
		case 2: // a malformed request
			_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
				Pubkey: hlib.Priv(target).PubKey().SerializeCompressed(), FinalPayloads: map[uint64][]byte{63: {1}},
			})
			sym.Assert(code(err, codes.InvalidArgument) && len(n.sent) == 0, "a malformed request is an invalid argument")
		case 3: // no route
			n.routeErr = lndclient.ErrNoRouteFound
			_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
				Pubkey: hlib.Priv(target + sym.Choose("target", 2)).PubKey().SerializeCompressed(),
			})
			sym.Assert(code(err, codes.NotFound) && len(n.sent) == 0, "a missing route is reported")
			n.routeErr = nil
		}
	}
	n.sent = nil
	o := anyRequest(7)
	o.send(s)
	sym.Assert(o.err == nil && o.resp != nil, "a message can be sent")
	o.arrives(n)
}

// C24_Concurrent: or at the same time.
func C24_Concurrent() {
	n := newLnd()
	s, _ := started(n)
	connected(n)
	all := []*one{anyRequest(0), anyRequest(1)}
	all[1].to, all[1].req.Pubkey = target+1, hlib.Priv(target+1).PubKey().SerializeCompressed()
	all[0].to, all[0].req.Pubkey = target, hlib.Priv(target).PubKey().SerializeCompressed()
	for _, o := range all {
		o := o
		go o.send(s)
	}
	sym.Settle()
	sent := n.sent
	sym.Assert(len(sent) == 2, "each message is sent, once")
	for _, o := range all {
		sym.Assert(o.err == nil && o.resp != nil, "a message can be sent")
		n.sent = nil
		for _, m := range sent {
			if m.Peer == vertex(o.to) {
				n.sent = append(n.sent, m)
			}
		}
		o.arrives(n)
	}
}
