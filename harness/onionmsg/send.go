package main

import (
	"context"
	"errors"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
)

const (
	firstHop = 10
	target   = 20
)

func vertex(k int) route.Vertex { return route.NewVertex(hlib.Priv(k).PubKey()) }

// routeVia is lnd's answer to a query for a route.
func routeVia(keys ...int) *lndclient.QueryRoutesResponse {
	r := new(lndclient.QueryRoutesResponse)
	for _, k := range keys {
		v := vertex(k)
		r.Hops = append(r.Hops, &lndclient.Hop{PubKey: &v})
	}
	return r
}

// pathTo is a path of the given number of hops to the key given.
func pathTo(hops, last int) (keys []int) {
	for i := 0; i < hops-1; i++ {
		keys = append(keys, firstHop+i)
	}
	return append(keys, last)
}

// blindedDest is a blinded path that starts at the key given.
func blindedDest(hops int, first int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{FirstNodeID: hlib.Priv(first).PubKey(), BlindingPoint: hlib.Priv(50).PubKey()}
	for i := 0; i < hops; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: hlib.Priv(51 + i).PubKey(), EncryptedData: sym.Bytes("dest.data", 20),
		})
	}
	p.Hops[0].BlindedNodeID = hlib.BlindedID(hlib.Priv(first), p.BlindingPoint)
	return p
}

// destination is a request for the target, blinded or not.
func destination(direct bool) *onionmsg.SendMessageRequest {
	fs := finals(uint64(64), sym.Bytes("value", 2))
	if b := sym.Choose("blinded", 3); b > 0 {
		return onionmsg.NewSendMessageRequest(nil, blindedDest(b, target), nil, fs, direct)
	}
	return onionmsg.NewSendMessageRequest(hlib.Priv(target).PubKey(), nil, nil, fs, direct)
}

// checkSent checks for exactly one onion message for the node given.
func checkSent(n *node, to int) {
	sym.Observe("sent", len(n.sent))
	sym.Assert(len(n.sent) == 1, "exactly one message is sent")
	if len(n.sent) != 1 {
		return
	}
	msg := n.sent[0]
	sym.Assert(msg.MsgType == msgType, "an onion message is sent")
	sym.Assert(msg.Peer == vertex(to), "the message goes to the first hop")
	sym.Assert(len(msg.Data) == 33+2+1366, "the message holds an onion")
	if len(msg.Data) == 33+2+1366 {
		b, err := btcec.ParsePubKey(msg.Data[:33])
		sym.Assert(err == nil, "the message holds a blinding point")
		if err == nil {
			_, err = hlib.Peel(hlib.Priv(to), b, msg.Data[35:])
			sym.Assert(err == nil, "the first hop can open the onion")
		}
	}
}

// C19_MultiHop: routes of any length.
func C19_MultiHop() {
	n := newNode()
	m, _ := started(n, ourKey)
	n.slow = time.Duration(pick("slow", 0, 2000)) * time.Millisecond
	n.peers = []func() ([]lndclient.Peer, error){func() ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(target)}}, nil
	}}
	req := destination(false)
	hops := 1 + sym.Choose("hops", 3)
	keys := pathTo(hops, target)
	n.route = routeVia(keys...)
	if sym.Choose("fail", 2) == 1 {
		n.sendErr = errLnd
	}
	err := m.SendMessage(context.Background(), req)
	checkSent(n, keys[0])
	if n.sendErr != nil {
		sym.Assert(errors.Is(err, errLnd), "a failure to send is reported")
	} else {
		sym.Assert(err == nil, "a message can be sent")
	}
	sym.Assert(len(n.queried) == 1 && n.queried[0].PubKey == vertex(target), "a route to the target is queried")
	sym.Assert(len(n.connects) == 0, "no connection is made")
}

// C19_NoRoute: lnd has no usable route.
func C19_NoRoute() {
	n := newNode()
	m, _ := started(n, ourKey)
	req := destination(false)
	kind := sym.Choose("kind", 5)
	var is error
	switch kind {
	case 0:
		n.routeErr, is = lndclient.ErrNoRouteFound, onionmsg.ErrNoPath
	case 1:
		n.route, is = routeVia(), onionmsg.ErrNoPath
	case 2:
		n.routeErr, is = errLnd, errLnd
	case 3, 4:
		hops := 1 + sym.Choose("hops", 3)
		n.route = routeVia(pathTo(hops, target)...)
		h := n.route.Hops[sym.Choose("at", hops)]
		if kind == 3 {
			h.PubKey, is = nil, onionmsg.ErrNilPubkeyInRoute
			break
		}
		var v route.Vertex
		copy(v[:], sym.Bytes("hop", 33))
		if _, err := btcec.ParsePubKey(v[:]); err == nil {
			sym.Skip()
		}
		h.PubKey = &v
	}
	err := m.SendMessage(context.Background(), req)
	sym.Observe("err", err != nil)
	sym.Assert(err != nil, "a message that cannot be sent is reported")
	if is != nil {
		sym.Assert(errors.Is(err, is), "the reason is reported")
	}
	if is != onionmsg.ErrNoPath {
		sym.Assert(!errors.Is(err, onionmsg.ErrNoPath), "only a missing route is reported as such")
	}
	sym.Assert(len(n.sent) == 0, "nothing is sent")
	sym.Assert(len(n.connects) == 0, "no connection is made")
}

// C19_TooLarge: messages and routes that do not fit an onion.
func C19_TooLarge() {
	n := newNode()
	m, _ := started(n, ourKey)
	direct := sym.Choose("direct", 2) == 1
	req := destination(direct)
	n.peers = []func() ([]lndclient.Peer, error){func() ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(target)}}, nil
	}}
	n.route = routeVia(pathTo(1+sym.Choose("hops", 2), target)...)
	if !direct && sym.Choose("long", 2) == 1 {
		n.route = routeVia(pathTo(pick("count", 17, 28, 30), target)...)
	} else {
		req.FinalPayloads[0].Value = make([]byte, pick("size", 1300, 70000))
	}
	err := m.SendMessage(context.Background(), req)
	sym.Observe("err", err != nil)
	sym.Assert(err != nil, "a message that does not fit is reported")
	sym.Assert(len(n.sent) == 0, "nothing is sent")
	sym.Assert(direct || len(n.connects) == 0, "no connection is made")
}

// address is one of any three bytes or of a usual form.
func address() string {
	forms := []string{
		"", "203.0.113.7:9735", "[2001:db8::7]:9735", "node.example.com:9735",
		"pg6mmjiyjmcrsslvykfwnntlaru7p5svn6y2ymmju6nubxndf4pscryd.onion:9735",
	}
	if i := sym.Choose("form", len(forms)); i > 0 {
		return forms[i]
	}
	return sym.String("addr", 3)
}

// C19_Direct: the peer is or becomes connected, or not.
func C19_Direct() {
	n := newNode()
	m, _ := started(n, ourKey)
	req := destination(true)
	n.route = routeVia(firstHop, target)
	// The peers listed at first.
	var v route.Vertex
	copy(v[:], sym.Bytes("peer", 33))
	connected := v == vertex(target)
	var other []lndclient.Peer
	for i := 0; i < sym.Choose("others", 3); i++ {
		other = append(other, lndclient.Peer{Pubkey: vertex(30 + i)})
	}
	yes := append(append([]lndclient.Peer{}, other...), lndclient.Peer{Pubkey: vertex(target)})
	list := func(ps []lndclient.Peer, err error) func() ([]lndclient.Peer, error) {
		return func() ([]lndclient.Peer, error) { return ps, err }
	}
	n.peers = append(n.peers, list(append(append([]lndclient.Peer{}, other...), lndclient.Peer{Pubkey: v}), nil))
	// The number of unsuccessful polls after connecting.
	polls := sym.Choose("polls", 7)
	for i := 0; i < polls; i++ {
		n.peers = append(n.peers, list(other, nil))
	}
	if polls < 6 {
		n.peers = append(n.peers, list(yes, nil))
	}
	addrs := sym.Choose("addrs", 3)
	info := &lndclient.NodeInfo{Node: &lndclient.Node{}}
	for i := 0; i < addrs; i++ {
		info.Addresses = append(info.Addresses, address())
	}
	n.infos = map[route.Vertex]*lndclient.NodeInfo{vertex(target): info}

	// A caller may be able to go away.
	ctx := context.Background()
	if polls%6 == 0 && sym.Choose("cancelable", 2) == 1 {
		c, cancel := context.WithCancel(ctx)
		defer cancel()
		ctx = c
	}
	n.most = 50
	before := sym.Elapsed()
	err := m.SendMessage(ctx, req)
	took := sym.Elapsed() - before
	sym.Observe("err", err != nil)
	sym.Assert(len(n.queried) == 0, "no route is needed for a direct connection")
	if !connected && addrs == 0 {
		sym.Assert(errors.Is(err, onionmsg.ErrNoAddresses), "a target without addresses is reported")
		sym.Assert(len(n.connects) == 0 && len(n.sent) == 0, "nothing is sent")
		return
	}
	if connected {
		sym.Assert(err == nil, "a message can be sent to a peer")
		sym.Assert(len(n.connects) == 0, "no connection is made to a peer")
		checkSent(n, target)
		sym.Reach("peer already")
		return
	}
	sym.Assert(len(n.connects) == 1, "one connection is made")
	if len(n.connects) == 1 {
		sym.Assert(sym.EqStr(n.connects[0], info.Addresses[0]), "to the first address of the target")
		sym.Assert(n.connectPeer == vertex(target), "to the target")
		sym.Assert(n.connectPerm, "for good")
	}
	sym.Assert(n.listed <= 12, "peers are polled a bounded number of times")
	if polls < 5 {
		sym.Assert(err == nil, "a message can be sent to a new peer")
		checkSent(n, target)
		sym.Reach("connected")
	} else if polls == 6 {
		sym.Assert(errors.Is(err, onionmsg.ErrNoConnection), "a missing connection is reported")
		sym.Assert(len(n.sent) == 0, "nothing is sent")
		sym.Reach("not connected")
		sym.Assert(!sym.Symbolic() || took >= 4*time.Second, "the connection is given some time")
	}
}

// C19_DirectFails: lnd fails at some point.
func C19_DirectFails() {
	n := newNode()
	m, _ := started(n, ourKey)
	req := destination(true)
	n.infos = map[route.Vertex]*lndclient.NodeInfo{
		vertex(target): {Node: &lndclient.Node{Addresses: []string{"a:1", "b:2"}}},
	}
	fail := sym.Choose("fail", 6)
	for i := 0; i < 3; i++ {
		i := i
		n.peers = append(n.peers, func() ([]lndclient.Peer, error) {
			if fail == i {
				return nil, errLnd
			}
			return nil, nil
		})
	}
	n.peers = append(n.peers, func() ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(target)}}, nil
	})
	switch fail {
	case 3:
		n.infoErr = errLnd
	case 4:
		n.connectErr = errLnd
	case 5:
		n.sendErr = errLnd
	}
	err := m.SendMessage(context.Background(), req)
	sym.Observe("err", err != nil)
	sym.Assert(err != nil, "a failure is reported")
	if fail == 5 {
		checkSent(n, target)
	} else {
		sym.Assert(len(n.sent) == 0, "nothing is sent")
	}
	sym.Assert(len(n.connects) <= 1, "at most one connection is made")
	if fail == 0 || fail == 3 {
		sym.Assert(len(n.connects) == 0, "no connection is made")
	}
}

// C19_Canceled: the context ends while we wait for a connection.
func C19_Canceled() {
	n := newNode()
	m, _ := started(n, ourKey)
	req := destination(true)
	n.infos = map[route.Vertex]*lndclient.NodeInfo{
		vertex(target): {Node: &lndclient.Node{Addresses: []string{"a:1"}}},
	}
	kind := sym.Choose("kind", 2)
	var ctx context.Context
	var cancel func()
	if kind == 0 {
		ctx, cancel = context.WithCancel(context.Background())
	} else {
		ctx, cancel = context.WithTimeout(context.Background(), 1500*time.Millisecond)
	}
	c := start(func() error { return m.SendMessage(ctx, req) })
	sym.Settle()
	if kind == 0 {
		sym.Advance(time.Duration(sym.Choose("wait", 3)) * 700 * time.Millisecond)
		sym.Settle()
		sym.Assert(!c.done, "a new connection is given some time")
		polls := n.listed
		cancel()
		sym.Settle()
		sym.Assert(n.listed == polls, "no more polls once the context ends")
	} else {
		sym.Advance(1600 * time.Millisecond)
		sym.Settle()
		cancel()
	}
	sym.Assert(c.done, "waiting stops when the context ends")
	sym.Assert(c.err != nil, "the end of the context is reported")
	sym.Assert(!c.done || errors.Is(c.err, context.Canceled) || errors.Is(c.err, context.DeadlineExceeded), "as such")
	sym.Assert(len(n.sent) == 0, "nothing is sent")
	sym.Assert(len(n.connects) == 1, "one connection is made")
}

// C19_Again: messages are sent independently of those sent before.
func C19_Again() {
	n := newNode()
	m, _ := started(n, ourKey)
	k := 2
	if sym.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		to := target + sym.Choose("target", 2)
		other := target + (1 - (to - target))
		n.sent, n.queried, n.connects, n.listed, n.sendErr = nil, nil, nil, 0, nil
		fs := finals(uint64(64), sym.Bytes("value", 2))
		direct := sym.Choose("direct", 2) == 1
		req := onionmsg.NewSendMessageRequest(hlib.Priv(to).PubKey(), nil, nil, fs, direct)
		if direct {
			n.infos = map[route.Vertex]*lndclient.NodeInfo{vertex(to): {Node: &lndclient.Node{Addresses: []string{"a:1"}}}}
			list := func(ks ...int) func() ([]lndclient.Peer, error) {
				var ps []lndclient.Peer
				for _, k := range ks {
					ps = append(ps, lndclient.Peer{Pubkey: vertex(k)})
				}
				return func() ([]lndclient.Peer, error) { return ps, nil }
			}
			connected := sym.Choose("connected", 2) == 1
			if connected {
				n.peers = []func() ([]lndclient.Peer, error){list(other, to)}
			} else {
				n.peers = []func() ([]lndclient.Peer, error){list(other), list(other, to)}
			}
			if sym.Choose("fail", 2) == 1 {
				n.sendErr = errLnd
			}
			err := m.SendMessage(context.Background(), req)
			sym.Assert((err == nil) == (n.sendErr == nil), "a message can be sent")
			checkSent(n, to)
			if connected {
				sym.Assert(len(n.connects) == 0, "no connection is made to a peer")
			} else {
				sym.Assert(len(n.connects) == 1 && n.connectPeer == vertex(to), "one connection is made")
			}
			continue
		}
		n.route, n.routeErr = nil, nil
		switch sym.Choose("route", 3) {
		case 0:
			n.routeErr = lndclient.ErrNoRouteFound
			err := m.SendMessage(context.Background(), req)
			sym.Assert(errors.Is(err, onionmsg.ErrNoPath), "the lack of a route is reported")
			sym.Assert(len(n.sent) == 0, "nothing is sent")
			continue
		case 1:
			n.route = routeVia(to)
		case 2:
			n.route = routeVia(firstHop, to)
		}
		err := m.SendMessage(context.Background(), req)
		sym.Assert(err == nil, "a message can be sent")
		first := to
		if len(n.route.Hops) == 2 {
			first = firstHop
		}
		checkSent(n, first)
		sym.Assert(len(n.queried) == 1 && n.queried[0].PubKey == vertex(to), "a route to the target is queried")
		sym.Assert(len(n.connects) == 0, "no connection is made")
	}
}

// C19_Concurrent: messages are sent independently of others being sent.
func C19_Concurrent() {
	sym.Preempt(1)
	n := newNode()
	m, _ := started(n, ourKey)
	n.infos = map[route.Vertex]*lndclient.NodeInfo{}
	n.peers = []func() ([]lndclient.Peer, error){func() ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(target)}, {Pubkey: vertex(target + 1)}}, nil
	}}
	n.route = routeVia(firstHop, target)
	var calls []*call
	direct := sym.Choose("direct", 2) == 1
	for i := 0; i < 2; i++ {
		i := i
		d := direct || i == 1
		calls = append(calls, start(func() error {
			return m.SendMessage(context.Background(), onionmsg.NewSendMessageRequest(
				hlib.Priv(target+i).PubKey(), nil, nil, finals(uint64(64), []byte{byte(i)}), d,
			))
		}))
	}
	sym.Settle()
	sym.Preempt(0)
	for _, c := range calls {
		sym.Assert(c.done && c.err == nil, "a message can be sent")
	}
	all := n.sent
	sym.Assert(len(all) == 2, "each request sends one message")
	if len(all) != 2 {
		return
	}
	first := target
	if !direct {
		first = firstHop
	}
	if all[0].Peer != vertex(first) {
		all[0], all[1] = all[1], all[0]
	}
	n.sent = all[:1]
	checkSent(n, first)
	n.sent = all[1:]
	checkSent(n, target+1)
}
