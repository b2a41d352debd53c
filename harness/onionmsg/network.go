package main

import (
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
)

// member is a node running this code.
type member struct {
	key int
	n   *node
	m   *onionmsg.Messenger
	s   *shutdowns
	b   inbox
}

type network map[route.Vertex]*member

// connected starts a node for each key, with handlers for the types given.
func connected(types []uint64, keys ...int) network {
	net := network{}
	for _, k := range keys {
		p := &member{key: k, n: newNode()}
		p.m, p.s = started(p.n, k)
		for i, t := range types {
			sym.Assert(p.m.RegisterHandler(tlv.Type(t), p.b.handler(i)) == nil, "a handler can be registered")
		}
		net[vertex(k)] = p
	}
	return net
}

func (net network) at(k int) *member { return net[vertex(k)] }

// relay passes on what the node with the key given has sent, and what is sent
// in consequence; it returns the nodes the message passed.
func (net network) relay(from int) (path []int) {
	p := net.at(from)
	for len(path) < 12 {
		if len(p.n.sent) == 0 {
			return path
		}
		sym.Assert(len(p.n.sent) == 1, "each node sends the message on once")
		msg := p.n.sent[0]
		p.n.sent = nil
		q := net[msg.Peer]
		if q == nil {
			sym.Assert(false, "the message goes to the nodes of the path only")
			return path
		}
		path = append(path, q.key)
		q.n.msgs <- lndclient.CustomMessage{Peer: vertex(p.key), MsgType: msg.MsgType, Data: msg.Data}
		sym.Settle()
		p = q
	}
	return path
}

func (net network) stop() {
	for _, k := range []int{ourKey, 2, 3, 4, 5, 6, 7, firstHop, firstHop + 1, firstHop + 2, firstHop + 3, target} {
		if p := net.at(k); p != nil {
			sym.Assert(p.m.Stop() == nil && len(p.s.errs) == 0, "every messenger is still running")
		}
	}
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// content is what a message carries for its recipient.
type content struct {
	reply *lnwire.ReplyPath
	fs    []*lnwire.FinalHopPayload
	ids   []int
}

var contentTypes = []uint64{64, 101, 0x10000}

func anyContent() content {
	var c content
	if h := sym.Choose("reply", 3); h > 0 {
		c.reply = anyReplyPath(h)
	}
	switch sym.Choose("finals", 5) {
	case 0:
		c.fs, c.ids = finals(uint64(64), sym.Bytes("v", 3)), []int{0}
	case 1:
		c.fs, c.ids = finals(uint64(101), sym.Bytes("v", 3), uint64(0x10000), sym.Bytes("v", 4)), []int{1, 2}
	case 2:
		// in descending order
		c.fs = finals(uint64(0x10000), sym.Bytes("v", 2), uint64(64), []byte{})
		c.ids = []int{2, 0}
	case 3:
		big := make([]byte, pick("size", 252, 253, 600))
		copy(big[len(big)-2:], sym.Bytes("v", 2))
		c.fs, c.ids = finals(uint64(64), big), []int{0}
	case 4:
		// nothing for us to deliver
		c.fs = finals(uint64(65), sym.Bytes("v", 1))
	}
	return c
}

// expect checks what the nodes received: only the last one, exactly the
// content; enc, when set, is the encrypted data it is to see.
func (net network) expect(last int, c content, enc []byte) {
	for _, p := range []int{ourKey, 2, 3, 4, 5, 6, 7, firstHop, firstHop + 1, firstHop + 2, firstHop + 3, target} {
		q := net.at(p)
		if q == nil {
			continue
		}
		if p != last {
			sym.Assert(len(q.b.got) == 0, "only the last node delivers the message")
			continue
		}
		sym.Assert(len(q.b.got) == len(c.ids), "the last node delivers every payload once")
		if len(q.b.got) != len(c.ids) {
			continue
		}
		for i, id := range c.ids {
			var got *received
			for j := range q.b.got {
				if q.b.got[j].handler == id {
					got = &q.b.got[j]
				}
			}
			sym.Assert(got != nil, "every payload is delivered")
			if got == nil {
				continue
			}
			sym.Assert(sym.EqBytes(got.val, c.fs[i].Value), "the payload arrives as sent")
			sym.Assert(hlib.SamePath(got.reply, c.reply), "the reply path arrives as sent")
			if enc != nil {
				sym.Assert(sym.EqBytes(got.enc, enc), "the encrypted data arrives as given by the recipient")
			}
		}
		q.b.got = nil
	}
}

// C21_Path: any content along a path of any length.
func C21_Path() {
	max := 3
	if sym.Thorough() {
		max = 5
	}
	hops := 1 + sym.Choose("hops", max)
	keys := pathTo(hops, target)
	net := connected(contentTypes, append([]int{ourKey}, keys...)...)
	a := net.at(ourKey)
	a.n.route = routeVia(keys...)
	c := anyContent()
	req := onionmsg.NewSendMessageRequest(hlib.Priv(target).PubKey(), nil, c.reply, c.fs, false)
	err := a.m.SendMessage(context.Background(), req)
	sym.Assert(err == nil, "a message can be sent")
	got := net.relay(ourKey)
	sym.Observe("passed", len(got))
	sym.Assert(samePath(got, keys), "the message takes the path")
	net.expect(target, c, nil)
	net.stop()
}

// blindedTo is a blinded path made by its recipient: along the keys given.
func blindedTo(keys ...int) (*lnwire.ReplyPath, []byte) {
	var hops []*sphinx.BlindedPathHop
	for i, k := range keys {
		var next *btcec.PublicKey
		if i+1 < len(keys) {
			next = hlib.Priv(keys[i+1]).PubKey()
		}
		data := hlib.RouteData(next, nil)
		if next == nil {
			data = hlib.PutRec(nil, 6, sym.Bytes("secret", 4))
		}
		hops = append(hops, &sphinx.BlindedPathHop{NodePub: hlib.Priv(k).PubKey(), Payload: data})
	}
	p, err := sphinx.BuildBlindedPath(hlib.Priv(blindKey+5), hops)
	if err != nil {
		panic(err)
	}
	r := toReply(p)
	return r, r.Hops[len(r.Hops)-1].EncryptedData
}

func toReply(p *sphinx.BlindedPath) *lnwire.ReplyPath {
	r := &lnwire.ReplyPath{FirstNodeID: p.IntroductionPoint, BlindingPoint: p.BlindingPoint}
	for i, id := range p.BlindedHops {
		r.Hops = append(r.Hops, &lnwire.BlindedHop{BlindedNodeID: id, EncryptedData: p.EncryptedData[i]})
	}
	return r
}

// C21_Blinded: the destination is a blinded path, connected directly or behind
// further hops.
func C21_Blinded() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	blindHops := 1 + sym.Choose("blinded", max)
	var dest []int
	for i := 0; i < blindHops; i++ {
		dest = append(dest, 2+i)
	}
	clear := sym.Choose("clear", max) // hops before the introduction node
	keys := append(pathTo(clear+1, dest[0]), dest[1:]...)
	net := connected(contentTypes, append([]int{ourKey}, keys...)...)
	a := net.at(ourKey)
	direct := clear == 0 && sym.Choose("direct", 2) == 1
	if direct {
		a.n.peers = []func() ([]lndclient.Peer, error){func() ([]lndclient.Peer, error) {
			return []lndclient.Peer{{Pubkey: vertex(dest[0])}}, nil
		}}
	} else {
		a.n.route = routeVia(keys[:clear+1]...)
	}
	path, enc := blindedTo(dest...)
	c := anyContent()
	req := onionmsg.NewSendMessageRequest(nil, path, c.reply, c.fs, direct)
	err := a.m.SendMessage(context.Background(), req)
	sym.Assert(err == nil, "a message can be sent")
	got := net.relay(ourKey)
	sym.Observe("passed", len(got))
	sym.Assert(samePath(got, keys), "the message takes the path")
	net.expect(dest[len(dest)-1], c, enc)
	net.stop()
}

// lndOf answers for the peers of the recipient of replies.
type lndOf struct {
	lndclient.LightningClient
	peer int
}

func (l *lndOf) ListChannels(ctx context.Context, active, public bool) ([]lndclient.ChannelInfo, error) {
	return []lndclient.ChannelInfo{{PubKeyBytes: vertex(l.peer)}}, nil
}

func (l *lndOf) GetNodeInfo(ctx context.Context, k route.Vertex, withChannels bool) (*lndclient.NodeInfo, error) {
	return &lndclient.NodeInfo{
		Node:     &lndclient.Node{PubKey: k, Features: []lndwire.FeatureBit{39}},
		Channels: []lndclient.ChannelEdge{{}},
	}, nil
}

// C21_Reply: a request that carries a reply path, and the reply along it.
func C21_Reply() {
	peer := firstHop
	net := connected(contentTypes, ourKey, peer, target)
	a, b := net.at(ourKey), net.at(target)
	gen := routes.NewBlindedRouteGenerator(&lndOf{peer: peer}, hlib.Priv(ourKey).PubKey())
	p, err := gen.ReplyPath(context.Background(), nil)
	if err != nil {
		sym.Fail("a reply path can be made")
	}
	var keys []int
	if sym.Choose("hops", 2) == 1 {
		keys = append(keys, peer)
	}
	keys = append(keys, target)
	a.n.route = routeVia(keys...)
	q := content{reply: toReply(p), fs: finals(uint64(64), sym.Bytes("question", 3)), ids: []int{0}}
	req := onionmsg.NewSendMessageRequest(hlib.Priv(target).PubKey(), nil, q.reply, q.fs, false)
	sym.Assert(a.m.SendMessage(context.Background(), req) == nil, "a message can be sent")
	sym.Assert(samePath(net.relay(ourKey), keys), "the message takes the path")
	if len(b.b.got) != 1 {
		sym.Fail("the last node delivers every payload once")
	}
	to := b.b.got[0].reply
	net.expect(target, q, nil)

	// The reply uses what the handler received.
	c := content{fs: finals(uint64(101), sym.Bytes("answer", 4)), ids: []int{1}}
	direct := sym.Choose("direct", 2) == 1
	b.n.route = routeVia(peer)
	b.n.peers = []func() ([]lndclient.Peer, error){func() ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(peer)}}, nil
	}}
	req = onionmsg.NewSendMessageRequest(nil, to, nil, c.fs, direct)
	sym.Assert(b.m.SendMessage(context.Background(), req) == nil, "a reply can be sent")
	sym.Assert(samePath(net.relay(target), []int{peer, ourKey}), "the reply takes the reply path")
	net.expect(ourKey, c, nil)
	net.stop()
}
