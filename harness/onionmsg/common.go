package main

import (
	"context"
	"errors"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
)

const (
	ourKey     = 1
	nextKey    = 2
	sessionKey = 40
	blindKey   = 41
	msgType    = 513
)

func pick(name string, of ...int) int { return of[sym.Choose(name, len(of))] }

var (
	errLnd     = errors.New("lnd failed")
	errHandler = errors.New("handler failed")
)

// node is lnd as our node sees it.
type node struct {
	msgs   chan lndclient.CustomMessage
	errs   chan error
	subErr error
	subCtx context.Context
	subs   int

	sent    []lndclient.CustomMessage
	sendErr error
	onSend  func(lndclient.CustomMessage)

	onSubscribe func()

	infos       map[route.Vertex]*lndclient.NodeInfo
	infoErr     error
	peers       []func() ([]lndclient.Peer, error) // successive answers; the last one repeats
	listed      int
	connects    []string
	connectPeer route.Vertex
	connectPerm bool
	connectErr  error
	route       *lndclient.QueryRoutesResponse
	routeErr    error
	queried     []lndclient.QueryRoutesRequest
	identity    [33]byte
	identityErr error
	calls       int
	slow        time.Duration // how long each call takes
	most        int           // how often the peers may be listed, if it matters
}

// wait takes the time of a call.
func (n *node) wait(ctx context.Context) error {
	n.calls++
	if n.slow == 0 {
		return nil
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-time.After(n.slow):
		return nil
	}
}

func newNode() *node {
	return &node{msgs: make(chan lndclient.CustomMessage), errs: make(chan error)}
}

func (n *node) SendCustomMessage(ctx context.Context, msg lndclient.CustomMessage) error {
	if err := n.wait(ctx); err != nil {
		return err
	}
	n.sent = append(n.sent, msg)
	if n.onSend != nil {
		n.onSend(msg)
	}
	return n.sendErr
}

func (n *node) SubscribeCustomMessages(ctx context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	n.calls++
	n.subs++
	n.subCtx = ctx
	if n.onSubscribe != nil {
		n.onSubscribe()
	}
	if n.subErr != nil {
		return nil, nil, n.subErr
	}
	return n.msgs, n.errs, nil
}

func (n *node) GetNodeInfo(ctx context.Context, k route.Vertex, includeChannels bool) (*lndclient.NodeInfo, error) {
	if err := n.wait(ctx); err != nil {
		return nil, err
	}
	if n.infoErr != nil {
		return nil, n.infoErr
	}
	if i := n.infos[k]; i != nil {
		return i, nil
	}
	return nil, errLnd
}

func (n *node) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	if err := n.wait(ctx); err != nil {
		return nil, err
	}
	if len(n.peers) == 0 {
		return nil, nil
	}
	i := n.listed
	if i >= len(n.peers) {
		i = len(n.peers) - 1
	}
	n.listed++
	if n.most > 0 && n.listed > n.most {
		sym.Fail("peers are polled a bounded number of times")
	}
	return n.peers[i]()
}

func (n *node) Connect(ctx context.Context, peer route.Vertex, host string, permanent bool) error {
	if err := n.wait(ctx); err != nil {
		return err
	}
	n.connects = append(n.connects, host)
	n.connectPeer, n.connectPerm = peer, permanent
	return n.connectErr
}

func (n *node) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	if err := n.wait(ctx); err != nil {
		return nil, err
	}
	if n.identityErr != nil {
		return nil, n.identityErr
	}
	return &lndclient.Info{IdentityPubkey: n.identity}, nil
}

func (n *node) QueryRoutes(ctx context.Context, req lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {
	if err := n.wait(ctx); err != nil {
		return nil, err
	}
	n.queried = append(n.queried, req)
	return n.route, n.routeErr
}

// shutdowns collects the requests to shut down.
type shutdowns struct{ errs []error }

func (s *shutdowns) request(err error) { s.errs = append(s.errs, err) }

func messenger(n *node, key int) (*onionmsg.Messenger, *shutdowns) {
	s := new(shutdowns)
	return onionmsg.NewOnionMessenger(&chaincfg.Params{}, n, hlib.ECDH(hlib.Priv(key)), s.request), s
}

func started(n *node, key int) (*onionmsg.Messenger, *shutdowns) {
	m, s := messenger(n, key)
	if err := m.Start(); err != nil {
		sym.Fail("a messenger starts")
	}
	return m, s
}

// deliver hands a custom message to the messenger.
func deliver(n *node, typ uint32, data []byte) {
	n.msgs <- lndclient.CustomMessage{Peer: route.NewVertex(hlib.Priv(77).PubKey()), MsgType: typ, Data: data}
	sym.Settle()
}

// received is one invocation of a handler.
type received struct {
	handler  int
	reply    *lnwire.ReplyPath
	enc, val []byte
}

type inbox struct {
	got  []received
	fail map[int]error
}

func (b *inbox) handler(id int) onionmsg.OnionMessageHandler {
	return func(rp *lnwire.ReplyPath, enc, val []byte) error {
		b.got = append(b.got, received{id, rp, enc, val})
		return b.fail[id]
	}
}

func blinding() *btcec.PublicKey { return hlib.Priv(blindKey).PubKey() }

// toUs is an onion message for our node with the payload given.
func toUs(session int, payload []byte) []byte {
	us := hlib.BlindedID(hlib.Priv(ourKey), blinding())
	return hlib.Message(blinding(), hlib.Onion(hlib.Priv(session), hlib.To{Key: us, Payload: payload}))
}

// viaUs is an onion message for our node to pass on.
func viaUs(session int, payload, next []byte) []byte {
	return viaUsWith(blinding(), session, payload, next)
}

// viaUsWith is viaUs for a blinding point of its own.
func viaUsWith(blinding *btcec.PublicKey, session int, payload, next []byte) []byte {
	us := hlib.BlindedID(hlib.Priv(ourKey), blinding)
	return hlib.Message(blinding, hlib.Onion(hlib.Priv(session),
		hlib.To{Key: us, Payload: payload},
		hlib.To{Key: hlib.Priv(nextKey).PubKey(), Payload: next},
	))
}

func finals(of ...interface{}) (fs []*lnwire.FinalHopPayload) {
	for i := 0; i < len(of); i += 2 {
		fs = append(fs, &lnwire.FinalHopPayload{TLVType: tlv.Type(of[i].(uint64)), Value: of[i+1].([]byte)})
	}
	return
}

// stillWorks checks that the messenger still delivers a valid message.
func stillWorks(n *node, m *onionmsg.Messenger, s *shutdowns) {
	sym.Assert(len(s.errs) == 0, "no shutdown is requested")
	sym.Idle(11 * time.Minute)
	sym.Assert(len(s.errs) == 0, "no shutdown is requested")
	var b inbox
	err := m.RegisterHandler(1001, b.handler(9))
	sym.Assert(err == nil, "the messenger still registers handlers")
	deliver(n, msgType, toUs(60, hlib.PutPayload(nil, nil, finals(uint64(1001), []byte{1, 2, 3}))))
	sym.Assert(len(b.got) == 1 && sym.EqBytes(b.got[0].val, []byte{1, 2, 3}), "the messenger still delivers messages")
	err = m.Stop()
	sym.Assert(err == nil, "the messenger can be stopped")
	sym.Assert(len(s.errs) == 0, "no shutdown is requested")
}
