# Fourth batch: guards that seem sensible, state that outlives its use, and
# counters that wrap around.
from help import *
O,R,I,Mk,Sg='lnwire/bolt12_offer.go','lnwire/bolt12_invoice_request.go','lnwire/bolt12_invoice.go','lnwire/bolt12_merkle.go','lnwire/bolt12_signature.go'
W,Pl,Rb='lnwire/onion_message.go','lnwire/onion_msg_payload.go','lnwire/route_blinding.go'
M='onionmsg/messenger.go'; N='onionmsg/onion.go'; E='onionmsg/node_ecdh.go'; B='routes/blinded.go'
RC,RS,RSub,SV='rpcserver/common.go','rpcserver/impl_sendonionmessage.go','rpcserver/impl_subscribe_onion_payload.go','rpcserver/server.go'
S=[]
def seed(id,prop,edits,pkg,demo,needs,breaks,**k):
    S.append(dict(id=id,property=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,**k))

seed('C17-self-loop','C17',[(M,'''	if data.NextNodeID == nil {
		return ErrNoNextNodeID
	}
''','''	switch {
	case data.NextNodeID == nil:
		return ErrNoNextNodeID

	// Do not send messages in circles.
	case data.NextNodeID.IsEqual(m.nodeKeyECDH.PubKey()):
		return fmt.Errorf("%w: circular route", ErrNoNextNodeID)
	}
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1), pub(1), pub(2)}, nil, nil, final(65, "x")))
	f.deliver(t, 1, nil)
	f.deliver(t, 1, nil)
	if n := len(f.out()); n != 1 {
		t.Fatalf("sent %v messages", n)
	}
}
'''),'a path with a dummy hop, which names our own node as the next one','the message is dropped')

seed('C19-last-peer','C19',[(M,'''	isPeer, err := m.findPeer(ctx, peer)
	if err != nil {
		return fmt.Errorf("find peer: %w", err)
	}

	if isPeer {
		return nil
	}

	vertex := route.NewVertex(peer)
	info''','''	vertex := route.NewVertex(peer)
	if _, ok := m.connected.Load(vertex); ok {
		return nil
	}

	isPeer, err := m.findPeer(ctx, peer)
	if err != nil {
		return fmt.Errorf("find peer: %w", err)
	}

	if isPeer {
		return nil
	}

	info'''),(M,'''		if isPeer {
			return nil
		}

		// If we're not yet''','''		if isPeer {
			// The connection is permanent, so lnd keeps it up.
			m.connected.Store(vertex, struct{}{})
			return nil
		}

		// If we're not yet'''),(M,'''	wg   sync.WaitGroup
	quit chan struct{}
}''','''	// connected holds the peers that we have connected to.
	connected sync.Map

	wg   sync.WaitGroup
	quit chan struct{}
}''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	n := 0
	f.onConn = func() {
		n++
		f.peers = []lndclient.Peer{{Pubkey: route.NewVertex(pub(5))}}
	}
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	for i := 1; i < 3; i++ {
		f.peers = nil
		if err := m.SendMessage(context.Background(), onionmsg.NewSendMessageRequest(pub(5), nil, nil, nil, true)); err != nil {
			t.Fatal(err)
		}
		if n != i {
			t.Fatalf("%v connections for %v messages", n, i)
		}
	}
}
'''),'a peer that we connected to, that went away and that we send to again','the message is sent without a connection')

seed('C15-blinding-replay','C15',[(M,'''	return onionMsg.BlindingPoint, processed, nil
''','''	// A blinding point is never used for two messages, so this one has been
	// here before.
	point := onionMsg.BlindingPoint
	if m.seen[route.NewVertex(point)] {
		return nil, nil, sphinx.ErrReplayedPacket
	}
	m.seen[route.NewVertex(point)] = true

	return point, processed, nil
'''),(M,'''	requestShutdown func(err error)

	wg ''','''	requestShutdown func(err error)

	// seen holds the blinding points of previous messages.
	seen map[route.Vertex]bool

	wg '''),(M,'''		requestShutdown:     shutdown,
''','''		requestShutdown:     shutdown,
		seen:                make(map[route.Vertex]bool),
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	got := make(chan string, 10)
	if err := m.RegisterHandler(65, func(_ *lnwire.ReplyPath, _, v []byte) error {
		got <- string(v)
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	// Two replies along one path have the same blinding point.
	for i, v := range []string{"first", "second"} {
		r, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
			priv(byte(30+i)), priv(40), []*btcec.PublicKey{pub(1)}, nil, nil,
			[]*lnwire.FinalHopPayload{final(65, v)},
		))
		if err != nil {
			t.Fatal(err)
		}
		b := new(bytes.Buffer)
		if err := r.OnionMessage.Encode(b, 0); err != nil {
			t.Fatal(err)
		}
		f.deliver(t, 513, b.Bytes())
		select {
		case g := <-got:
			if g != v {
				t.Fatal(g)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("the %v message is not delivered", v)
		}
	}
}
'''),'two messages along the same blinded path','the second one is dropped')

seed('C27-duplicates','C27',[(RSub,'''			if err := send(resp); err != nil {
				return err
			}
''','''			// Senders repeat messages they have no answer to.
			if last != nil && proto.Equal(last, resp) {
				continue
			}
			last = resp

			if err := send(resp); err != nil {
				return err
			}
'''),(RSub,'''	for {
		// Receive incoming messages.
''','''	for last := (*offersrpc.SubscribeOnionPayloadResponse)(nil); ; {
		// Receive incoming messages.
'''),(RSub,'''	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
''','''	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
''')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	s := server(t, f)
	ctx, cancel := context.WithCancel(context.Background())
	st := newStream(ctx)
	close(st.gate)
	done := make(chan error, 1)
	go func() { done <- s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: 65}, st) }()
	time.Sleep(300 * time.Millisecond)
	for _, v := range []string{"ping", "ping"} {
		f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(65, v)))
		select {
		case <-st.got:
		case <-time.After(3 * time.Second):
			t.Fatal("not delivered")
		}
	}
	cancel()
	<-done
	s.Stop()
}
'''),'two messages in a row with the same payload','the second one is not delivered')

seed('C24-long-key','C24',[(RS,'btcec.ParsePubKey(req.Pubkey)','parseNodeKey(req.Pubkey)'),(RS,'// parseSendOnionMessageRequest','''// parseNodeKey parses the key of a node, which is always compressed.
func parseNodeKey(key []byte) (*btcec.PublicKey, error) {
	if len(key) != btcec.PubKeyBytesLenCompressed {
		return nil, errors.New("public key is not compressed")
	}

	return btcec.ParsePubKey(key)
}

// parseSendOnionMessageRequest''')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	f.peers = []lndclient.Peer{{Pubkey: route.NewVertex(pub(5))}}
	s := server(t, f)
	defer s.Stop()
	_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
		Pubkey: pub(5).SerializeUncompressed(), DirectConnect: true,
	})
	if err != nil || len(f.out()) != 1 {
		t.Fatal("a valid key is refused", err)
	}
}
'''),'a public key in its uncompressed form','a well-formed request is refused')

seed('C31-shared-deadline','C31',[(E,'''	ctx, cancel := context.WithTimeout(context.Background(), r.timeout)
	defer cancel()

	// Point lnd''','''	// A message takes several key agreements.
	if r.ctx == nil || r.ctx.Err() != nil {
		r.ctx, r.cancel = context.WithTimeout(
			context.Background(), r.timeout,
		)
	}
	ctx := r.ctx

	// Point lnd'''),(E,'''	timeout time.Duration
}''','''	timeout time.Duration
	ctx     context.Context
	cancel  func()
}''')],'onionmsg',msg('''
type signer struct{ left time.Duration }

func (s *signer) DeriveSharedKey(ctx context.Context, _ *btcec.PublicKey, _ *keychain.KeyLocator) ([32]byte, error) {
	d, _ := ctx.Deadline()
	s.left = time.Until(d)
	return [32]byte{}, nil
}

func TestDemo(t *testing.T) {
	s := &signer{}
	n, err := onionmsg.NewNodeECDH(newLnd(), s)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if _, err := n.ECDH(pub(3)); err != nil {
			t.Fatal(err)
		}
		if s.left < 14*time.Second {
			t.Fatalf("only %v left", s.left)
		}
		time.Sleep(2 * time.Second)
	}
}
''','"github.com/lightningnetwork/lnd/keychain"'),'a key agreement some seconds after another','it has less time than it should, down to none')

seed('C23-stale-peers','C23',[(B,'''	peers, err := getRelayingPeers(ctx, b.lnd, canRelay)
	if err != nil {
		return nil, fmt.Errorf("get relaying peers: %w", err)
	}
''','''	peers, err := getRelayingPeers(ctx, b.lnd, canRelay)
	switch {
	// Fall back to what we knew if lnd is busy.
	case err != nil && len(b.peers) > 0 && len(features) == 0:
		peers = b.peers

	case err != nil:
		return nil, fmt.Errorf("get relaying peers: %w", err)
	}
	b.peers = peers
'''),(B,'''	pubkey *btcec.PublicKey
}

// Compile''','''	pubkey *btcec.PublicKey

	// peers are the peers that we last looked up.
	peers []*lndclient.NodeInfo
}

// Compile''')],'routes','''package routes_test

import (
	"context"
	"errors"
	"testing"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
)
'''+KEYS+'''
type lnd struct {
	lndclient.LightningClient
	fail bool
}

func (l *lnd) ListChannels(context.Context, bool, bool) ([]lndclient.ChannelInfo, error) {
	if l.fail {
		return nil, errors.New("failed")
	}
	return []lndclient.ChannelInfo{{PubKeyBytes: route.NewVertex(pub(2))}}, nil
}

func (l *lnd) GetNodeInfo(_ context.Context, v route.Vertex, _ bool) (*lndclient.NodeInfo, error) {
	return &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v}, Channels: []lndclient.ChannelEdge{{}}}, nil
}

func TestDemo(t *testing.T) {
	l := &lnd{}
	g := routes.NewBlindedRouteGenerator(l, pub(1))
	if _, err := g.ReplyPath(context.Background(), []lnwire.FeatureBit{}); err != nil {
		t.Fatal(err)
	}
	l.fail = true
	if _, err := g.ReplyPath(context.Background(), []lnwire.FeatureBit{}); err == nil {
		t.Fatal("a failure of lnd is not reported")
	}
}
''','a route after which lnd fails for the next one','a failure of lnd is hidden behind a route via peers that may be gone')

seed('C22-repeated-hop','C22',[(B,'		hops:               hops,','		hops:               distinct(hops),'),(B,'// NewBlindedRouteRequest','''// distinct drops repeated hops, nodes need not pass a message on to themselves.
func distinct(hops []*btcec.PublicKey) []*btcec.PublicKey {
	var d []*btcec.PublicKey
	for i, hop := range hops {
		if i == 0 || !hop.IsEqual(hops[i-1]) {
			d = append(d, hop)
		}
	}

	return d
}

// NewBlindedRouteRequest''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	got := make(chan string, 1)
	if err := m.RegisterHandler(65, func(_ *lnwire.ReplyPath, _, v []byte) error {
		got <- string(v)
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	data := onionVia(t, []*btcec.PublicKey{pub(1), pub(1)}, nil, nil, final(65, "x"))
	f.deliver(t, 513, data)
	f.deliver(t, 1, nil)
	f.deliver(t, 1, nil)
	out := f.out()
	if len(out) != 1 {
		t.Fatalf("sent %v messages for the second hop", len(out))
	}
}
'''),'a route that names a node twice in a row','the route has fewer hops than asked for')

seed('C29-whole-seconds','C29',[('boltnd.go','time.Sleep(b.cfg.LNDWait)','time.Sleep(b.cfg.LNDWait.Truncate(time.Second))')],'.','''package boltnd_test

import (
	"testing"
	"time"

	"github.com/carlakc/boltnd"
	"github.com/lightninglabs/lndclient"
)

func TestDemo(t *testing.T) {
	b, err := boltnd.NewBoltnd(boltnd.OptionLNDClient(&lndclient.LndServicesConfig{
		LndAddress: "127.0.0.1:1", Network: "regtest", TLSPath: "/nonexistent/tls.cert",
		MacaroonDir: "/nonexistent", CheckVersion: boltnd.MinimumLNDVersion,
	}), func(c *boltnd.Config) error {
		c.LNDRetires, c.LNDWait = 2, 900*time.Millisecond
		return nil
	})
	if err != nil {
		t.Fatal(err)
	}
	start := time.Now()
	if err := b.Start(); err == nil {
		t.Fatal("started")
	}
	if d := time.Since(start); d < 1700*time.Millisecond {
		t.Fatalf("three attempts, 0.9 seconds apart, took %v", d)
	}
}
''','a wait that is not a number of whole seconds','the configured wait is cut short')

seed('C20-two-requests','C20',[(M,'''		if err != nil && err != ErrShuttingDown {
			m.requestShutdown(err)
		}
''','''		if err == nil || err == ErrShuttingDown {
			return
		}

		m.requestShutdown(err)

		// We are of no use without messages, insist.
		select {
		case <-m.quit:
		case <-time.After(time.Minute):
			m.requestShutdown(err)
		}
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	var m *onionmsg.Messenger
	asked := make(chan error, 1)
	m = messenger(t, f, 1, func(err error) { asked <- err })
	f.errs <- errors.New("gone")
	<-asked
	select {
	case <-asked:
		t.Fatal("a shutdown is requested twice")
	case <-time.After(70 * time.Second):
	}
	within(t, 5*time.Second, "stop", func() { m.Stop() })
}
''','"errors"'),'a stream that failed a minute ago','a shutdown is requested twice')

seed('C18-slow-handler','C18',[(M,'''	case <-m.quit:
		return fmt.Errorf("%w: could not %v: %v",
			ErrShuttingDown, action, request.tlvType)
''','''	// The main loop is always quick to respond.
	case <-time.After(time.Second):
		return fmt.Errorf("%w: could not %v: %v",
			ErrNotStarted, action, request.tlvType)

	case <-m.quit:
		return fmt.Errorf("%w: %v interrupted: %v",
			ErrShuttingDown, action, request.tlvType)
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	if err := m.RegisterHandler(65, func(*lnwire.ReplyPath, []byte, []byte) error {
		time.Sleep(2 * time.Second)
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(65, "x")))
	if err := m.RegisterHandler(67, func(*lnwire.ReplyPath, []byte, []byte) error { return nil }); err != nil {
		t.Fatal(err)
	}
}
'''),'a handler that takes more than a second while another is registered','a free type cannot be registered')

seed('C17-send-deadline','C17',[(M,'''	err = m.lnd.SendCustomMessage(context.Background(), customMsg)
''','''	ctx, cancel := context.WithTimeout(
		context.Background(), m.lookupPeerBackoff,
	)
	defer cancel()

	err = m.lnd.SendCustomMessage(ctx, customMsg)
''')],'onionmsg',msg('''
type slowLnd struct{ *fakeLnd }

func (s slowLnd) SendCustomMessage(ctx context.Context, c lndclient.CustomMessage) error {
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-time.After(2 * time.Second):
	}
	return s.fakeLnd.SendCustomMessage(ctx, c)
}

func TestDemo(t *testing.T) {
	f := slowLnd{newLnd()}
	m := onionmsg.NewOnionMessenger(
		&chaincfg.RegressionNetParams, f, &sphinx.PrivKeyECDH{PrivKey: priv(1)}, func(error) {},
	)
	if err := m.Start(); err != nil {
		t.Fatal(err)
	}
	defer m.Stop()
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1), pub(2)}, nil, nil, final(65, "x")))
	f.deliver(t, 1, nil)
	f.deliver(t, 1, nil)
	if n := len(f.out()); n != 1 {
		t.Fatalf("sent %v times", n)
	}
}
'''),'lnd taking more than a second to send a message','the message is dropped')
