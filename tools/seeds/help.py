# Go text shared by the demonstrations.
def lnw(body, imports=''):
    return 'package lnwire_test\n\nimport (\n\t"testing"\n'+''.join('\t'+i+'\n' for i in imports.split('\n') if i)+'\n\t"github.com/carlakc/boltnd/lnwire"\n)\n'+body
KEYS='''
func priv(b byte) *btcec.PrivateKey {
	var k [32]byte
	k[31] = b
	p, _ := btcec.PrivKeyFromBytes(k[:])
	return p
}

func pub(b byte) *btcec.PublicKey { return priv(b).PubKey() }
'''
NODE='''
// fakeLnd is the lnd that our node works for.
type fakeLnd struct {
	lndclient.LightningClient

	mu      sync.Mutex
	msgs    chan lndclient.CustomMessage
	errs    chan error
	sent    []lndclient.CustomMessage
	sendErr error
	route   *lndclient.QueryRoutesResponse
	routeEr error
	onConn  func()
	peers   []lndclient.Peer
	calls   int
	ident   *btcec.PublicKey
}

func newLnd() *fakeLnd {
	return &fakeLnd{
		msgs: make(chan lndclient.CustomMessage), errs: make(chan error),
		ident: pub(1),
	}
}

func (f *fakeLnd) GetInfo(context.Context) (*lndclient.Info, error) {
	i := &lndclient.Info{}
	copy(i.IdentityPubkey[:], f.ident.SerializeCompressed())
	return i, nil
}

func (f *fakeLnd) SubscribeCustomMessages(context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	return f.msgs, f.errs, nil
}

func (f *fakeLnd) SendCustomMessage(_ context.Context, m lndclient.CustomMessage) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls++
	f.sent = append(f.sent, m)
	return f.sendErr
}

func (f *fakeLnd) out() []lndclient.CustomMessage {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]lndclient.CustomMessage(nil), f.sent...)
}

func (f *fakeLnd) ListPeers(context.Context) ([]lndclient.Peer, error) { return f.peers, nil }

func (f *fakeLnd) Connect(context.Context, route.Vertex, string, bool) error {
	if f.onConn != nil {
		f.onConn()
	}
	return nil
}

func (f *fakeLnd) GetNodeInfo(_ context.Context, v route.Vertex, _ bool) (*lndclient.NodeInfo, error) {
	return &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v, Addresses: []string{"host:1"}}}, nil
}

func (f *fakeLnd) QueryRoutes(context.Context, lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {
	return f.route, f.routeEr
}

// deliver hands an onion message to our node.
func (f *fakeLnd) deliver(t *testing.T, typ uint32, data []byte) {
	t.Helper()
	select {
	case f.msgs <- lndclient.CustomMessage{Peer: route.NewVertex(pub(9)), MsgType: typ, Data: data}:
	case <-time.After(10 * time.Second):
		t.Fatal("message not consumed")
	}
}

var session byte = 100

// onionVia is an onion message along the path with the payloads for its last node.
func onionVia(t *testing.T, path []*btcec.PublicKey, reply, dest *lnwire.ReplyPath, fs ...*lnwire.FinalHopPayload) []byte {
	t.Helper()
	session++
	r, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		priv(session), priv(session+100), path, reply, dest, fs,
	))
	if err != nil {
		t.Fatal(err)
	}
	b := new(bytes.Buffer)
	if err := r.OnionMessage.Encode(b, 0); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}

func final(typ uint64, v string) *lnwire.FinalHopPayload {
	return &lnwire.FinalHopPayload{TLVType: tlv.Type(typ), Value: []byte(v)}
}

func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal(what + ": does not return")
	}
}
'''
IMP='''import (
	"bytes"
	"context"
	"sync"
	"testing"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
%s)
'''
MSGR='''
func messenger(t *testing.T, f *fakeLnd, key byte, shutdown func(error)) *onionmsg.Messenger {
	t.Helper()
	m := onionmsg.NewOnionMessenger(
		&chaincfg.RegressionNetParams, f, &sphinx.PrivKeyECDH{PrivKey: priv(key)}, shutdown,
	)
	if err := m.Start(); err != nil {
		t.Fatal(err)
	}
	return m
}
'''
def msg(body, imports=''):
    return 'package onionmsg_test\n\n'+IMP%''.join('\t'+i+'\n' for i in imports.split('\n') if i)+KEYS+NODE+MSGR+body
SRV='''
type fakeSigner struct{ lndclient.SignerClient }

func (fakeSigner) DeriveSharedKey(_ context.Context, e *btcec.PublicKey, _ *keychain.KeyLocator) ([32]byte, error) {
	return (&sphinx.PrivKeyECDH{PrivKey: priv(1)}).ECDH(e)
}

func server(t *testing.T, f *fakeLnd) *rpcserver.Server {
	t.Helper()
	s, err := rpcserver.NewServer(func(error) {})
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Start(&lndclient.LndServices{
		Client: f, Signer: fakeSigner{}, ChainParams: &chaincfg.RegressionNetParams,
	}); err != nil {
		t.Fatal(err)
	}
	return s
}

// fakeStream is a subscriber; it takes a message only once gate allows it.
type fakeStream struct {
	grpc.ServerStream
	ctx  context.Context
	gate chan struct{}
	got  chan *offersrpc.SubscribeOnionPayloadResponse
}

func newStream(ctx context.Context) *fakeStream {
	return &fakeStream{ctx: ctx, gate: make(chan struct{}), got: make(chan *offersrpc.SubscribeOnionPayloadResponse, 100)}
}

func (s *fakeStream) Context() context.Context { return s.ctx }

func (s *fakeStream) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	<-s.gate
	s.got <- r
	return nil
}

var _ = onionmsg.ErrNoPath
'''
def srv(body, imports=''):
    im='''"github.com/carlakc/boltnd/offersrpc"
"github.com/carlakc/boltnd/rpcserver"
"github.com/lightningnetwork/lnd/keychain"
"google.golang.org/grpc"
'''+imports
    return 'package rpcserver_test\n\n'+IMP%''.join('\t'+i+'\n' for i in im.split('\n') if i)+KEYS+NODE+SRV+body
