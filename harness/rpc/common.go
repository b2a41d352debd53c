// Harness for the RPC server.
package main

import (
	"context"
	"errors"
	"io"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/keychain"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

const (
	ourKey   = 1
	peerKey  = 10
	target   = 20
	blindKey = 41
	msgType  = 513
)

var (
	errLnd  = errors.New("lnd failed")
	errSend = errors.New("stream failed")
)

func pick(name string, of ...int) int { return of[sym.Choose(name, len(of))] }

// priv is the key of the number given; a negative number means the negated key.
func priv(k int) *btcec.PrivateKey {
	if k < 0 {
		return hlib.Neg(hlib.Priv(-k))
	}
	return hlib.Priv(k)
}

func vertex(k int) route.Vertex { return route.NewVertex(priv(k).PubKey()) }

// lnd is the node our server works for.
type lnd struct {
	lndclient.LightningClient

	msgs        chan lndclient.CustomMessage
	errs        chan error
	subErr      error
	subCtx      context.Context
	identity    []byte
	identityErr error
	startCalls  int // made while starting

	calls     int // all others
	sent      []lndclient.CustomMessage
	sendErr   error
	peers     []lndclient.Peer
	peersErr  error
	route     *lndclient.QueryRoutesResponse
	routeErr  error
	queried   []route.Vertex
	connected int

	channels    []lndclient.ChannelInfo
	channelsErr error
	features    map[route.Vertex][]lndwire.FeatureBit
}

func newLnd() *lnd {
	return &lnd{
		msgs: make(chan lndclient.CustomMessage), errs: make(chan error),
		identity: hlib.Priv(ourKey).PubKey().SerializeCompressed(),
	}
}

func (n *lnd) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	n.startCalls++
	if n.identityErr != nil {
		return nil, n.identityErr
	}
	i := new(lndclient.Info)
	copy(i.IdentityPubkey[:], n.identity)
	return i, nil
}

func (n *lnd) SubscribeCustomMessages(ctx context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	n.startCalls++
	n.subCtx = ctx
	if n.subErr != nil {
		return nil, nil, n.subErr
	}
	return n.msgs, n.errs, nil
}

func (n *lnd) SendCustomMessage(ctx context.Context, msg lndclient.CustomMessage) error {
	n.calls++
	n.sent = append(n.sent, msg)
	return n.sendErr
}

func (n *lnd) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	n.calls++
	return n.peers, n.peersErr
}

func (n *lnd) Connect(ctx context.Context, peer route.Vertex, host string, permanent bool) error {
	n.calls++
	n.connected++
	return nil
}

func (n *lnd) QueryRoutes(ctx context.Context, req lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {
	n.calls++
	n.queried = append(n.queried, req.PubKey)
	return n.route, n.routeErr
}

func (n *lnd) ListChannels(ctx context.Context, activeOnly, publicOnly bool) ([]lndclient.ChannelInfo, error) {
	n.calls++
	return n.channels, n.channelsErr
}

func (n *lnd) GetNodeInfo(ctx context.Context, k route.Vertex, includeChannels bool) (*lndclient.NodeInfo, error) {
	n.calls++
	f, ok := n.features[k]
	if !ok {
		return nil, errLnd
	}
	i := &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: k, Features: f, Addresses: []string{"host:1"}}}
	if includeChannels {
		i.Channels = []lndclient.ChannelEdge{{}}
	}
	return i, nil
}

// signer holds the identity key of the node.
type signer struct {
	lndclient.SignerClient
	key int
}

func (s *signer) DeriveSharedKey(ctx context.Context, e *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {
	return hlib.ECDH(hlib.Priv(s.key)).ECDH(e)
}

// routeVia is lnd's answer to a query for a route.
func routeVia(keys ...int) *lndclient.QueryRoutesResponse {
	r := new(lndclient.QueryRoutesResponse)
	for _, k := range keys {
		v := vertex(k)
		r.Hops = append(r.Hops, &lndclient.Hop{PubKey: &v})
	}
	return r
}

// shutdowns collects the requests to shut down.
type shutdowns struct{ errs []error }

func (s *shutdowns) request(err error) { s.errs = append(s.errs, err) }

func server() (*rpcserver.Server, *shutdowns) {
	d := new(shutdowns)
	s, err := rpcserver.NewServer(d.request)
	if err != nil {
		sym.Fail("a server can be made")
	}
	return s, d
}

func services(n *lnd) *lndclient.LndServices {
	return &lndclient.LndServices{Client: n, Signer: &signer{key: ourKey}, ChainParams: &chaincfg.Params{}}
}

// started returns a server that is ready.
func started(n *lnd) (*rpcserver.Server, *shutdowns) {
	s, d := server()
	if err := s.Start(services(n)); err != nil {
		sym.Fail("a server starts")
	}
	return s, d
}

// deliver hands a custom message to the node.
func deliver(n *lnd, typ uint32, data []byte) {
	n.msgs <- lndclient.CustomMessage{Peer: vertex(77), MsgType: typ, Data: data}
	sym.Settle()
}

func msgOf(data []byte) lndclient.CustomMessage {
	return lndclient.CustomMessage{Peer: vertex(77), MsgType: msgType, Data: data}
}

// toUs is an onion message for our node with the payload given.
func toUs(session int, payload []byte) []byte {
	b := hlib.Priv(blindKey).PubKey()
	us := hlib.BlindedID(hlib.Priv(ourKey), b)
	return hlib.Message(b, hlib.Onion(hlib.Priv(session), hlib.To{Key: us, Payload: payload}))
}

func finals(of ...interface{}) (fs []*lnwire.FinalHopPayload) {
	for i := 0; i < len(of); i += 2 {
		fs = append(fs, &lnwire.FinalHopPayload{TLVType: tlv.Type(of[i].(uint64)), Value: of[i+1].([]byte)})
	}
	return
}

// anyError is an error of any of the kinds that a grpc call may fail with.
func anyError() error {
	switch sym.Choose("error", 8) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return status.Error(codes.Canceled, "canceled")
	case 5:
		return status.Error(codes.Unavailable, "transport is closing")
	case 6:
		return status.Error(codes.Unknown, "unknown")
	}
	return errLnd
}

// stream is a subscriber.
type stream struct {
	grpc.ServerStream
	ctx     context.Context
	cancel  func()
	got     []*offersrpc.SubscribeOnionPayloadResponse
	slow    chan error // Send waits for it
	fail    int        // the number of the Send that fails
	failure error      // what it fails with
	stuck   bool       // Send waits for the end of the stream
}

func newStream() *stream {
	s := &stream{fail: -1, failure: errSend}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	return s
}

func (s *stream) Context() context.Context { return s.ctx }

func (s *stream) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	if s.slow != nil {
		if err := <-s.slow; err != nil {
			return err
		}
	}
	if s.stuck {
		<-s.ctx.Done()
		return s.ctx.Err()
	}
	if len(s.got) == s.fail {
		return s.failure
	}
	s.got = append(s.got, r)
	return nil
}

// call runs f, which may block, and reports whether it returned and what.
type call struct {
	done bool
	err  error
}

func start(f func() error) *call {
	c := new(call)
	go func() {
		c.err = f()
		c.done = true
	}()
	return c
}

func subscribe(s *rpcserver.Server, typ uint64, st *stream) *call {
	c := start(func() error {
		return s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: typ}, st)
	})
	sym.Settle()
	return c
}

// code reports whether an error has the status code given; a nil error has the
// code OK.
func code(err error, c codes.Code) bool { return status.Code(err) == c }

// rpcPath spells a path for the wire.
func rpcPath(p *lnwire.ReplyPath) *offersrpc.BlindedPath {
	if p == nil {
		return nil
	}
	r := &offersrpc.BlindedPath{
		IntroductionNode: p.FirstNodeID.SerializeCompressed(),
		BlindingPoint:    p.BlindingPoint.SerializeCompressed(),
	}
	for _, h := range p.Hops {
		r.Hops = append(r.Hops, &offersrpc.BlindedHop{
			BlindedNodeId: h.BlindedNodeID.SerializeCompressed(), EncryptedData: h.EncryptedData,
		})
	}
	return r
}

// sameRPCPath compares a path with one from the wire.
func sameRPCPath(p *lnwire.ReplyPath, r *offersrpc.BlindedPath) bool {
	if p == nil || r == nil {
		return p == nil && r == nil
	}
	if len(p.Hops) != len(r.Hops) {
		return false
	}
	same := sym.And(
		sym.EqBytes(p.FirstNodeID.SerializeCompressed(), r.IntroductionNode),
		sym.EqBytes(p.BlindingPoint.SerializeCompressed(), r.BlindingPoint),
	)
	for i, h := range p.Hops {
		same = sym.And(same, sym.EqBytes(h.BlindedNodeID.SerializeCompressed(), r.Hops[i].BlindedNodeId))
		same = sym.And(same, sym.EqBytes(h.EncryptedData, r.Hops[i].EncryptedData))
	}
	return same
}

// anyPath is a path of the given number of hops with arbitrary content.
func anyPath(hops int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{FirstNodeID: hlib.PubKey("first"), BlindingPoint: hlib.PubKey("blinding")}
	for i := 0; i < hops; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: hlib.PubKey("hop"), EncryptedData: sym.Bytes("data", 3*i),
		})
	}
	return p
}

// arrived opens the one message sent, at its recipient.
func arrived(n *lnd, at int) (payload []byte, ok bool) {
	sym.Assert(len(n.sent) == 1, "exactly one message is sent")
	if len(n.sent) != 1 {
		return nil, false
	}
	msg := n.sent[0]
	sym.Assert(msg.MsgType == msgType && msg.Peer == vertex(at), "an onion message is sent to the first hop")
	if len(msg.Data) != 33+2+1366 {
		sym.Fail("the message holds an onion")
	}
	b, err := btcec.ParsePubKey(msg.Data[:33])
	if err != nil {
		sym.Fail("the message holds a blinding point")
	}
	l, err := hlib.Peel(priv(at), b, msg.Data[35:])
	if err != nil {
		sym.Fail("the recipient can open the onion")
	}
	sym.Assert(l.Final, "the message ends at its recipient")
	return l.Payload, l.Final
}

// key is the public key spelled by the bytes given.
func key(b []byte) *btcec.PublicKey {
	k, err := btcec.ParsePubKey(b)
	if err != nil {
		sym.Fail("keys are valid")
	}
	return k
}
