# Second batch: what goes wrong only on a later call, a second message, another
# order or an overlap.
from help import *
O,R,I,Mk,Sg='lnwire/bolt12_offer.go','lnwire/bolt12_invoice_request.go','lnwire/bolt12_invoice.go','lnwire/bolt12_merkle.go','lnwire/bolt12_signature.go'
W,Pl,Rb='lnwire/onion_message.go','lnwire/onion_msg_payload.go','lnwire/route_blinding.go'
M='onionmsg/messenger.go'; N='onionmsg/onion.go'; E='onionmsg/node_ecdh.go'; B='routes/blinded.go'
RC,RS,RSub,SV='rpcserver/common.go','rpcserver/impl_sendonionmessage.go','rpcserver/impl_subscribe_onion_payload.go','rpcserver/server.go'
BT='"github.com/btcsuite/btcd/btcec/v2"'
TLV='"github.com/lightningnetwork/lnd/tlv"'
S=[]
def seed(id,prop,edits,pkg,demo,needs,breaks,**k):
    S.append(dict(id=id,property=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,**k))

ROUTES='''package routes_test

import (
	"bytes"
	"context"
	"testing"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
)

var (
	_ context.Context
	_ lndclient.LightningClient
	_ bytes.Buffer
	_ lndwire.FeatureBit
	_ route.Vertex
	_ *lnwire.ReplyPath
)
'''+KEYS+'''
// hopsLeft peels an onion with the keys given and counts its layers.
func hopsLeft(t *testing.T, blob []byte, keys ...byte) int {
	t.Helper()
	for i, k := range keys {
		pkt := new(sphinx.OnionPacket)
		if err := pkt.Decode(bytes.NewReader(blob)); err != nil {
			t.Fatal(err)
		}
		r := sphinx.NewRouter(&sphinx.PrivKeyECDH{PrivKey: priv(k)}, &chaincfg.Params{}, sphinx.NewMemoryReplayLog())
		if err := r.Start(); err != nil {
			t.Fatal(err)
		}
		p, err := r.ProcessOnionPacket(pkt, nil, 10, nil)
		if err != nil {
			t.Fatal(err)
		}
		if p.Action == sphinx.ExitNode {
			return i + 1
		}
		b := new(bytes.Buffer)
		if err := p.NextPacket.Encode(b); err != nil {
			t.Fatal(err)
		}
		blob = b.Bytes()
	}
	return -1
}
'''

seed('C32-failed-send','C32',[(M,'''	sessionKey, err := btcec.NewPrivateKey()
	if err != nil {
		return fmt.Errorf("could not get session key: %w", err)
	}

''','''	sessionKey, err := m.sessionKey()
	if err != nil {
		return fmt.Errorf("could not get session key: %w", err)
	}

'''),(M,'	return m.lnd.SendCustomMessage(ctx, *msg)\n','''	if err := m.lnd.SendCustomMessage(ctx, *msg); err != nil {
		// The key was not used, keep it for the next message.
		m.spareKeys <- sessionKey
		return err
	}

	return nil
'''),(M,'''// lookupAndConnect checks whether''','''// sessionKey returns a key for a new onion.
func (m *Messenger) sessionKey() (*btcec.PrivateKey, error) {
	select {
	case key := <-m.spareKeys:
		return key, nil

	default:
		return btcec.NewPrivateKey()
	}
}

// lookupAndConnect checks whether'''),(M,'''	started int32 // to be used atomically
''','''	// spareKeys holds keys that were created, but not used.
	spareKeys chan *btcec.PrivateKey

	started int32 // to be used atomically
'''),(M,'''		requestShutdown:     shutdown,
''','''		requestShutdown:     shutdown,
		spareKeys:           make(chan *btcec.PrivateKey, 100),
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	f.peers = []lndclient.Peer{{Pubkey: route.NewVertex(pub(2))}}
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	dest := &lnwire.ReplyPath{
		FirstNodeID: pub(2), BlindingPoint: pub(4),
		Hops: []*lnwire.BlindedHop{{BlindedNodeID: pub(5), EncryptedData: []byte{1}}},
	}
	for i := 0; i < 2; i++ {
		if i == 0 {
			f.sendErr = errors.New("failed")
		} else {
			f.sendErr = nil
		}
		r := onionmsg.NewSendMessageRequest(nil, dest, nil, []*lnwire.FinalHopPayload{final(65, "x")}, true)
		if err := m.SendMessage(context.Background(), r); (err != nil) != (i == 0) {
			t.Fatal(err)
		}
	}
	out := f.out()
	// version, then the ephemeral key of the onion
	a, b := out[0].Data[36:69], out[1].Data[36:69]
	if bytes.Equal(a, b) {
		t.Fatal("two onions share their ephemeral key")
	}
}
''','"errors"'),'a send that lnd refuses, followed by another','two onions are built with the same session key')

seed('C32-generator-key','C32',[(B,'''	sessionKey, err := btcec.NewPrivateKey()
	if err != nil {
		return nil, fmt.Errorf("session key: %w", err)
	}

	route, err := sphinx.BuildBlindedPath(sessionKey, hops)
''','''	route, err := sphinx.BuildBlindedPath(b.sessionKey, hops)
'''),(B,'''	return &BlindedRouteGenerator{
		lnd:    lnd,
		pubkey: pubkey,
	}
''','''	sessionKey, err := btcec.NewPrivateKey()
	if err != nil {
		return nil
	}

	return &BlindedRouteGenerator{
		lnd:        lnd,
		pubkey:     pubkey,
		sessionKey: sessionKey,
	}
'''),(B,'''	pubkey *btcec.PublicKey
}

// Compile''','''	pubkey *btcec.PublicKey

	// sessionKey is the key that paths are blinded with.
	sessionKey *btcec.PrivateKey
}

// Compile''')],'routes',ROUTES+'''
type lnd struct{ lndclient.LightningClient }

func (lnd) ListChannels(context.Context, bool, bool) ([]lndclient.ChannelInfo, error) {
	return []lndclient.ChannelInfo{{PubKeyBytes: route.NewVertex(pub(2))}}, nil
}

func (lnd) GetNodeInfo(context.Context, route.Vertex, bool) (*lndclient.NodeInfo, error) {
	return &lndclient.NodeInfo{
		Node:     &lndclient.Node{PubKey: route.NewVertex(pub(2))},
		Channels: []lndclient.ChannelEdge{{}},
	}, nil
}

func TestDemo(t *testing.T) {
	g := routes.NewBlindedRouteGenerator(lnd{}, pub(1))
	a, err := g.ReplyPath(context.Background(), nil)
	if err != nil {
		t.Fatal(err)
	}
	b, err := g.ReplyPath(context.Background(), nil)
	if err != nil {
		t.Fatal(err)
	}
	if a.BlindingPoint.IsEqual(b.BlindingPoint) {
		t.Fatal("two routes share their blinding point")
	}
}
''','two routes of one server','routes to our node can be linked')

seed('C22-shared-path','C22',[(B,'''func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
	var sphinxPath sphinx.PaymentPath
''','''func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
'''),(B,'''// directToBlinded returns a route response when''','''// sphinxPath is the path of the message being created.
var sphinxPath sphinx.PaymentPath

// directToBlinded returns a route response when''')],'routes',ROUTES+'''
func TestDemo(t *testing.T) {
	for _, n := range []int{3, 1} {
		dest := &lnwire.ReplyPath{FirstNodeID: pub(2), BlindingPoint: pub(4)}
		for i := 0; i < n; i++ {
			dest.Hops = append(dest.Hops, &lnwire.BlindedHop{
				BlindedNodeID: pub(byte(20 + i)), EncryptedData: []byte{1},
			})
		}
		r, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
			priv(6), priv(7), []*btcec.PublicKey{pub(2)}, nil, dest, nil,
		))
		if err != nil {
			t.Fatal(err)
		}
		if k := hopsLeft(t, r.OnionMessage.OnionBlob, 20, 21, 22); k != n {
			t.Fatalf("route of %v hops, expected %v", k, n)
		}
	}
}
''','two sends straight to introduction nodes, the second along a shorter path','the onion of the second message has hops of the first')

seed('C27-path-cache','C27',[(RSub,'				ReplyPath: composeReplyPath(msg.replyPath),','				ReplyPath: lastPath.compose(msg.replyPath),'),(RC,'// composeReplyPath','''// pathCache remembers a composed path, messages tend to come in series.
type pathCache struct {
	of   *btcec.PublicKey
	path *offersrpc.BlindedPath
}

// compose returns the rpc path for the reply path provided.
func (p *pathCache) compose(r *lnwire.ReplyPath) *offersrpc.BlindedPath {
	if r == nil {
		return nil
	}

	if p.of == nil || !p.of.IsEqual(r.FirstNodeID) {
		p.of, p.path = r.FirstNodeID, composeReplyPath(r)
	}

	return p.path
}

// composeReplyPath'''),(RSub,'''	for {
		// Receive''','''	var lastPath pathCache
	for {
		// Receive''')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	s := server(t, f)
	defer s.Stop()
	st := newStream(context.Background())
	close(st.gate)
	go s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: 65}, st)
	time.Sleep(300 * time.Millisecond)
	for i := byte(0); i < 2; i++ {
		rp := &lnwire.ReplyPath{FirstNodeID: pub(3), BlindingPoint: pub(10 + i), Hops: []*lnwire.BlindedHop{
			{BlindedNodeID: pub(20 + i), EncryptedData: []byte{i}},
		}}
		f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, rp, nil, final(65, "x")))
		select {
		case r := <-st.got:
			if !bytes.Equal(r.ReplyPath.BlindingPoint, pub(10+i).SerializeCompressed()) {
				t.Fatal("a reply path is another message's")
			}
		case <-time.After(10 * time.Second):
			t.Fatal("not delivered")
		}
	}
}
'''),'two messages whose reply paths start at the same node','the second message is reported with the reply path of the first')

seed('C24-key-cache','C24',[(RS,'btcec.ParsePubKey(req.Pubkey)','keys.parse(req.Pubkey)'),(RS,'// parseSendOnionMessageRequest','''// keyCache saves the cost of decompressing a key over and over.
type keyCache struct {
	sync.Mutex
	keys map[[32]byte]*btcec.PublicKey
}

var keys = &keyCache{keys: make(map[[32]byte]*btcec.PublicKey)}

// parse returns the public key spelled by the bytes given.
func (k *keyCache) parse(b []byte) (*btcec.PublicKey, error) {
	var x [32]byte
	if len(b) == btcec.PubKeyBytesLenCompressed {
		copy(x[:], b[1:])
	}

	k.Lock()
	defer k.Unlock()

	if key, ok := k.keys[x]; ok {
		return key, nil
	}

	key, err := btcec.ParsePubKey(b)
	if err != nil {
		return nil, err
	}

	if len(b) == btcec.PubKeyBytesLenCompressed {
		k.keys[x] = key
	}

	return key, nil
}

// parseSendOnionMessageRequest'''),(RS,'	"errors"\n','	"errors"\n	"sync"\n')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	s := server(t, f)
	defer s.Stop()
	for i := byte(0); i < 2; i++ {
		b := pub(3).SerializeCompressed()
		b[0] ^= i
		f.peers = append(f.peers, lndclient.Peer{})
		copy(f.peers[i].Pubkey[:], b)
	}
	for i := range f.peers {
		_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
			Pubkey: f.peers[i].Pubkey[:], DirectConnect: true,
		})
		if err != nil {
			t.Fatal(err)
		}
		if out := f.out(); out[len(out)-1].Peer != f.peers[i].Pubkey {
			t.Fatal("sent to another node")
		}
	}
}
'''),'sends to a key and to its negation','a message goes to a node other than the one named')

seed('C17-ephemeral-cache','C17',[(M,'''	nextBlinding, err := sphinx.NextEphemeral(m.nodeKeyECDH, blindingPoint)
	if err != nil {
		return fmt.Errorf("could not calculate next ephemeral: %w", err)
	}
''','''	nextBlinding, err := m.nextEphemeral(blindingPoint)
	if err != nil {
		return fmt.Errorf("could not calculate next ephemeral: %w", err)
	}
'''),(M,'''// forwardMessage forwards an onion packet to the next node provided.
''','''// nextEphemeral returns the blinding point that follows the point provided.
// Messages tend to come in series along one path, so we save ourselves the key
// agreement if we have seen the point just before.
func (m *Messenger) nextEphemeral(point *btcec.PublicKey) (*btcec.PublicKey,
	error) {

	if m.lastPoint != nil && m.lastPoint.X().Cmp(point.X()) == 0 {
		return m.lastNext, nil
	}

	next, err := sphinx.NextEphemeral(m.nodeKeyECDH, point)
	if err != nil {
		return nil, err
	}

	m.lastPoint, m.lastNext = point, next

	return next, nil
}

// forwardMessage forwards an onion packet to the next node provided.
'''),(M,'''	started int32 // to be used atomically
''','''	// lastPoint and lastNext are the blinding point of the last message
	// that we forwarded, and the one we passed on.
	lastPoint, lastNext *btcec.PublicKey

	started int32 // to be used atomically
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	s := priv(60).Key
	s.Negate()
	for i, k := range []*btcec.PrivateKey{priv(60), btcec.PrivKeyFromScalar(&s)} {
		r, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
			priv(byte(70+i)), k, []*btcec.PublicKey{pub(1), pub(2)}, nil, nil, nil,
		))
		if err != nil {
			t.Fatal(err)
		}
		b := new(bytes.Buffer)
		if err := r.OnionMessage.Encode(b, 0); err != nil {
			t.Fatal(err)
		}
		f.deliver(t, 513, b.Bytes())
		f.deliver(t, 1, nil)
		f.deliver(t, 1, nil)
		out := f.out()
		if len(out) != i+1 {
			t.Fatal("not forwarded")
		}
		next, err := sphinx.NextEphemeral(&sphinx.PrivKeyECDH{PrivKey: priv(1)}, k.PubKey())
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(out[i].Data[:33], next.SerializeCompressed()) {
			t.Fatal("wrong blinding point")
		}
	}
}
'''),'consecutive messages with opposite blinding points','the second message is forwarded with a blinding point the next hop cannot use')

seed('C17-data-cache','C17',[(N,'''	return func(blindingPoint *btcec.PublicKey,''','''	// Paths are used for more than one message, remember what we opened.
	seen := opened

	return func(blindingPoint *btcec.PublicKey,'''),(N,'''// decryptBlobFunc returns a closure''','''// opened holds the route data that we have opened.
var opened = make(map[string]*lnwire.BlindedRouteData)

// decryptBlobFunc returns a closure'''),(N,'''		decrypted, err := sphinx''','''		if data, ok := seen[string(payload.EncryptedData)]; ok {
			return data, nil
		}

		decrypted, err := sphinx'''),(N,'''		data, err := lnwire.DecodeBlindedRouteData(decrypted)
		if err != nil {
			return nil, fmt.Errorf("could not decode data "+
				"blob: %w", err)
		}

		return data, nil
	}
}''','''		seen[string(payload.EncryptedData)], err = lnwire.DecodeBlindedRouteData(
			decrypted,
		)
		if err != nil {
			delete(seen, string(payload.EncryptedData))
			return nil, fmt.Errorf("could not decode data "+
				"blob: %w", err)
		}

		return seen[string(payload.EncryptedData)], nil
	}
}''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	p, err := sphinx.BuildBlindedPath(priv(60), []*sphinx.BlindedPathHop{{
		NodePub: pub(1), Payload: append([]byte{4, 33}, pub(2).SerializeCompressed()...),
	}})
	if err != nil {
		t.Fatal(err)
	}
	payload, err := lnwire.EncodeOnionMessagePayload(&lnwire.OnionMessagePayload{EncryptedData: p.EncryptedData[0]})
	if err != nil {
		t.Fatal(err)
	}
	for i, blinding := range []byte{60, 61} {
		b, err := sphinx.BuildBlindedPath(priv(blinding), []*sphinx.BlindedPathHop{{NodePub: pub(1)}})
		if err != nil {
			t.Fatal(err)
		}
		var path sphinx.PaymentPath
		path[0] = sphinx.OnionHop{NodePub: *b.BlindedHops[0], HopPayload: sphinx.HopPayload{
			Type: sphinx.PayloadTLV, Payload: payload,
		}}
		path[1] = sphinx.OnionHop{NodePub: *pub(2), HopPayload: sphinx.HopPayload{
			Type: sphinx.PayloadTLV, Payload: payload,
		}}
		pkt, err := sphinx.NewOnionPacket(&path, priv(byte(80+i)), nil, sphinx.DeterministicPacketFiller)
		if err != nil {
			t.Fatal(err)
		}
		blob, w := new(bytes.Buffer), new(bytes.Buffer)
		if err := pkt.Encode(blob); err != nil {
			t.Fatal(err)
		}
		if err := lnwire.NewOnionMessage(pub(blinding), blob.Bytes()).Encode(w, 0); err != nil {
			t.Fatal(err)
		}
		f.deliver(t, 513, w.Bytes())
		f.deliver(t, 1, nil)
		f.deliver(t, 1, nil)
		if len(f.out()) != 1 {
			t.Fatal("forwarded: ", len(f.out()))
		}
	}
}
'''),'a message with route data copied from an earlier message','data that cannot be opened with the blinding point of its message is acted on')

seed('C15-stale-reply','C15',[(M,'''				payload.ReplyPath, payload.EncryptedData,
''','''				replyPath, payload.EncryptedData,
'''),(M,'''		// If we have no handlers registered, then''','''		// Save our reply path, the final hop payloads of a message all
		// share one.
		if len(payload.FinalHopPayloads) == 1 || payload.ReplyPath != nil {
			replyPath = payload.ReplyPath
		}

		// If we have no handlers registered, then'''),(M,'''// handleOnionMessage extracts onion messages from custom''','''// replyPath is the reply path of the message that we are handling.
var replyPath *lnwire.ReplyPath

// handleOnionMessage extracts onion messages from custom''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	got := make(chan *lnwire.ReplyPath, 10)
	for _, typ := range []tlv.Type{65, 67} {
		if err := m.RegisterHandler(typ, func(rp *lnwire.ReplyPath, _, _ []byte) error {
			got <- rp
			return nil
		}); err != nil {
			t.Fatal(err)
		}
	}
	rp := &lnwire.ReplyPath{FirstNodeID: pub(3), BlindingPoint: pub(10), Hops: []*lnwire.BlindedHop{
		{BlindedNodeID: pub(20), EncryptedData: []byte{1}},
	}}
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, rp, nil, final(65, "x")))
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(65, "x"), final(67, "y")))
	for i := 0; i < 3; i++ {
		select {
		case r := <-got:
			if (r != nil) != (i == 0) {
				t.Fatal("reply path of another message")
			}
		case <-time.After(10 * time.Second):
			t.Fatal("not delivered")
		}
	}
}
'''),'a message with a reply path, then one without and with two payloads','a payload is delivered with the reply path of an earlier message')

seed('C12-shared-hops','C12',[(Pl,'			hop := &BlindedHop{}\n			if err','			hop := &hops[i]\n			*hop = BlindedHop{}\n			if err'),(Pl,'// decodeReplyPath decodes','''// hops are the hops of the path that is being decoded.
var hops [256]BlindedHop

// decodeReplyPath decodes''')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	var all []*lnwire.OnionMessagePayload
	for i := byte(0); i < 2; i++ {
		b, err := lnwire.EncodeOnionMessagePayload(&lnwire.OnionMessagePayload{ReplyPath: &lnwire.ReplyPath{
			FirstNodeID: pub(3), BlindingPoint: pub(4),
			Hops: []*lnwire.BlindedHop{{BlindedNodeID: pub(5 + i), EncryptedData: []byte{i}}},
		}})
		if err != nil {
			t.Fatal(err)
		}
		p, err := lnwire.DecodeOnionMessagePayload(b)
		if err != nil {
			t.Fatal(err)
		}
		all = append(all, p)
	}
	for i, p := range all {
		if p.ReplyPath.Hops[0].EncryptedData[0] != byte(i) {
			t.Fatal("a decoded path changed")
		}
	}
}
''',BT),'two paths decoded in one process','a decoded reply path changes when another is decoded')

seed('C28-third-waiter','C28',[(SV,'''	select {
	case <-s.ready:
		return nil

	case <-ctx.Done():''','''	// Don't let calls pile up while lnd is syncing.
	if atomic.AddInt32(&s.waiting, 1) > 2 {
		select {
		case <-s.ready:

		default:
			return status.Error(codes.Unavailable, "server not ready")
		}
	}
	defer atomic.AddInt32(&s.waiting, -1)

	select {
	case _, ok := <-s.ready:
		if ok {
			return status.Error(codes.Unavailable, "server not ready")
		}
		return nil

	case <-ctx.Done():'''),(SV,'	stopped int32 // to be used atomically\n','	stopped int32 // to be used atomically\n	waiting int32 // to be used atomically\n')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	s, err := rpcserver.NewServer(func(error) {})
	if err != nil {
		t.Fatal(err)
	}
	errs := make(chan error, 3)
	for i := 0; i < 3; i++ {
		go func() {
			_, err := s.DecodeOffer(context.Background(), &offersrpc.DecodeOfferRequest{})
			errs <- err
		}()
	}
	time.Sleep(500 * time.Millisecond)
	if err := s.Start(&lndclient.LndServices{
		Client: newLnd(), Signer: fakeSigner{}, ChainParams: &chaincfg.RegressionNetParams,
	}); err != nil {
		t.Fatal(err)
	}
	defer s.Stop()
	for i := 0; i < 3; i++ {
		if err := <-errs; status.Code(err) != codes.InvalidArgument {
			t.Fatal(err)
		}
	}
}
''','"google.golang.org/grpc/codes"\n"google.golang.org/grpc/status"'),'three calls before the server is ready','the third call fails though its caller would have waited')

seed('C31-secret-cache','C31',[(E,'	return r.signer.DeriveSharedKey(ctx, pubkey, keyLoc)','''	// Processing a message needs the same secret more than once.
	if r.lastKey != nil && r.lastKey.X().Cmp(pubkey.X()) == 0 {
		return r.lastSecret, nil
	}

	secret, err := r.signer.DeriveSharedKey(ctx, pubkey, keyLoc)
	if err != nil {
		return secret, err
	}

	r.lastKey, r.lastSecret = pubkey, secret

	return secret, nil'''),(E,'''	timeout time.Duration
''','''	timeout time.Duration

	// lastKey and lastSecret are the last point and its secret.
	lastKey    *btcec.PublicKey
	lastSecret [32]byte
''')],'onionmsg',msg('''
type mathSigner struct{ lndclient.SignerClient }

func (s *mathSigner) DeriveSharedKey(_ context.Context, k *btcec.PublicKey, _ *keychain.KeyLocator) ([32]byte, error) {
	return (&sphinx.PrivKeyECDH{PrivKey: priv(1)}).ECDH(k)
}

func TestDemo(t *testing.T) {
	n, err := onionmsg.NewNodeECDH(newLnd(), &mathSigner{})
	if err != nil {
		t.Fatal(err)
	}
	b := pub(3).SerializeCompressed()
	for i := byte(0); i < 2; i++ {
		b[0] ^= i
		k, err := btcec.ParsePubKey(b)
		if err != nil {
			t.Fatal(err)
		}
		got, err := n.ECDH(k)
		if err != nil {
			t.Fatal(err)
		}
		want, _ := (&sphinx.PrivKeyECDH{PrivKey: priv(1)}).ECDH(k)
		if got != want {
			t.Fatal("another key's secret")
		}
	}
}
''','"github.com/lightningnetwork/lnd/keychain"'),'key agreements with a key and its negation, one after the other','the secret returned is not the one lnd would give')

seed('C09-offer-mutated','C09',[(R,'''	var (
		haveMinQuantity = offer.QuantityMin != 0
''','''	// If there is no upper bound, the lower one is all we can ask for.
	if offer.QuantityMin > 1 && offer.QuantityMax == 0 {
		offer.QuantityMax = quantity
	}

	var (
		haveMinQuantity = offer.QuantityMin > 0
''')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	o := &lnwire.Offer{Description: "d", NodeID: pub(1), QuantityMin: 2}
	b, err := lnwire.EncodeOffer(o)
	if err != nil {
		t.Fatal(err)
	}
	if o, err = lnwire.DecodeOffer(b); err != nil {
		t.Fatal(err)
	}
	for _, q := range []uint64{3, 5} {
		if _, err := lnwire.NewInvoiceRequest(o, 1, q, pub(2), ""); err != nil {
			t.Fatal(q, err)
		}
	}
}
''',BT),'two requests for one offer without upper quantity bound','the first request limits the quantity of the next')

seed('C13-shared-buffer','C13',[(Rb,'	w := new(bytes.Buffer)\n','	w := &routeData\n	w.Reset()\n'),(Rb,'// EncodeBlindedRouteData encodes','''// routeData holds the data that we are encoding.
var routeData bytes.Buffer

// EncodeBlindedRouteData encodes''')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	a, err := lnwire.EncodeBlindedRouteData(&lnwire.BlindedRouteData{NextNodeID: pub(1)})
	if err != nil {
		t.Fatal(err)
	}
	want := append([]byte(nil), a...)
	if _, err := lnwire.EncodeBlindedRouteData(&lnwire.BlindedRouteData{NextNodeID: pub(2)}); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(a, want) {
		t.Fatal("encoded data changed")
	}
}
''',BT+'\n"bytes"'),'two hops encoded one after the other','the data of the first hop is overwritten by that of the second')

seed('C18-reuse','C18',[(M,'''		delete(m.onionMsgHandlers, request.tlvType)
		return nil
''','''		// Keep an entry so that the type can be told apart from one
		// that never had a handler.
		if len(m.onionMsgHandlers) > 2 {
			m.onionMsgHandlers[request.tlvType] = nil
		} else {
			delete(m.onionMsgHandlers, request.tlvType)
		}

		return nil
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	m := messenger(t, newLnd(), 1, func(error) {})
	defer m.Stop()
	h := func(*lnwire.ReplyPath, []byte, []byte) error { return nil }
	for _, typ := range []tlv.Type{65, 67, 69} {
		if err := m.RegisterHandler(typ, h); err != nil {
			t.Fatal(err)
		}
	}
	if err := m.DeregisterHandler(67); err != nil {
		t.Fatal(err)
	}
	if err := m.RegisterHandler(67, h); err != nil {
		t.Fatal(err)
	}
}
'''),'three handlers, one of which goes and comes back','a type that was deregistered cannot be registered again')
