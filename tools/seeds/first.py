from help import *
O,R,I,Mk,Sg='lnwire/bolt12_offer.go','lnwire/bolt12_invoice_request.go','lnwire/bolt12_invoice.go','lnwire/bolt12_merkle.go','lnwire/bolt12_signature.go'
W,Pl,Rb='lnwire/onion_message.go','lnwire/onion_msg_payload.go','lnwire/route_blinding.go'
M='onionmsg/messenger.go'; E='onionmsg/node_ecdh.go'; B='routes/blinded.go'
BT='"github.com/btcsuite/btcd/btcec/v2"'
TLV='"github.com/lightningnetwork/lnd/tlv"'
S=[]
def seed(id,prop,edits,pkg,demo,needs,breaks,**k):
    S.append(dict(id=id,property=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,**k))

seed('C01-expiry-epoch','C01',[(O,'if !o.Expiry.IsZero() {','if o.Expiry.Unix() > 0 {')],'lnwire',lnw('''
func TestDemo(t *testing.T) {
	for _, s := range []int64{0, -5} {
		b, err := lnwire.EncodeOffer(&lnwire.Offer{Description: "d", Expiry: time.Unix(s, 0)})
		if err != nil {
			t.Fatal(err)
		}
		o, err := lnwire.DecodeOffer(b)
		if err != nil {
			t.Fatal(err)
		}
		if !o.Expiry.Equal(time.Unix(s, 0)) {
			t.Fatalf("expiry %v became %v", s, o.Expiry)
		}
	}
}
''','"time"'),'an offer whose expiry is the unix epoch or wraps past 2^63','the expiry disappears when an offer is encoded')

seed('C02-note-nul','C02',[(R,'i.PayerNote = string(payerNote)','i.PayerNote = string(bytes.TrimRight(payerNote, "\\x00"))')],'lnwire',lnw('''
func TestDemo(t *testing.T) {
	note := "thanks\\x00"
	b, err := lnwire.EncodeInvoiceRequest(&lnwire.InvoiceRequest{Quantity: 1, PayerNote: note})
	if err != nil {
		t.Fatal(err)
	}
	r, err := lnwire.DecodeInvoiceRequest(b)
	if err != nil {
		t.Fatal(err)
	}
	if r.PayerNote != note {
		t.Fatalf("note became %q", r.PayerNote)
	}
}
'''),'a payer note that ends in a zero byte','payer notes are altered on decoding')

seed('C03-expiry-32bit','C03',[(I,'expiry := uint64(i.RelativeExpiry.Seconds())','expiry := uint64(uint32(i.RelativeExpiry / time.Second))')],'lnwire',lnw('''
func TestDemo(t *testing.T) {
	want := 5000000000 * time.Second
	b, err := lnwire.EncodeInvoice(&lnwire.Invoice{Amount: 1, RelativeExpiry: want})
	if err != nil {
		t.Fatal(err)
	}
	i, err := lnwire.DecodeInvoice(b)
	if err != nil {
		t.Fatal(err)
	}
	if i.RelativeExpiry != want {
		t.Fatalf("expiry became %v", i.RelativeExpiry)
	}
}
''','"time"'),'a relative expiry of at least 2^32 seconds','long relative expiries are truncated when an invoice is encoded')

seed('C04-bad-payer-key','C04',[(R,'''		pubkey, err := schnorr.ParsePubKey(payerKey[:])
		if err != nil {
			return nil, fmt.Errorf("invalid payer key: %w", err)
		}

		i.PayerKey = pubkey
''','''		if pubkey, err := schnorr.ParsePubKey(payerKey[:]); err == nil {
			i.PayerKey = pubkey
		}
''')],'lnwire',lnw('''
func TestDemo(t *testing.T) {
	raw := append([]byte{38, 32}, bytes.Repeat([]byte{0xff}, 32)...)
	if r, err := lnwire.DecodeInvoiceRequest(raw); err == nil {
		t.Fatalf("payer key off the curve accepted as %v", r.PayerKey)
	}
}
''','"bytes"'),'a payer key record that is not the x coordinate of a point','a known record on the wire is dropped from the decoded request instead of refused')

seed('C05-nonce-tag-shared','C05',[(Mk,'NonceTag = []byte("LnAll")','NonceTag = append(make([]byte, 0, 512), "LnAll"...)')],'lnwire',lnw('''
func rec(typ tlv.Type, v byte) []tlv.Record {
	b := []byte{v, v, v}
	return []tlv.Record{tlv.MakePrimitiveRecord(typ, &b)}
}

func enc(r tlv.Record, _ [8]byte) ([]byte, error) {
	w := new(bytes.Buffer)
	err := r.Encode(w)
	return w.Bytes(), err
}

func TestDemo(t *testing.T) {
	root := func(between bool) [32]byte {
		l, err := lnwire.CreateTLVLeaves(rec(1, 7), enc)
		if err != nil {
			t.Fatal(err)
		}
		if between {
			// Somebody else calculates a root meanwhile.
			if _, err := lnwire.MerkleRoot(rec(3, 9)); err != nil {
				t.Fatal(err)
			}
		}
		b, err := lnwire.CreateTLVBranches(l)
		if err != nil {
			t.Fatal(err)
		}
		return lnwire.CalculateRoot(b)
	}
	if root(false) != root(true) {
		t.Fatal("root depends on another calculation")
	}
}
''','"bytes"\n'+TLV),'two merkle roots calculated at the same time','concurrent calculations share the memory of the nonce tag, so roots come out wrong')

seed('C05-sig-range-16bit','C05',[(Mk,'''	return tlvType >= signatureFieldStart &&
		tlvType <= signatureFieldEnd
''','''	fieldType := uint16(tlvType)

	return fieldType >= uint16(signatureFieldStart) &&
		fieldType <= uint16(signatureFieldEnd)
''')],'lnwire',lnw('''
func TestDemo(t *testing.T) {
	one, two := []byte("one"), []byte("two")
	a := tlv.MakePrimitiveRecord(1, &one)
	b := tlv.MakePrimitiveRecord(65537+240, &two)
	x, err := lnwire.MerkleRoot([]tlv.Record{a})
	if err != nil {
		t.Fatal(err)
	}
	y, err := lnwire.MerkleRoot([]tlv.Record{a, b})
	if err != nil {
		t.Fatal(err)
	}
	if x == y {
		t.Fatal("record is not part of the root")
	}
}
''',TLV),'a record type above 65535 whose low 16 bits lie in the signature range','such records are left out of the merkle root')

seed('C06-length-byte','C06',[(Mk,'''	err = tlv.WriteVarInt(w, record.Size(), &b)
	if err != nil {
		return nil, fmt.Errorf("encode length: %w", err)
	}
''','''	if err := w.WriteByte(byte(record.Size())); err != nil {
		return nil, fmt.Errorf("encode length: %w", err)
	}
''')],'lnwire',lnw('''
func TestDemo(t *testing.T) {
	stream := append([]byte{10, 253, 1, 4}, bytes.Repeat([]byte{'d'}, 260)...)
	o, err := lnwire.DecodeOffer(stream)
	if err != nil {
		t.Fatal(err)
	}
	leaf := chainhash.TaggedHash([]byte("LnLeaf"), stream)
	nonce := chainhash.TaggedHash(append([]byte("LnAll"), stream...), stream)
	if bytes.Compare(leaf[:], nonce[:]) > 0 {
		leaf, nonce = nonce, leaf
	}
	want := chainhash.TaggedHash([]byte("LnBranch"), append(leaf[:], nonce[:]...))
	if !bytes.Equal(want[:], o.MerkleRoot[:]) {
		t.Fatal("root is not that of the record received")
	}
}
''','"bytes"\n"github.com/btcsuite/btcd/chaincfg/chainhash"'),'a record of 253 bytes or more','long records are hashed with a wrong length',also=['C05'])

seed('C07-sig-cache','C07',[(Sg,'''	if !sig.Verify(digest, nodeID) {
''','''	verifiedMtx.Lock()
	defer verifiedMtx.Unlock()

	// Verifying is expensive, so remember what has passed.
	id := string(digest) + string(schnorr.SerializePubKey(nodeID))
	if !verified[id] && !sig.Verify(digest, nodeID) {
'''),(Sg,'''		)
	}

	return nil
}
''','''		)
	}

	verified[id] = true

	return nil
}
'''),(Sg,'''// signatureDigest returns''','''// verified holds the digests and keys that we have seen a signature for.
var (
	verified    = make(map[string]bool)
	verifiedMtx sync.Mutex
)

// signatureDigest returns'''),(Sg,'''	"fmt"
''','''	"fmt"
	"sync"
''')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	root := lntypes.Hash{1}
	digest := chainhash.TaggedHash([]byte("lightningoffersignature"), root[:])
	s, err := schnorr.Sign(priv(1), digest[:])
	if err != nil {
		t.Fatal(err)
	}
	var sig [64]byte
	copy(sig[:], s.Serialize())
	o := &lnwire.Offer{Description: "d", NodeID: pub(1), Signature: &sig, MerkleRoot: root}
	if err := o.Validate(); err != nil {
		t.Fatal(err)
	}
	sig[40] ^= 1
	if err := o.Validate(); err == nil {
		t.Fatal("altered signature accepted")
	}
}
''','"github.com/btcsuite/btcd/btcec/v2"\n"github.com/btcsuite/btcd/btcec/v2/schnorr"\n"github.com/btcsuite/btcd/chaincfg/chainhash"\n"github.com/lightningnetwork/lnd/lntypes"'),
'validating a genuine message first, then the same one with another signature','any signature is accepted for a message that has been validated before')

seed('C08-quantity-signed','C08',[(O,'o.QuantityMin > o.QuantityMax {','int64(o.QuantityMin) > int64(o.QuantityMax) {')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	o := &lnwire.Offer{Description: "d", NodeID: pub(1), QuantityMin: 1, QuantityMax: 1 << 63}
	if err := o.Validate(); err != nil {
		t.Fatal(err)
	}
	o.QuantityMin, o.QuantityMax = 1<<63, 1
	if err := o.Validate(); err == nil {
		t.Fatal("min > max accepted")
	}
}
''',BT),'a quantity bound of at least 2^63','valid quantity ranges are refused and invalid ones accepted')

seed('C09-signed-max','C09',[(R,'if haveMaxQuantity && quantity > offer.QuantityMax {','if haveMaxQuantity && int64(quantity) > int64(offer.QuantityMax) {')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	o := &lnwire.Offer{Description: "d", NodeID: pub(1), QuantityMax: 3}
	if _, err := lnwire.NewInvoiceRequest(o, 1000, 4, pub(2), ""); err == nil {
		t.Fatal("quantity above maximum accepted")
	}
	if _, err := lnwire.NewInvoiceRequest(o, 1000, 1<<63+1, pub(2), ""); err == nil {
		t.Fatal("huge quantity above maximum accepted")
	}
}
''',BT),'a quantity of 2^63 or more','requests above the maximum quantity can be built')

seed('C10-short-read','C10',[(W,'if err := lndwire.ReadElement(r, o.OnionBlob); err != nil {','if _, err := r.Read(o.OnionBlob); err != nil {')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	b := append(pub(1).SerializeCompressed(), 0, 10, 1, 2, 3)
	m := &lnwire.OnionMessage{}
	if err := m.Decode(bytes.NewReader(b), 0); err == nil {
		t.Fatalf("truncated onion accepted: %x", m.OnionBlob)
	}
}
''','"bytes"\n'+BT),'a message that ends in the middle of its onion','truncated onions are padded with zeros instead of refused')

seed('C11-signed-order','C11',[(Pl,'''		return onionPayload.FinalHopPayloads[i].TLVType <
			onionPayload.FinalHopPayloads[j].TLVType
''','''		return int64(onionPayload.FinalHopPayloads[i].TLVType) <
			int64(onionPayload.FinalHopPayloads[j].TLVType)
''')],'lnwire',lnw('''
func TestDemo(t *testing.T) {
	big := tlv.Type(1<<63 + 1)
	b, err := lnwire.EncodeOnionMessagePayload(&lnwire.OnionMessagePayload{
		FinalHopPayloads: []*lnwire.FinalHopPayload{
			{TLVType: 65, Value: []byte{1}}, {TLVType: big, Value: []byte{2}},
		},
	})
	if err != nil {
		t.Fatal(err)
	}
	p, err := lnwire.DecodeOnionMessagePayload(b)
	if err != nil {
		t.Fatal(err)
	}
	if len(p.FinalHopPayloads) != 2 || p.FinalHopPayloads[0].TLVType != 65 {
		t.Fatal("payloads not in ascending order")
	}
}
''',TLV),'payload types on both sides of 2^63','final payloads are delivered out of order')

seed('C12-hop-count-signed','C12',[(Pl,'for i := 0; i < int(hopCount); i++ {','for i := int8(0); i < int8(hopCount); i++ {')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	p := &lnwire.ReplyPath{FirstNodeID: pub(1), BlindingPoint: pub(2)}
	for i := 0; i < 130; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{BlindedNodeID: pub(3), EncryptedData: []byte{byte(i)}})
	}
	b, err := lnwire.EncodeOnionMessagePayload(&lnwire.OnionMessagePayload{ReplyPath: p})
	if err != nil {
		t.Fatal(err)
	}
	d, err := lnwire.DecodeOnionMessagePayload(b)
	if err != nil {
		t.Fatal(err)
	}
	if len(d.ReplyPath.Hops) != 130 {
		t.Fatal("hops lost")
	}
}
''',BT),'a reply path of more than 127 hops','long reply paths that fit their record are refused')

seed('C13-truncated','C13',[(Rb,'''	if err := stream.Decode(r); err != nil {
		return nil, err
''','''	err = stream.Decode(r)
	if err != nil && err != io.ErrUnexpectedEOF {
		return nil, err
'''),(Rb,'"bytes"\n','"bytes"\n\t"io"\n')],'lnwire',lnw(KEYS+'''
func TestDemo(t *testing.T) {
	b := append([]byte{4, 33}, pub(1).SerializeCompressed()...)
	for i := 1; i < len(b); i++ {
		if d, err := lnwire.DecodeBlindedRouteData(b[:i]); err == nil {
			t.Fatalf("%v of %v bytes accepted: %v", i, len(b), d)
		}
	}
}
''',BT),'route data cut off inside a record','truncated route data is accepted')

seed('C14-case-per-part','C14',[('offers/bech32.go','''		parts[i] = strings.TrimSpace(part)
''','''		// Wallets may show each part in its own case.
		parts[i] = caseOf(parts[0], strings.TrimSpace(part))
'''),('offers/bech32.go','''// stripOffer strips''','''// caseOf returns part in the case of an offer's first part.
func caseOf(first, part string) string {
	if first == strings.ToUpper(first) || part != strings.ToUpper(part) {
		return part
	}

	return strings.ToLower(part)
}

// stripOffer strips''')],'offers','''package offers_test

import (
	"encoding/hex"
	"strings"
	"testing"

	"github.com/btcsuite/btcd/btcutil/bech32"
	"github.com/carlakc/boltnd/offers"
)

func TestDemo(t *testing.T) {
	raw, err := hex.DecodeString("0a01641e20" + "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	if err != nil {
		t.Fatal(err)
	}
	five, err := bech32.ConvertBits(raw, 8, 5, true)
	if err != nil {
		t.Fatal(err)
	}
	s := "lno1"
	for _, v := range five {
		s += string("qpzry9x8gf2tvdw0s3jn54khce6mua7l"[v])
	}
	for _, ok := range []string{s, strings.ToUpper(s), s[:10] + "+ " + s[10:]} {
		if _, err := offers.DecodeOfferStr(ok); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := offers.DecodeOfferStr(s[:10] + "+" + strings.ToUpper(s[10:])); err == nil {
		t.Fatal("mixed case accepted")
	}
}
''','a joined offer string whose parts are in different cases','mixed case is accepted')

seed('C15-unhandled-even','C15',[(M,'''					extraData.TLVType, extraData.Value)

				continue
''','''					extraData.TLVType, extraData.Value)

				// It is only ok to ignore odd types.
				if extraData.TLVType%2 == 0 {
					return nil
				}

				continue
''' ),(M,'log.Debugf("Final tlv: %v / %x unhandled",','log.Debugf("Final hop tlv: %v / %x unhandled",')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	got := make(chan string, 10)
	if err := m.RegisterHandler(65, func(_ *lnwire.ReplyPath, _, v []byte) error {
		got <- string(v)
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(64, "request"), final(65, "ours")))
	select {
	case v := <-got:
		if v != "ours" {
			t.Fatal(v)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("payload not delivered")
	}
}
'''),'a message with an unhandled even payload before a handled one','payloads that have a handler are not delivered')

seed('C16-empty-message','C16',[(M,'log.Infof("Received onion message from peer: %v", msg.Peer)','log.Infof("Received onion message from peer: %v, point: %x", msg.Peer,\n\t\tmsg.Data[:33])')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(err error) { t.Error(err) })
	defer m.Stop()
	got := make(chan string, 10)
	if err := m.RegisterHandler(65, func(_ *lnwire.ReplyPath, _, v []byte) error {
		got <- string(v)
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	f.deliver(t, 513, make([]byte, 5))
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(65, "ours")))
	select {
	case <-got:
	case <-time.After(3 * time.Second):
		t.Fatal("payload not delivered")
	}
}
'''),'an onion message of fewer than 33 bytes','any peer can crash the node')

seed('C16-strikes','C16',[(M,'''			default:
				log.Errorf("Onion message from: %v failed: %v",
					msg.Peer, err)
''','''			default:
				log.Errorf("Onion message from: %v failed: %v "+
					"(%v failures)", msg.Peer, err, failures)

				// Something is wrong with our node if it fails
				// over and over.
				if failures++; failures == 3 {
					return err
				}
'''),(M,'''	for {
		select {
		// Handling incoming''','''	var failures int
	for {
		select {
		// Handling incoming''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(err error) { t.Error("shutdown requested", err) })
	defer m.Stop()
	for i := 0; i < 5; i++ {
		// We are not the last hop, but nobody follows us: there is nothing to decrypt.
		f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1), pub(2)}, nil, nil, final(65, "x")))
	}
	f.sendErr = errors.New("peer offline")
	for i := 0; i < 5; i++ {
		f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1), pub(2)}, nil, nil, final(65, "x")))
	}
	time.Sleep(200 * time.Millisecond)
}
''','"errors"'),'three messages that cannot be handled or forwarded','peers can stop the messenger')

seed('C17-send-retry','C17',[(M,'''	if err != nil {
		return fmt.Errorf("could not send message: %w", err)
''','''	if err != nil {
		// Our peer could just be reconnecting, so try once more.
		err = m.lnd.SendCustomMessage(context.Background(), customMsg)
	}

	if err != nil {
		return fmt.Errorf("could not forward message: %w", err)
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	f.sendErr = errors.New("timeout")
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1), pub(2)}, nil, nil, final(65, "x")))
	f.deliver(t, 1, nil)
	f.deliver(t, 1, nil)
	if n := len(f.out()); n != 1 {
		t.Fatalf("sent %v times", n)
	}
}
''','"errors"'),'lnd reporting a failed send','a message is forwarded twice')

seed('C18-deregister-early','C18',[(M,'''	if !m.hasStarted() {
		return fmt.Errorf("%w: can't''','''	if !m.hasStarted() && !request.deregister {
		return fmt.Errorf("%w: can't''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	m := onionmsg.NewOnionMessenger(&chaincfg.RegressionNetParams, newLnd(), &sphinx.PrivKeyECDH{PrivKey: priv(1)}, nil)
	within(t, 3*time.Second, "deregister", func() {
		if err := m.DeregisterHandler(65); !errors.Is(err, onionmsg.ErrNotStarted) {
			t.Error(err)
		}
	})
}
''','"errors"'),'a handler deregistered before startup','the call blocks instead of failing')

seed('C19-wait-ignores-context','C19',[(M,'''		case <-ctx.Done():
			return ctx.Err()

		case <-time.After(m.lookupPeerBackoff):
''','''		case <-m.quit:
			return ErrShuttingDown

		case <-time.After(m.lookupPeerBackoff):
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	ctx, cancel := context.WithCancel(context.Background())
	f.onConn = cancel
	m := messenger(t, f, 1, func(error) {})
	defer m.Stop()
	start := time.Now()
	err := m.SendMessage(ctx, onionmsg.NewSendMessageRequest(pub(5), nil, nil, nil, true))
	if err == nil || time.Since(start) > 2*time.Second {
		t.Fatal("still waiting after the context has ended", err)
	}
}
'''),'a context that ends while waiting for a connection','the call carries on long after its context has ended')

seed('C20-stop-no-wait','C20',[(M,'''	close(m.quit)
	m.wg.Wait()
''','''	close(m.quit)
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := messenger(t, f, 1, func(error) {})
	release, running := make(chan struct{}), make(chan struct{})
	if err := m.RegisterHandler(65, func(*lnwire.ReplyPath, []byte, []byte) error {
		close(running)
		<-release
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(65, "x")))
	<-running
	stopped := make(chan struct{})
	go func() { m.Stop(); close(stopped) }()
	select {
	case <-stopped:
		t.Fatal("stopped while a handler is running")
	case <-time.After(300 * time.Millisecond):
	}
	close(release)
	<-stopped
}
'''),'stopping while a message is being handled','Stop returns while handlers still run')

seed('C21-single-hop-dest','C21',[(B,'		if i == extraHopCount-1 {','		if i == extraHopCount-1 && (i > 0 || replyPath == nil) {')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	// A blinded path that consists of its introduction node only.
	path, err := sphinx.BuildBlindedPath(priv(50), []*sphinx.BlindedPathHop{{NodePub: pub(1)}})
	if err != nil {
		t.Fatal(err)
	}
	dest := &lnwire.ReplyPath{
		FirstNodeID: path.IntroductionPoint, BlindingPoint: path.BlindingPoint,
		Hops: []*lnwire.BlindedHop{{BlindedNodeID: path.BlindedHops[0], EncryptedData: path.EncryptedData[0]}},
	}
	relay, last := newLnd(), newLnd()
	r, l := messenger(t, relay, 2, func(error) {}), messenger(t, last, 1, func(error) {})
	defer r.Stop()
	defer l.Stop()
	got := make(chan string, 10)
	if err := l.RegisterHandler(65, func(_ *lnwire.ReplyPath, _, v []byte) error {
		got <- string(v)
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	relay.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(2), pub(1)}, dest, dest, final(65, "hello")))
	relay.deliver(t, 1, nil)
	relay.deliver(t, 1, nil)
	out := relay.out()
	if len(out) != 1 {
		t.Fatal("not forwarded")
	}
	last.deliver(t, 513, out[0].Data)
	select {
	case v := <-got:
		if v != "hello" {
			t.Fatal(v)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("payload not delivered")
	}
}
'''),'a blinded destination of a single hop behind another node, with a reply path','the payload and reply path are left out of the message',also=['C22'])

seed('C22-xonly-intro','C22',[(B,'''	if !bytes.Equal(
		lastHop.SerializeCompressed(),
		introNode.SerializeCompressed(),
	) {
''','''	if !bytes.Equal(
		schnorr.SerializePubKey(lastHop),
		schnorr.SerializePubKey(introNode),
	) {
'''),(B,'''	"github.com/btcsuite/btcd/btcec/v2"
''','''	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
''')],'routes','''package routes_test

import (
	"testing"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/routes"
)
'''+KEYS+'''
func TestDemo(t *testing.T) {
	b := pub(3).SerializeCompressed()
	b[0] ^= 1
	other, err := btcec.ParsePubKey(b)
	if err != nil {
		t.Fatal(err)
	}
	dest := &lnwire.ReplyPath{
		FirstNodeID: pub(3), BlindingPoint: pub(4),
		Hops: []*lnwire.BlindedHop{{BlindedNodeID: pub(5), EncryptedData: []byte{1}}},
	}
	for _, path := range [][]*btcec.PublicKey{{other}, {pub(2), other}} {
		_, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(priv(6), priv(7), path, nil, dest, nil))
		if err == nil {
			t.Fatal("route that does not end at the introduction node accepted")
		}
	}
}
''','a route that ends at the negated introduction key','a route to a different node than the introduction node is accepted')

seed('C23-unknown-skipped','C23',[(B,'if !ok || status.Code() != codes.NotFound {','if !ok || (status.Code() != codes.NotFound &&\n\t\t\t\tstatus.Code() != codes.Unknown) {')],'routes','''package routes_test

import (
	"context"
	"testing"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)
'''+KEYS+'''
type lnd struct{ lndclient.LightningClient }

func (lnd) ListChannels(context.Context, bool, bool) ([]lndclient.ChannelInfo, error) {
	return []lndclient.ChannelInfo{
		{PubKeyBytes: route.NewVertex(pub(2))}, {PubKeyBytes: route.NewVertex(pub(3))},
	}, nil
}

func (lnd) GetNodeInfo(_ context.Context, v route.Vertex, _ bool) (*lndclient.NodeInfo, error) {
	if v == route.NewVertex(pub(2)) {
		return nil, status.Error(codes.Unknown, "graph database failed")
	}
	return &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v}, Channels: []lndclient.ChannelEdge{{}}}, nil
}

func TestDemo(t *testing.T) {
	_, err := routes.NewBlindedRouteGenerator(lnd{}, pub(1)).ReplyPath(context.Background(), nil)
	if err == nil {
		t.Fatal("failed lookup ignored")
	}
}
''','a lookup that fails with a status of unknown','a failed lookup is taken for a peer missing from the graph')

seed('C24-empty-payload','C24',[('rpcserver/impl_sendonionmessage.go','''	for tlvType, payload := range req.FinalPayloads {
''','''	for tlvType, payload := range req.FinalPayloads {
		// There is nothing to send for empty payloads.
		if len(payload) == 0 {
			continue
		}

'''),('rpcserver/impl_sendonionmessage.go','[]*lnwire.FinalHopPayload, 0, len(req.FinalPayloads),','[]*lnwire.FinalHopPayload, 0,')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	f.route = &lndclient.QueryRoutesResponse{}
	s := server(t, f)
	defer s.Stop()
	_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
		Pubkey: pub(5).SerializeCompressed(), FinalPayloads: map[uint64][]byte{3: {}},
	})
	if status.Code(err) != codes.InvalidArgument {
		t.Fatal("reserved payload type accepted", err)
	}
}
''','"google.golang.org/grpc/codes"\n"google.golang.org/grpc/status"'),'a payload without a value','marker payloads are dropped and not validated')

seed('C25-feature-limit','C25',[('rpcserver/impl_generate_blinded_route.go','if feature > math.MaxUint16 {','if feature > math.MaxUint16+1 {')],'rpcserver',srv('''
func (f *fakeLnd) ListChannels(context.Context, bool, bool) ([]lndclient.ChannelInfo, error) {
	return nil, nil
}

func TestDemo(t *testing.T) {
	s := server(t, newLnd())
	defer s.Stop()
	_, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{Features: []uint64{65536}})
	if status.Code(err) != codes.InvalidArgument {
		t.Fatal("feature 65536 accepted", err)
	}
}
''','"google.golang.org/grpc/codes"\n"google.golang.org/grpc/status"'),'a feature of exactly 65536','an invalid feature wraps to feature zero')

OFFER='''
func offerString(raw []byte) string {
	five, _ := bech32.ConvertBits(raw, 8, 5, true)
	s := "lno1"
	for _, v := range five {
		s += string("qpzry9x8gf2tvdw0s3jn54khce6mua7l"[v])
	}
	return s
}
'''
seed('C26-far-expiry','C26',[('rpcserver/impl_decodeoffer.go','rpcOffer.ExpiryUnixSeconds = uint64(offer.Expiry.Unix())','rpcOffer.ExpiryUnixSeconds = uint64(offer.Expiry.UnixNano() / 1e9)')],'rpcserver',srv(OFFER+'''
func TestDemo(t *testing.T) {
	raw, err := lnwire.EncodeOffer(&lnwire.Offer{
		Description: "d", NodeID: pub(1), Expiry: time.Unix(1<<40, 0),
	})
	if err != nil {
		t.Fatal(err)
	}
	s := server(t, newLnd())
	defer s.Stop()
	r, err := s.DecodeOffer(context.Background(), &offersrpc.DecodeOfferRequest{Offer: offerString(raw)})
	if err != nil {
		t.Fatal(err)
	}
	if r.Offer.ExpiryUnixSeconds != 1<<40 {
		t.Fatal("expiry", r.Offer.ExpiryUnixSeconds)
	}
}
''','"github.com/btcsuite/btcd/btcutil/bech32"'),'an expiry after the year 2262','the expiry reported is wrong')

seed('C27-slow-drop','C27',[('rpcserver/impl_subscribe_onion_payload.go','''		// Exit on server shutdown.
		case <-quit:
			return ErrShuttingDown
		}
	}

	// Register''','''		// Exit on server shutdown.
		case <-quit:
			return ErrShuttingDown

		// Our channel is buffered, so it always has capacity unless our
		// client is gone.
		default:
			return ErrSubscriberGone
		}
	}

	// Register'''),('rpcserver/impl_subscribe_onion_payload.go','''	"github.com/carlakc/boltnd/lnwire"
''','''	"errors"
	"github.com/carlakc/boltnd/lnwire"
'''),('rpcserver/impl_subscribe_onion_payload.go','''// SubscribeOnionPayload subscribes to onion message payloads
''','''// ErrSubscriberGone is returned when a payload can't be delivered.
var ErrSubscriberGone = errors.New("subscriber gone")

// SubscribeOnionPayload subscribes to onion message payloads.
''')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	s := server(t, f)
	ctx, cancel := context.WithCancel(context.Background())
	st := newStream(ctx)
	done := make(chan error, 1)
	go func() { done <- s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: 65}, st) }()
	time.Sleep(300 * time.Millisecond)
	go func() {
		for _, v := range []string{"1", "2", "3", "4"} {
			f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(65, v)))
		}
	}()
	time.Sleep(500 * time.Millisecond)
	close(st.gate)
	for _, v := range []string{"1", "2", "3", "4"} {
		select {
		case r := <-st.got:
			if string(r.Value) != v {
				t.Fatalf("got %s, not %s", r.Value, v)
			}
		case <-time.After(3 * time.Second):
			t.Fatal("payload lost: ", v)
		}
	}
	cancel()
	<-done
	s.Stop()
}
'''),'payloads arriving faster than the subscriber takes them','payloads are lost')

seed('C28-stop-order','C28',[('rpcserver/server.go','''	// Signal to goroutines to shut down.
	close(s.quit)
''','''	// Signal to goroutines to shut down once we have stopped.
	defer close(s.quit)
''')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	s := server(t, f)
	st := newStream(context.Background())
	done := make(chan error, 1)
	go func() { done <- s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: 65}, st) }()
	time.Sleep(300 * time.Millisecond)
	for _, v := range []string{"1", "2", "3"} {
		f.deliver(t, 513, onionVia(t, []*btcec.PublicKey{pub(1)}, nil, nil, final(65, v)))
	}
	time.Sleep(300 * time.Millisecond)
	within(t, 5*time.Second, "stop", func() { s.Stop() })
}
'''),'stopping while a payload waits for a slow subscriber','the server never stops')

seed('C29-backoff','C29',[('boltnd.go','time.Sleep(b.cfg.LNDWait)','time.Sleep(b.cfg.LNDWait << uint(i))')],'.','''package boltnd_test

import (
	"testing"
	"time"

	"github.com/carlakc/boltnd"
	"github.com/lightninglabs/lndclient"
)

func TestDemo(t *testing.T) {
	b, err := boltnd.NewBoltnd(boltnd.OptionLNDClient(&lndclient.LndServicesConfig{
		LndAddress: "127.0.0.1:1", Network: "regtest", TLSPath: "/nonexistent/tls.cert",
		MacaroonDir: "/nonexistent", CheckVersion: boltnd.MinimumLNDVersion,
	}), func(c *boltnd.Config) error {
		c.LNDRetires, c.LNDWait = 3, time.Second/2
		return nil
	})
	if err != nil {
		t.Fatal(err)
	}
	start := time.Now()
	if err := b.Start(); err == nil {
		t.Fatal("started")
	}
	if d := time.Since(start); d < 1900*time.Millisecond || d > 5*time.Second {
		t.Fatalf("four attempts, half a second apart, took %v", d)
	}
}
''','more than one failed attempt','the configured wait is not respected')

seed('C30-permission','C30',[('rpcserver/macaroons.go','"/offersrpc.Offers/SubscribeOnionPayload"','"/offersrpc.Offers/SubscribeOnionPayloads"')],'rpcserver','''package rpcserver_test

import (
	"testing"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	s := grpc.NewServer()
	offersrpc.RegisterOffersServer(s, offersrpc.UnimplementedOffersServer{})
	for name, info := range s.GetServiceInfo() {
		for _, m := range info.Methods {
			if len(rpcserver.RPCServerPermissions["/"+name+"/"+m.Name]) == 0 {
				t.Fatal("no permission for", name, m.Name)
			}
		}
	}
}
''','the subscribe method called through lnd','a method has no macaroon permission')

seed('C31-no-deadline','C31',[(E,'''	ctx, cancel := context.WithTimeout(context.Background(), r.timeout)
	defer cancel()

	// Point lnd''','''	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	// Point lnd''')],'onionmsg',msg('''
type slowSigner struct{ has bool }

func (s *slowSigner) DeriveSharedKey(ctx context.Context, _ *btcec.PublicKey, _ *keychain.KeyLocator) ([32]byte, error) {
	_, s.has = ctx.Deadline()
	return [32]byte{}, nil
}

func TestDemo(t *testing.T) {
	s := &slowSigner{}
	n, err := onionmsg.NewNodeECDH(newLnd(), s)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := n.ECDH(pub(3)); err != nil {
		t.Fatal(err)
	}
	if !s.has {
		t.Fatal("key agreement without a deadline")
	}
}
''','"github.com/lightningnetwork/lnd/keychain"'),'lnd not answering','a key agreement can block for ever')
