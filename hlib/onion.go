package hlib

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/sym"
	sphinx "github.com/lightningnetwork/lightning-onion"
)

// ECDH is the key agreement of a node with a key of its own.
func ECDH(k *btcec.PrivateKey) sphinx.SingleKeyECDH { return &sphinx.PrivKeyECDH{PrivKey: k} }

// Layer is what a node finds in an onion addressed to it.
type Layer struct {
	Payload []byte
	Final   bool
	Next    []byte // the onion to pass on
}

// Peel removes the layer of the node with the key given; blinding is nil for
// a node addressed by the key itself.
func Peel(k *btcec.PrivateKey, blinding *btcec.PublicKey, blob []byte) (*Layer, error) {
	r := sphinx.NewRouter(ECDH(k), &chaincfg.Params{}, sphinx.NewMemoryReplayLog())
	if err := r.Start(); err != nil {
		return nil, err
	}
	pkt := new(sphinx.OnionPacket)
	if err := pkt.Decode(bytes.NewReader(blob)); err != nil {
		return nil, err
	}
	p, err := r.ProcessOnionPacket(pkt, nil, 0, blinding)
	if err != nil {
		return nil, err
	}
	l := &Layer{Payload: p.Payload.Payload, Final: p.Action == sphinx.ExitNode}
	if !l.Final {
		var b bytes.Buffer
		if err := p.NextPacket.Encode(&b); err != nil {
			return nil, err
		}
		l.Next = b.Bytes()
	}
	return l, nil
}

// PutReplyPath is the encoding of a blinded path within an onion payload.
func PutReplyPath(b []byte, p *lnwire.ReplyPath) []byte {
	b = append(b, p.FirstNodeID.SerializeCompressed()...)
	b = append(b, p.BlindingPoint.SerializeCompressed()...)
	b = append(b, byte(len(p.Hops)))
	for _, h := range p.Hops {
		b = append(b, h.BlindedNodeID.SerializeCompressed()...)
		b = append(b, byte(len(h.EncryptedData)>>8), byte(len(h.EncryptedData)))
		b = append(b, h.EncryptedData...)
	}
	return b
}

// PutPayload is the payload of one hop.
func PutPayload(rp *lnwire.ReplyPath, enc []byte, finals []*lnwire.FinalHopPayload) []byte {
	var b []byte
	if rp != nil {
		b = PutRec(b, 2, PutReplyPath(nil, rp))
	}
	if len(enc) > 0 {
		b = PutRec(b, 4, enc)
	}
	fs := append([]*lnwire.FinalHopPayload{}, finals...)
	for i := range fs {
		for j := i; j > 0 && fs[j].TLVType < fs[j-1].TLVType; j-- {
			fs[j], fs[j-1] = fs[j-1], fs[j]
		}
	}
	for _, f := range fs {
		b = PutRec(b, uint64(f.TLVType), f.Value)
	}
	return b
}

// RouteData is the clear text of a hop's encrypted data.
func RouteData(next, override *btcec.PublicKey) []byte {
	var b []byte
	if next != nil {
		b = PutRec(b, 4, next.SerializeCompressed())
	}
	if override != nil {
		b = PutRec(b, 8, override.SerializeCompressed())
	}
	return b
}

// SamePath compares optional blinded paths.
func SamePath(a, b *lnwire.ReplyPath) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.EqBytes(PutReplyPath(nil, a), PutReplyPath(nil, b))
}

// BlindedID is the public key a node goes by in a blinded path.
func BlindedID(k *btcec.PrivateKey, blinding *btcec.PublicKey) *btcec.PublicKey {
	ss, err := ECDH(k).ECDH(blinding)
	if err != nil {
		return nil
	}
	mac := hmac.New(sha256.New, []byte("blinded_node_id"))
	mac.Write(ss[:])
	var f [32]byte
	copy(f[:], mac.Sum(nil))
	var s btcec.ModNScalar
	s.SetBytes(&f)
	s.Mul(&k.Key)
	return btcec.PrivKeyFromScalar(&s).PubKey()
}

// To is one hop of an onion and what it is to find.
type To struct {
	Key     *btcec.PublicKey
	Payload []byte
}

// Onion wraps the payloads for the hops.
func Onion(session *btcec.PrivateKey, hops ...To) []byte {
	var p sphinx.PaymentPath
	for i, h := range hops {
		p[i] = sphinx.OnionHop{
			NodePub:    *h.Key,
			HopPayload: sphinx.HopPayload{Type: sphinx.PayloadTLV, Payload: h.Payload},
		}
	}
	pkt, err := sphinx.NewOnionPacket(&p, session, nil, sphinx.DeterministicPacketFiller)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	if err := pkt.Encode(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// Message is the wire form of an onion message.
func Message(blinding *btcec.PublicKey, blob []byte) []byte {
	b := append([]byte{}, blinding.SerializeCompressed()...)
	b = append(b, byte(len(blob)>>8), byte(len(blob)))
	return append(b, blob...)
}

// Seal encrypts a hop's data for the node with the key given and returns it
// with the next blinding point.
func Seal(k *btcec.PrivateKey, blinding *btcec.PrivateKey, data []byte) []byte {
	p, err := sphinx.BuildBlindedPath(blinding, []*sphinx.BlindedPathHop{{NodePub: k.PubKey(), Payload: data}})
	if err != nil {
		panic(err)
	}
	return p.EncryptedData[0]
}

// NextBlinding is the blinding point a node passes on.
func NextBlinding(k *btcec.PrivateKey, blinding *btcec.PublicKey) *btcec.PublicKey {
	p, err := sphinx.NextEphemeral(ECDH(k), blinding)
	if err != nil {
		panic(err)
	}
	return p
}
