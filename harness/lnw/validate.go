package main

import (
	"errors"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/lntypes"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

var msgNames = []string{"offer", "invoice_request", "invoice"}

// signed returns the validation result of a message of a kind with the given
// commitment, key and signature, and all that is mandatory.
func signed(which int, root lntypes.Hash, k *btcec.PublicKey, sig *[64]byte) error {
	switch which {
	case 0:
		o := &lnwire.Offer{Description: "d", NodeID: k, Signature: sig, MerkleRoot: root}
		return o.Validate()
	case 1:
		r := &lnwire.InvoiceRequest{OfferID: lntypes.Hash{1}, PayerKey: k, Signature: sig, MerkleRoot: root}
		return r.Validate()
	}
	i := &lnwire.Invoice{
		Amount: 1, PaymentHash: lntypes.Hash{1}, CreatedAt: time.Unix(1, 0),
		NodeID: k, Description: "d", Signature: sig, MerkleRoot: root,
	}
	return i.Validate()
}

func digest(name string, root []byte) []byte {
	return hlib.TaggedHash("lightning"+name+"signature", root)
}

func symHash(name string) (h lntypes.Hash) {
	copy(h[:], sym.Bytes(name, 32))
	return
}

// C07_Iff: any root, key and signature bytes.
func C07_Iff() {
	which := sym.Choose("message", 3)
	root := symHash("root")
	k := hlib.PubKey("key")
	s := sig(small, "sig")
	err := signed(which, root, k, s)
	want := false
	if parsed, perr := schnorr.ParseSignature(s[:]); perr == nil {
		want = parsed.Verify(digest(msgNames[which], root[:]), k)
	}
	if want {
		sym.Reach("valid")
	} else {
		sym.Reach("invalid")
	}
	sym.Assert(want == (err == nil), "valid exactly when the signature verifies over the tagged root with the message's key")
}

// C07_Signed: a signature made by the key itself, for this or another message
// kind, root, or key, and possibly altered afterwards.
func C07_Signed() {
	which := sym.Choose("message", 3)
	signedAs := sym.Choose("signed-as", 3)
	signer := sym.Choose("signer", 2)
	root := symHash("root")
	over := root
	otherRoot := sym.Choose("other-root", 2) == 1
	if otherRoot {
		over = symHash("signed-root")
	}
	priv := hlib.Priv(signer)
	sg, err := schnorr.Sign(priv, digest(msgNames[signedAs], over[:]))
	if err != nil {
		sym.Skip()
	}
	var raw [64]byte
	copy(raw[:], sg.Serialize())
	if n := sym.Choose("altered", 3); n > 0 {
		mask := sym.Byte("flip")
		sym.Assume(mask != 0)
		raw[[]int{0, 5, 63}[n]] ^= mask
		v := signed(which, root, hlib.Priv(0).PubKey(), &raw)
		parsed, perr := schnorr.ParseSignature(raw[:])
		want := perr == nil && parsed.Verify(digest(msgNames[which], root[:]), hlib.Priv(0).PubKey())
		sym.Assert(want == (v == nil), "an altered signature counts only if it verifies")
		return
	}
	v := signed(which, root, hlib.Priv(0).PubKey(), &raw)
	match := signer == 0 && signedAs == which && (!otherRoot || root == over)
	if match {
		sym.Reach("match")
	} else {
		sym.Reach("mismatch")
	}
	sym.Assert(match == (v == nil), "accepted exactly for this message kind, root and key")
}

// C07_History: the verdict on a message does not depend on the messages
// validated before, however alike.
func C07_History() {
	type message struct {
		which int
		root  lntypes.Hash
		key   *btcec.PublicKey
		sig   [64]byte
		match bool
	}
	roots := []lntypes.Hash{symHash("root"), symHash("root")}
	sym.Assume(roots[0] != roots[1])
	// A genuine message, and one that differs from it in one thing.
	make := func(which, root, key, signedAs, signedRoot, signer int) (m message) {
		sg, err := schnorr.Sign(hlib.Priv(signer), digest(msgNames[signedAs], roots[signedRoot][:]))
		if err != nil {
			sym.Skip()
		}
		m = message{which: which, root: roots[root], key: hlib.Priv(key).PubKey(), match: which == signedAs && root == signedRoot && key == signer}
		copy(m.sig[:], sg.Serialize())
		return
	}
	w := sym.Choose("message", 3)
	genuine := make(w, 0, 0, w, 0, 0)
	var other message
	switch sym.Choose("differs", 7) {
	case 0: // the same signature on another message
		other = make(w, 1, 0, w, 0, 0)
	case 1: // by another key
		other = make(w, 0, 1, w, 0, 0)
	case 2: // of another kind
		other = make((w+1)%3, 0, 0, w, 0, 0)
	case 3: // the same message with another signature
		other = make(w, 0, 0, w, 1, 0)
	case 4:
		other = make(w, 0, 0, w, 0, 1)
	case 5:
		other = make(w, 0, 0, (w+1)%3, 0, 0)
	case 6: // another genuine one
		other = make(w, 1, 0, w, 1, 0)
	}
	order := [][]message{{genuine, other}, {other, genuine}, {genuine, genuine, other}, {other, other, genuine}, {genuine, other, genuine, other}}
	for _, m := range order[sym.Choose("order", len(order))] {
		m := m
		err := signed(m.which, m.root, m.key, &m.sig)
		if m.match {
			sym.Assert(err == nil, "a genuine message is accepted whatever was validated before")
		} else {
			sym.Reach("mismatch")
			sym.Assert(err != nil, "a signature for something else is rejected whatever was validated before")
		}
	}
}

// C07_Wire: a message signed over the sender's stream validates after decoding
// and not when signed as another kind.
func C07_Wire() {
	sym.LenCap(400)
	sym.HashOrder(1)
	which := sym.Choose("message", 3)
	signedAs := sym.Choose("signed-as", 3)
	priv := hlib.Priv(0)
	pub := priv.PubKey().SerializeCompressed()
	var b []byte
	spec := specs[which]
	size := sym.Choose("size", 3)
	for _, f := range spec {
		switch {
		case f.t == 240:
		case f.kind == kXOnly:
			b = hlib.PutRec(b, f.t, pub[1:])
		case f.t == 30 || f.t == 38:
			b = hlib.PutRec(b, f.t, pub)
		case f.t == 10:
			b = legalRecord(b, f, 1)
		case which == 0 && (f.t == 22 || f.t == 24):
		case size == 2 && (f.t == 20 || f.t == 39 || f.t == 14):
			b = hlib.PutRec(b, f.t, nil)
		case f.t == 8:
			b = legalRecord(b, f, 1)
		case f.t == 4 || f.t == 42:
			v := sym.Bytes("val", 32)
			sym.Assume(v[3] != 0)
			b = hlib.PutRec(b, f.t, v)
		case f.t == 40 || f.t == 44:
			v := sym.Bytes("val", 8)
			sym.Assume(v[0]|v[1]|v[2]|v[3] == 0)
			b = hlib.PutRec(b, f.t, v)
		default:
			b = legalRecord(b, f, size)
		}
	}
	recs, ok := hlib.Parse(b, nil)
	sym.Assert(ok, "harness stream is canonical")
	root, _ := hlib.MerkleRoot(recs)
	sg, err := schnorr.Sign(priv, digest(msgNames[signedAs], root))
	if err != nil {
		sym.Skip()
	}
	b = hlib.PutRec(b, 240, sg.Serialize())
	var verr error
	switch which {
	case 0:
		o, err := lnwire.DecodeOffer(b)
		sym.Assert(err == nil, "signed message decodes")
		if err != nil {
			return
		}
		verr = o.Validate()
	case 1:
		r, err := lnwire.DecodeInvoiceRequest(b)
		sym.Assert(err == nil, "signed message decodes")
		if err != nil {
			return
		}
		d := r.SignatureDigest()
		sym.Assert(sym.EqBytes(d[:], digest("invoice_request", root)), "the request's digest is the tagged root")
		verr = r.Validate()
	default:
		i, err := lnwire.DecodeInvoice(b)
		sym.Assert(err == nil, "signed message decodes")
		if err != nil {
			return
		}
		verr = i.Validate()
	}
	sym.Reach("validated")
	sym.Assert((verr == nil) == (which == signedAs), "the sender's signature verifies at the receiver, for its own kind only")
}

// C08_Offer: the rules for unsigned offers.
func C08_Offer() {
	o := &lnwire.Offer{
		Description: text(domain(sym.Choose("d", 2)), "description"),
		QuantityMin: sym.Uint64("min"),
		QuantityMax: sym.Uint64("max"),
		Expiry:      instant(domain(2*sym.Choose("e", 2)), "expiry"),
		Issuer:      text(domain(sym.Choose("i", 2)), "issuer"),
		MerkleRoot:  symHash("root"),
		Chainhash:   symHash("chain"),
	}
	o.MinimumAmount = lndwire.MilliSatoshi(sym.Uint64("amount"))
	if sym.Bool("node") {
		o.NodeID = hlib.Priv(0).PubKey()
	}
	err := o.Validate()
	var want error
	switch {
	case o.NodeID == nil:
		want = lnwire.ErrNodeIDRequired
	case o.Description == "":
		want = lnwire.ErrDescriptionRequried
	case o.QuantityMin != 0 && o.QuantityMax != 0 && o.QuantityMin > o.QuantityMax:
		want = lnwire.ErrQuantityRange
	}
	checkVerdict(err, want)
}

func checkVerdict(err, want error) {
	if want == nil {
		sym.Reach("valid")
		sym.Assert(err == nil, "a message with all that is mandatory is valid")
		return
	}
	sym.Reach("invalid")
	sym.Assert(err != nil, "a message without a mandatory field is invalid")
	sym.Assert(errors.Is(err, want), "the first missing requirement is named")
}

// C08_Request: the mandatory fields of a request.
func C08_Request() {
	r := &lnwire.InvoiceRequest{
		OfferID:    symHash("offerid"),
		Amount:     lndwire.MilliSatoshi(sym.Uint64("amount")),
		Quantity:   sym.Uint64("quantity"),
		PayerNote:  text(domain(sym.Choose("n", 2)), "note"),
		Chainhash:  symHash("chain"),
		MerkleRoot: symHash("root"),
	}
	if sym.Bool("payer") {
		r.PayerKey = hlib.Priv(0).PubKey()
	}
	if sym.Bool("signed") {
		sg, err := schnorr.Sign(hlib.Priv(0), digest("invoice_request", r.MerkleRoot[:]))
		if err != nil {
			sym.Skip()
		}
		r.Signature = new([64]byte)
		copy(r.Signature[:], sg.Serialize())
	}
	err := r.Validate()
	var want error
	switch {
	case r.OfferID == lntypes.ZeroHash:
		want = lnwire.ErrOfferIDRequired
	case r.PayerKey == nil:
		want = lnwire.ErrPayerKeyRequired
	case r.Signature == nil:
		want = lnwire.ErrSignatureRequired
	}
	checkVerdict(err, want)
}

// C08_Invoice: the mandatory fields of an invoice.
func C08_Invoice() {
	i := &lnwire.Invoice{
		Amount:      lndwire.MilliSatoshi(sym.Uint64("amount")),
		PaymentHash: symHash("payhash"),
		Description: text(domain(sym.Choose("d", 2)), "description"),
		OfferID:     symHash("offerid"),
		Quantity:    sym.Uint64("quantity"),
		CLTVExpiry:  sym.Uint64("cltv"),
		MerkleRoot:  symHash("root"),
	}
	if sym.Bool("created") {
		i.CreatedAt = time.Unix(sym.Int64("at"), 0)
	}
	if sym.Bool("node") {
		i.NodeID = hlib.Priv(0).PubKey()
	}
	err := i.Validate()
	var want error
	switch {
	case i.Amount == 0:
		want = lnwire.ErrNoAmount
	case i.PaymentHash == lntypes.ZeroHash:
		want = lnwire.ErrNoPaymentHash
	case i.CreatedAt.IsZero():
		want = lnwire.ErrNoCreationTime
	case i.NodeID == nil:
		want = lnwire.ErrNodeIDRequired
	case i.Description == "":
		want = lnwire.ErrDescriptionRequried
	}
	checkVerdict(err, want)
}

// C09_Terms: any offer terms, amount and quantity.
func C09_Terms() {
	sym.HashOrder(1)
	sym.LenCap(400)
	o := &lnwire.Offer{
		Chainhash:     hashField(domain(sym.Choose("c", 2)), "chain"),
		MinimumAmount: lndwire.MilliSatoshi(sym.Uint64("min-amount")),
		QuantityMin:   sym.Uint64("qmin"),
		QuantityMax:   sym.Uint64("qmax"),
		Features:      feats(domain(sym.Choose("f", 2)), "features"),
		MerkleRoot:    symHash("offer-root"),
		Description:   "d",
	}
	amount, quantity := sym.Uint64("amount"), sym.Uint64("quantity")
	if sym.Choose("wide", 2) == 0 {
		// Encoded sizes multiply the cases; keep them small here and check
		// the encoding, any value otherwise without.
		sym.Assume(sym.And(amount < 1<<8, quantity < 1<<8))
	}
	payer := hlib.PubKey("payer")
	note := text(domain(sym.Choose("n", 2)), "note")
	r, err := lnwire.NewInvoiceRequest(o, lndwire.MilliSatoshi(amount), quantity, payer, note)
	bounded := o.QuantityMin != 0 || o.QuantityMax != 0
	var okQuantity bool
	if bounded {
		okQuantity = quantity != 0 && (o.QuantityMin == 0 || quantity >= o.QuantityMin) &&
			(o.QuantityMax == 0 || quantity <= o.QuantityMax)
	} else {
		okQuantity = quantity == 0
	}
	okAmount := amount >= uint64(o.MinimumAmount)
	sym.Assert((okAmount && okQuantity) == (err == nil), "a request is built exactly when it respects the offer's terms")
	if err != nil {
		sym.Reach("refused")
		if !okAmount && okQuantity {
			sym.Assert(errors.Is(err, lnwire.ErrBelowMinAmount), "a low amount is named")
		}
		return
	}
	if !okAmount || !okQuantity {
		return
	}
	sym.Reach("built")
	sym.Assert(sym.EqBytes(r.Chainhash[:], o.Chainhash[:]), "the request is for the offer's chain")
	sym.Assert(sym.EqBytes(r.OfferID[:], o.MerkleRoot[:]), "the request names the offer by its root")
	sym.Assert(sameFeats(r.Features, o.Features), "the request has the offer's features")
	sym.Assert(uint64(r.Amount) == amount, "the request has the amount asked for")
	sym.Assert(r.Quantity == quantity, "the request has the quantity asked for")
	sym.Assert(hlib.SameKey(r.PayerKey, payer), "the request has the payer's key")
	sym.Assert(sym.EqStr(r.PayerNote, note), "the request has the payer's note")
	sym.Assert(r.Signature == nil, "the request is not signed yet")
	b, err := lnwire.EncodeInvoiceRequest(r)
	sym.Assert(err == nil, "the request encodes")
	out, err := lnwire.DecodeInvoiceRequest(b)
	sym.Assert(err == nil, "the request decodes")
	if err != nil {
		return
	}
	sym.Assert(sym.EqBytes(r.MerkleRoot[:], out.MerkleRoot[:]), "the request's root is the one its receiver computes")
}
