package main

import (
	"bytes"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

// codec is one kind of message.
type codec struct {
	make   func(name string) interface{}
	encode func(interface{}) ([]byte, error)
	decode func([]byte) (interface{}, error)
	same   func(in, out interface{})
}

// again checks that neither the messages encoded and decoded before nor those
// encoded and decoded at the same time have an influence.
func again(c codec) {
	sym.HashOrder(1)
	sym.LenCap(2000)
	in := []interface{}{c.make("a"), c.make("b")}
	out := make([]interface{}, 2)
	wire := make([][]byte, 2)
	errs := make([]error, 2)
	how := sym.Choose("how", 3)
	work := func(i int) {
		wire[i], errs[i] = c.encode(in[i])
		if errs[i] == nil {
			out[i], errs[i] = c.decode(wire[i])
		}
	}
	switch how {
	case 0: // one after the other
		work(0)
		work(1)
	case 1: // with a failure in between
		work(0)
		if errs[0] == nil {
			if n := len(wire[0]); n > 0 {
				_, _ = c.decode(wire[0][:n-1])
			}
			_, _ = c.decode([]byte{0xfd})
		}
		work(1)
	case 2: // at the same time
		done := make(chan bool, 2)
		for i := 0; i < 2; i++ {
			i := i
			go func() {
				work(i)
				done <- true
			}()
		}
		<-done
		<-done
	}
	for i := range in {
		sym.Assert(errs[i] == nil, "a message can be encoded and decoded")
		if errs[i] != nil {
			return
		}
	}
	for i := range in {
		c.same(in[i], out[i])
	}
	for i := range in {
		w, err := c.encode(in[i])
		sym.Assert(err == nil && sym.EqBytes(w, wire[i]), "encoding a message again gives the same bytes")
		o, err := c.decode(wire[i])
		sym.Assert(err == nil, "a message can be decoded again")
		if err == nil {
			c.same(in[i], o)
		}
		w, err = c.encode(out[i])
		sym.Assert(err == nil && sym.EqBytes(w, wire[i]), "a decoded message encodes to the same bytes")
	}
}

func every(name string) *fields { return &fields{every: 1 + sym.Choose(name, 3)} }

// C01_Again: several offers.
func C01_Again() {
	again(codec{
		make:   func(name string) interface{} { return symOffer(every(name)) },
		encode: func(m interface{}) ([]byte, error) { return lnwire.EncodeOffer(m.(*lnwire.Offer)) },
		decode: func(b []byte) (interface{}, error) { return lnwire.DecodeOffer(b) },
		same:   func(a, b interface{}) { checkSameOffer(a.(*lnwire.Offer), b.(*lnwire.Offer)) },
	})
}

// C02_Again: several requests.
func C02_Again() {
	again(codec{
		make:   func(name string) interface{} { return symRequest(every(name)) },
		encode: func(m interface{}) ([]byte, error) { return lnwire.EncodeInvoiceRequest(m.(*lnwire.InvoiceRequest)) },
		decode: func(b []byte) (interface{}, error) { return lnwire.DecodeInvoiceRequest(b) },
		same: func(a, b interface{}) {
			checkSameRequest(a.(*lnwire.InvoiceRequest), b.(*lnwire.InvoiceRequest))
		},
	})
}

// C03_Again: several invoices.
func C03_Again() {
	again(codec{
		make:   func(name string) interface{} { return symInvoice(every(name)) },
		encode: func(m interface{}) ([]byte, error) { return lnwire.EncodeInvoice(m.(*lnwire.Invoice)) },
		decode: func(b []byte) (interface{}, error) { return lnwire.DecodeInvoice(b) },
		same:   func(a, b interface{}) { checkSameInvoice(a.(*lnwire.Invoice), b.(*lnwire.Invoice)) },
	})
}

// C10_Again: several onion messages.
func C10_Again() {
	again(codec{
		make: func(name string) interface{} {
			return lnwire.NewOnionMessage(hlib.PubKey(name), sym.Bytes(name, pick(name+".len", 1, 5, 1366)))
		},
		encode: func(m interface{}) ([]byte, error) {
			b := new(bytes.Buffer)
			err := m.(*lnwire.OnionMessage).Encode(b, 0)
			return b.Bytes(), err
		},
		decode: func(b []byte) (interface{}, error) {
			m := new(lnwire.OnionMessage)
			return m, m.Decode(bytes.NewReader(b), 0)
		},
		same: func(a, b interface{}) {
			in, out := a.(*lnwire.OnionMessage), b.(*lnwire.OnionMessage)
			sym.Assert(hlib.SameKey(in.BlindingPoint, out.BlindingPoint), "the blinding point survives")
			sym.Assert(sym.EqBytes(in.OnionBlob, out.OnionBlob), "the onion survives")
		},
	})
}

func payloads() codec {
	return codec{
		encode: func(m interface{}) ([]byte, error) {
			return lnwire.EncodeOnionMessagePayload(m.(*lnwire.OnionMessagePayload))
		},
		decode: func(b []byte) (interface{}, error) { return lnwire.DecodeOnionMessagePayload(b) },
		same: func(a, b interface{}) {
			in, out := a.(*lnwire.OnionMessagePayload), b.(*lnwire.OnionMessagePayload)
			sym.Assert(sameReplyPath(in.ReplyPath, out.ReplyPath), "the reply path survives")
			sym.Assert(sym.EqBytes(in.EncryptedData, out.EncryptedData), "the encrypted data survives")
			sym.Assert(len(out.FinalHopPayloads) == len(in.FinalHopPayloads), "every final payload survives, once")
			if len(out.FinalHopPayloads) != len(in.FinalHopPayloads) {
				return
			}
			for i, p := range in.FinalHopPayloads {
				o := out.FinalHopPayloads[i]
				sym.Assert(o.TLVType == p.TLVType, "final payloads are in ascending order")
				sym.Assert(sym.EqBytes(o.Value, p.Value), "the final payload's value survives")
			}
		},
	}
}

// C11_Again: several payloads.
func C11_Again() {
	c := payloads()
	c.make = func(name string) interface{} {
		m := new(lnwire.OnionMessagePayload)
		if sym.Choose("data", 2) == 1 {
			m.EncryptedData = sym.Bytes(name, 5)
		}
		for _, t := range [][]uint64{{}, {64}, {66}, {64, 66}, {65, 70}}[sym.Choose("finals", 5)] {
			m.FinalHopPayloads = append(m.FinalHopPayloads, &lnwire.FinalHopPayload{TLVType: tlv.Type(t), Value: sym.Bytes("value", 2)})
		}
		return m
	}
	again(c)
}

// C12_Again: several reply paths.
func C12_Again() {
	c := payloads()
	c.make = func(name string) interface{} {
		m := &lnwire.OnionMessagePayload{EncryptedData: sym.Bytes(name, 5)}
		if n := sym.Choose("hops", 3); n > 0 {
			m.ReplyPath = replyPath(name, [][]int{{4}, {4, 0}}[n-1])
		}
		return m
	}
	again(c)
}

// C13_Again: several hops' data.
func C13_Again() {
	again(codec{
		make: func(name string) interface{} {
			m := &lnwire.BlindedRouteData{}
			n := 1 + sym.Choose(name, 3)
			if n&1 != 0 {
				m.NextNodeID = hlib.PubKey("next")
			}
			if n&2 != 0 {
				m.NextBlindingOverride = hlib.PubKey("override")
			}
			return m
		},
		encode: func(m interface{}) ([]byte, error) {
			return lnwire.EncodeBlindedRouteData(m.(*lnwire.BlindedRouteData))
		},
		decode: func(b []byte) (interface{}, error) { return lnwire.DecodeBlindedRouteData(b) },
		same: func(a, b interface{}) {
			in, out := a.(*lnwire.BlindedRouteData), b.(*lnwire.BlindedRouteData)
			sym.Assert(hlib.SameKey(in.NextNodeID, out.NextNodeID), "next node id survives")
			sym.Assert(hlib.SameKey(in.NextBlindingOverride, out.NextBlindingOverride), "blinding override survives")
		},
	})
}

// C09_Again: several requests for one offer.
func C09_Again() {
	sym.HashOrder(1)
	sym.LenCap(400)
	features := feats(small, "features")
	o := &lnwire.Offer{
		Chainhash: symHash("chain"), MinimumAmount: lndwire.MilliSatoshi(sym.Uint64("min-amount")),
		QuantityMin: sym.Uint64("qmin"), QuantityMax: sym.Uint64("qmax"), Features: features,
		NodeID: hlib.Priv(1).PubKey(), MerkleRoot: symHash("root"), Description: "d", Issuer: "i",
	}
	was := *o
	concurrent := sym.Choose("concurrent", 2) == 1
	type result struct {
		amount, quantity uint64
		r                *lnwire.InvoiceRequest
		err              error
	}
	results := make([]*result, 2)
	done := make(chan bool, 2)
	for i := range results {
		x := &result{amount: sym.Uint64("amount"), quantity: sym.Uint64("quantity")}
		sym.Assume(sym.And(x.amount < 256, x.quantity < 256)) // one encoded size
		results[i] = x
		i := i
		work := func() {
			x.r, x.err = lnwire.NewInvoiceRequest(o, lndwire.MilliSatoshi(x.amount), x.quantity, hlib.Priv(2+i).PubKey(), []string{"n", "m"}[i])
			done <- true
		}
		if concurrent {
			go work()
		} else {
			work()
		}
	}
	<-done
	<-done
	for i, x := range results {
		bounded := sym.Or(was.QuantityMin != 0, was.QuantityMax != 0)
		within := sym.And(sym.Or(was.QuantityMin == 0, x.quantity >= was.QuantityMin), sym.Or(was.QuantityMax == 0, x.quantity <= was.QuantityMax))
		okQuantity := sym.Or(sym.And(bounded, sym.And(x.quantity != 0, within)), sym.And(!bounded, x.quantity == 0))
		ok := sym.And(okQuantity, x.amount >= uint64(was.MinimumAmount))
		sym.Assert(ok == (x.err == nil), "a request is built exactly when it respects the offer's terms")
		if x.err != nil {
			continue
		}
		sym.Assert(sym.And(uint64(x.r.Amount) == x.amount, x.r.Quantity == x.quantity), "the request has the amount and quantity asked for")
		sym.Assert(hlib.SameKey(x.r.PayerKey, hlib.Priv(2+i).PubKey()) && x.r.PayerNote == []string{"n", "m"}[i], "the request has the payer's key and note")
		sym.Assert(sym.And(sym.EqBytes(x.r.OfferID[:], was.MerkleRoot[:]), sym.EqBytes(x.r.Chainhash[:], was.Chainhash[:])), "the request names the offer and its chain")
		sym.Assert(sameFeats(x.r.Features, features), "the request has the offer's features")
	}
	sym.Assert(sym.And(o.MinimumAmount == was.MinimumAmount, sym.And(o.QuantityMin == was.QuantityMin, o.QuantityMax == was.QuantityMax)), "the offer's terms stay")
	sym.Assert(sym.And(sym.EqBytes(o.MerkleRoot[:], was.MerkleRoot[:]), sym.EqBytes(o.Chainhash[:], was.Chainhash[:])), "the offer's identity stays")
	sym.Assert(o.Description == "d" && o.Issuer == "i" && hlib.SameKey(o.NodeID, was.NodeID), "the offer's texts and key stay")
}

// C08_Again: the verdict on a message stays, and validating it leaves it as
// it is.
func C08_Again() {
	o := &lnwire.Offer{NodeID: key(domain(sym.Choose("node", 2)), "node"), Description: text(domain(sym.Choose("d", 2)), "description"),
		QuantityMin: sym.Uint64("min"), QuantityMax: sym.Uint64("max"), MerkleRoot: symHash("root")}
	was := *o
	first := o.Validate()
	for i := 0; i < 2; i++ {
		sym.Assert((o.Validate() == nil) == (first == nil), "an offer is valid or not")
	}
	sym.Assert(o.QuantityMin == was.QuantityMin && o.QuantityMax == was.QuantityMax && o.NodeID == was.NodeID && o.Description == was.Description, "validating an offer leaves it as it is")
	other := &lnwire.Offer{NodeID: hlib.Priv(1).PubKey(), Description: "d"}
	sym.Assert(other.Validate() == nil, "an offer with all that is mandatory is valid")
	o.NodeID, o.Description, o.QuantityMin = hlib.Priv(1).PubKey(), "d", 0
	sym.Assert(o.Validate() == nil, "a message is judged by what it is now")
	o.NodeID = nil
	sym.Assert(o.Validate() != nil, "a message is judged by what it is now")
}
