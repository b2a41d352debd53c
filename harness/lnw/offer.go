package main

import (
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/sym"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

func symOffer(f *fields) *lnwire.Offer {
	return &lnwire.Offer{
		Chainhash:     hashField(f.next(), "chain"),
		MinimumAmount: lndwire.MilliSatoshi(number(f.next(), "amount")),
		Description:   text(f.next(), "description"),
		Features:      feats(f.next(), "features"),
		Expiry:        instant(f.next(), "expiry"),
		Issuer:        text(f.next(), "issuer"),
		QuantityMin:   number(f.next(), "qmin"),
		QuantityMax:   number(f.next(), "qmax"),
		NodeID:        key(f.next(), "node"),
		Signature:     sig(f.next(), "sig"),
	}
}

const offerFields = 10

func checkSameOffer(in, out *lnwire.Offer) {
	sym.Assert(sym.EqBytes(in.Chainhash[:], out.Chainhash[:]), "chain survives")
	sym.Assert(in.MinimumAmount == out.MinimumAmount, "minimum amount survives")
	sym.Assert(sym.EqStr(in.Description, out.Description), "description survives")
	sym.Assert(sameFeats(in.Features, out.Features), "features survive")
	sym.Assert(sameTime(in.Expiry, out.Expiry), "expiry survives")
	sym.Assert(sym.EqStr(in.Issuer, out.Issuer), "issuer survives")
	sym.Assert(in.QuantityMin == out.QuantityMin, "minimum quantity survives")
	sym.Assert(in.QuantityMax == out.QuantityMax, "maximum quantity survives")
	sym.Assert(sameX(in.NodeID, out.NodeID), "node id survives")
	sym.Assert(sameSig(in.Signature, out.Signature), "signature survives")
}

func emptyOffer(o *lnwire.Offer) bool {
	if o.Description != "" || o.Issuer != "" || o.NodeID != nil || o.Features != nil && !o.Features.IsEmpty() || !o.Expiry.IsZero() {
		return false
	}
	zero := sym.And(o.MinimumAmount == 0, sym.And(o.QuantityMin == 0, o.QuantityMax == 0))
	return sym.And(zero, sym.EqBytes(o.Chainhash[:], make([]byte, 32)))
}

func offerRoundTrip(in *lnwire.Offer) {
	sym.LenCap(2000)
	sym.HashOrder(1)
	b, err := lnwire.EncodeOffer(in)
	sym.Assert(err == nil, "offer encodes")
	if err != nil {
		return
	}
	sym.Observe("bytes", b)
	out, err := lnwire.DecodeOffer(b)
	if emptyOffer(in) {
		// There is nothing to commit to: not an offer at all.
		sym.Reach("empty")
		return
	}
	sym.Assert(err == nil, "own encoding decodes")
	if err != nil {
		return
	}
	sym.Reach("decoded")
	checkSameOffer(in, out)
	again, err := lnwire.EncodeOffer(out)
	sym.Assert(err == nil, "decoded offer encodes")
	sym.Assert(sym.EqBytes(b, again), "encoding the decoded offer reproduces the bytes")
}

// C01_Presence: every combination of present and absent fields.
func C01_Presence() {
	offerRoundTrip(symOffer(&fields{focus: -1}))
}

// C01_Values: every value of each field, alone or among all the others.
func C01_Values() {
	offerRoundTrip(symOffer(anyFields(offerFields)))
}
