package main

import (
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/sym"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

func symRequest(f *fields) *lnwire.InvoiceRequest {
	return &lnwire.InvoiceRequest{
		Chainhash: hashField(f.next(), "chain"),
		OfferID:   hashField(f.next(), "offerid"),
		Amount:    lndwire.MilliSatoshi(number(f.next(), "amount")),
		Features:  feats(f.next(), "features"),
		Quantity:  number(f.next(), "quantity"),
		PayerKey:  key(f.next(), "payer"),
		PayerNote: text(f.next(), "note"),
		PayerInfo: blob(f.next(), "info"),
		Signature: sig(f.next(), "sig"),
	}
}

const requestFields = 9

func checkSameRequest(in, out *lnwire.InvoiceRequest) {
	sym.Assert(sym.EqBytes(in.Chainhash[:], out.Chainhash[:]), "chain survives")
	sym.Assert(sym.EqBytes(in.OfferID[:], out.OfferID[:]), "offer id survives")
	sym.Assert(in.Amount == out.Amount, "amount survives")
	sym.Assert(sameFeats(in.Features, out.Features), "features survive")
	sym.Assert(in.Quantity == out.Quantity, "quantity survives")
	sym.Assert(sameX(in.PayerKey, out.PayerKey), "payer key survives")
	sym.Assert(sym.EqStr(in.PayerNote, out.PayerNote), "payer note survives")
	sym.Assert(sym.EqBytes(in.PayerInfo, out.PayerInfo), "payer info survives")
	sym.Assert(sameSig(in.Signature, out.Signature), "signature survives")
}

func emptyRequest(r *lnwire.InvoiceRequest) bool {
	if r.PayerNote != "" || len(r.PayerInfo) != 0 || r.PayerKey != nil || r.Features != nil && !r.Features.IsEmpty() {
		return false
	}
	zero := sym.And(r.Amount == 0, r.Quantity == 0)
	return sym.And(zero, sym.And(sym.EqBytes(r.Chainhash[:], make([]byte, 32)), sym.EqBytes(r.OfferID[:], make([]byte, 32))))
}

func requestRoundTrip(in *lnwire.InvoiceRequest) {
	sym.LenCap(2000)
	sym.HashOrder(1)
	b, err := lnwire.EncodeInvoiceRequest(in)
	sym.Assert(err == nil, "request encodes")
	if err != nil {
		return
	}
	sym.Observe("bytes", b)
	out, err := lnwire.DecodeInvoiceRequest(b)
	if emptyRequest(in) {
		sym.Reach("empty")
		return
	}
	sym.Assert(err == nil, "own encoding decodes")
	if err != nil {
		return
	}
	sym.Reach("decoded")
	checkSameRequest(in, out)
	again, err := lnwire.EncodeInvoiceRequest(out)
	sym.Assert(err == nil, "decoded request encodes")
	sym.Assert(sym.EqBytes(b, again), "encoding the decoded request reproduces the bytes")
}

// C02_Presence: every combination of present and absent fields.
func C02_Presence() {
	requestRoundTrip(symRequest(&fields{focus: -1}))
}

// C02_Values: every value of each field, alone or among all the others.
func C02_Values() {
	requestRoundTrip(symRequest(anyFields(requestFields)))
}
