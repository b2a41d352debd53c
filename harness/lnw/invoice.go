package main

import (
	"time"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// maxExpiry is the largest number of seconds a time.Duration can hold.
const maxExpiry = 9223372036

func duration(d domain, name string) time.Duration {
	switch d {
	case absent:
		return 0
	case small:
		return 7200 * time.Second
	}
	switch sym.Choose(name+"-range", 3) {
	case 0:
		return time.Duration(sym.Int(name, 0, 1<<33-1)) * time.Second
	case 1:
		return (1 << 33) * time.Second
	}
	return maxExpiry * time.Second
}

func symInvoice(f *fields) *lnwire.Invoice {
	return &lnwire.Invoice{
		Chainhash:      hashField(f.next(), "chain"),
		OfferID:        hashField(f.next(), "offerid"),
		Amount:         lndwire.MilliSatoshi(number(f.next(), "amount")),
		Description:    text(f.next(), "description"),
		Features:       feats(f.next(), "features"),
		NodeID:         key(f.next(), "node"),
		Quantity:       number(f.next(), "quantity"),
		PayerKey:       key(f.next(), "payer"),
		PayerNote:      text(f.next(), "note"),
		CreatedAt:      instant(f.next(), "created"),
		PaymentHash:    hashField(f.next(), "payhash"),
		RelativeExpiry: duration(f.next(), "relexpiry"),
		CLTVExpiry:     number(f.next(), "cltv"),
		PayerInfo:      blob(f.next(), "info"),
		Signature:      sig(f.next(), "sig"),
	}
}

const invoiceFields = 15

func checkSameInvoice(in, out *lnwire.Invoice) {
	sym.Assert(sym.EqBytes(in.Chainhash[:], out.Chainhash[:]), "chain survives")
	sym.Assert(sym.EqBytes(in.OfferID[:], out.OfferID[:]), "offer id survives")
	sym.Assert(in.Amount == out.Amount, "amount survives")
	sym.Assert(sym.EqStr(in.Description, out.Description), "description survives")
	sym.Assert(sameFeats(in.Features, out.Features), "features survive")
	sym.Assert(hlib.SameKey(in.NodeID, out.NodeID), "node id survives")
	sym.Assert(in.Quantity == out.Quantity, "quantity survives")
	sym.Assert(hlib.SameKey(in.PayerKey, out.PayerKey), "payer key survives")
	sym.Assert(sym.EqStr(in.PayerNote, out.PayerNote), "payer note survives")
	sym.Assert(sameTime(in.CreatedAt, out.CreatedAt), "creation time survives")
	sym.Assert(sym.EqBytes(in.PaymentHash[:], out.PaymentHash[:]), "payment hash survives")
	sym.Assert(in.RelativeExpiry == out.RelativeExpiry, "relative expiry survives")
	sym.Assert(in.CLTVExpiry == out.CLTVExpiry, "cltv expiry survives")
	sym.Assert(sym.EqBytes(in.PayerInfo, out.PayerInfo), "payer info survives")
	sym.Assert(sameSig(in.Signature, out.Signature), "signature survives")
}

func invoiceRoundTrip(in *lnwire.Invoice) {
	sym.LenCap(2000)
	sym.HashOrder(1)
	b, err := lnwire.EncodeInvoice(in)
	sym.Assert(err == nil, "invoice encodes")
	if err != nil {
		return
	}
	sym.Observe("bytes", b)
	out, err := lnwire.DecodeInvoice(b)
	if len(b) == 0 || b[0] == 240 {
		// Nothing but a signature: there is nothing to commit to.
		sym.Reach("empty")
		return
	}
	sym.Assert(err == nil, "own encoding decodes")
	if err != nil {
		return
	}
	sym.Reach("decoded")
	checkSameInvoice(in, out)
	again, err := lnwire.EncodeInvoice(out)
	sym.Assert(err == nil, "decoded invoice encodes")
	sym.Assert(sym.EqBytes(b, again), "encoding the decoded invoice reproduces the bytes")
}

// C03_Presence: present and absent fields, in every combination of two groups
// in which the fields of one are independent and those of the other are all
// present or all absent.
func C03_Presence() {
	f := &fields{focus: -1}
	if !sym.Thorough() {
		f.group = 1 + sym.Choose("group", 2)
		f.rest = sym.Choose("rest", 2) == 1
	}
	invoiceRoundTrip(symInvoice(f))
}

// C03_Values: every value of each field, alone or among all the others.
func C03_Values() {
	invoiceRoundTrip(symInvoice(anyFields(invoiceFields)))
}
