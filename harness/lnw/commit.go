package main

import (
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
)

func rootOf(which int, b []byte) (root [32]byte, err error) {
	switch which {
	case 0:
		o, err := lnwire.DecodeOffer(b)
		if err == nil {
			root = o.MerkleRoot
		}
		return root, err
	case 1:
		r, err := lnwire.DecodeInvoiceRequest(b)
		if err == nil {
			root = r.MerkleRoot
		}
		return root, err
	}
	i, err := lnwire.DecodeInvoice(b)
	if err == nil {
		root = i.MerkleRoot
	}
	return root, err
}

func checkCommitment(which int, b []byte) {
	root, err := rootOf(which, b)
	sym.Observe("err", err != nil)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	recs, ok := hlib.Parse(b, nil)
	sym.Assert(ok, "only canonical streams are accepted")
	if !ok {
		return
	}
	want, ok := hlib.MerkleRoot(recs)
	sym.Assert(ok, "only messages with a record to commit to are accepted")
	if !ok {
		return
	}
	sym.Reach("accepted")
	sym.Assert(sym.EqBytes(root[:], want), "the root covers exactly the records received")
}

var specs = [][]field{offerSpec, requestSpec, invoiceSpec}

// legalRecord appends a record of a legal size.
func legalRecord(b []byte, f field, size int) []byte {
	n := 2
	switch f.kind {
	case kHash, kXOnly:
		n = 32
	case kPoint:
		n = 33
	case kFixed8, kExpiry:
		n = 8
	case kSig:
		n = 64
	case kTU64, kText, kFeat:
		n = size
	}
	v := sym.Bytes("val", n)
	switch f.kind {
	case kFeat:
		for i := range v {
			sym.Assume(v[i]&0x7f == 0)
		}
	case kTU64:
		if n > 0 {
			sym.Assume(v[0] != 0)
		}
	}
	return hlib.PutRec(b, f.t, v)
}

func commitRecords(which int) {
	sym.LenCap(400)
	sym.HashOrder(1)
	max := 2
	if sym.Thorough() {
		max = 3
	}
	spec := specs[which]
	var b []byte
	n := 1 + sym.Choose("records", max)
	at := 0
	for i := 0; i < n; i++ {
		k := sym.Choose("type", len(spec)+3)
		switch {
		case k < at:
			sym.Skip()
		case k < len(spec):
			at = k + 1
			b = legalRecord(b, spec[k], sym.Choose("size", sizes(i)))
		case k == len(spec):
			t := sym.Byte("othertype")
			sym.Assume(t < 0xfd)
			v := sym.Bytes("val", sym.Choose("size", 2))
			b = append(b, t, byte(len(v)))
			b = append(b, v...)
		case k == len(spec)+1:
			b = append(b, 0xfd)
			b = append(b, sym.Bytes("longtype", 2)...)
			b = append(b, 0)
		default:
			v := sym.Bytes("val", 253)
			b = hlib.PutRec(b, 1<<32+1, v)
		}
	}
	checkCommitment(which, b)
}

// C06_OfferRecords and its siblings: streams of a few records, known and
// unknown, with every legal size.
func C06_OfferRecords()   { commitRecords(0) }
func C06_RequestRecords() { commitRecords(1) }
func C06_InvoiceRecords() { commitRecords(2) }

// C06_Many: messages with most of their fields and some unknown records.
func C06_Many() {
	sym.LenCap(400)
	which := sym.Choose("message", 3)
	sym.HashOrder(1 + sym.Choose("hash-order", 3))
	spec := specs[which]
	keep := sym.Choose("fields", len(spec)+1)
	skip := sym.Choose("without", 3)
	unknown := sym.Choose("unknown", 3)
	size := sym.Choose("size", 2)
	var b []byte
	for i, f := range spec {
		if i >= keep || skip > 0 && i%3 == skip {
			continue
		}
		if f.t == 240 && unknown > 1 {
			b = hlib.PutRec(b, 201, nil)
		}
		b = legalRecord(b, f, size)
	}
	if unknown > 0 {
		b = hlib.PutRec(b, 777, sym.Bytes("sigrange", 1))
		b = hlib.PutRec(b, 1001, sym.Bytes("odd", unknown-1))
		b = hlib.PutRec(b, 70001, sym.Bytes("odd", 2))
	}
	checkCommitment(which, b)
}

func sizes(i int) int {
	if i == 0 || sym.Thorough() {
		return 3
	}
	return 2
}
