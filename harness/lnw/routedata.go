package main

import (
	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
)

func optKey(name string) *btcec.PublicKey {
	if !sym.Bool("has-" + name) {
		return nil
	}
	return hlib.PubKey(name)
}

// C13_RoundTrip: encoding then decoding returns the same fields.
func C13_RoundTrip() {
	in := &lnwire.BlindedRouteData{
		NextNodeID:           optKey("next"),
		NextBlindingOverride: optKey("override"),
	}
	b, err := lnwire.EncodeBlindedRouteData(in)
	sym.Assert(err == nil, "route data encodes")
	if err != nil {
		return
	}
	sym.Observe("bytes", b)
	var want []byte
	if in.NextNodeID != nil {
		want = hlib.PutRec(want, 4, in.NextNodeID.SerializeCompressed())
	}
	if in.NextBlindingOverride != nil {
		want = hlib.PutRec(want, 8, in.NextBlindingOverride.SerializeCompressed())
	}
	sym.Assert(sym.EqBytes(b, want), "route data has the specified encoding")
	out, err := lnwire.DecodeBlindedRouteData(b)
	sym.Assert(err == nil, "own encoding decodes")
	if err != nil {
		return
	}
	sym.Reach("roundtrip")
	sym.Assert(hlib.SameKey(in.NextNodeID, out.NextNodeID), "next node id survives")
	sym.Assert(hlib.SameKey(in.NextBlindingOverride, out.NextBlindingOverride), "blinding override survives")
}

func checkRouteData(b []byte) {
	out, err := lnwire.DecodeBlindedRouteData(b)
	sym.Observe("err", err != nil)
	recs, ok := hlib.Parse(b, func(t uint64, v []byte) bool {
		if t == 4 || t == 8 {
			if len(v) != 33 {
				return false
			}
			_, err := btcec.ParsePubKey(v)
			return err == nil
		}
		return true
	})
	sym.Assert(ok == (err == nil), "exactly the canonical streams with valid keys are accepted")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	check := func(t uint64, got *btcec.PublicKey, what string) {
		v, has := hlib.Find(recs, t)
		sym.Assert(has == (got != nil), what+" present exactly when its record is")
		if has && got != nil {
			sym.Reach(what)
			sym.Assert(sym.EqBytes(v, got.SerializeCompressed()), what+" has the record's value")
		}
	}
	check(4, out.NextNodeID, "next node id")
	check(8, out.NextBlindingOverride, "blinding override")
}

// C13_DecodeAny: arbitrary short byte strings.
func C13_DecodeAny() {
	max := 7
	if sym.Thorough() {
		max = 10
	}
	n := sym.Choose("len", max+1)
	sym.LenCap(n + 1)
	checkRouteData(sym.Bytes("data", n))
}

// C13_DecodeRecords: streams of whole records that can hold real keys, with
// any types, key-sized or nearly key-sized values of arbitrary bytes, and a tail.
func C13_DecodeRecords() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	sym.LenCap(200)
	var b []byte
	n := 1 + sym.Choose("records", max)
	for i := 0; i < n; i++ {
		t := sym.Byte("type")
		sym.Assume(t < 0xfd)
		b = append(b, t)
		l := []int{33, 32, 34, 0}[sym.Choose("len", 4)]
		b = append(b, byte(l))
		b = append(b, sym.Bytes("val", l)...)
	}
	b = append(b, sym.Bytes("tail", sym.Choose("tail", 2))...)
	checkRouteData(b)
}
