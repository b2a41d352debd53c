package main

import (
	"context"
	"encoding/hex"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"google.golang.org/grpc/codes"
)

const charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// regroup5 spells bytes in 5-bit characters, the last one padded with zeroes.
func regroup5(b []byte) string {
	var out []byte
	acc, bits := uint(0), uint(0)
	for _, c := range b {
		acc = (acc<<8 | uint(c)) & 0xfff
		bits += 8
		for bits >= 5 {
			bits -= 5
			out = append(out, charset[acc>>bits&31])
		}
	}
	if bits > 0 {
		out = append(out, charset[acc<<(5-bits)&31])
	}
	return string(out)
}

// zeroTime is the number of seconds that stands for Go's zero time.
const zeroTime = uint64(1<<64 - 62135596800)

// number is a symbolic integer of the given length, without leading zeroes.
func number(name string, n int) (v uint64, b []byte) {
	b = sym.Bytes(name, n)
	if n > 0 {
		sym.Assume(b[0] != 0)
	}
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v, b
}

// fields are the fields an offer may have.
type fields struct {
	amount, features, expiry, issuer, min, max, key, sig, few bool
	long                                                      int
}

func decode(f fields, sizes [6]int) {
	sym.HashOrder(1)
	n := newLnd()
	s, _ := started(n)
	var want offersrpc.Offer
	var b, v []byte
	if f.amount {
		want.MinAmountMsat, v = number("amount", sizes[0])
		b = hlib.PutRec(b, 8, v)
	}
	v = sym.Bytes("description", 1+sizes[1])
	want.Description = string(v)
	if f.long > 0 {
		// Long text around the symbolic bytes.
		v = append(make([]byte, f.long), v...)
		for i := 0; i < f.long; i++ {
			v[i] = 'a' + byte(i%26)
		}
		want.Description = string(v)
	}
	b = hlib.PutRec(b, 10, v)
	if f.features {
		v = sym.Bytes("features", sizes[2])
		for i := range v {
			// Every set bit is a case of its own.
			if f.few {
				v[i] &= 0x41
			} else if sizes[2] > 1 {
				v[i] &= [...]byte{0x81, 0x11, 0x0c, 0x20}[i]
			}
		}
		want.Features = v
		b = hlib.PutRec(b, 12, v)
	}
	if f.expiry {
		want.ExpiryUnixSeconds, v = number("expiry", sizes[3])
		b = hlib.PutRec(b, 14, v)
	}
	if f.issuer {
		v = sym.Bytes("issuer", sizes[4])
		want.Issuer = string(v)
		b = hlib.PutRec(b, 20, v)
	}
	if f.min {
		want.MinQuantity, v = number("min", sizes[5])
		b = hlib.PutRec(b, 22, v)
	}
	if f.max {
		want.MaxQuantity, v = number("max", sizes[5])
		b = hlib.PutRec(b, 24, v)
	}
	if f.key {
		v = hlib.Priv(target).PubKey().SerializeCompressed()[1:]
		if sym.Choose("symbolic", 2) == 1 {
			v = hlib.PubKey("node").SerializeCompressed()[1:]
		}
		want.NodeId = hex.EncodeToString(v)
		b = hlib.PutRec(b, 30, v)
	}
	if f.sig {
		v = sym.Bytes("signature", 64)
		want.Signature = hex.EncodeToString(v)
		b = hlib.PutRec(b, 240, v)
	}
	resp, err := s.DecodeOffer(context.Background(), &offersrpc.DecodeOfferRequest{Offer: "lno1" + regroup5(b)})
	sym.Observe("ok", err == nil)
	if err != nil {
		sym.Reach("refused")
		sym.Assert(resp == nil, "an offer that cannot be decoded has no response")
		range1 := f.min && f.max && want.MinQuantity != 0 && want.MaxQuantity != 0 && want.MinQuantity > want.MaxQuantity
		sym.Assert(f.sig || !f.key || range1, "a valid offer is decoded")
		return
	}
	sym.Reach("decoded")
	if resp == nil || resp.Offer == nil {
		sym.Fail("a valid offer is returned")
	}
	got := resp.Offer
	sym.Assert(got.MinAmountMsat == want.MinAmountMsat, "the minimum amount is returned")
	sym.Assert(sym.EqStr(got.Description, want.Description), "the description is returned")
	sym.Assert(sym.EqBytes(trim(got.Features), trim(want.Features)), "the features are returned")
	if want.ExpiryUnixSeconds == zeroTime {
		sym.Assert(got.ExpiryUnixSeconds == zeroTime, "an expiry that reads as the zero time is returned")
	} else {
		sym.Assert(got.ExpiryUnixSeconds == want.ExpiryUnixSeconds, "the expiry is returned")
	}
	sym.Assert(sym.EqStr(got.Issuer, want.Issuer), "the issuer is returned")
	sym.Assert(got.MinQuantity == want.MinQuantity, "the minimum quantity is returned")
	sym.Assert(got.MaxQuantity == want.MaxQuantity, "the maximum quantity is returned")
	sym.Assert(sym.EqStr(got.NodeId, want.NodeId), "the node id is returned")
	sym.Assert(sym.EqStr(got.Signature, want.Signature), "the signature is returned")
	if !f.features {
		sym.Assert(len(got.Features) == 0, "absent features are empty")
	}
	sym.Assert(n.calls == 0, "lnd is not needed to decode an offer")
}

// trim drops leading zeroes, which do not change a feature vector.
func trim(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

// C26_Fields: any subset of the fields.
func C26_Fields() {
	f := fields{key: true, few: true}
	f.amount = sym.Choose("has.amount", 2) == 1
	f.features = sym.Choose("has.features", 2) == 1
	f.expiry = sym.Choose("has.expiry", 2) == 1
	f.issuer = sym.Choose("has.issuer", 2) == 1
	f.min = sym.Choose("has.min", 2) == 1
	f.max = sym.Choose("has.max", 2) == 1
	if f.min == f.max {
		f.key = sym.Choose("has.key", 2) == 1
		f.sig = sym.Choose("has.sig", 2) == 1
	}
	decode(f, [6]int{1, 1, 1, 1, 1, 1})
}

// C26_Sizes: fields of any size.
func C26_Sizes() {
	f := fields{key: true}
	sizes := [6]int{1, 1, 1, 1, 1, 1}
	max := []int{8, 4, 4, 8, 4, 8}
	k := sym.Choose("field", 6)
	sizes[k] = sym.Choose("size", max[k]+1)
	switch k {
	case 0:
		f.amount = true
	case 2:
		f.features = true
	case 3:
		f.expiry = true
	case 4:
		f.issuer = true
	case 5:
		f.min, f.max = true, true
	}
	decode(f, sizes)
}

// C26_Large: long descriptions.
func C26_Large() {
	f := fields{key: true, issuer: true, long: pick("long", 250, 1000, 3000)}
	decode(f, [6]int{1, 1, 1, 1, 1, 1})
}

// C26_Refused: an empty request, or one that holds no offer.
func C26_Refused() {
	n := newLnd()
	s, _ := started(n)
	kind := sym.Choose("kind", 4)
	var str string
	switch kind {
	case 1:
		max := 2
		if sym.Thorough() {
			max = 3
		}
		str = sym.String("offer", 1+sym.Choose("len", max))
	case 2:
		str = "lno1" + regroup5(sym.Bytes("offer", 1+sym.Choose("len", 3)))
	case 3:
		// No description.
		str = "lno1" + regroup5(hlib.PutRec(nil, 30, hlib.Priv(target).PubKey().SerializeCompressed()[1:]))
	}
	resp, err := s.DecodeOffer(context.Background(), &offersrpc.DecodeOfferRequest{Offer: str})
	sym.Assert(err != nil, "what is not an offer is refused")
	sym.Assert(resp == nil, "without a response")
	if kind == 0 {
		sym.Assert(code(err, codes.InvalidArgument), "an empty request is an invalid argument")
	}
}

// C26_Again: several offers, one after the other or at the same time.
func C26_Again() {
	sym.HashOrder(1)
	n := newLnd()
	s, _ := started(n)
	type offer struct {
		str  string
		want offersrpc.Offer
		ok   bool
	}
	var all []*offer
	for i := 0; i < 2; i++ {
		o := &offer{ok: true}
		var b, v []byte
		kind := sym.Choose("kind", 4)
		if kind == 1 {
			o.want.MinAmountMsat, v = number("amount", 2)
			b = hlib.PutRec(b, 8, v)
		}
		v = sym.Bytes("description", 3)
		o.want.Description = string(v)
		b = hlib.PutRec(b, 10, v)
		if kind == 2 {
			o.want.ExpiryUnixSeconds, v = number("expiry", 4)
			b = hlib.PutRec(b, 14, v)
			v = sym.Bytes("issuer", 2)
			o.want.Issuer = string(v)
			b = hlib.PutRec(b, 20, v)
		}
		if kind == 3 {
			o.ok = false // it has no key
		} else {
			v = hlib.Priv(target + i).PubKey().SerializeCompressed()[1:]
			o.want.NodeId = hex.EncodeToString(v)
			b = hlib.PutRec(b, 30, v)
		}
		o.str = "lno1" + regroup5(b)
		all = append(all, o)
	}
	check := func(o *offer) {
		resp, err := s.DecodeOffer(context.Background(), &offersrpc.DecodeOfferRequest{Offer: o.str})
		sym.Assert((err == nil) == o.ok, "exactly the valid offers are decoded")
		if err != nil || !o.ok {
			return
		}
		if resp == nil || resp.Offer == nil {
			sym.Fail("a valid offer is returned")
		}
		got := resp.Offer
		sym.Assert(got.MinAmountMsat == o.want.MinAmountMsat, "the minimum amount is returned")
		sym.Assert(sym.EqStr(got.Description, o.want.Description), "the description is returned")
		sym.Assert(got.ExpiryUnixSeconds == o.want.ExpiryUnixSeconds, "the expiry is returned")
		sym.Assert(sym.EqStr(got.Issuer, o.want.Issuer), "the issuer is returned")
		sym.Assert(sym.EqStr(got.NodeId, o.want.NodeId), "the node id is returned")
		sym.Assert(len(got.Features) == 0 && got.MinQuantity == 0 && got.MaxQuantity == 0 && got.Signature == "", "no other field is returned")
	}
	if sym.Choose("concurrent", 2) == 1 {
		for _, o := range all {
			o := o
			go check(o)
		}
		sym.Settle()
		return
	}
	check(all[0])
	check(all[1])
	check(all[0])
}
