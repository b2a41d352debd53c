package main

import (
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/lntypes"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// kind is the wire format of a record.
type kind int

const (
	kHash   kind = iota // 32 bytes
	kTU64               // truncated integer
	kText               // bytes
	kFeat               // feature bits
	kXOnly              // 32 byte key
	kPoint              // 33 byte key
	kFixed8             // 8 byte integer
	kExpiry             // 8 byte integer, a time.Duration in seconds
	kSig                // 64 bytes
)

type field struct {
	t    uint64
	kind kind
}

var offerSpec = []field{
	{2, kHash}, {8, kTU64}, {10, kText}, {12, kFeat}, {14, kTU64}, {20, kText},
	{22, kTU64}, {24, kTU64}, {30, kXOnly}, {240, kSig},
}

var requestSpec = []field{
	{3, kHash}, {4, kHash}, {8, kTU64}, {12, kFeat}, {32, kTU64}, {38, kXOnly},
	{39, kText}, {50, kText}, {240, kSig},
}

var invoiceSpec = []field{
	{3, kHash}, {4, kHash}, {8, kTU64}, {10, kText}, {12, kFeat}, {30, kPoint},
	{32, kTU64}, {38, kPoint}, {39, kText}, {40, kFixed8}, {42, kHash},
	{44, kExpiry}, {46, kFixed8}, {50, kText}, {240, kSig},
}

func specKind(spec []field, t uint64) (kind, bool) {
	for _, f := range spec {
		if f.t == t {
			return f.kind, true
		}
	}
	return 0, false
}

// legal tells whether a value can be that of a known record.
func legal(k kind, v []byte) bool {
	switch k {
	case kHash:
		return len(v) == 32
	case kTU64:
		_, ok := hlib.DecTU64(v)
		return ok
	case kXOnly:
		if len(v) != 32 {
			return false
		}
		_, err := schnorr.ParsePubKey(v)
		return err == nil
	case kPoint:
		if len(v) != 33 {
			return false
		}
		_, err := btcec.ParsePubKey(v)
		return err == nil
	case kFixed8, kExpiry:
		return len(v) == 8
	case kSig:
		return len(v) == 64
	}
	return true
}

func lens(k kind, known bool) []int {
	thorough := sym.Thorough()
	switch {
	case !known:
		return []int{0, 1, 3}
	case k == kHash || k == kXOnly:
		return []int{32, 31, 33, 0}
	case k == kTU64 && thorough:
		return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	case k == kTU64:
		return []int{0, 1, 2, 8, 9}
	case k == kPoint:
		return []int{33, 32, 34}
	case k == kFixed8 || k == kExpiry:
		return []int{8, 7, 9, 0}
	case k == kSig:
		return []int{64, 63, 65}
	}
	return []int{0, 1, 2}
}

// symRecord is a record of any type with a value of a size at or next to the
// legal ones.
func symRecord(spec []field, b []byte, keysOnlyValid bool) []byte {
	i := sym.Choose("type", len(spec)+2)
	var k kind
	known := i < len(spec)
	switch {
	case known:
		k = spec[i].kind
		b = append(b, byte(spec[i].t))
	case i == len(spec):
		t := sym.Byte("othertype")
		sym.Assume(t < 0xfd)
		for _, f := range spec {
			sym.Assume(uint64(t) != f.t)
		}
		b = append(b, t)
	default:
		b = append(b, 0xfd)
		b = append(b, sym.Bytes("longtype", 2)...)
	}
	ls := lens(k, known)
	n := ls[sym.Choose("len", len(ls))]
	b = append(b, byte(n))
	v := sym.Bytes("val", n)
	if known && k == kFeat {
		for j := range v {
			// Each set bit is a case of its own: bound their number.
			sym.Assume(v[j]&0x7a == 0)
		}
	}
	return append(b, v...)
}

// checkDecode decodes and compares with an independent reading of the bytes.
func checkDecode(b []byte, spec []field, decode func([]byte) (func(t uint64) value, error)) {
	sym.HashOrder(1)
	get, err := decode(b)
	sym.Observe("err", err != nil)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	recs, ok := hlib.Parse(b, func(t uint64, v []byte) bool {
		k, known := specKind(spec, t)
		return !known || legal(k, v)
	})
	sym.Assert(ok, "only canonical streams of legal records are accepted")
	if !ok {
		return
	}
	for _, f := range spec {
		v, has := hlib.Find(recs, f.t)
		if has {
			sym.Reach("field")
		}
		checkValue(f, v, has, get(f.t))
	}
}

// value is a decoded field; which member counts depends on its kind.
type value struct {
	b    []byte
	n    uint64
	feat *lndwire.FeatureVector
	key  *btcec.PublicKey
	sig  *[64]byte
	zero bool // for times
	time bool
}

func checkValue(f field, v []byte, has bool, got value) {
	name := map[kind]string{
		kHash: "hash", kTU64: "number", kText: "text", kFeat: "features", kXOnly: "x-only key",
		kPoint: "key", kFixed8: "number", kExpiry: "duration", kSig: "signature",
	}[f.kind]
	msg := "decoded " + name + " is the one on the wire"
	if !has {
		msg = name + " not on the wire is absent"
	}
	switch f.kind {
	case kHash:
		if !has {
			v = make([]byte, 32)
		}
		sym.Assert(sym.EqBytes(got.b, v), msg)
	case kText:
		sym.Assert(sym.EqBytes(got.b, v), msg)
	case kTU64, kFixed8:
		if !has && got.time {
			sym.Assert(got.zero, msg)
			return
		}
		var n uint64
		for _, c := range v {
			n = n<<8 | uint64(c)
		}
		sym.Assert(got.n == n, msg)
	case kExpiry:
		var n uint64
		for _, c := range v {
			n = n<<8 | uint64(c)
		}
		sym.Assert(sym.And(n <= maxExpiry, got.n == n*uint64(time.Second)), msg)
	case kFeat:
		var bits []lndwire.FeatureBit
		for i, c := range v {
			for j := uint(0); j < 8; j++ {
				if c&(1<<j) != 0 {
					bits = append(bits, lndwire.FeatureBit(uint(len(v)-1-i)*8+j))
				}
			}
		}
		want := lndwire.NewFeatureVector(lndwire.NewRawFeatureVector(bits...), nil)
		sym.Assert(got.feat != nil && sameFeats(want, got.feat), msg)
	case kXOnly:
		sym.Assert(has == (got.key != nil), msg)
		if has && got.key != nil {
			sym.Assert(sym.EqBytes(schnorr.SerializePubKey(got.key), v), msg)
		}
	case kPoint:
		sym.Assert(has == (got.key != nil), msg)
		if has && got.key != nil {
			sym.Assert(sym.EqBytes(got.key.SerializeCompressed(), v), msg)
		}
	case kSig:
		sym.Assert(has == (got.sig != nil), msg)
		if has && got.sig != nil {
			sym.Assert(sym.EqBytes(got.sig[:], v), msg)
		}
	}
}

func timeVal(t time.Time) value {
	return value{n: uint64(t.Unix()), time: true, zero: t.IsZero()}
}

func hashVal(h lntypes.Hash) value { return value{b: h[:]} }

func decodeOffer(b []byte) (func(t uint64) value, error) {
	o, err := lnwire.DecodeOffer(b)
	return func(t uint64) value {
		switch t {
		case 2:
			return hashVal(o.Chainhash)
		case 8:
			return value{n: uint64(o.MinimumAmount)}
		case 10:
			return value{b: []byte(o.Description)}
		case 12:
			return value{feat: o.Features}
		case 14:
			return timeVal(o.Expiry)
		case 20:
			return value{b: []byte(o.Issuer)}
		case 22:
			return value{n: o.QuantityMin}
		case 24:
			return value{n: o.QuantityMax}
		case 30:
			return value{key: o.NodeID}
		}
		return value{sig: o.Signature}
	}, err
}

func decodeRequest(b []byte) (func(t uint64) value, error) {
	r, err := lnwire.DecodeInvoiceRequest(b)
	return func(t uint64) value {
		switch t {
		case 3:
			return hashVal(r.Chainhash)
		case 4:
			return hashVal(r.OfferID)
		case 8:
			return value{n: uint64(r.Amount)}
		case 12:
			return value{feat: r.Features}
		case 32:
			return value{n: r.Quantity}
		case 38:
			return value{key: r.PayerKey}
		case 39:
			return value{b: []byte(r.PayerNote)}
		case 50:
			return value{b: r.PayerInfo}
		}
		return value{sig: r.Signature}
	}, err
}

func decodeInvoice(b []byte) (func(t uint64) value, error) {
	i, err := lnwire.DecodeInvoice(b)
	return func(t uint64) value {
		switch t {
		case 3:
			return hashVal(i.Chainhash)
		case 4:
			return hashVal(i.OfferID)
		case 8:
			return value{n: uint64(i.Amount)}
		case 10:
			return value{b: []byte(i.Description)}
		case 12:
			return value{feat: i.Features}
		case 30:
			return value{key: i.NodeID}
		case 32:
			return value{n: i.Quantity}
		case 38:
			return value{key: i.PayerKey}
		case 39:
			return value{b: []byte(i.PayerNote)}
		case 40:
			return timeVal(i.CreatedAt)
		case 42:
			return hashVal(i.PaymentHash)
		case 44:
			return value{n: uint64(i.RelativeExpiry)}
		case 46:
			return value{n: i.CLTVExpiry}
		case 50:
			return value{b: i.PayerInfo}
		}
		return value{sig: i.Signature}
	}, err
}

// fewFeatures bounds the number of feature bits that can be set, each of which
// doubles the number of cases.
func fewFeatures(b []byte) []byte {
	hlib.Parse(b, func(t uint64, v []byte) bool {
		if t == 12 {
			for i := range v {
				sym.Assume(v[i]&0x7a == 0)
			}
		}
		return true
	})
	return b
}

func anyBytes(quick, thorough int) []byte {
	max := quick
	if sym.Thorough() {
		max = thorough
	}
	n := sym.Choose("len", max+1)
	sym.LenCap(n + 1)
	return fewFeatures(sym.Bytes("data", n))
}

func anyRecords(spec []field, quick, thorough int) []byte {
	max := quick
	if sym.Thorough() {
		max = thorough
	}
	sym.LenCap(300)
	var b []byte
	n := 1 + sym.Choose("records", max)
	for i := 0; i < n; i++ {
		b = symRecord(spec, b, false)
	}
	if sym.Choose("cut", 2) == 1 {
		b = b[:len(b)-1]
	}
	return b
}

// C04_OfferBytes and its siblings: arbitrary short byte strings.
func C04_OfferBytes()   { checkDecode(anyBytes(5, 7), offerSpec, decodeOffer) }
func C04_RequestBytes() { checkDecode(anyBytes(5, 7), requestSpec, decodeRequest) }
func C04_InvoiceBytes() { checkDecode(anyBytes(5, 7), invoiceSpec, decodeInvoice) }

// C04_OfferRecords and its siblings: streams of whole records with values of
// any bytes, of a legal size or nearly so, possibly cut short.
func C04_OfferRecords()   { checkDecode(anyRecords(offerSpec, 2, 3), offerSpec, decodeOffer) }
func C04_RequestRecords() { checkDecode(anyRecords(requestSpec, 2, 3), requestSpec, decodeRequest) }
func C04_InvoiceRecords() { checkDecode(anyRecords(invoiceSpec, 2, 3), invoiceSpec, decodeInvoice) }
