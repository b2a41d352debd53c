package main

import (
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/lntypes"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// domain says which values a field takes on this path.
type domain int

const (
	absent domain = iota
	small         // present, of one fixed size
	full          // every size within the bounds
)

// fields chooses the presence pattern: with focus >= 0 that field takes its
// full domain and the others are all present or all absent; otherwise every
// field is present or absent independently.
type fields struct {
	focus int
	rest  bool
	group int // with focus < 0: 1 or 2, only every other field is free
	every int // 1: all are present, 2, 3: every other one is
	i     int
}

func anyFields(n int) *fields {
	return &fields{focus: sym.Choose("focus", n), rest: sym.Choose("rest", 2) == 1}
}

func (f *fields) next() domain {
	i := f.i
	f.i++
	switch {
	case f.every != 0:
		if f.every == 1 || i%2 == f.every-2 {
			return small
		}
		return absent
	case f.focus < 0 && (f.group == 0 || i%2 == f.group-1):
		return domain(sym.Choose("present", 2))
	case i == f.focus:
		return full
	case f.rest:
		return small
	}
	return absent
}

func hashField(d domain, name string) (h lntypes.Hash) {
	if d != absent {
		copy(h[:], sym.Bytes(name, 32))
	}
	return
}

// number is zero when absent.
func number(d domain, name string) uint64 {
	switch d {
	case absent:
		return 0
	case small:
		v := sym.Uint64(name)
		sym.Assume(sym.And(v >= 1, v < 256))
		return v
	}
	return sym.Uint64(name)
}

func text(d domain, name string) string {
	switch d {
	case absent:
		return ""
	case small:
		return sym.String(name, 2)
	}
	return sym.String(name, textLen(name))
}

func textLen(name string) int {
	if sym.Thorough() {
		return []int{0, 1, 3, 7, 252, 253, 254, 1000, 65535}[sym.Choose(name+"-len", 9)]
	}
	return []int{0, 1, 3, 252, 253, 1500}[sym.Choose(name+"-len", 6)]
}

func blob(d domain, name string) []byte {
	switch d {
	case absent:
		return nil
	case small:
		return sym.Bytes(name, 2)
	}
	return sym.Bytes(name, textLen(name))
}

func key(d domain, name string) *btcec.PublicKey {
	if d == absent {
		return nil
	}
	return hlib.PubKey(name)
}

func sig(d domain, name string) *[64]byte {
	if d == absent {
		return nil
	}
	var s [64]byte
	copy(s[:], sym.Bytes(name, 64))
	return &s
}

// instant is a time of whole seconds; the zero time when absent.
func instant(d domain, name string) time.Time {
	switch d {
	case absent:
		return time.Time{}
	case small:
		v := sym.Int64(name)
		sym.Assume(sym.And(v >= 1<<24, v < 1<<31))
		return time.Unix(v, 0)
	}
	return time.Unix(sym.Int64(name), 0)
}

var featureSets = [][]lndwire.FeatureBit{
	{}, {0}, {1}, {7}, {8}, {9, 0}, {14, 17}, {263, 1}, {2039}, {2040, 3}, {65535},
}

func feats(d domain, name string) *lndwire.FeatureVector {
	var bits []lndwire.FeatureBit
	switch d {
	case absent:
		return nil
	case small:
		bits = featureSets[5]
	default:
		n := len(featureSets) - 1
		if sym.Thorough() {
			n++
		}
		bits = featureSets[sym.Choose(name, n)]
	}
	return lndwire.NewFeatureVector(lndwire.NewRawFeatureVector(bits...), lndwire.Features)
}

func sameSig(a, b *[64]byte) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.EqBytes(a[:], b[:])
}

// sameX compares keys by their x coordinate, as they are encoded.
func sameX(a, b *btcec.PublicKey) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.EqBytes(schnorr.SerializePubKey(a), schnorr.SerializePubKey(b))
}

func sameTime(a, b time.Time) bool {
	return sym.And(a.Unix() == b.Unix(), a.Nanosecond() == b.Nanosecond())
}

// sameFeats compares the sets of features; nil and empty are the same set.
func sameFeats(a, b *lndwire.FeatureVector) bool {
	set := func(f *lndwire.FeatureVector) map[lndwire.FeatureBit]bool {
		m := map[lndwire.FeatureBit]bool{}
		if f == nil {
			return m
		}
		for b := range f.Features() {
			m[b] = true
		}
		return m
	}
	x, y := set(a), set(b)
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}
