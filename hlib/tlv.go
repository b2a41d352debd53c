// Package hlib holds the specification side of the harnesses: an independent
// reading of the TLV wire format, the merkle tree, and small helpers.
package hlib

import (
	"bytes"
	"crypto/sha256"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/zzverif/sym"
)

// Rec is one TLV record as found on the wire.
type Rec struct {
	Type uint64
	Val  []byte
	Raw  []byte
}

// BigSize reads a canonical BigSize integer.
func BigSize(b []byte) (v uint64, n int, ok bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	switch {
	case b[0] < 0xfd:
		return uint64(b[0]), 1, true
	case b[0] == 0xfd:
		if len(b) < 3 {
			return 0, 0, false
		}
		v = uint64(b[1])<<8 | uint64(b[2])
		return v, 3, v >= 0xfd
	case b[0] == 0xfe:
		if len(b) < 5 {
			return 0, 0, false
		}
		v = uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])
		return v, 5, v > 0xffff
	default:
		if len(b) < 9 {
			return 0, 0, false
		}
		for i := 1; i < 9; i++ {
			v = v<<8 | uint64(b[i])
		}
		return v, 9, v > 0xffffffff
	}
}

// Parse splits a byte string into TLV records: canonical sizes, strictly
// ascending types, values of at most 65535 bytes, nothing left over. Each
// record is shown to ok (when given), in order, and must satisfy it.
func Parse(b []byte, valid func(t uint64, v []byte) bool) (recs []Rec, ok bool) {
	for len(b) > 0 {
		t, n, ok := BigSize(b)
		if !ok {
			return nil, false
		}
		if len(recs) > 0 && t <= recs[len(recs)-1].Type {
			return nil, false
		}
		l, n2, ok := BigSize(b[n:])
		if !ok {
			return nil, false
		}
		if l > 65535 {
			return nil, false
		}
		h := n + n2
		if l > uint64(len(b)-h) {
			return nil, false
		}
		end := h + sym.Pick(int(l))
		if valid != nil && !valid(t, b[h:end]) {
			return nil, false
		}
		recs = append(recs, Rec{Type: t, Val: b[h:end], Raw: b[:end]})
		b = b[end:]
	}
	return recs, true
}

// Find returns the record of a type.
func Find(recs []Rec, t uint64) ([]byte, bool) {
	for _, r := range recs {
		if r.Type == t {
			return r.Val, true
		}
	}
	return nil, false
}

// PutBigSize appends a canonical BigSize.
func PutBigSize(b []byte, v uint64) []byte {
	switch {
	case v < 0xfd:
		return append(b, byte(v))
	case v <= 0xffff:
		return append(b, 0xfd, byte(v>>8), byte(v))
	case v <= 0xffffffff:
		return append(b, 0xfe, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	default:
		return append(b, 0xff, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
}

// PutRec appends a TLV record.
func PutRec(b []byte, t uint64, val []byte) []byte {
	b = PutBigSize(b, t)
	b = PutBigSize(b, uint64(len(val)))
	return append(b, val...)
}

// TU64 is the minimal big-endian encoding of v.
func TU64(v uint64) []byte {
	var out []byte
	for i := 7; i >= 0; i-- {
		c := byte(v >> (8 * uint(i)))
		if len(out) > 0 || c != 0 {
			out = append(out, c)
		}
	}
	return out
}

// DecTU64 reads a minimally encoded integer of at most eight bytes.
func DecTU64(b []byte) (uint64, bool) {
	if len(b) > 8 || len(b) > 0 && b[0] == 0 {
		return 0, false
	}
	var v uint64
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v, true
}

// PubKey is any valid compressed public key.
func PubKey(name string) *btcec.PublicKey {
	b := sym.Bytes(name, 33)
	k, err := btcec.ParsePubKey(b)
	if err != nil {
		sym.Skip()
	}
	return k
}

// Priv is one of a fixed set of private keys.
func Priv(i int) *btcec.PrivateKey {
	b := make([]byte, 32)
	b[31] = byte(i + 1)
	b[0] = byte(i)
	k, _ := btcec.PrivKeyFromBytes(b)
	return k
}

// Neg is the private key of the other point with the same x coordinate.
func Neg(k *btcec.PrivateKey) *btcec.PrivateKey {
	s := k.Key
	s.Negate()
	return btcec.PrivKeyFromScalar(&s)
}

// SameKey compares optional keys.
func SameKey(a, b *btcec.PublicKey) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.IsEqual(b)
}

func tagged(tag, msg []byte) []byte {
	t := sha256.Sum256(tag)
	var b []byte
	b = append(b, t[:]...)
	b = append(b, t[:]...)
	b = append(b, msg...)
	h := sha256.Sum256(b)
	return h[:]
}

// TaggedHash is the BIP-340 tagged hash.
func TaggedHash(tag string, msg []byte) []byte { return tagged([]byte(tag), msg) }

// IsSig tells whether a record belongs to the signature range.
func IsSig(t uint64) bool { return t >= 240 && t <= 1000 }

// MerkleRoot is the BOLT 12 root of the non-signature records, which must be in
// ascending order: each leaf is combined with its nonce leaf, then level by
// level, an unpaired node moving up unchanged.
func MerkleRoot(recs []Rec) ([]byte, bool) {
	var all []byte
	var leaves [][]byte
	for _, r := range recs {
		if IsSig(r.Type) {
			continue
		}
		all = append(all, r.Raw...)
		leaves = append(leaves, r.Raw)
	}
	if len(leaves) == 0 {
		return nil, false
	}
	nonce := append([]byte("LnAll"), all...)
	var level [][]byte
	for _, l := range leaves {
		level = append(level, branch(tagged([]byte("LnLeaf"), l), tagged(nonce, l)))
	}
	for len(level) > 1 {
		var up [][]byte
		for i := 0; i+1 < len(level); i += 2 {
			up = append(up, branch(level[i], level[i+1]))
		}
		if len(level)%2 == 1 {
			up = append(up, level[len(level)-1])
		}
		level = up
	}
	return level[0], true
}

func branch(a, b []byte) []byte {
	if bytes.Compare(a, b) > 0 {
		a, b = b, a
	}
	return tagged([]byte("LnBranch"), append(append([]byte{}, a...), b...))
}
