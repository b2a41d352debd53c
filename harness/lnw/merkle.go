package main

import (
	"errors"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/tlv"
)

func bytesRecord(t uint64, v []byte) tlv.Record {
	return tlv.MakePrimitiveRecord(tlv.Type(t), &v)
}

// permute returns record i of an order of n records.
func permute(order, n int) []int {
	p := make([]int, n)
	for i := range p {
		switch order {
		case 0:
			p[i] = i
		case 1:
			p[i] = n - 1 - i
		case 2:
			p[i] = (i + 1) % n
		default:
			p[i] = (i + n - 1) % n
		}
	}
	if order == 4 && n > 2 {
		p[0], p[2] = p[2], p[0]
	}
	return p
}

func checkRoot(recs []hlib.Rec, order int) {
	var in []tlv.Record
	for _, i := range permute(order, len(recs)) {
		in = append(in, bytesRecord(recs[i].Type, recs[i].Val))
	}
	got, err := lnwire.MerkleRoot(in)
	want, ok := hlib.MerkleRoot(recs)
	sym.Assert(ok == (err == nil), "a root exists exactly when a non-signature record remains")
	if !ok {
		sym.Reach("no records")
		sym.Assert(errors.Is(err, lnwire.ErrNoTLVs), "no records is reported as such")
		return
	}
	if err != nil {
		return
	}
	sym.Reach("root")
	sym.Assert(sym.EqBytes(got[:], want), "the root is that of the BOLT 12 tree")
}

func mkRec(t uint64, v []byte) hlib.Rec {
	return hlib.Rec{Type: t, Val: v, Raw: hlib.PutRec(nil, t, v)}
}

// C05_Shape: many records of fixed types, every byte value, several hash orders
// and supply orders, with and without signature records.
func C05_Shape() {
	max, modes := 9, 4
	if sym.Thorough() {
		max, modes = 20, 8
	}
	n := sym.Choose("records", max+1)
	sym.HashOrder(1 + sym.Choose("hash-order", modes))
	sigs := sym.Choose("signatures", 3)
	types := []uint64{0, 1, 2, 8, 22, 100, 239, 1001, 1002, 65535, 65536, 1 << 33, 1<<33 + 1, 1 << 34, 1 << 35, 1 << 36, 1 << 40, 1 << 50, 1 << 60, 1<<64 - 1}
	var recs []hlib.Rec
	k := 0
	add := func(t uint64, size int) {
		recs = append(recs, mkRec(t, sym.Bytes("val", size)))
	}
	for ; k < n && types[k] < 240; k++ {
		add(types[k], k%3)
	}
	if sigs > 0 {
		add(240, 4)
	}
	if sigs > 1 {
		add(500, 2)
		add(1000, 0)
	}
	for ; k < n; k++ {
		add(types[k], k%3)
	}
	checkRoot(recs, sym.Choose("supply-order", 5))
}

// C05_Types: any types and values, any order of the digests.
func C05_Types() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	n := 1 + sym.Choose("records", max)
	var recs []hlib.Rec
	sizes := []int{0, 1, 253}
	if mode := sym.Choose("hash-order", 3); mode != 0 {
		sym.HashOrder(mode)
	} else if !sym.Thorough() {
		// Digests in any order: each order is a case of its own.
		sizes = []int{1}
	}
	for i := 0; i < n; i++ {
		t := sym.Uint64("type")
		if i > 0 {
			sym.Assume(t > recs[i-1].Type)
		}
		size := sizes[sym.Choose("size", len(sizes))]
		recs = append(recs, mkRec(t, sym.Bytes("val", size)))
	}
	checkRoot(recs, sym.Choose("supply-order", 2))
}

// C05_Sizes: records whose length takes more than one byte to write, and more
// records than a first buffer would hold.
func C05_Sizes() {
	sizes := []int{252, 253, 255, 256, 600, 65535, 65536}
	n := 1 + sym.Choose("records", 2)
	if sym.Thorough() {
		sizes = append(sizes, 254, 257, 1366, 4096, 32768, 65537, 131072, 1<<20)
		n += sym.Choose("more", 2)
	}
	sym.HashOrder(1 + sym.Choose("hash-order", 2))
	var recs []hlib.Rec
	for i := 0; i < n; i++ {
		v := make([]byte, sizes[sym.Choose("size", len(sizes))])
		v[0], v[len(v)/2], v[len(v)-1] = sym.Byte("v"), sym.Byte("v"), sym.Byte("v")
		recs = append(recs, mkRec(uint64(1+i*100), v))
	}
	recs = append(recs, mkRec(70000, sym.Bytes("val", 3)))
	checkRoot(recs, sym.Choose("supply-order", 2))
}

// C05_Many: more records than any ordinary message has.
func C05_Many() {
	counts := []int{31, 64, 65, 130}
	if sym.Thorough() {
		counts = append(counts, 127, 128, 129, 257, 600)
	}
	n := counts[sym.Choose("records", len(counts))]
	sym.HashOrder(1 + sym.Choose("hash-order", 2))
	step := []uint64{1, 300, 1 << 40}[sym.Choose("step", 3)]
	var recs []hlib.Rec
	for i := 0; i < n; i++ {
		t := uint64(1+i) * step
		if hlib.IsSig(t) && step > 1 {
			t++
		}
		recs = append(recs, mkRec(t, sym.Bytes("val", i%3)))
	}
	checkRoot(recs, sym.Choose("supply-order", 4))
}

// C05_Concurrent: roots calculated at the same time do not affect each other.
func C05_Concurrent() {
	sym.HashOrder(1)
	var sets [2][]hlib.Rec
	for i := range sets {
		for k := 0; k < 2; k++ {
			sets[i] = append(sets[i], mkRec(uint64(1+i+2*k), sym.Bytes("val", 2)))
		}
	}
	sym.Preempt(2)
	done := make(chan struct{})
	go func() {
		defer close(done)
		checkRoot(sets[1], 0)
	}()
	checkRoot(sets[0], 0)
	<-done
}
