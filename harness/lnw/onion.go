package main

import (
	"bytes"
	"io"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/tlv"
)

func pick(name string, of ...int) int { return of[sym.Choose(name, len(of))] }

// pieces hands out a byte string in reads of at most n bytes.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(out []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.n
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(out, p.b[:n])
	p.b = p.b[n:]
	return n, nil
}

func source(b []byte) io.Reader {
	switch sym.Choose("reader", 3) {
	case 0:
		return bytes.NewReader(b)
	case 1:
		return bytes.NewBuffer(b)
	}
	return &pieces{b, 7}
}

// C10_RoundTrip: the encoding is key, length, onion; decoding returns it.
func C10_RoundTrip() {
	lens := []int{0, 1, 2, 255, 256, 1366, 65535}
	if sym.Thorough() {
		lens = []int{0, 1, 2, 3, 15, 16, 127, 128, 255, 256, 257, 1366, 4096, 32767, 32768, 65279, 65280, 65534, 65535}
	}
	n := pick("len", lens...)
	in := lnwire.NewOnionMessage(hlib.PubKey("blinding"), sym.Bytes("onion", n))
	buf := new(bytes.Buffer)
	err := in.Encode(buf, sym.Uint32("version"))
	sym.Assert(err == nil, "an onion message encodes")
	if err != nil {
		return
	}
	var want []byte
	want = append(want, in.BlindingPoint.SerializeCompressed()...)
	want = append(want, byte(n>>8), byte(n))
	want = append(want, in.OnionBlob...)
	b := buf.Bytes()
	sym.Observe("len", len(b))
	sym.Assert(sym.EqBytes(b, want), "the encoding is key, length and onion")
	// Whether or not the message held another one before.
	out := new(lnwire.OnionMessage)
	if sym.Choose("reused", 2) == 1 {
		out = lnwire.NewOnionMessage(hlib.Priv(3).PubKey(), sym.Bytes("old", 2))
	}
	err = out.Decode(source(b), 0)
	sym.Assert(err == nil, "own encoding decodes")
	if err != nil {
		return
	}
	sym.Reach("roundtrip")
	sym.Assert(hlib.SameKey(in.BlindingPoint, out.BlindingPoint), "the blinding point survives")
	sym.Assert(sym.EqBytes(in.OnionBlob, out.OnionBlob), "the onion survives")
}

// C10_TooLong: an onion that does not fit its length field is refused.
func C10_TooLong() {
	n := pick("len", 65536, 65537, 65536+1366, 1<<17, 1<<17+5)
	in := lnwire.NewOnionMessage(hlib.PubKey("blinding"), make([]byte, n))
	err := in.Encode(new(bytes.Buffer), 0)
	sym.Reach("long")
	sym.Assert(err != nil, "an onion too long for its length field is refused")
}

func checkOnionMessage(b []byte) {
	out := new(lnwire.OnionMessage)
	err := out.Decode(source(b), 0)
	sym.Observe("err", err != nil)
	ok := len(b) >= 35
	var key []byte
	l := 0
	if ok {
		key = b[:33]
		if _, e := btcec.ParsePubKey(key); e != nil {
			ok = false
		}
		l = int(b[33])<<8 | int(b[34])
		if ok && l > len(b)-35 {
			ok = false
		}
	}
	sym.Assert((err == nil) == ok, "exactly the complete messages with a valid key are accepted")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	if !ok {
		return
	}
	sym.Reach("accepted")
	l = sym.Pick(l)
	sym.Assert(out.BlindingPoint != nil, "the blinding point is set")
	if out.BlindingPoint == nil {
		return
	}
	sym.Assert(sym.EqBytes(out.BlindingPoint.SerializeCompressed(), key), "the blinding point is the one on the wire")
	sym.Assert(len(out.OnionBlob) == l, "the onion has the announced length")
	if len(out.OnionBlob) == l {
		sym.Assert(sym.EqBytes(out.OnionBlob, b[35:35+l]), "the onion is the one on the wire")
	}
}

// C10_DecodeAny: every byte string up to a little more than a whole message.
func C10_DecodeAny() {
	max := 38
	if sym.Thorough() {
		max = 64
	}
	n := sym.Choose("len", max+1)
	sym.LenCap(n + 1)
	checkOnionMessage(sym.Bytes("data", n))
}

// C10_DecodeLong: long messages whose announced length is near what follows.
func C10_DecodeLong() {
	have := pick("have", 255, 256, 257, 1366)
	if sym.Thorough() {
		have = pick("have", 255, 256, 257, 1366, 4096, 32768, 65535)
	}
	ann := have + sym.Choose("delta", 5) - 2
	var b []byte
	b = append(b, sym.Bytes("key", 33)...)
	b = append(b, byte(ann>>8), byte(ann))
	b = append(b, sym.Bytes("onion", have)...)
	checkOnionMessage(b)
}

func replyPath(name string, hops []int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{FirstNodeID: hlib.PubKey(name + "-first"), BlindingPoint: hlib.PubKey(name + "-blinding")}
	for _, l := range hops {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{BlindedNodeID: hlib.PubKey(name + "-hop"), EncryptedData: sym.Bytes(name+"-data", l)})
	}
	return p
}

func replyPathBytes(p *lnwire.ReplyPath) []byte {
	var b []byte
	b = append(b, p.FirstNodeID.SerializeCompressed()...)
	b = append(b, p.BlindingPoint.SerializeCompressed()...)
	b = append(b, byte(len(p.Hops)))
	for _, h := range p.Hops {
		b = append(b, h.BlindedNodeID.SerializeCompressed()...)
		b = append(b, byte(len(h.EncryptedData)>>8), byte(len(h.EncryptedData)))
		b = append(b, h.EncryptedData...)
	}
	return b
}

func sameReplyPath(a, b *lnwire.ReplyPath) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if len(a.Hops) != len(b.Hops) {
		return false
	}
	ok := sym.And(hlib.SameKey(a.FirstNodeID, b.FirstNodeID), hlib.SameKey(a.BlindingPoint, b.BlindingPoint))
	for i := range a.Hops {
		ok = sym.And(ok, hlib.SameKey(a.Hops[i].BlindedNodeID, b.Hops[i].BlindedNodeID))
		ok = sym.And(ok, sym.EqBytes(a.Hops[i].EncryptedData, b.Hops[i].EncryptedData))
	}
	return ok
}

// typeWidth is a symbolic type within one BigSize width.
func anyType(name string) uint64 {
	t := sym.Uint64(name)
	switch sym.Choose(name+"-width", 4) {
	case 0:
		sym.Assume(t < 0xfd)
	case 1:
		sym.Assume(sym.And(t >= 0xfd, t <= 0xffff))
	case 2:
		sym.Assume(sym.And(t > 0xffff, t <= 0xffffffff))
	default:
		sym.Assume(t > 0xffffffff)
	}
	return t
}

// roundTrip checks a payload against its specified encoding.
func payloadRoundTrip(in *lnwire.OnionMessagePayload, sorted []*lnwire.FinalHopPayload) {
	b, err := lnwire.EncodeOnionMessagePayload(in)
	sym.Assert(err == nil, "the payload encodes")
	if err != nil {
		return
	}
	var want []byte
	if in.ReplyPath != nil {
		want = hlib.PutRec(want, 2, replyPathBytes(in.ReplyPath))
	}
	if len(in.EncryptedData) > 0 {
		want = hlib.PutRec(want, 4, in.EncryptedData)
	}
	for _, p := range sorted {
		want = hlib.PutRec(want, uint64(p.TLVType), p.Value)
	}
	sym.Observe("len", len(b))
	sym.Assert(sym.EqBytes(b, want), "the payload has the specified encoding")
	out, err := lnwire.DecodeOnionMessagePayload(b)
	sym.Assert(err == nil, "own encoding decodes")
	if err != nil {
		return
	}
	sym.Reach("roundtrip")
	sym.Assert(sameReplyPath(in.ReplyPath, out.ReplyPath), "the reply path survives")
	sym.Assert(sym.EqBytes(in.EncryptedData, out.EncryptedData), "the encrypted data survives")
	sym.Assert(len(out.FinalHopPayloads) == len(sorted), "every final payload survives, once")
	if len(out.FinalHopPayloads) != len(sorted) {
		return
	}
	for i, p := range sorted {
		o := out.FinalHopPayloads[i]
		sym.Assert(o.TLVType == p.TLVType, "final payloads are in ascending order")
		sym.Assert(sym.EqBytes(o.Value, p.Value), "the final payload's value survives")
	}
}

// C11_RoundTrip: every presence pattern, up to three final payloads of any
// type of 64 or above, in any order.
func C11_RoundTrip() {
	sym.MapOrders(true)
	in := &lnwire.OnionMessagePayload{}
	if sym.Choose("reply", 2) == 1 {
		in.ReplyPath = replyPath("reply", [][]int{{0}, {3, 1}}[sym.Choose("hops", 2)])
	}
	if sym.Choose("encrypted", 2) == 1 {
		in.EncryptedData = sym.Bytes("data", pick("data", 1, 5))
	}
	max := 2
	if sym.Thorough() {
		max = 3
	}
	n := sym.Choose("payloads", max+1)
	for i := 0; i < n; i++ {
		t := sym.Uint64("type")
		sym.Assume(t >= 64)
		for _, p := range in.FinalHopPayloads {
			sym.Assume(t != uint64(p.TLVType))
		}
		in.FinalHopPayloads = append(in.FinalHopPayloads, &lnwire.FinalHopPayload{
			TLVType: tlv.Type(t), Value: sym.Bytes("value", pick("value", 0, 2)),
		})
	}
	sorted := append([]*lnwire.FinalHopPayload{}, in.FinalHopPayloads...)
	for i := range sorted {
		for j := i + 1; j < len(sorted); j++ {
			if sorted[j].TLVType < sorted[i].TLVType {
				sorted[i], sorted[j] = sorted[j], sorted[i]
			}
		}
	}
	payloadRoundTrip(in, sorted)
}

// C11_ThreePayloads: three final payloads around the types the decoder knows,
// supplied in every order, some without a value.
func C11_ThreePayloads() {
	sym.MapOrders(true)
	types := [][3]uint64{{64, 65, 66}, {64, 66, 67}, {65, 66, 1 << 40}, {64, 100, 253}, {66, 67, 68}}[sym.Choose("types", 5)]
	order := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	var sorted, given []*lnwire.FinalHopPayload
	for _, t := range types {
		sorted = append(sorted, &lnwire.FinalHopPayload{TLVType: tlv.Type(t), Value: sym.Bytes("value", pick("value", 0, 3))})
	}
	for _, i := range order {
		given = append(given, sorted[i])
	}
	in := &lnwire.OnionMessagePayload{FinalHopPayloads: given}
	if sym.Choose("encrypted", 2) == 1 {
		in.EncryptedData = sym.Bytes("data", 2)
	}
	payloadRoundTrip(in, sorted)
}

// C11_Sizes: values of every interesting length.
func C11_Sizes() {
	lens := []int{0, 1, 252, 253, 254, 1300, 65535}
	if sym.Thorough() {
		lens = append(lens, 2, 3, 255, 256, 257, 4096, 32768, 65534)
	}
	l := pick("len", lens...)
	in := &lnwire.OnionMessagePayload{}
	switch sym.Choose("what", 3) {
	case 0:
		in.EncryptedData = sym.Bytes("data", l)
	case 1:
		in.FinalHopPayloads = []*lnwire.FinalHopPayload{{TLVType: tlv.Type(pickType()), Value: sym.Bytes("value", l)}}
	default:
		if l+67+35 > 65535 {
			l = 65535 - 67 - 35
		}
		in.ReplyPath = replyPath("reply", []int{l})
	}
	payloadRoundTrip(in, in.FinalHopPayloads)
}

// C11_Many: a long reply path and many final payloads, in several orders.
func C11_Many() {
	counts := []int{10, 17, 33}
	if sym.Thorough() {
		counts = append(counts, 64, 65, 130)
	}
	n := pick("payloads", counts...)
	in := &lnwire.OnionMessagePayload{}
	switch sym.Choose("with", 3) {
	case 1:
		in.EncryptedData = sym.Bytes("data", 20)
	case 2:
		in.ReplyPath = replyPath("reply", make([]int, n))
	}
	step := []uint64{1, 7, 1 << 20}[sym.Choose("step", 3)]
	var sorted []*lnwire.FinalHopPayload
	for i := 0; i < n; i++ {
		sorted = append(sorted, &lnwire.FinalHopPayload{TLVType: tlv.Type(64 + uint64(i)*step), Value: sym.Bytes("value", (i+1)%3)})
	}
	for _, i := range permute(sym.Choose("order", 5), n) {
		in.FinalHopPayloads = append(in.FinalHopPayloads, sorted[i])
	}
	payloadRoundTrip(in, sorted)
}

func pickType() uint64 {
	return []uint64{64, 65, 66, 252, 253, 65536, 1<<64 - 1}[sym.Choose("type", 7)]
}

// C11_Refused: payload types below 64 and repeated types are refused.
func C11_Refused() {
	in := &lnwire.OnionMessagePayload{EncryptedData: sym.Bytes("data", sym.Choose("data", 2))}
	a, b := sym.Uint64("a"), sym.Uint64("b")
	in.FinalHopPayloads = []*lnwire.FinalHopPayload{
		{TLVType: tlv.Type(a), Value: sym.Bytes("value", 1)},
		{TLVType: tlv.Type(b), Value: sym.Bytes("value", sym.Choose("value", 2))},
	}
	sym.Assume(sym.Or(sym.Or(a < 64, b < 64), a == b))
	_, err := lnwire.EncodeOnionMessagePayload(in)
	sym.Reach("refused")
	sym.Assert(err != nil, "a payload type below 64, or given twice, is refused")
	for i, t := range []uint64{a, b} {
		want := t < 64
		sym.Assert((in.FinalHopPayloads[i].Validate() != nil) == want, "Validate refuses exactly the types below 64")
		sym.Assert((lnwire.ValidateFinalPayload(tlv.Type(t)) != nil) == want, "ValidateFinalPayload refuses exactly the types below 64")
	}
}

// readReplyPath is the specification of a reply path record.
func readReplyPath(v []byte) bool {
	valid := func(k []byte) bool { _, err := btcec.ParsePubKey(k); return err == nil }
	if len(v) < 67 {
		return false
	}
	if !valid(v[:33]) || !valid(v[33:66]) {
		return false
	}
	n := v[66]
	if n == 0 {
		return false
	}
	v = v[67:]
	for i := byte(0); i < n; i++ {
		if len(v) < 35 {
			return false
		}
		if !valid(v[:33]) {
			return false
		}
		l := int(v[33])<<8 | int(v[34])
		if l > len(v)-35 {
			return false
		}
		v = v[35+sym.Pick(l):]
	}
	return len(v) == 0
}

// sameHops compares a decoded path with a legal record.
func samePathBytes(p *lnwire.ReplyPath, v []byte) bool {
	if p == nil || p.FirstNodeID == nil || p.BlindingPoint == nil || len(p.Hops) > 255 {
		return false
	}
	for _, h := range p.Hops {
		if h == nil || h.BlindedNodeID == nil {
			return false
		}
	}
	return sym.EqBytes(replyPathBytes(p), v)
}

func checkPayload(b []byte) {
	out, err := lnwire.DecodeOnionMessagePayload(b)
	sym.Observe("err", err != nil)
	other := false
	recs, ok := hlib.Parse(b, func(t uint64, v []byte) bool {
		if t == 2 {
			return readReplyPath(v)
		}
		if t < 64 && t != 4 {
			other = true
		}
		return true
	})
	if err != nil {
		// Records below 64 that are not part of the protocol may be refused.
		sym.Assert(!ok || other, "a canonical stream is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(ok, "only canonical streams with a legal reply path are accepted")
	if !ok {
		return
	}
	sym.Reach("accepted")
	rp, has := hlib.Find(recs, 2)
	sym.Assert(has == (out.ReplyPath != nil), "a reply path is present exactly when its record is")
	if has {
		sym.Reach("reply path")
		sym.Assert(samePathBytes(out.ReplyPath, rp), "the reply path is the one in its record")
	}
	enc, _ := hlib.Find(recs, 4)
	sym.Assert(sym.EqBytes(out.EncryptedData, enc), "the encrypted data is its record")
	i := 0
	for _, r := range recs {
		if r.Type < 64 {
			continue
		}
		sym.Reach("final payload")
		sym.Assert(i < len(out.FinalHopPayloads), "every final payload is reported")
		if i >= len(out.FinalHopPayloads) {
			return
		}
		p := out.FinalHopPayloads[i]
		sym.Assert(uint64(p.TLVType) == r.Type, "final payloads are reported in ascending order")
		sym.Assert(sym.EqBytes(p.Value, r.Val), "the final payload has its record's value")
		i++
	}
	sym.Assert(i == len(out.FinalHopPayloads), "nothing but the records of 64 or above is reported")
}

// C11_DecodeAny: arbitrary short byte strings.
func C11_DecodeAny() {
	sym.MapOrders(true)
	max := 6
	if sym.Thorough() {
		max = 9
	}
	n := sym.Choose("len", max+1)
	sym.LenCap(n + 1)
	checkPayload(sym.Bytes("data", n))
}

// C11_DecodeRecords: streams of whole records of any type with short values.
func C11_DecodeRecords() {
	sym.MapOrders(true)
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := 1 + sym.Choose("records", max)
	var b []byte
	for i := 0; i < n; i++ {
		t := sym.Byte("type")
		sym.Assume(sym.And(t < 0xfd, t != 2))
		b = append(b, t)
		l := sym.Choose("len", 2)
		b = append(b, byte(l))
		b = append(b, sym.Bytes("val", l)...)
	}
	sym.LenCap(len(b) + 1)
	checkPayload(b)
}

func decodePath(hops int) {
	var v []byte
	v = append(v, sym.Bytes("first", 33)...)
	v = append(v, sym.Bytes("blinding", 33)...)
	v = append(v, sym.Byte("count"))
	for i := 0; i < hops; i++ {
		l := sym.Choose("data", 3)
		v = append(v, sym.Bytes("id", 33)...)
		v = append(v, sym.Byte("hi"), sym.Byte("lo"))
		v = append(v, sym.Bytes("data", l)...)
	}
	b := []byte{2, sym.Byte("length")}
	sym.Assume(b[1] < 0xfd)
	b = append(b, v...)
	switch sym.Choose("after", 4) {
	case 1:
		b = append(b, 4, 1, sym.Byte("after"))
	case 2:
		b = append(b, sym.Bytes("after", 3)...)
	case 3:
		b = append(b, 64, 0)
	}
	sym.LenCap(len(b) + 2)
	checkPayload(b)
}

// C12_Decode: a reply path record whose length, hop count and hop lengths are
// arbitrary, followed by further bytes.
func C12_Decode() {
	decodePath(sym.Choose("hops", 2))
}

// C12_DecodeNear: more hops, with announced lengths that are right, one off, or
// reach to the end of the record or past it.
func C12_DecodeNear() {
	n := 2
	if sym.Thorough() {
		n = 2 + sym.Choose("hops", 2)
	}
	var v []byte
	v = append(v, sym.Bytes("first", 33)...)
	v = append(v, sym.Bytes("blinding", 33)...)
	v = append(v, sym.Byte("count"))
	for i := 0; i < n; i++ {
		l := sym.Choose("data", 2)
		rest := l + 36*(n-1-i)
		ann := pick("announced", l, l+1, rest, rest+1, 65535)
		v = append(v, sym.Bytes("id", 33)...)
		v = append(v, byte(ann>>8), byte(ann))
		v = append(v, sym.Bytes("data", l)...)
	}
	b := []byte{2, byte(len(v) + sym.Choose("delta", 3) - 1)}
	b = append(b, v...)
	switch sym.Choose("after", 3) {
	case 1:
		b = append(b, 4, 1, sym.Byte("after"))
	case 2:
		b = append(b, sym.Bytes("after", 2)...)
	}
	sym.LenCap(len(b) + 2)
	checkPayload(b)
}

// C12_Short: a reply path record cut off or extended at any byte.
func C12_Short() {
	sym.LenCap(256)
	n := sym.Choose("len", 80)
	v := sym.Bytes("path", n)
	b := hlib.PutRec(nil, 2, v)
	if sym.Choose("after", 2) == 1 {
		b = append(b, 65, 40)
		b = append(b, sym.Bytes("after", 40)...)
	}
	checkPayload(b)
}

// C12_ManyHops: paths with as many hops as a payload can carry.
func C12_ManyHops() {
	n := pick("hops", 1, 5, 27)
	if sym.Thorough() {
		n = pick("hops", 100, 254, 255)
	}
	p := replyPath("reply", nil)
	for i := 0; i < n; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{BlindedNodeID: hlib.Priv(i % 7).PubKey()})
	}
	v := replyPathBytes(p)
	v[66] = sym.Byte("count")
	b := hlib.PutRec(nil, 2, v)
	if sym.Choose("after", 2) == 1 {
		b = hlib.PutRec(b, 65, sym.Bytes("after", 35))
	}
	sym.LenCap(len(b) + 2)
	checkPayload(b)
}

// C12_Encode: paths that do not fit their length fields are refused, others
// have exactly the specified encoding.
func C12_Encode() {
	n := pick("hops", 0, 1, 2, 3, 255, 256, 257, 511, 512)
	p := &lnwire.ReplyPath{FirstNodeID: hlib.PubKey("first"), BlindingPoint: hlib.PubKey("blinding")}
	id := hlib.PubKey("id")
	if sym.Choose("empty", 2) == 1 {
		p.Hops = []*lnwire.BlindedHop{}
	}
	for i := 0; i < n; i++ {
		h := &lnwire.BlindedHop{BlindedNodeID: id}
		if i < 3 && n <= 3 {
			h.EncryptedData = sym.Bytes("data", pick("data", 0, 1, 254, 256))
		}
		p.Hops = append(p.Hops, h)
	}
	in := &lnwire.OnionMessagePayload{ReplyPath: p}
	b, err := lnwire.EncodeOnionMessagePayload(in)
	sym.Assert((err == nil) == (n >= 1 && n <= 255), "exactly the paths with 1 to 255 hops encode")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("encoded")
	sym.Assert(sym.EqBytes(b, hlib.PutRec(nil, 2, replyPathBytes(p))), "the reply path has the specified encoding")
	out, err := lnwire.DecodeOnionMessagePayload(b)
	sym.Assert(err == nil, "own encoding decodes")
	if err == nil {
		sym.Assert(sameReplyPath(p, out.ReplyPath), "the reply path survives")
	}
}

// C12_EncodeLong: hop data too long for its length field is refused.
func C12_EncodeLong() {
	n := pick("len", 65536, 65537, 1<<17)
	p := replyPath("reply", []int{0, 1})
	p.Hops[sym.Choose("hop", 2)].EncryptedData = make([]byte, n)
	_, err := lnwire.EncodeOnionMessagePayload(&lnwire.OnionMessagePayload{ReplyPath: p})
	sym.Reach("refused")
	sym.Assert(err != nil, "hop data too long for its length field is refused")
}
