package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func anyReplyPath(hops int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{FirstNodeID: hlib.PubKey("reply.first"), BlindingPoint: hlib.PubKey("reply.blinding")}
	for i := 0; i < hops; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: hlib.PubKey("reply.hop"), EncryptedData: sym.Bytes("reply.data", 3*i),
		})
	}
	return p
}

func checkGot(got []received, reply *lnwire.ReplyPath, enc []byte, want []*lnwire.FinalHopPayload, ids []int) {
	sym.Observe("delivered", len(got))
	sym.Assert(len(got) == len(want), "each payload with a handler is delivered exactly once")
	if len(got) != len(want) {
		return
	}
	for i, g := range got {
		sym.Assert(g.handler == ids[i], "payloads reach the handlers of their types in ascending order")
		sym.Assert(sym.EqBytes(g.val, want[i].Value), "the payload arrives as sent")
		sym.Assert(hlib.SamePath(g.reply, reply), "the reply path arrives as sent")
		sym.Assert(sym.EqBytes(g.enc, enc), "the encrypted data arrives as sent")
	}
}

// C15_Dispatch: any set of handlers, any set of payloads of known types.
func C15_Dispatch() {
	types := []uint64{64, 65, 66, 0x10000}
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	handlers := sym.Choose("handlers", 1<<uint(len(types)))
	for i, t := range types {
		if handlers>>uint(i)&1 == 1 {
			sym.Assert(m.RegisterHandler(tlv.Type(t), b.handler(i)) == nil, "a handler can be registered")
		}
	}
	var reply *lnwire.ReplyPath
	if sym.Choose("reply", 2) == 1 {
		reply = anyReplyPath(1)
	}
	enc := sym.Bytes("enc", pick("enc.len", 0, 4))
	set := sym.Choose("payloads", 1<<uint(len(types)))
	var all, want []*lnwire.FinalHopPayload
	var ids []int
	for i, t := range types {
		if set>>uint(i)&1 == 0 {
			continue
		}
		f := &lnwire.FinalHopPayload{TLVType: tlv.Type(t), Value: sym.Bytes("value", 2*i)}
		all = append(all, f)
		if handlers>>uint(i)&1 == 1 {
			want = append(want, f)
			ids = append(ids, i)
		}
	}
	payload := hlib.PutPayload(reply, enc, all)
	if len(payload) == 0 {
		sym.Skip()
	}
	deliver(n, msgType, toUs(sessionKey, payload))
	if len(want) > 1 {
		sym.Reach("several delivered")
	}
	if len(want) < len(all) {
		sym.Reach("unhandled")
	}
	checkGot(b.got, reply, enc, want, ids)
	sym.Assert(len(n.sent) == 0, "nothing is forwarded")
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C15_Types: payloads and handlers of any types.
func C15_Types() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	h1, h2 := sym.Uint64("handler1"), sym.Uint64("handler2")
	sym.Assume(sym.And(sym.And(h1 >= 64, h2 >= 64), h1 != h2))
	sym.Assert(m.RegisterHandler(tlv.Type(h1), b.handler(1)) == nil, "a handler can be registered")
	sym.Assert(m.RegisterHandler(tlv.Type(h2), b.handler(2)) == nil, "a handler can be registered")
	t1, t2 := sym.Uint64("type1"), sym.Uint64("type2")
	sym.Assume(sym.And(t1 >= 64, t1 < t2))
	// Records of an unknown even type are not required to be understood:
	// whether such a message is rejected is another property.
	enc := sym.Bytes("enc", 2)
	f1 := &lnwire.FinalHopPayload{TLVType: tlv.Type(t1), Value: sym.Bytes("v1", 2)}
	f2 := &lnwire.FinalHopPayload{TLVType: tlv.Type(t2), Value: sym.Bytes("v2", 3)}
	deliver(n, msgType, toUs(sessionKey, hlib.PutPayload(nil, enc, []*lnwire.FinalHopPayload{f1, f2})))
	var want []*lnwire.FinalHopPayload
	var ids []int
	for _, f := range []*lnwire.FinalHopPayload{f1, f2} {
		switch uint64(f.TLVType) {
		case h1:
			want, ids = append(want, f), append(ids, 1)
		case h2:
			want, ids = append(want, f), append(ids, 2)
		}
	}
	if len(want) == 2 {
		sym.Reach("both")
	}
	checkGot(b.got, nil, enc, want, ids)
	sym.Assert(len(n.sent) == 0, "nothing is forwarded")
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C15_Many: messages keep arriving, whatever arrived before, also when they
// are alike.
func C15_Many() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	sym.Assert(m.RegisterHandler(66, b.handler(1)) == nil, "a handler can be registered")
	k := 30
	if sym.Thorough() {
		k = 130
	}
	alike := sym.Choose("alike", 2) == 1
	pause := sym.Choose("again", 2) == 1
	enc := sym.Bytes("enc", 2)
	val := sym.Bytes("value", 2)
	reply := anyReplyPath(1)
	for i := 0; i < k; i++ {
		v := val
		if !alike {
			v = append(append([]byte{}, val...), byte(i))
		}
		if pause && i%3 == 2 {
			sym.Assert(m.DeregisterHandler(66) == nil, "a handler can be deregistered")
			sym.Assert(m.RegisterHandler(66, b.handler(1)) == nil, "a handler can be registered")
		}
		fs := []*lnwire.FinalHopPayload{{TLVType: 64, Value: v}, {TLVType: 66, Value: v}}
		b.got = nil
		deliver(n, msgType, toUs(100+i, hlib.PutPayload(reply, enc, fs)))
		checkGot(b.got, reply, enc, fs, []int{0, 1})
	}
	sym.Assert(len(n.sent) == 0, "nothing is forwarded")
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C15_Again: each message is delivered as it is, whatever the one before held.
func C15_Again() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	types := []uint64{64, 65}
	for i, t := range types {
		sym.Assert(m.RegisterHandler(tlv.Type(t), b.handler(i)) == nil, "a handler can be registered")
	}
	k := 2
	if sym.Thorough() {
		k = 3
	}
	paths := []*lnwire.ReplyPath{nil, anyReplyPath(1), anyReplyPath(2)}
	// The same introduction node, though another path.
	paths[2].FirstNodeID = paths[1].FirstNodeID
	if k == 3 {
		paths = paths[:2]
	}
	value := sym.Bytes("value", 2)
	for i := 0; i < k; i++ {
		reply := paths[sym.Choose("reply", len(paths))]
		var enc []byte
		if sym.Choose("enc", 2) == 1 {
			enc = sym.Bytes("enc", 3)
		}
		set := 1 + sym.Choose("payloads", 3)
		var fs []*lnwire.FinalHopPayload
		var ids []int
		for j, t := range types {
			if set>>uint(j)&1 == 1 {
				fs = append(fs, &lnwire.FinalHopPayload{TLVType: tlv.Type(t), Value: value[:2-j]})
				ids = append(ids, j)
			}
		}
		before := len(b.got)
		deliver(n, msgType, toUs(100+i, hlib.PutPayload(reply, enc, fs)))
		checkGot(b.got[before:], reply, enc, fs, ids)
	}
	sym.Assert(len(n.sent) == 0, "nothing is forwarded")
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C15_Replay: an onion that was delivered before is not delivered again.
func C15_Replay() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	fs := []*lnwire.FinalHopPayload{{TLVType: 64, Value: sym.Bytes("value", 2)}}
	msg := toUs(sessionKey, hlib.PutPayload(nil, nil, fs))
	deliver(n, msgType, msg)
	checkGot(b.got, nil, nil, fs, []int{0})
	for i := sym.Choose("between", 3); i > 0; i-- {
		deliver(n, msgType, toUs(sessionKey+i, hlib.PutPayload(nil, nil, fs)))
	}
	got := len(b.got)
	again := append([]byte{}, msg...)
	deliver(n, msgType, again)
	sym.Assert(len(b.got) == got, "an onion is not delivered a second time")
	deliver(n, msgType, again)
	sym.Assert(len(b.got) == got, "an onion is not delivered a second time")
	sym.Assert(len(n.sent) == 0, "nothing is forwarded")
	stillWorks(n, m, s)
}

// C15_Handlers: any number of handlers and payloads.
func C15_Handlers() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	k := 40
	if sym.Thorough() {
		k = 120
	}
	step := []uint64{1, 255, 1 << 32}[sym.Choose("step", 3)]
	skip := 1 + sym.Choose("skip", 3)
	var fs []*lnwire.FinalHopPayload
	var want []*lnwire.FinalHopPayload
	var ids []int
	for i := k - 1; i >= 0; i-- {
		t := 64 + uint64(i)*step
		if i%skip == 0 {
			sym.Assert(m.RegisterHandler(tlv.Type(t), b.handler(i)) == nil, "a handler can be registered")
		}
	}
	for i := 0; i < k; i++ {
		f := &lnwire.FinalHopPayload{TLVType: tlv.Type(64 + uint64(i)*step), Value: sym.Bytes("value", i%2)}
		fs = append(fs, f)
		if i%skip == 0 {
			want, ids = append(want, f), append(ids, i)
		}
	}
	payload := hlib.PutPayload(nil, nil, fs)
	if len(payload) > 1200 {
		sym.Skip()
	}
	deliver(n, msgType, toUs(sessionKey, payload))
	checkGot(b.got, nil, nil, want, ids)
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C15_OtherMessages: only onion messages are delivered.
func C15_OtherMessages() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	typ := sym.Uint32("msg.type")
	f := finals(uint64(64), sym.Bytes("value", 3))
	deliver(n, typ, toUs(sessionKey, hlib.PutPayload(nil, nil, f)))
	if typ == msgType {
		checkGot(b.got, nil, nil, f, []int{0})
	} else {
		sym.Reach("other")
		sym.Assert(len(b.got) == 0, "messages of other types are not delivered")
	}
	sym.Assert(len(n.sent) == 0, "nothing is forwarded")
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C15_NotForUs: an onion for another node is not delivered.
func C15_NotForUs() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	f := finals(uint64(64), sym.Bytes("value", 3))
	var data []byte
	switch sym.Choose("kind", 3) {
	case 0: // addressed to someone else
		data = hlib.Message(blinding(), hlib.Onion(hlib.Priv(sessionKey), hlib.To{
			Key: hlib.BlindedID(hlib.Priv(nextKey), blinding()), Payload: hlib.PutPayload(nil, nil, f),
		}))
	case 1: // another blinding point
		data = hlib.Message(hlib.Priv(blindKey+1).PubKey(), hlib.Onion(hlib.Priv(sessionKey), hlib.To{
			Key: hlib.BlindedID(hlib.Priv(ourKey), blinding()), Payload: hlib.PutPayload(nil, nil, f),
		}))
	case 2: // payloads for an intermediate hop
		data = viaUs(sessionKey, hlib.PutPayload(nil, nil, f), hlib.PutPayload(nil, nil, f))
	}
	deliver(n, msgType, data)
	sym.Assert(len(b.got) == 0, "an onion for another node is not delivered")
	sym.Assert(len(n.sent) == 0, "nothing is forwarded")
	stillWorks(n, m, s)
}

// C16_Bytes: messages of any bytes.
func C16_Bytes() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	lens := []int{0, 1, 32, 33, 34, 35, 36, 68, 69, 70, 102}
	if sym.Thorough() {
		lens = append(lens, 2, 67, 71, 200)
	}
	data := sym.Bytes("data", pick("len", lens...))
	typ := uint32(msgType)
	if sym.Choose("type", 2) == 1 {
		typ = sym.Uint32("msg.type")
	}
	deliver(n, typ, data)
	sym.Assert(len(b.got) == 0, "junk is not delivered")
	stillWorks(n, m, s)
}

// C16_Onion: messages of the right size with any header.
func C16_Onion() {
	n := newNode()
	m, s := started(n, ourKey)
	data := toUs(sessionKey, hlib.PutPayload(nil, nil, finals(uint64(64), []byte{1})))
	switch sym.Choose("part", 5) {
	case 0: // blinding point; the authentication code of the onion is wrong
		copy(data, sym.Bytes("blinding", 33))
		copy(data[len(data)-32:], make([]byte, 32))
	case 1: // length
		copy(data[33:], sym.Bytes("length", 2))
	case 2: // version
		copy(data[35:], sym.Bytes("version", 1))
	case 3: // ephemeral key
		copy(data[36:], sym.Bytes("ephemeral", 33))
		copy(data[len(data)-32:], make([]byte, 32))
	case 4: // size
		switch sym.Choose("size", 3) {
		case 0:
			data = data[:len(data)-1]
		case 1:
			data = append(data, sym.Byte("extra"))
		case 2:
			data[33], data[34] = byte((len(data)-36)>>8), byte(len(data)-36)
			data = data[:len(data)-1]
		}
	}
	deliver(n, msgType, data)
	stillWorks(n, m, s)
}

// C16_Payload: well-formed onions with payloads of any bytes, for us or to be
// passed on.
func C16_Payload() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	max := 6
	if sym.Thorough() {
		max = 7
	}
	sym.LenCap(8)
	payload := sym.Bytes("payload", sym.Choose("len", max))
	if sym.Choose("hop", 2) == 0 {
		deliver(n, msgType, toUs(sessionKey, payload))
	} else {
		deliver(n, msgType, viaUs(sessionKey, payload, []byte{1, 0}))
	}
	stillWorks(n, m, s)
}

// junk is data that no key opens.
func junk(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(7 * i)
	}
	if n < 16 {
		copy(b, sym.Bytes("enc", n))
	}
	return b
}

// C16_RouteData: encrypted data of any content.
func C16_RouteData() {
	n := newNode()
	m, s := started(n, ourKey)
	max := 6
	if sym.Thorough() {
		max = 9
	}
	sym.LenCap(40)
	var enc []byte
	switch sym.Choose("kind", 3) {
	case 0:
		enc = hlib.Seal(hlib.Priv(ourKey), hlib.Priv(blindKey), sym.Bytes("data", sym.Choose("len", max)))
	case 1: // not encrypted
		enc = junk(pick("enc.len", 0, 1, 15, 16, 17, 40))
	case 2: // a next node of any bytes
		enc = hlib.Seal(hlib.Priv(ourKey), hlib.Priv(blindKey), hlib.PutRec(nil, 4, sym.Bytes("next", pick("next.len", 32, 33, 34))))
	}
	deliver(n, msgType, viaUs(sessionKey, hlib.PutPayload(nil, enc, nil), []byte{1, 0}))
	if len(n.sent) > 0 {
		sym.Reach("forwarded")
	}
	stillWorks(n, m, s)
}

// C16_Failures: handlers and lnd may fail.
func C16_Failures() {
	n := newNode()
	m, s := started(n, ourKey)
	// Whatever a handler or lnd reports is only ever logged.
	errs := []error{errHandler, onionmsg.ErrShuttingDown, onionmsg.ErrLNDShutdown, onionmsg.ErrNotStarted, onionmsg.ErrBadMessage,
		onionmsg.ErrNoForwardingOnion, onionmsg.ErrHandlerNotFound, context.Canceled, context.DeadlineExceeded, io.EOF,
		fmt.Errorf("%w: wrapped", onionmsg.ErrShuttingDown), status.Error(codes.Unavailable, "gone")}
	fail := errs[sym.Choose("error", len(errs))]
	b := inbox{fail: map[int]error{0: fail}}
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	k := 2
	if sym.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		switch sym.Choose("message", 4) {
		case 0:
			deliver(n, msgType, toUs(sessionKey+i, hlib.PutPayload(nil, nil, finals(uint64(64), sym.Bytes("v", 1), uint64(65), []byte{}))))
		case 1:
			n.sendErr = fail
			enc := hlib.Seal(hlib.Priv(ourKey), hlib.Priv(blindKey), hlib.RouteData(hlib.Priv(nextKey).PubKey(), nil))
			deliver(n, msgType, viaUs(sessionKey+i, hlib.PutPayload(nil, enc, nil), []byte{1, 0}))
		case 2: // replayed
			deliver(n, msgType, toUs(sessionKey, hlib.PutPayload(nil, nil, finals(uint64(65), []byte{}))))
		case 3:
			deliver(n, sym.Uint32("msg.type"), sym.Bytes("junk", 3))
		}
	}
	stillWorks(n, m, s)
}

// C16_Many: failures of any kind, over and over.
func C16_Many() {
	n := newNode()
	m, s := started(n, ourKey)
	b := inbox{fail: map[int]error{0: errHandler}}
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	k := 30
	if sym.Thorough() {
		k = 130
	}
	us, blind := hlib.Priv(ourKey), hlib.Priv(blindKey)
	forward := hlib.PutPayload(nil, hlib.Seal(us, blind, hlib.RouteData(hlib.Priv(nextKey).PubKey(), nil)), nil)
	first, second := sym.Choose("first", 10), 0
	if sym.Thorough() {
		second = sym.Choose("second", 10)
	} else {
		second = []int{first, 8}[sym.Choose("second", 2)]
	}
	if first == second && (first == 6 || first == 7) { // cheap ones
		k *= 10
	}
	for i := 0; i < k; i++ {
		kind := first
		if i%2 == 1 {
			kind = second
		}
		switch kind {
		case 0: // the handler fails
			deliver(n, msgType, toUs(100+i, hlib.PutPayload(nil, nil, finals(uint64(64), sym.Bytes("v", 1)))))
		case 1: // the next node is not there
			n.sendErr = errLnd
			deliver(n, msgType, viaUs(100+i, forward, []byte{1, 0}))
		case 2: // payloads for an intermediate node
			deliver(n, msgType, viaUs(100+i, hlib.PutPayload(nil, nil, finals(uint64(64), sym.Bytes("v", 1))), []byte{1, 0}))
		case 3: // undecryptable
			deliver(n, msgType, viaUs(100+i, hlib.PutPayload(nil, junk(17), nil), []byte{1, 0}))
		case 4: // no payload that could be read
			deliver(n, msgType, toUs(100+i, []byte{4, 9}))
		case 5: // an onion for someone else
			deliver(n, msgType, hlib.Message(blinding(), hlib.Onion(hlib.Priv(100+i), hlib.To{
				Key: hlib.BlindedID(hlib.Priv(nextKey), blinding()), Payload: hlib.PutPayload(nil, nil, nil),
			})))
		case 6: // no onion
			deliver(n, msgType, append([]byte{byte(2 + i%3)}, make([]byte, 34+i%150)...))
		case 7: // some other custom message
			deliver(n, 513+uint32(1+i), sym.Bytes("junk", 3))
		case 8: // nobody wants it
			deliver(n, msgType, toUs(100+i, hlib.PutPayload(nil, nil, finals(uint64(65+2*i), []byte{}))))
		case 9: // no next node
			deliver(n, msgType, viaUs(100+i, hlib.PutPayload(nil, hlib.Seal(us, blind, []byte{1, 1, 0}), nil), []byte{1, 0}))
		}
	}
	stillWorks(n, m, s)
}

// C17_Forward: a message to pass on, with any next node and override.
func C17_Forward() {
	n := newNode()
	m, s := started(n, ourKey)
	if sym.Choose("fail", 2) == 1 {
		n.sendErr = errLnd
	}
	var next, override *btcec.PublicKey
	next = hlib.PubKey("next")
	if sym.Choose("override", 2) == 1 {
		override = hlib.PubKey("override")
	}
	data := hlib.RouteData(next, override)
	switch sym.Choose("extra", 3) {
	case 1: // padding and an unknown record
		data = append([]byte{1, 2, 0, 0}, data...)
	case 2:
		data = hlib.PutRec(data, 65, sym.Bytes("unknown", 2))
	}
	enc := hlib.Seal(hlib.Priv(ourKey), hlib.Priv(blindKey), data)
	var reply *lnwire.ReplyPath
	if sym.Choose("reply", 2) == 1 {
		reply = anyReplyPath(1)
	}
	msg := viaUs(sessionKey, hlib.PutPayload(reply, enc, nil), append([]byte{65, 3}, sym.Bytes("rest", 3)...))
	l, err := hlib.Peel(hlib.Priv(ourKey), blinding(), msg[35:])
	if err != nil || l.Final {
		sym.Skip()
	}
	deliver(n, msgType, msg)
	want := hlib.NextBlinding(hlib.Priv(ourKey), blinding())
	if override != nil {
		want = override
	}
	sym.Observe("sent", len(n.sent))
	sym.Assert(len(n.sent) == 1, "exactly one message is sent")
	if len(n.sent) != 1 {
		return
	}
	sym.Reach("forwarded")
	sent := n.sent[0]
	sym.Assert(sent.MsgType == msgType, "an onion message is sent")
	sym.Assert(sym.EqBytes(sent.Peer[:], next.SerializeCompressed()), "it goes to the next node")
	sym.Assert(sym.EqBytes(sent.Data, hlib.Message(want, l.Next)), "it carries the peeled onion and the next blinding point")
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
	sym.Assert(len(n.sent) == 1, "exactly one message is sent")
}

// C17_Again: each message is passed on as it says, whatever the one before
// said. Its blinding point may be that of the one before, or its negation; its
// encrypted data may be that of the one before.
func C17_Again() {
	n := newNode()
	m, s := started(n, ourKey)
	us := hlib.Priv(ourKey)
	k := 2
	if sym.Thorough() {
		k = 3
	}
	blinds := []*btcec.PrivateKey{hlib.Priv(blindKey), hlib.Neg(hlib.Priv(blindKey)), hlib.Priv(blindKey + 1)}
	var (
		last             []byte
		lastKey          int
		lastNext, lastBy *btcec.PublicKey
	)
	for i := 0; i < k; i++ {
		bk := sym.Choose("blinding", len(blinds))
		blind := blinds[bk]
		key := bk
		next := hlib.PubKey("next")
		var override *btcec.PublicKey
		if sym.Choose("override", 2) == 1 {
			override = hlib.PubKey("override")
		}
		enc := hlib.Seal(us, blind, hlib.RouteData(next, override))
		if i > 0 && sym.Choose("same data", 2) == 1 {
			enc, key, next, override = last, lastKey, lastNext, lastBy
		}
		last, lastKey, lastNext, lastBy = enc, key, next, override
		msg := viaUsWith(blind.PubKey(), 100+i, hlib.PutPayload(nil, enc, nil), append([]byte{65, 3}, sym.Bytes("rest", 3)...))
		l, err := hlib.Peel(us, blind.PubKey(), msg[35:])
		if err != nil || l.Final {
			sym.Skip()
		}
		n.sent = nil
		deliver(n, msgType, msg)
		if key != bk {
			sym.Reach("data of another message")
			sym.Assert(len(n.sent) == 0, "a message whose data cannot be opened is not passed on")
			continue
		}
		want := hlib.NextBlinding(us, blind.PubKey())
		if override != nil {
			want = override
		}
		sym.Assert(len(n.sent) == 1, "exactly one message is sent")
		if len(n.sent) != 1 {
			return
		}
		sym.Assert(sym.EqBytes(n.sent[0].Peer[:], next.SerializeCompressed()), "it goes to the next node")
		sym.Assert(sym.EqBytes(n.sent[0].Data, hlib.Message(want, l.Next)), "it carries the peeled onion and the next blinding point")
	}
	n.sent = nil
	stillWorks(n, m, s)
}

// C17_Replay: an onion that was passed on before is not passed on again.
func C17_Replay() {
	n := newNode()
	m, s := started(n, ourKey)
	enc := hlib.Seal(hlib.Priv(ourKey), hlib.Priv(blindKey), hlib.RouteData(hlib.PubKey("next"), nil))
	msg := viaUs(sessionKey, hlib.PutPayload(nil, enc, nil), []byte{1, 0})
	if sym.Choose("fail", 2) == 1 {
		n.sendErr = errLnd
	}
	deliver(n, msgType, msg)
	sym.Assert(len(n.sent) == 1, "exactly one message is sent")
	n.sendErr = nil
	deliver(n, msgType, append([]byte{}, msg...))
	sym.Assert(len(n.sent) == 1, "an onion is not passed on a second time")
	stillWorks(n, m, s)
}

// C17_Slow: lnd takes its time to send a message.
func C17_Slow() {
	n := newNode()
	m, s := started(n, ourKey)
	n.slow = time.Duration(pick("slow", 300, 2000)) * time.Millisecond
	us := hlib.Priv(ourKey)
	k := 2
	for i := 0; i < k; i++ {
		next := hlib.PubKey("next")
		enc := hlib.Seal(us, hlib.Priv(blindKey), hlib.RouteData(next, nil))
		msg := viaUs(sessionKey+i, hlib.PutPayload(nil, enc, nil), append([]byte{65, 3}, sym.Bytes("rest", 3)...))
		l, err := hlib.Peel(us, blinding(), msg[35:])
		if err != nil || l.Final {
			sym.Skip()
		}
		deliver(n, msgType, msg)
		time.Sleep(2 * n.slow)
		sym.Assert(len(n.sent) == i+1, "exactly one message is sent")
		if len(n.sent) == i+1 {
			sent := n.sent[i]
			sym.Assert(sym.EqBytes(sent.Peer[:], next.SerializeCompressed()), "it goes to the next node")
			sym.Assert(sym.EqBytes(sent.Data, hlib.Message(hlib.NextBlinding(us, blinding()), l.Next)), "it carries the peeled onion and the next blinding point")
			sym.Reach("sent in time")
		}
	}
	n.slow = 0
	stillWorks(n, m, s)
}

// C17_Special: the next node is the sender, or our own node, or the last hop
// of a long way.
func C17_Special() {
	n := newNode()
	m, s := started(n, ourKey)
	us := hlib.Priv(ourKey)
	next := hlib.Priv([]int{77, ourKey, nextKey}[sym.Choose("next", 3)]).PubKey()
	var override *btcec.PublicKey
	switch sym.Choose("override", 4) {
	case 1:
		override = next
	case 2:
		override = blinding()
	case 3:
		override = hlib.NextBlinding(us, blinding())
	}
	enc := hlib.Seal(us, hlib.Priv(blindKey), hlib.RouteData(next, override))
	msg := viaUs(sessionKey, hlib.PutPayload(nil, enc, nil), append([]byte{65, 3}, sym.Bytes("rest", 3)...))
	l, err := hlib.Peel(us, blinding(), msg[35:])
	if err != nil || l.Final {
		sym.Skip()
	}
	deliver(n, msgType, msg)
	want := hlib.NextBlinding(us, blinding())
	if override != nil {
		want = override
	}
	sym.Assert(len(n.sent) == 1, "exactly one message is sent")
	if len(n.sent) == 1 {
		sym.Assert(sym.EqBytes(n.sent[0].Peer[:], next.SerializeCompressed()), "it goes to the next node")
		sym.Assert(sym.EqBytes(n.sent[0].Data, hlib.Message(want, l.Next)), "it carries the peeled onion and the next blinding point")
	}
	n.sent = nil
	stillWorks(n, m, s)
}

// C17_Many: every message is passed on, whatever was before, also when they
// are alike.
func C17_Many() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	k := 30
	if sym.Thorough() {
		k = 130
	}
	mixed := sym.Choose("mixed", 3)
	us := hlib.Priv(ourKey)
	var next *btcec.PublicKey
	for i := 0; i < k; i++ {
		if i == 0 || mixed > 0 {
			next = hlib.Priv(nextKey + i%7).PubKey()
		}
		if mixed == 2 && i%4 == 3 { // one that is for us
			deliver(n, msgType, toUs(100+i, hlib.PutPayload(nil, nil, finals(uint64(64), []byte{1}))))
			continue
		}
		n.sendErr = nil
		if mixed == 2 && i%5 == 3 {
			n.sendErr = errLnd
		}
		enc := hlib.Seal(us, hlib.Priv(blindKey), hlib.RouteData(next, nil))
		msg := viaUs(100+i, hlib.PutPayload(nil, enc, nil), append([]byte{65, 3}, sym.Bytes("rest", 3)...))
		l, err := hlib.Peel(us, blinding(), msg[35:])
		if err != nil || l.Final {
			sym.Skip()
		}
		n.sent = nil
		deliver(n, msgType, msg)
		sym.Assert(len(n.sent) == 1, "exactly one message is sent")
		if len(n.sent) != 1 {
			return
		}
		sym.Assert(sym.EqBytes(n.sent[0].Peer[:], next.SerializeCompressed()), "it goes to the next node")
		sym.Assert(sym.EqBytes(n.sent[0].Data, hlib.Message(hlib.NextBlinding(us, blinding()), l.Next)), "it carries the peeled onion and the next blinding point")
	}
	sym.Assert(m.Stop() == nil && len(s.errs) == 0, "the messenger is still running")
}

// C17_Refuse: messages that cannot be passed on are not.
func C17_Refuse() {
	n := newNode()
	m, s := started(n, ourKey)
	var b inbox
	sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
	us := hlib.Priv(ourKey)
	good := hlib.RouteData(hlib.PubKey("next"), nil)
	var payload []byte
	switch sym.Choose("kind", 7) {
	case 0: // final payloads, handled or not
		enc := hlib.Seal(us, hlib.Priv(blindKey), good)
		payload = hlib.PutPayload(nil, enc, finals(uint64(64+sym.Choose("type", 3)), sym.Bytes("value", pick("value.len", 0, 2))))
	case 1: // no encrypted data
		payload = hlib.PutPayload(anyReplyPath(1), nil, nil)
	case 2: // undecryptable
		payload = hlib.PutPayload(nil, junk(pick("enc.len", 1, 15, 16, 17, 51)), nil)
	case 3: // encrypted to someone else
		payload = hlib.PutPayload(nil, hlib.Seal(hlib.Priv(nextKey), hlib.Priv(blindKey), good), nil)
	case 4: // no next node
		payload = hlib.PutPayload(nil, hlib.Seal(us, hlib.Priv(blindKey), hlib.RouteData(nil, hlib.PubKey("override"))), nil)
	case 5: // truncated
		payload = hlib.PutPayload(nil, hlib.Seal(us, hlib.Priv(blindKey), good[:len(good)-1-sym.Choose("cut", 3)]), nil)
	case 6: // tampered with
		enc := hlib.Seal(us, hlib.Priv(blindKey), good)
		x := sym.Byte("flip")
		sym.Assume(x != 0)
		i := pick("at", 0, 20, len(enc)-1)
		enc[i] ^= x
		payload = hlib.PutPayload(nil, enc, nil)
	}
	deliver(n, msgType, viaUs(sessionKey, payload, []byte{1, 0}))
	sym.Observe("sent", len(n.sent))
	sym.Assert(len(n.sent) == 0, "a message that cannot be passed on is dropped")
	sym.Assert(len(b.got) == 0, "nothing is delivered by an intermediate node")
	stillWorks(n, m, s)
}
