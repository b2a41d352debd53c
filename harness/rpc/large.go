package main

import (
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
)

// longPath is a path of many hops, some of its content symbolic.
func longPath(hops int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{FirstNodeID: hlib.Priv(70).PubKey(), BlindingPoint: hlib.Priv(71).PubKey()}
	for i := 0; i < hops; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: hlib.Priv(72 + i).PubKey(), EncryptedData: sym.Bytes("data", 1+i%3),
		})
	}
	return p
}

func largePath() int {
	if sym.Thorough() {
		return pick("hops", 1, 2, 3, 4, 5, 7, 8, 9, 16, 25, 31)
	}
	return pick("hops", 4, 9, 25)
}

// C24_Large: long reply paths and destinations, and many payloads.
func C24_Large() {
	n := newLnd()
	s, _ := started(n)
	n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
	req := &offersrpc.SendOnionMessageRequest{DirectConnect: true, FinalPayloads: map[uint64][]byte{}}
	req.Pubkey = hlib.Priv(target).PubKey().SerializeCompressed()
	var (
		rp *lnwire.ReplyPath
		fs []*lnwire.FinalHopPayload
	)
	switch sym.Choose("what", 3) {
	case 0:
		rp = longPath(largePath())
		req.ReplyPath = rpcPath(rp)
	case 1:
		count := pick("payloads", 9, 17, 65)
		for i := 0; i < count; i++ {
			t := uint64(64 + 7*i)
			fs = append(fs, finals(t, sym.Bytes("value", i%3))...)
			req.FinalPayloads[t] = fs[i].Value
		}
	default:
		// A destination of many hops, each of which finds its data.
		hops := pick("to", 3, 6, 12)
		blinding := hlib.Priv(50).PubKey()
		dest := &lnwire.ReplyPath{FirstNodeID: hlib.Priv(target).PubKey(), BlindingPoint: blinding}
		points := []*btcec.PublicKey{blinding}
		for i := 0; i < hops; i++ {
			k := hlib.Priv(target + 60*i)
			dest.Hops = append(dest.Hops, &lnwire.BlindedHop{
				BlindedNodeID: hlib.BlindedID(k, points[i]), EncryptedData: sym.Bytes("enc", 2),
			})
			points = append(points, hlib.NextBlinding(k, points[i]))
		}
		req.Pubkey, req.BlindedDestination = nil, rpcPath(dest)
		value := sym.Bytes("value", 3)
		req.FinalPayloads[64] = value
		_, err := s.SendOnionMessage(context.Background(), req)
		sym.Assert(err == nil && len(n.sent) == 1 && len(n.sent[0].Data) == 33+2+1366, "a message that fits is sent")
		if err != nil || len(n.sent) != 1 {
			return
		}
		sym.Reach("destination")
		sym.Assert(sym.EqBytes(n.sent[0].Data[:33], blinding.SerializeCompressed()), "with the blinding point of the destination")
		blob := n.sent[0].Data[35:]
		for i, h := range dest.Hops {
			l, err := hlib.Peel(hlib.Priv(target+60*i), points[i], blob)
			if err != nil {
				sym.Fail("each hop can open its layer")
			}
			last := i == hops-1
			sym.Assert(l.Final == last, "the message ends at its recipient")
			if last {
				fs = finals(uint64(64), value)
			}
			sym.Assert(sym.EqBytes(l.Payload, hlib.PutPayload(nil, h.EncryptedData, fs)), "each hop finds its data")
			blob = l.Next
		}
		return
	}
	_, err := s.SendOnionMessage(context.Background(), req)
	sym.Assert(err == nil, "a message that fits is sent")
	if payload, ok := arrived(n, target); ok {
		sym.Reach("arrives")
		sym.Assert(sym.EqBytes(clear(payload), hlib.PutPayload(rp, nil, fs)), "the message arrives as given")
	}
}

// C25_Large: long paths, and many features.
func C25_Large() {
	n := newLnd()
	s, _ := started(n)
	if sym.Choose("what", 2) == 0 {
		st := newStream()
		subscribe(s, 64, st)
		p := longPath(largePath())
		deliver(n, msgType, toUs(60, hlib.PutPayload(p, nil, finals(uint64(64), []byte{7}))))
		if len(st.got) != 1 {
			sym.Fail("a message is delivered")
		}
		sym.Assert(sameRPCPath(p, st.got[0].ReplyPath), "with the reply path of the message")
		n.peers = []lndclient.Peer{{Pubkey: vertex(target)}}
		_, err := s.SendOnionMessage(context.Background(), &offersrpc.SendOnionMessageRequest{
			Pubkey: hlib.Priv(target).PubKey().SerializeCompressed(), DirectConnect: true,
			ReplyPath: st.got[0].ReplyPath,
		})
		sym.Assert(err == nil, "the path can be passed on")
		if payload, ok := arrived(n, target); ok {
			sym.Reach("path")
			sym.Assert(sym.EqBytes(clear(payload), hlib.PutPayload(p, nil, nil)), "the path arrives as it came")
		}
		return
	}
	withPeer(n, onionFeature, 20)
	var fs []uint64
	count := pick("features", 5, 17, 40)
	at := pick("at", 0, count/2, count-1)
	x := sym.Uint64("feature")
	for i := 0; i < count; i++ {
		f := uint64(101 + 2*i)
		if i == at {
			f = x
		}
		fs = append(fs, f)
	}
	resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{Features: fs})
	switch {
	case x > 65535:
		sym.Assert(code(err, codes.InvalidArgument) && resp == nil, "a feature that is too large is an invalid argument")
	case x&1 == 0 && x != 20:
		sym.Assert(code(err, codes.Internal) && resp == nil, "a failure to make a route is reported as such")
	default:
		sym.Reach("route")
		sym.Assert(err == nil && resp != nil, "a route can be made through our peer")
		if err == nil && resp != nil {
			checkRoute(resp.Route)
		}
	}
}
