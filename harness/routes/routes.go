package main

import (
	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/tlv"
)

func pick(name string, of ...int) int { return of[sym.Choose(name, len(of))] }

const (
	sessionKey  = 90
	blindingKey = 91
	destBlind   = 92
	destFirst   = 20 // keys of the hops of a blinded destination
)

func pubs(n int) (ks []*btcec.PublicKey) {
	for i := 0; i < n; i++ {
		ks = append(ks, hlib.Priv(i).PubKey())
	}
	return
}

// anyReplyPath is a blinded path with n hops and keys of any value.
func anyReplyPath(n, dataLen int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{
		FirstNodeID:   hlib.PubKey("reply.first"),
		BlindingPoint: hlib.PubKey("reply.blinding"),
	}
	for i := 0; i < n; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: hlib.PubKey("reply.hop"),
			EncryptedData: sym.Bytes("reply.data", dataLen),
		})
	}
	return p
}

func anyFinals(n int) (fs []*lnwire.FinalHopPayload) {
	if n == 0 {
		return nil
	}
	types := [][]uint64{{64, 66}, {66, 65}, {300, 0x10000}, {1 << 40, 253}}[sym.Choose("types", 4)]
	for i := 0; i < n; i++ {
		t := types[i]
		fs = append(fs, &lnwire.FinalHopPayload{
			TLVType: tlv.Type(t), Value: sym.Bytes("value", pick("valueLen", 0, 5)),
		})
	}
	return
}

// destination is a blinded path of n hops whose encrypted data may be anything.
func destination(intro *btcec.PublicKey, n int, lens ...int) *lnwire.ReplyPath {
	p := &lnwire.ReplyPath{FirstNodeID: intro, BlindingPoint: hlib.Priv(destBlind).PubKey()}
	for i := 0; i < n; i++ {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: hlib.Priv(destFirst + i).PubKey(),
			EncryptedData: sym.Bytes("dest.data", pick("dest.len", lens...)),
		})
	}
	return p
}

// walk follows a route through its clear hops and the hops of its destination
// and checks what each finds.
func walk(resp *routes.BlindedRouteResponse, clear int, dest *lnwire.ReplyPath,
	rp *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) {

	var keys []int
	for i := 0; i < clear; i++ {
		keys = append(keys, i)
	}
	walkKeys(resp, keys, dest, rp, finals)
}

// walkKeys is walk for clear hops of the given keys.
func walkKeys(resp *routes.BlindedRouteResponse, keys []int, dest *lnwire.ReplyPath,
	rp *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) {

	clear := len(keys)
	blinding := hlib.Priv(blindingKey).PubKey()
	if clear == 0 {
		blinding = dest.BlindingPoint
	}
	sym.Assert(hlib.SameKey(resp.OnionMessage.BlindingPoint, blinding), "the message carries the blinding point of its first hop")
	blob := resp.OnionMessage.OnionBlob
	for i := 0; i < clear; i++ {
		k := hlib.Priv(keys[i])
		l, err := hlib.Peel(k, blinding, blob)
		sym.Assert(err == nil, "every hop can peel its layer")
		if err != nil {
			return
		}
		last := i == clear-1 && dest == nil
		sym.Assert(l.Final == last, "only the last hop is final")
		recs, ok := hlib.Parse(l.Payload, func(uint64, []byte) bool { return true })
		sym.Assert(ok, "the payload is a stream")
		enc, ok := hlib.Find(recs, 4)
		sym.Assert(ok, "every hop has encrypted data")
		if !ok || l.Final != last {
			return
		}
		var next, override *btcec.PublicKey
		if !last {
			sym.Assert(sym.EqBytes(l.Payload, hlib.PutPayload(nil, enc, nil)), "an intermediate hop holds its encrypted data only")
			if i == clear-1 {
				next, override = dest.FirstNodeID, dest.BlindingPoint
			} else {
				next = hlib.Priv(keys[i+1]).PubKey()
			}
		} else {
			sym.Assert(sym.EqBytes(l.Payload, hlib.PutPayload(rp, enc, finals)), "the last hop holds the reply path and final payloads")
		}
		data, err := sphinx.DecryptBlindedData(hlib.ECDH(k), blinding, enc)
		sym.Assert(err == nil, "a hop can open its encrypted data")
		sym.Assert(sym.EqBytes(data, hlib.RouteData(next, override)), "the encrypted data names the next hop")
		_, err = sphinx.DecryptBlindedData(hlib.ECDH(hlib.Priv(keys[i]+50)), blinding, enc)
		sym.Assert(err != nil, "nobody else can open the encrypted data")
		if last {
			return
		}
		blob = l.Next
		blinding, err = sphinx.NextEphemeral(hlib.ECDH(k), blinding)
		if err != nil {
			sym.Skip()
		}
	}
	for i, h := range dest.Hops {
		l, err := hlib.Peel(hlib.Priv(destFirst+i), nil, blob)
		sym.Assert(err == nil, "every hop of the destination can peel its layer")
		if err != nil {
			return
		}
		last := i == len(dest.Hops)-1
		sym.Assert(l.Final == last, "only the last hop of the destination is final")
		if l.Final != last {
			return
		}
		if last {
			sym.Assert(sym.EqBytes(l.Payload, hlib.PutPayload(rp, h.EncryptedData, finals)), "the last hop of the destination holds its data, the reply path and the final payloads")
			return
		}
		sym.Assert(sym.EqBytes(l.Payload, hlib.PutPayload(nil, h.EncryptedData, nil)), "the hops of the destination follow unchanged")
		blob = l.Next
	}
}

func extras() (rp *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) {
	if sym.Choose("reply", 2) == 1 {
		rp = anyReplyPath(1+sym.Choose("reply.hops", 2), 3)
	}
	n := sym.Choose("finals", 3)
	if rp != nil && n == 1 && !sym.Thorough() {
		n = 0
	}
	return rp, anyFinals(n)
}

// C22_Clear: a route to a node in the clear.
func C22_Clear() {
	max := 3
	if sym.Thorough() {
		max = 6
	}
	n := 1 + sym.Choose("hops", max)
	rp, finals := extras()
	resp, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		hlib.Priv(sessionKey), hlib.Priv(blindingKey), pubs(n), rp, nil, finals,
	))
	sym.Assert(err == nil, "a route that fits is created")
	if err != nil {
		return
	}
	sym.Reach("clear")
	sym.Assert(hlib.SameKey(resp.FirstNode, hlib.Priv(0).PubKey()), "the first hop is the node to send to")
	walk(resp, n, nil, rp, finals)
}

// C22_Blinded: a route to a blinded destination, with n hops before its
// introduction node.
func C22_Blinded() {
	max, dmax := 3, 3
	if sym.Thorough() {
		max, dmax = 4, 4
	}
	n := sym.Choose("hops", max)
	d := 1 + sym.Choose("dest.hops", dmax)
	rp, finals := extras()
	hops := pubs(n + 1)
	dest := destination(hops[n], d, 1, 20)
	resp, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		hlib.Priv(sessionKey), hlib.Priv(blindingKey), hops, rp, dest, finals,
	))
	sym.Assert(err == nil, "a route that fits is created")
	if err != nil {
		return
	}
	sym.Reach("blinded")
	sym.Assert(hlib.SameKey(resp.FirstNode, hlib.Priv(0).PubKey()), "the first hop is the node to send to")
	walk(resp, n, dest, rp, finals)
}

// C22_Repeat: a node may be more than one hop of a route, and the introduction
// node may be one of them.
func C22_Repeat() {
	max, dmax := 4, 2
	if sym.Thorough() {
		max, dmax = 5, 3
	}
	var (
		keys []int
		hops []*btcec.PublicKey
		used = 0
	)
	for n := 2 + sym.Choose("hops", max-1); len(keys) < n; {
		k := used
		if used > 0 {
			// The names of the nodes do not matter.
			k = sym.Choose("hop", used+1)
		}
		if k == used {
			used++
		}
		keys = append(keys, k)
		hops = append(hops, hlib.Priv(k).PubKey())
	}
	var (
		dest   *lnwire.ReplyPath
		finals = anyFinals(1)
	)
	if d := sym.Choose("dest.hops", dmax+1); d > 0 {
		dest = destination(hops[len(hops)-1], d, 20)
		keys = keys[:len(keys)-1]
	}
	first := hops[0]
	resp, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		hlib.Priv(sessionKey), hlib.Priv(blindingKey), hops, nil, dest, finals,
	))
	sym.Assert(err == nil, "a route that fits is created")
	if err != nil {
		return
	}
	sym.Reach("repeated")
	sym.Assert(hlib.SameKey(resp.FirstNode, first), "the first hop is the node to send to")
	walkKeys(resp, keys, dest, nil, finals)
}

// C22_Concurrent: routes are created independently of each other.
func C22_Concurrent() {
	sym.Preempt(1)
	type route struct {
		n      int
		resp   *routes.BlindedRouteResponse
		err    error
		dest   *lnwire.ReplyPath
		rp     *lnwire.ReplyPath
		finals []*lnwire.FinalHopPayload
	}
	rs := []*route{{n: 2, rp: anyReplyPath(1, 3), finals: []*lnwire.FinalHopPayload{
		{TLVType: 65, Value: sym.Bytes("value", 3)},
	}}, {n: 1, finals: []*lnwire.FinalHopPayload{
		{TLVType: 300, Value: sym.Bytes("value", 40)},
	}}}
	switch sym.Choose("dest", 3) {
	case 1:
		rs[1].n, rs[1].dest = 1, destination(hlib.Priv(1).PubKey(), 2, 20)
	case 2: // both directly to the introduction node
		rs[0].n, rs[0].dest = 0, destination(hlib.Priv(0).PubKey(), 2, 20)
		rs[1].n, rs[1].dest = 0, destination(hlib.Priv(0).PubKey(), 1, 20)
	}
	done := make(chan struct{})
	for _, r := range rs {
		r := r
		go func() {
			hops := pubs(r.n)
			if r.dest != nil {
				hops = append(hops, r.dest.FirstNodeID)
			}
			r.resp, r.err = routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
				hlib.Priv(sessionKey), hlib.Priv(blindingKey), hops, r.rp, r.dest, r.finals,
			))
			done <- struct{}{}
		}()
	}
	for range rs {
		<-done
	}
	sym.Preempt(0)
	for _, r := range rs {
		sym.Assert(r.err == nil, "a route that fits is created")
		if r.err == nil {
			walk(r.resp, r.n, r.dest, r.rp, r.finals)
		}
	}
	sym.Reach("both")
}

// C22_Again: routes are created one after the other; each stays as it was made.
// A request may be used twice.
func C22_Again() {
	type route struct {
		n, d   int
		resp   *routes.BlindedRouteResponse
		dest   *lnwire.ReplyPath
		rp     *lnwire.ReplyPath
		finals []*lnwire.FinalHopPayload
	}
	k := 2
	if sym.Thorough() {
		k = 3
	}
	shapes := [][2]int{{1, 0}, {3, 0}, {0, 1}, {0, 3}, {1, 1}, {2, 2}}
	if k == 3 {
		shapes = shapes[1:]
	}
	var all []route
	for i := 0; i < k; i++ {
		sh := shapes[sym.Choose("shape", len(shapes))]
		r := route{n: sh[0], d: sh[1]}
		hops := pubs(r.n)
		if r.d > 0 {
			hops = pubs(r.n + 1)
			r.dest = destination(hops[r.n], r.d, 20)
		}
		switch sym.Choose("content", 3) {
		case 1:
			r.rp = anyReplyPath(1, 3)
		case 2:
			r.finals = []*lnwire.FinalHopPayload{{TLVType: 65, Value: sym.Bytes("value", 3)}}
		}
		req := routes.NewBlindedRouteRequest(
			hlib.Priv(sessionKey), hlib.Priv(blindingKey), hops, r.rp, r.dest, r.finals,
		)
		resp, err := routes.CreateBlindedRoute(req)
		sym.Assert(err == nil, "a route that fits is created")
		if err != nil {
			return
		}
		r.resp = resp
		all = append(all, r)
		if i == 1 && sym.Choose("same request", 2) == 1 {
			resp, err = routes.CreateBlindedRoute(req)
			sym.Assert(err == nil, "a request can be used again")
			if err != nil {
				return
			}
			r.resp = resp
			all = append(all, r)
			break
		}
		if i == 0 && sym.Choose("failure", 2) == 1 {
			bad := destination(hlib.Priv(3).PubKey(), 2, 20)
			_, err = routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
				hlib.Priv(sessionKey), hlib.Priv(blindingKey), pubs(2), nil, bad, nil,
			))
			sym.Assert(err != nil, "an incomplete request is refused")
		}
	}
	for _, r := range all {
		walk(r.resp, r.n, r.dest, r.rp, r.finals)
	}
	sym.Reach("again")
}

// C22_Refuse: incomplete requests are refused, complete ones are not.
func C22_Refuse() {
	var (
		session, blinding *btcec.PrivateKey
		dest              *lnwire.ReplyPath
		hops              = pubs(sym.Choose("hops", 3))
		ok                = len(hops) > 0
	)
	if sym.Choose("session", 2) == 1 {
		session = hlib.Priv(sessionKey)
	} else {
		ok = false
	}
	if sym.Choose("blinding", 2) == 1 {
		blinding = hlib.Priv(blindingKey)
	} else {
		ok = false
	}
	switch sym.Choose("dest", 3) {
	case 1: // any introduction node
		intro := hlib.PubKey("intro")
		dest = destination(intro, 1, 20)
		if ok && !hlib.SameKey(intro, hops[len(hops)-1]) {
			ok = false
		}
	case 2: // the introduction node is another hop
		dest = destination(hlib.Priv(0).PubKey(), 1, 20)
		if len(hops) != 1 {
			ok = false
		}
	}
	resp, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		session, blinding, hops, nil, dest, nil,
	))
	sym.Observe("ok", err == nil)
	if ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
	sym.Assert((err == nil) == ok, "a request is refused exactly when it is incomplete")
	sym.Assert(err == nil || resp == nil, "a refused request has no route")
}

// C22_Finals: final payloads outside their range or given twice are refused.
func C22_Finals() {
	t1, t2 := sym.Uint64("type1"), sym.Uint64("type2")
	ok := sym.And(sym.And(t1 >= 64, t2 >= 64), t1 != t2)
	var dest *lnwire.ReplyPath
	hops := pubs(1)
	if sym.Choose("dest", 2) == 1 {
		dest = destination(hops[0], 1, 20)
	}
	_, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		hlib.Priv(sessionKey), hlib.Priv(blindingKey), hops, nil, dest, []*lnwire.FinalHopPayload{
			{TLVType: tlv.Type(t1), Value: sym.Bytes("v1", 1)},
			{TLVType: tlv.Type(t2), Value: nil},
		},
	))
	sym.Assert((err == nil) == ok, "final payloads are accepted exactly when their types are distinct and in range")
}

func sized(n int) int {
	switch {
	case n < 0xfd:
		return n + 1
	case n < 0x10000:
		return n + 3
	}
	return n + 5
}

// C22_Size: a route is created exactly when its layers fit an onion.
func C22_Size() {
	n := 1 + sym.Choose("hops", 2)
	var dest *lnwire.ReplyPath
	direct := sym.Choose("dest", 3)
	hops := pubs(n)
	total := 0
	// Each layer holds its length, its payload and an authentication code.
	last := 0
	switch direct {
	case 0:
		for i := 0; i < n-1; i++ {
			total += 32 + sized(2+35+16)
		}
		last = 2 + 16
	default:
		dest = destination(hops[n-1], direct, 20)
		for i := 0; i < n-1; i++ {
			if i == n-2 {
				total += 32 + sized(2+70+16)
			} else {
				total += 32 + sized(2+35+16)
			}
		}
		for i := 0; i < direct-1; i++ {
			total += 32 + sized(2+20)
		}
		last = 2 + 20
	}
	// The value of the final payload fills the onion up to the target.
	target := pick("total", 1299, 1300, 1301, 1302, 1400, 2600, 5000)
	v := target - total - 32 - last - 3 - 1 - 3
	value := make([]byte, v)
	for i := range value {
		value[i] = byte(i)
	}
	copy(value, sym.Bytes("value.head", 2))
	copy(value[v-2:], sym.Bytes("value.tail", 2))
	fin := []*lnwire.FinalHopPayload{{TLVType: 65, Value: value}}
	resp, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		hlib.Priv(sessionKey), hlib.Priv(blindingKey), hops, nil, dest, fin,
	))
	sym.Observe("ok", err == nil)
	sym.Assert((err == nil) == (target <= 1300), "a route is created exactly when it fits an onion")
	if err != nil {
		sym.Reach("too long")
		return
	}
	sym.Reach("fits")
	clear := n
	if dest != nil {
		clear--
	}
	walk(resp, clear, dest, nil, fin)
}

// C22_Count: any number of hops is either served or refused.
func C22_Count() {
	n := pick("hops", 1, 2, 14, 15, 26, 27, 28, 40)
	d := pick("dest.hops", 0, 1, 25, 26, 27, 28, 29, 60)
	hops := pubs(n)
	var dest *lnwire.ReplyPath
	clear, total := n, 0
	if d > 0 {
		dest = destination(hops[n-1], d, 0)
		for i, h := range dest.Hops {
			h.EncryptedData = []byte{byte(i)}
		}
		clear--
		total = d * (32 + sized(2+1))
	}
	for i := 0; i < clear; i++ {
		switch {
		case i < clear-1:
			total += 32 + sized(2+35+16)
		case d > 0:
			total += 32 + sized(2+70+16)
		default:
			total += 32 + sized(2+16)
		}
	}
	resp, err := routes.CreateBlindedRoute(routes.NewBlindedRouteRequest(
		hlib.Priv(sessionKey), hlib.Priv(blindingKey), hops, nil, dest, nil,
	))
	sym.Observe("ok", err == nil)
	ok := clear+d <= 27 && total <= 1300
	sym.Assert((err == nil) == ok, "a route is created exactly when an onion can hold it")
	if err != nil {
		sym.Reach("too many")
		return
	}
	sym.Reach("fits")
	walk(resp, clear, dest, nil, nil)
}
