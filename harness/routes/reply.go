package main

import (
	"context"
	"errors"
	"time"

	"github.com/btcsuite/btcd/btcutil"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

const ourKey = 30

// graph is lnd's view of our channels and of the nodes of the network.
type graph struct {
	channels []lndclient.ChannelInfo
	listErr  error
	nodes    map[route.Vertex]*lndclient.NodeInfo
	errs     map[route.Vertex]error
	slow     time.Duration // how long each call takes
	calls    int
}

// wait takes the time of a call.
func (g *graph) wait(ctx context.Context) error {
	g.calls++
	if g.slow == 0 {
		return nil
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-time.After(g.slow):
		return nil
	}
}

func (g *graph) ListChannels(ctx context.Context, activeOnly, publicOnly bool) ([]lndclient.ChannelInfo, error) {
	if err := g.wait(ctx); err != nil {
		return nil, err
	}
	if g.listErr != nil {
		return nil, g.listErr
	}
	var out []lndclient.ChannelInfo
	for _, c := range g.channels {
		if activeOnly && !c.Active || publicOnly && c.Private {
			continue
		}
		out = append(out, c)
	}
	return out, nil
}

func (g *graph) GetNodeInfo(ctx context.Context, k route.Vertex, includeChannels bool) (*lndclient.NodeInfo, error) {
	if err := g.wait(ctx); err != nil {
		return nil, err
	}
	if err := g.errs[k]; err != nil {
		return nil, err
	}
	n := g.nodes[k]
	if n == nil {
		return nil, status.Error(codes.NotFound, "unable to find node")
	}
	out := &lndclient.NodeInfo{Node: n.Node, ChannelCount: n.ChannelCount, TotalCapacity: n.TotalCapacity}
	if includeChannels {
		out.Channels = n.Channels
	}
	return out, nil
}

// checkReply checks a reply path from one of the peers given to us.
func checkReply(p *sphinx.BlindedPath, peer int) {
	k := hlib.Priv(peer)
	us := hlib.Priv(ourKey)
	sym.Assert(len(p.BlindedHops) == 2 && len(p.EncryptedData) == 2, "a reply path has two hops")
	if len(p.BlindedHops) != 2 || len(p.EncryptedData) != 2 {
		return
	}
	sym.Assert(hlib.SameKey(p.BlindedHops[0], hlib.BlindedID(k, p.BlindingPoint)), "the first hop is the introduction node")
	data, err := sphinx.DecryptBlindedData(hlib.ECDH(k), p.BlindingPoint, p.EncryptedData[0])
	sym.Assert(err == nil, "the introduction node can open its data")
	sym.Assert(sym.EqBytes(data, hlib.RouteData(us.PubKey(), nil)), "the introduction node is told to forward to us")
	next, err := sphinx.NextEphemeral(hlib.ECDH(k), p.BlindingPoint)
	if err != nil {
		sym.Skip()
	}
	sym.Assert(hlib.SameKey(p.BlindedHops[1], hlib.BlindedID(us, next)), "the second hop is our node")
	data, err = sphinx.DecryptBlindedData(hlib.ECDH(us), next, p.EncryptedData[1])
	sym.Assert(err == nil, "we can open our data")
	recs, ok := hlib.Parse(data, func(uint64, []byte) bool { return true })
	sym.Assert(ok, "our data is a stream")
	_, ok = hlib.Find(recs, 4)
	sym.Assert(!ok, "our data names no next node")
}

func replyPath(g *graph, peers int, required func(peer int) bool, want []lndwire.FeatureBit) {
	gen := routes.NewBlindedRouteGenerator(g, hlib.Priv(ourKey).PubKey())
	replyPathBy(gen, g, peers, required, want)
}

func replyPathBy(gen *routes.BlindedRouteGenerator, g *graph, peers int, required func(peer int) bool, want []lndwire.FeatureBit) {
	p, err := gen.ReplyPath(context.Background(), want)

	var active []int
	var failure error
	for _, c := range g.channels {
		if !c.Active {
			continue
		}
		for i := 0; i < peers; i++ {
			k := route.NewVertex(hlib.Priv(i).PubKey())
			if c.PubKeyBytes == k {
				active = append(active, i)
				if e := g.errs[k]; e != nil && failure == nil {
					failure = e
				}
			}
		}
	}
	sym.Observe("ok", err == nil)
	switch {
	case g.listErr != nil:
		sym.Reach("list failure")
		sym.Assert(errors.Is(err, g.listErr), "a failure to list channels is reported")
		return
	case len(active) == 0:
		sym.Reach("no channels")
		sym.Assert(errors.Is(err, routes.ErrNoChannels), "without active channels there is no reply path")
		return
	case failure != nil:
		sym.Reach("lookup failure")
		sym.Assert(err != nil, "a failed lookup is reported")
		return
	}
	best := 0
	var eligible []int
	for _, i := range active {
		n := g.nodes[route.NewVertex(hlib.Priv(i).PubKey())]
		if n == nil || n.Node == nil || len(n.Channels) == 0 || !required(i) {
			continue
		}
		eligible = append(eligible, i)
		if len(n.Channels) > best {
			best = len(n.Channels)
		}
	}
	if len(eligible) == 0 {
		sym.Reach("no relaying peers")
		sym.Assert(errors.Is(err, routes.ErrNoRelayingPeers), "without an eligible peer there is no reply path")
		return
	}
	sym.Assert(err == nil, "a reply path is found when a peer is eligible")
	if err != nil {
		return
	}
	sym.Reach("path")
	for _, i := range eligible {
		if hlib.SameKey(p.IntroductionPoint, hlib.Priv(i).PubKey()) {
			n := g.nodes[route.NewVertex(hlib.Priv(i).PubKey())]
			sym.Assert(len(n.Channels) == best, "the introduction node has the most channels")
			checkReply(p, i)
			return
		}
	}
	sym.Assert(false, "the introduction node is an eligible peer")
}

// failures are the codes of a lookup that failed, as opposed to one that found
// that a node is not in the graph.
var failures = []codes.Code{
	codes.Unknown, codes.Unavailable, codes.Canceled, codes.InvalidArgument, codes.DeadlineExceeded,
	codes.AlreadyExists, codes.PermissionDenied, codes.ResourceExhausted, codes.FailedPrecondition,
	codes.Aborted, codes.OutOfRange, codes.Unimplemented, codes.Internal, codes.DataLoss, codes.Unauthenticated,
}

// lookup picks a failure: any when there is one channel.
func lookup(channels int) int {
	if channels == 1 {
		return sym.Choose("code", len(failures))
	}
	return sym.Choose("code", 2)
}

var errPlain = errors.New("lnd is down")

// C23_Select: any channels with any state of the graph.
func C23_Select() {
	peers, chans, maxCh := 2, 3, 3
	if sym.Thorough() {
		peers, chans, maxCh = 3, 3, 4
	}
	g := &graph{nodes: map[route.Vertex]*lndclient.NodeInfo{}, errs: map[route.Vertex]error{}}
	n := sym.Choose("channels", chans+1)
	used := 0
	for i := 0; i < n; i++ {
		// The first channel is with the first peer and so on: the names
		// of the peers do not matter.
		most := used + 1
		if most > peers {
			most = peers
		}
		p := sym.Choose("channel.peer", most)
		if p == used {
			used++
		}
		g.channels = append(g.channels, lndclient.ChannelInfo{
			ChannelID:   uint64(i + 1),
			PubKeyBytes: route.NewVertex(hlib.Priv(p).PubKey()),
			Active:      i == 0 || sym.Choose("active", 2) == 1,
			Private:     i == 1,
		})
	}
	if n == 1 && sym.Choose("inactive", 2) == 1 {
		g.channels[0].Active = false
	}
	for i := 0; i < used; i++ {
		k := route.NewVertex(hlib.Priv(i).PubKey())
		switch c := sym.Choose("node", maxCh+5); c {
		case 0: // not in the graph
		case 1:
			g.errs[k] = errPlain
		case 2:
			g.errs[k] = status.Error(failures[lookup(n)], "failed")
		case 3:
			g.nodes[k] = &lndclient.NodeInfo{Channels: make([]lndclient.ChannelEdge, 2)}
		default:
			g.nodes[k] = &lndclient.NodeInfo{
				Node: &lndclient.Node{PubKey: k}, ChannelCount: c - 4,
				Channels: make([]lndclient.ChannelEdge, c-4),
			}
		}
	}
	if n <= 1 && sym.Choose("list", 2) == 1 {
		g.listErr = errPlain
	}
	replyPath(g, peers, func(int) bool { return true }, nil)
}

// C23_Most: several peers with any number of channels.
func C23_Most() {
	g := &graph{nodes: map[route.Vertex]*lndclient.NodeInfo{}, errs: map[route.Vertex]error{}}
	var (
		peers  = 2
		counts = []int{1, 2, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1025}
	)
	if sym.Choose("many", 2) == 1 {
		peers, counts = 4+sym.Choose("peers", 2), []int{0, 1, 2}
		if sym.Thorough() {
			peers += 2
		}
	}
	for i := 0; i < peers; i++ {
		k := route.NewVertex(hlib.Priv(i).PubKey())
		g.channels = append(g.channels, lndclient.ChannelInfo{
			ChannelID: uint64(9 - i), PubKeyBytes: k, Active: true, Private: i&1 == 1,
		})
		c := pick("count", counts...)
		g.nodes[k] = &lndclient.NodeInfo{
			// The sum of capacities does not matter.
			Node: &lndclient.Node{PubKey: k}, ChannelCount: c, TotalCapacity: btcutil.Amount(1000 * (i & 1)),
			Channels: make([]lndclient.ChannelEdge, c),
		}
	}
	replyPath(g, peers, func(int) bool { return true }, nil)
}

// C23_Features: any features required of a peer, whatever it advertises.
func C23_Features() {
	g := &graph{nodes: map[route.Vertex]*lndclient.NodeInfo{}, errs: map[route.Vertex]error{}}
	var want []lndwire.FeatureBit
	nw := sym.Choose("want", 3)
	for i := 0; i < nw; i++ {
		want = append(want, lndwire.FeatureBit(sym.Uint16("want.bit")))
	}
	var has [2][]lndwire.FeatureBit
	peers := 1 + sym.Choose("peers", 2)
	for i := 0; i < peers; i++ {
		n := sym.Choose("has", 3)
		if i == 1 && !sym.Thorough() {
			n = 1
		}
		for j := 0; j < n; j++ {
			has[i] = append(has[i], lndwire.FeatureBit(sym.Uint16("has.bit")))
		}
		k := route.NewVertex(hlib.Priv(i).PubKey())
		g.channels = append(g.channels, lndclient.ChannelInfo{PubKeyBytes: k, Active: true})
		g.nodes[k] = &lndclient.NodeInfo{
			Node:     &lndclient.Node{PubKey: k, Features: has[i]},
			Channels: make([]lndclient.ChannelEdge, 2-i), ChannelCount: 2 - i,
		}
	}
	replyPath(g, peers, func(p int) bool {
		ok := true
		for _, w := range want {
			found := false
			for _, h := range has[p] {
				found = sym.Or(found, h == w)
			}
			ok = sym.And(ok, sym.Or(w&1 == 1, found))
		}
		return ok
	}, want)
}

// C23_Large: many channels, with few peers or with many, and many features.
func C23_Large() {
	g := &graph{nodes: map[route.Vertex]*lndclient.NodeInfo{}, errs: map[route.Vertex]error{}}
	n := pick("channels", 12, 40)
	peers := pick("peers", 2, n)
	best := pick("best", 0, peers-1)
	state := sym.Choose("rest", 3)
	var want, all []lndwire.FeatureBit
	for i := 0; i < 12; i++ {
		all = append(all, lndwire.FeatureBit(2*i))
	}
	want = append(want, all...)
	// One of the features may be missing at the other peers, or at the peer
	// with the most channels.
	other, top := all, all
	if which := sym.Choose("features", 3); which > 0 {
		less := append([]lndwire.FeatureBit{}, all...)
		less[pick("missing", 7, 11)] = lndwire.FeatureBit(sym.Uint16("other"))
		if which == 1 {
			other = less
		} else {
			top = less
		}
	}
	for i := 0; i < n; i++ {
		p := i * peers / n
		active := p == best || state != 1
		g.channels = append(g.channels, lndclient.ChannelInfo{
			ChannelID: uint64(i), PubKeyBytes: route.NewVertex(hlib.Priv(p).PubKey()), Active: active, Private: i&1 == 1,
		})
	}
	for i := 0; i < peers; i++ {
		k := route.NewVertex(hlib.Priv(i).PubKey())
		info := &lndclient.NodeInfo{
			Node: &lndclient.Node{PubKey: k, Features: other}, ChannelCount: 1 + i%11, Channels: make([]lndclient.ChannelEdge, 1+i%11),
		}
		if i == best {
			info.Node.Features = top
			info.Channels = make([]lndclient.ChannelEdge, 12)
		} else if state == 2 {
			// Not in the graph.
			continue
		}
		g.nodes[k] = info
	}
	replyPath(g, peers, func(p int) bool {
		ok := true
		for _, w := range want {
			found := false
			for _, h := range g.nodes[route.NewVertex(hlib.Priv(p).PubKey())].Node.Features {
				found = sym.Or(found, h == w)
			}
			ok = sym.And(ok, found)
		}
		return ok
	}, want)
}

// C23_Again: each call goes by the channels and the graph at the time, and by
// the features it was given.
func C23_Again() {
	g := new(graph)
	gen := routes.NewBlindedRouteGenerator(g, hlib.Priv(ourKey).PubKey())
	for c := 0; c < 2; c++ {
		*g = graph{nodes: map[route.Vertex]*lndclient.NodeInfo{}, errs: map[route.Vertex]error{}}
		needs := sym.Choose("needs", 2) == 1
		var has [2]bool
		for i := 0; i < 2; i++ {
			k := route.NewVertex(hlib.Priv(i).PubKey())
			state := sym.Choose("peer", 6)
			if state > 0 {
				g.channels = append(g.channels, lndclient.ChannelInfo{PubKeyBytes: k, Active: state != 1})
			}
			var fs []lndwire.FeatureBit
			switch state {
			case 2: // not in the graph
				continue
			case 3:
				g.errs[k] = errPlain
				continue
			case 5:
				fs, has[i] = []lndwire.FeatureBit{20}, true
			}
			n := 1 + sym.Choose("channels", 2)
			g.nodes[k] = &lndclient.NodeInfo{
				Node: &lndclient.Node{PubKey: k, Features: fs}, ChannelCount: n, Channels: make([]lndclient.ChannelEdge, n),
			}
		}
		var want []lndwire.FeatureBit
		if needs {
			want = []lndwire.FeatureBit{20}
		}
		replyPathBy(gen, g, 2, func(p int) bool { return !needs || has[p] }, want)
	}
}

// some makes a graph of two peers. Their features and channels are picked if it
// is any graph; otherwise only the second has the feature, and fewer channels.
func (g *graph) some(any bool, has *[2]bool) {
	g.nodes, g.errs = map[route.Vertex]*lndclient.NodeInfo{}, map[route.Vertex]error{}
	for i := 0; i < 2; i++ {
		k := route.NewVertex(hlib.Priv(i).PubKey())
		g.channels = append(g.channels, lndclient.ChannelInfo{PubKeyBytes: k, Active: true})
		n := 2 - i
		has[i] = i == 1
		if any {
			n = 1 + sym.Choose("channels", 2)
			has[i] = sym.Choose("feature", 2) == 1
		}
		var fs []lndwire.FeatureBit
		if has[i] {
			fs = []lndwire.FeatureBit{20}
		}
		g.nodes[k] = &lndclient.NodeInfo{
			Node: &lndclient.Node{PubKey: k, Features: fs}, ChannelCount: n, Channels: make([]lndclient.ChannelEdge, n),
		}
	}
}

// C23_Slow: an answer of lnd that takes its time counts like any other, for as
// long as the caller waits.
func C23_Slow() {
	g := new(graph)
	var has [2]bool
	how := sym.Choose("how", 3)
	g.some(how == 0, &has)
	g.slow = []time.Duration{100 * time.Millisecond, 2 * time.Second, 400 * time.Millisecond}[how]
	gen := routes.NewBlindedRouteGenerator(g, hlib.Priv(ourKey).PubKey())
	if how < 2 {
		replyPathBy(gen, g, 2, func(p int) bool { return has[p] }, []lndwire.FeatureBit{20})
		return
	}
	// The caller leaves before the first answer, or between two of the three.
	when := sym.Choose("when", 3)
	ctx, cancel := context.WithTimeout(context.Background(), g.slow*time.Duration(when)+g.slow/2)
	defer cancel()
	p, err := gen.ReplyPath(ctx, nil)
	sym.Assert(err != nil && p == nil, "a lookup that was given up fails the call")
	sym.Assert(g.calls <= 3, "nothing more is looked up for a caller that left")
}

// C23_Concurrent: calls at the same time do not affect each other.
func C23_Concurrent() {
	g := new(graph)
	var has [2]bool
	g.some(true, &has)
	sym.Preempt(2)
	gen := routes.NewBlindedRouteGenerator(g, hlib.Priv(ourKey).PubKey())
	done := make(chan struct{})
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			var want []lndwire.FeatureBit
			if i == 1 {
				want = []lndwire.FeatureBit{20}
			}
			replyPathBy(gen, g, 2, func(p int) bool { return i == 0 || has[p] }, want)
			done <- struct{}{}
		}()
	}
	for i := 0; i < 2; i++ {
		<-done
	}
	sym.Preempt(0)
}

var _ = lnwire.OnionMessageType
