package main

import (
	"context"
	"errors"
	"net"
	"time"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	lndcfg "github.com/lightningnetwork/lnd"
	"github.com/lightningnetwork/lnd/lncfg"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"google.golang.org/grpc"
)

// atLeast says whether a version is no older than the minimum.
func atLeast(v *verrpc.Version, major, minor, patch uint32) bool {
	return sym.Or(v.AppMajor > major, sym.And(v.AppMajor == major,
		sym.Or(v.AppMinor > minor, sym.And(v.AppMinor == minor, v.AppPatch >= patch))))
}

func accepted(c boltnd.Config) bool {
	direct := c.Validate() == nil
	b, err := boltnd.NewBoltnd(func(d *boltnd.Config) error { *d = c; return nil })
	sym.Assert((err == nil) == direct, "a daemon is made exactly with an accepted configuration")
	sym.Assert((b != nil) == (err == nil), "a refused configuration makes no daemon")
	return direct
}

// The tags that are required.
var required = []string{"signrpc", "walletrpc", "chainrpc", "invoicesrpc"}

// C30_Version: any version with the required tags, and any wait.
func C30_Version() {
	v := &verrpc.Version{
		AppMajor: sym.Uint32("major"), AppMinor: sym.Uint32("minor"), AppPatch: sym.Uint32("patch"),
		BuildTags: required,
	}
	wait := sym.Int64("wait")
	got := accepted(boltnd.Config{
		LndClientCfg: &lndclient.LndServicesConfig{CheckVersion: v}, LNDRetires: sym.Byte("retries"), LNDWait: time.Duration(wait),
	})
	want := sym.And(atLeast(v, 0, 15, 0), wait >= 0)
	sym.Assert(got == want, "exactly versions from the minimum on are accepted, with a wait that is not negative")
	if got {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// C30_Tags: any of the required tags, any others, in any order.
func C30_Tags() {
	v := &verrpc.Version{AppMajor: 0, AppMinor: 15}
	switch sym.Choose("version", 4) {
	case 1:
		v.AppPatch = 5
	case 2:
		v.AppMinor = 16
	case 3:
		v.AppMajor = 1
	}
	want := true
	for _, t := range required {
		if sym.Choose("has "+t, 2) == 1 {
			v.BuildTags = append(v.BuildTags, t)
		} else {
			want = false
		}
	}
	// Another one, which may take the place of one that is left out.
	other := sym.String("other", pick("len", 7, 8, 9, 11))
	switch sym.Choose("where", 3) {
	case 1:
		v.BuildTags = append(v.BuildTags, other)
	case 2:
		v.BuildTags = append([]string{other}, v.BuildTags...)
	}
	if !want { // the other one may be it
		want = true
		for _, t := range required {
			found := false
			for _, h := range v.BuildTags {
				if h == t {
					found = true
				}
			}
			want = want && found
		}
	}
	got := accepted(boltnd.Config{LndClientCfg: &lndclient.LndServicesConfig{CheckVersion: v}})
	sym.Assert(got == want, "exactly a version check with the required tags is accepted")
	sym.Assert(len(boltnd.MinimumLNDVersion.BuildTags) == len(required), "the required tags stay the same")
}

// C30_Missing: parts of the configuration that are missing.
func C30_Missing() {
	c := boltnd.DefaultConfig()
	sym.Assert(accepted(*c), "the default configuration is accepted")
	c.LndClientCfg.CheckVersion = nil
	sym.Assert(!accepted(*c), "a configuration without a version check is refused")
	c.LndClientCfg = nil
	sym.Assert(!accepted(*c), "a configuration without a client is refused")
	// An option that fails.
	b, err := boltnd.NewBoltnd(func(*boltnd.Config) error { return errLnd })
	sym.Assert(err != nil && b == nil, "an option that fails makes no daemon")
	b, err = boltnd.NewBoltnd(boltnd.OptionLNDClient(nil))
	sym.Assert(err != nil && b == nil, "a configuration without a client is refused")
	b, err = boltnd.NewBoltnd()
	sym.Assert(err == nil && b != nil, "the default configuration makes a daemon")
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// C30_FromLnd: any configuration of lnd.
func C30_FromLnd() {
	l := &lndcfg.Config{
		AdminMacPath: sym.String("macaroon", 4), TLSCertPath: sym.String("tls", 3),
		Bitcoin: &lncfg.Chain{
			MainNet: sym.Bool("mainnet"), TestNet3: sym.Bool("testnet"), RegTest: sym.Bool("regtest"),
			SimNet: sym.Bool("simnet"), SigNet: sym.Bool("signet"),
		},
		Litecoin: &lncfg.Chain{MainNet: sym.Bool("litecoin")},
	}
	// lnd itself makes sure that there is one network at most.
	nets := 0
	for _, on := range []bool{l.Bitcoin.MainNet, l.Bitcoin.TestNet3, l.Bitcoin.RegTest, l.Bitcoin.SimNet, l.Bitcoin.SigNet} {
		if on {
			nets++
		}
	}
	sym.Assume(nets <= 1)
	k := sym.Choose("listeners", 3)
	for i := 0; i < k; i++ {
		l.RPCListeners = append(l.RPCListeners, net.Addr(addr(sym.String("address", 5))))
	}
	var cfg *boltnd.Config
	b, err := boltnd.NewBoltnd(boltnd.OptionLNDConfig(l), func(c *boltnd.Config) error { cfg = c; return nil })
	network := lndclient.Network("")
	switch {
	case l.Bitcoin.MainNet:
		network = lndclient.NetworkMainnet
	case l.Bitcoin.TestNet3:
		network = lndclient.NetworkTestnet
	case l.Bitcoin.RegTest:
		network = lndclient.NetworkRegtest
	}
	if k == 0 || network == "" {
		sym.Reach("refused")
		sym.Assert(err != nil && b == nil, "a listener and a supported network are required")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil && b != nil, "a configuration with a listener and a supported network is accepted")
	if err != nil {
		return
	}
	c := cfg.LndClientCfg
	sym.Assert(sym.EqStr(c.LndAddress, l.RPCListeners[0].String()), "the address is preserved")
	sym.Assert(sym.EqStr(c.CustomMacaroonPath, l.AdminMacPath), "the macaroon is preserved")
	sym.Assert(c.MacaroonDir == "" && c.CustomMacaroonHex == "", "there is only one macaroon")
	sym.Assert(sym.EqStr(c.TLSPath, l.TLSCertPath), "the TLS certificate is preserved")
	sym.Assert(c.Network == network, "the network is preserved")
	sym.Assert(c.CheckVersion != nil && atLeast(c.CheckVersion, 0, 15, 0), "the version is checked")
	sym.Assert(cfg.LNDRetires == boltnd.DefaultLNDRetries && cfg.LNDWait == boltnd.DefaultLNDWait, "other settings keep their default")
}

// C30_Options: the other options.
func C30_Options() {
	client := &lndclient.LndServicesConfig{CheckVersion: boltnd.MinimumLNDVersion}
	logs := map[string]int{}
	asked := 0
	var cfg *boltnd.Config
	opts := []boltnd.ConfigOption{
		boltnd.OptionLNDClient(client),
		boltnd.OptionSetupLogger(func(prefix string, r boltnd.LogRegistration) {
			logs[prefix]++
			r(btclog.Disabled)
		}),
		boltnd.OptionRequestShutdown(func() { asked++ }),
		func(c *boltnd.Config) error { cfg = c; return nil },
	}
	// In any order.
	for i := len(opts) - 1; i > 0; i-- {
		j := sym.Choose("order", i+1)
		opts[i], opts[j] = opts[j], opts[i]
	}
	b, err := boltnd.NewBoltnd(opts...)
	sym.Assert(err == nil && b != nil, "a daemon can be made")
	if err != nil {
		return
	}
	sym.Assert(cfg.LndClientCfg == client, "the client that was given is used")
	for _, n := range logs {
		sym.Assert(n == 1, "each subsystem sets up its log once")
	}
	sym.Assert(len(logs) == 5, "every subsystem sets up its log")
	w := newWorld(func(i int) bool { return true })
	w.n.subErr = errLnd
	sym.Assert(b.Start() == nil, "the daemon starts")
	sym.Settle()
	sym.Assert(asked == 1, "a request to shut down reaches its callback")
	stopped(b, w, 1)
}

var errTaken = errors.New("taken")

// C30_Permissions: every method of the service.
func C30_Permissions() {
	b := daemon(func(*boltnd.Config) {})
	perms := b.Permissions()
	d := &offersrpc.Offers_ServiceDesc
	check := func(method string) {
		ops, ok := perms[method]
		sym.Assert(ok && len(ops) > 0, "every method has a permission")
		for _, op := range ops {
			sym.Assert(op.Entity != "" && op.Action != "", "permissions name an entity and an action")
		}
	}
	for _, m := range d.Methods {
		check("/" + d.ServiceName + "/" + m.MethodName)
		// The name that calls are checked under.
		name := ""
		_, err := m.Handler(offersrpc.UnimplementedOffersServer{}, context.Background(),
			func(interface{}) error { return nil },
			func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
				name = info.FullMethod
				return nil, errTaken
			})
		sym.Assert(err == errTaken, "every call is checked first")
		sym.Assert(name == "/"+d.ServiceName+"/"+m.MethodName, "calls are checked under the name of their method")
	}
	for _, m := range d.Streams {
		check("/" + d.ServiceName + "/" + m.StreamName)
	}
	sym.Assert(len(d.Methods)+len(d.Streams) >= 4, "every method is registered")
	sym.Assert(b.ValidateMacaroon(context.Background(), nil, "") == nil, "validation is left to lnd")
}

// C30_Register: what is registered with lnd's server.
func C30_Register() {
	b := daemon(func(*boltnd.Config) {})
	s := grpc.NewServer()
	sym.Assert(b.RegisterGrpcSubserver(s) == nil, "the service can be registered")
	perms := b.Permissions()
	n := 0
	for name, info := range s.GetServiceInfo() {
		for _, m := range info.Methods {
			n++
			ops, ok := perms["/"+name+"/"+m.Name]
			sym.Assert(ok && len(ops) > 0, "every method that is registered has a permission")
		}
	}
	sym.Assert(n >= 4, "every method is registered")
}
