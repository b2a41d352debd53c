// Harness for the daemon: its configuration, startup and shutdown.
package main

import (
	"context"
	"errors"
	"strconv"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/keychain"
)

var errLnd = errors.New("lnd failed")

func pick(name string, of ...int) int { return of[sym.Choose(name, len(of))] }

// lnd is the node at the other end of a connection.
type lnd struct {
	lndclient.LightningClient

	msgs        chan lndclient.CustomMessage
	errs        chan error
	identityErr error
	subErr      error
	subCtx      context.Context
	calls       int
	onSend      func()
}

func newLnd() *lnd {
	return &lnd{msgs: make(chan lndclient.CustomMessage), errs: make(chan error)}
}

func (n *lnd) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	n.calls++
	if n.identityErr != nil {
		return nil, n.identityErr
	}
	i := new(lndclient.Info)
	copy(i.IdentityPubkey[:], hlib.Priv(1).PubKey().SerializeCompressed())
	return i, nil
}

func (n *lnd) SubscribeCustomMessages(ctx context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	n.calls++
	n.subCtx = ctx
	if n.subErr != nil {
		return nil, nil, n.subErr
	}
	return n.msgs, n.errs, nil
}

func (n *lnd) SendCustomMessage(ctx context.Context, msg lndclient.CustomMessage) error {
	if n.onSend != nil {
		n.onSend()
	}
	return nil
}

type signer struct{ lndclient.SignerClient }

func (signer) DeriveSharedKey(ctx context.Context, e *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {
	return hlib.ECDH(hlib.Priv(1)).ECDH(e)
}

// world is what the daemon connects to: attempt number good succeeds.
type world struct {
	n        *lnd
	attempts int
	good     func(i int) bool
	takes    time.Duration     // how long an attempt takes
	err      func(i int) error // its error, failed if nil
	times    []int64
	cfgs     []*lndclient.LndServicesConfig
	closed   int
}

// failed is the error of an attempt.
func failed(i int) error { return errors.New("refused<" + strconv.Itoa(i) + ">") }

func newWorld(good func(i int) bool) *world {
	w := &world{n: newLnd(), good: good}
	lndclient.VerifConnect = func(cfg *lndclient.LndServicesConfig) (*lndclient.LndServices, func(), error) {
		i := w.attempts
		w.attempts++
		if w.attempts > 300 {
			sym.Fail("the attempts to connect end")
		}
		w.times = append(w.times, int64(sym.Elapsed()))
		w.cfgs = append(w.cfgs, cfg)
		if w.takes > 0 {
			time.Sleep(w.takes)
		}
		if !w.good(i) && w.err != nil {
			return nil, nil, w.err(i)
		}
		if !w.good(i) {
			return nil, nil, failed(i)
		}
		return &lndclient.LndServices{
			Client: w.n, Signer: signer{}, ChainParams: &chaincfg.Params{},
		}, func() { w.closed++ }, nil
	}
	return w
}

// daemon makes a daemon with a changed default configuration.
func daemon(change func(c *boltnd.Config)) *boltnd.Boltnd {
	b, err := boltnd.NewBoltnd(func(c *boltnd.Config) error {
		c.LNDWait = 0
		change(c)
		return nil
	})
	if err != nil {
		sym.Fail("a daemon can be made")
	}
	return b
}

// call runs f, which may block, and reports whether it returned and what.
type call struct {
	done bool
	err  error
}

func start(f func() error) *call {
	c := new(call)
	go func() {
		c.err = f()
		c.done = true
	}()
	return c
}
