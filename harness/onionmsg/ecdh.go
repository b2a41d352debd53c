package main

import (
	"context"
	"errors"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightningnetwork/lnd/keychain"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// signer is lnd's signer.
type signer struct {
	calls    int
	key      *btcec.PublicKey
	loc      keychain.KeyLocator
	nilLoc   bool
	deadline bool
	until    time.Time
	secret   [32]byte
	err      error
}

func (s *signer) DeriveSharedKey(ctx context.Context, k *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {
	s.calls++
	s.key = k
	s.until, s.deadline = ctx.Deadline()
	s.deadline = s.deadline && ctx.Err() == nil
	if loc != nil {
		s.loc = *loc
	} else {
		s.nilLoc = true
	}
	return s.secret, s.err
}

// C31_ECDH: any identity, any ephemeral keys, any answers.
func C31_ECDH() {
	n := newNode()
	if sym.Choose("identity", 2) == 0 {
		copy(n.identity[:], hlib.PubKey("identity").SerializeCompressed())
	} else {
		copy(n.identity[:], sym.Bytes("identity", 33))
	}
	want, perr := btcec.ParsePubKey(n.identity[:])
	s := new(signer)
	e, err := onionmsg.NewNodeECDH(n, s)
	sym.Observe("accepted", err == nil)
	if perr != nil {
		sym.Assert(err != nil, "an identity key that does not parse is rejected")
		sym.Reach("bad identity")
		return
	}
	sym.Assert(err == nil, "an identity key that parses is accepted")
	if err != nil {
		return
	}
	sym.Assert(hlib.SameKey(e.PubKey(), want), "the key is lnd's identity key")
	for i := 0; i < 2; i++ {
		k := hlib.PubKey("ephemeral")
		copy(s.secret[:], sym.Bytes("secret", 32))
		s.err = nil
		if sym.Choose("fail", 2) == 1 {
			s.err = errLnd
		}
		got, err := e.ECDH(k)
		sym.Assert(s.calls == i+1, "each key agreement is one call to lnd")
		sym.Assert(hlib.SameKey(s.key, k), "with the ephemeral key given")
		sym.Assert(!s.nilLoc && s.loc.Family == keychain.KeyFamilyNodeKey && s.loc.Index == 0, "for the node's identity key")
		sym.Assert(s.deadline, "under a deadline")
		if s.err != nil {
			sym.Assert(errors.Is(err, s.err), "lnd's error is returned")
			continue
		}
		sym.Assert(err == nil, "lnd's answer is returned")
		sym.Assert(sym.EqBytes(got[:], s.secret[:]), "lnd's secret is returned unchanged")
		sym.Assert(hlib.SameKey(e.PubKey(), want), "the key is lnd's identity key")
	}
}

// C31_Deadlines: key agreements at different times, each with its own deadline,
// whatever became of the ones before it.
func C31_Deadlines() {
	n := newNode()
	copy(n.identity[:], hlib.Priv(ourKey).PubKey().SerializeCompressed())
	s := new(signer)
	e, err := onionmsg.NewNodeECDH(n, s)
	sym.Assert(err == nil, "an identity key that parses is accepted")
	if err != nil {
		return
	}
	var last time.Time
	for i := 0; i < 4; i++ {
		k := hlib.Priv(20 + i).PubKey()
		copy(s.secret[:], sym.Bytes("secret", 32))
		s.err = nil
		switch sym.Choose("fail", 5) {
		case 1:
			s.err = errLnd
		case 2:
			s.err = context.DeadlineExceeded
		case 3:
			s.err = context.Canceled
		case 4:
			s.err = status.Error(codes.DeadlineExceeded, "deadline exceeded")
		}
		got, err := e.ECDH(k)
		sym.Assert(s.calls == i+1, "each key agreement is one call to lnd")
		sym.Assert(hlib.SameKey(s.key, k), "with the ephemeral key given")
		sym.Assert(s.deadline && s.until.After(last), "under a deadline of its own")
		last = s.until
		if s.err != nil {
			sym.Assert(errors.Is(err, s.err), "lnd's error is returned")
		} else {
			sym.Assert(err == nil && sym.EqBytes(got[:], s.secret[:]), "lnd's secret is returned unchanged")
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// C31_NoInfo: lnd does not say who it is.
func C31_NoInfo() {
	n := newNode()
	n.identityErr = errLnd
	_, err := onionmsg.NewNodeECDH(n, new(signer))
	sym.Assert(errors.Is(err, errLnd), "the failure is reported")
}
