# Third batch: stops that come first, and what the attack list showed.
from help import *
O,R,I,Mk,Sg='lnwire/bolt12_offer.go','lnwire/bolt12_invoice_request.go','lnwire/bolt12_invoice.go','lnwire/bolt12_merkle.go','lnwire/bolt12_signature.go'
W,Pl,Rb='lnwire/onion_message.go','lnwire/onion_msg_payload.go','lnwire/route_blinding.go'
M='onionmsg/messenger.go'; N='onionmsg/onion.go'; E='onionmsg/node_ecdh.go'; B='routes/blinded.go'
RC,RS,RSub,SV='rpcserver/common.go','rpcserver/impl_sendonionmessage.go','rpcserver/impl_subscribe_onion_payload.go','rpcserver/server.go'
BT='"github.com/btcsuite/btcd/btcec/v2"'
TLV='"github.com/lightningnetwork/lnd/tlv"'
S=[]
def seed(id,prop,edits,pkg,demo,needs,breaks,**k):
    S.append(dict(id=id,property=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,**k))


seed('C33-messenger-early','C33',[(M,'''	close(m.quit)
	m.wg.Wait()
''','''	if m.hasStarted() {
		close(m.quit)
		m.wg.Wait()
	}
''')],'onionmsg',msg('''
func TestDemo(t *testing.T) {
	f := newLnd()
	m := onionmsg.NewOnionMessenger(
		&chaincfg.RegressionNetParams, f, &sphinx.PrivKeyECDH{PrivKey: priv(1)}, func(error) {},
	)
	if err := m.Stop(); err != nil {
		t.Fatal(err)
	}
	_ = m.Start()
	select {
	case f.msgs <- lndclient.CustomMessage{MsgType: 513, Data: []byte{1}}:
		t.Fatal("a message is processed after the stop")
	case <-time.After(time.Second):
	}
}
'''),'the messenger is stopped before it is started','it runs all the same and can no longer be stopped')

seed('C33-server-early','C33',[(SV,'''	close(s.quit)

''','''	if atomic.LoadInt32(&s.started) == 1 {
		close(s.quit)
	}

''')],'rpcserver',srv('''
func TestDemo(t *testing.T) {
	f := newLnd()
	s, err := rpcserver.NewServer(func(error) {})
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Stop(); err != nil {
		t.Fatal(err)
	}
	_ = s.Start(&lndclient.LndServices{
		Client: f, Signer: fakeSigner{}, ChainParams: &chaincfg.RegressionNetParams,
	})
	select {
	case f.msgs <- lndclient.CustomMessage{MsgType: 513, Data: []byte{1}}:
		t.Fatal("a message is processed after the stop")
	case <-time.After(time.Second):
	}
	_ = offersrpc.BlindedHop{}
}
'''),'the server is stopped before it is started','the messenger runs all the same and can no longer be stopped')
