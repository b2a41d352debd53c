package main

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// C20_StartStop: starting and stopping twice, in turn or at once.
func C20_StartStop() {
	n := newNode()
	m, s := messenger(n, ourKey)
	once := func(f func() error, what string) {
		var c1, c2 *call
		if sym.Choose("at once", 2) == 0 {
			c1 = start(f)
			sym.Settle()
			c2 = start(f)
		} else {
			sym.Preempt(2)
			c1, c2 = start(f), start(f)
		}
		sym.Settle()
		sym.Preempt(0)
		sym.Assert(c1.done && c2.done, what+" always returns")
		sym.Assert((c1.err == nil) != (c2.err == nil), what+" succeeds exactly once")
		c3 := start(f)
		sym.Settle()
		sym.Assert(c3.done && c3.err != nil, what+" succeeds only once")
	}
	if sym.Choose("started", 2) == 1 {
		once(m.Start, "Start")
		sym.Assert(n.subs == 1, "one subscription is made")
	}
	once(m.Stop, "Stop")
	sym.Assert(len(s.errs) == 0, "an ordinary stop requests no shutdown")
	sym.Assert(n.subs == 0 || n.subCtx.Err() != nil, "the subscription is ended")
	sym.Assert(sym.Blocked() == 0 || !sym.Symbolic(), "nothing keeps running")
}

func cause(n *node, kind int) { causeWith(n, kind, errLnd) }

func causeWith(n *node, kind int, e error) {
	switch kind {
	case 0:
		n.subErr = e
	case 1:
		close(n.msgs)
	case 2:
		close(n.errs)
	case 3:
		go func() { n.errs <- e }()
	}
}

func checkCause(err error, kinds ...int) { checkCauseWith(err, errLnd, kinds...) }

func checkCauseWith(err, e error, kinds ...int) {
	for _, k := range kinds {
		switch k {
		case 0, 3:
			if errors.Is(err, e) {
				return
			}
		case 1, 2:
			if errors.Is(err, onionmsg.ErrLNDShutdown) {
				return
			}
		}
	}
	sym.Assert(false, "the shutdown names its cause")
}

// C20_Cause: lnd fails in one or two ways, before or after some messages.
func C20_Cause() {
	n := newNode()
	if sym.Choose("buffered", 2) == 1 {
		n.msgs = make(chan lndclient.CustomMessage, 3)
		n.errs = make(chan error, 3)
	}
	m, s := messenger(n, ourKey)
	var b inbox
	k1 := sym.Choose("cause", 4)
	k2 := sym.Choose("second", 4)
	if k1+k2 == 5 { // a closed channel carries no error
		sym.Skip()
	}
	e := errLnd
	if k1%3 == 0 && k2 == k1 {
		e = []error{
			errLnd, io.EOF, context.Canceled, context.DeadlineExceeded,
			status.Error(codes.Unavailable, "gone"), status.Error(codes.Canceled, "over"),
		}[sym.Choose("error", 6)]
	}
	if k1 == 0 || k2 == 0 {
		causeWith(n, 0, e)
	}
	sym.Assert(m.Start() == nil, "the messenger starts")
	if k1 != 0 && k2 != 0 && sym.Choose("message", 2) == 1 {
		sym.Assert(m.RegisterHandler(64, b.handler(0)) == nil, "a handler can be registered")
		deliver(n, msgType, toUs(sessionKey, hlib.PutPayload(nil, nil, finals(uint64(64), []byte{1}))))
		sym.Assert(len(b.got) == 1, "a message is delivered")
	}
	sym.Preempt(1)
	if k1 != 0 {
		causeWith(n, k1, e)
	}
	if k2 != 0 && k2 != k1 {
		causeWith(n, k2, e)
	}
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(len(s.errs) == 1, "shutdown is requested exactly once")
	if len(s.errs) == 1 {
		if k1 == 0 || k2 == 0 {
			checkCauseWith(s.errs[0], e, 0)
		} else {
			checkCauseWith(s.errs[0], e, k1, k2)
		}
		if k1 == k2 {
			checkCauseWith(s.errs[0], e, k1)
		}
	}
	sym.Assert(n.subErr != nil || n.subCtx.Err() != nil, "the subscription is ended")
	sym.Idle(11 * time.Minute)
	sym.Assert(len(s.errs) == 1, "shutdown is requested exactly once")
	c := start(m.Stop)
	sym.Settle()
	sym.Assert(c.done && c.err == nil, "the messenger can be stopped")
	sym.Assert(len(s.errs) == 1, "shutdown is requested exactly once")
}

// C20_CauseAndStop: lnd fails while we stop.
func C20_CauseAndStop() {
	n := newNode()
	m, s := messenger(n, ourKey)
	k := sym.Choose("cause", 4)
	if k == 0 {
		cause(n, 0)
	}
	sym.Preempt(2)
	sym.Assert(m.Start() == nil, "the messenger starts")
	if k != 0 {
		cause(n, k)
	}
	c := start(m.Stop)
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(c.done && c.err == nil, "stop always returns")
	sym.Assert(len(s.errs) <= 1, "shutdown is requested at most once")
	if len(s.errs) == 1 {
		checkCause(s.errs[0], k)
		sym.Reach("cause first")
	} else {
		sym.Reach("stop first")
	}
}

// C20_InFlight: messages and registrations arrive while we stop.
func C20_InFlight() {
	n := newNode()
	m, s := started(n, ourKey)
	running, handled, stopped, late := 0, 0, false, false
	h := func(*lnwire.ReplyPath, []byte, []byte) error {
		running++
		handled++
		if stopped {
			late = true
		}
		sym.Observe("handled", handled)
		running--
		return nil
	}
	sym.Assert(m.RegisterHandler(64, h) == nil, "a handler can be registered")
	k := 2
	var msgs [][]byte
	for i := 0; i < k; i++ {
		msgs = append(msgs, toUs(sessionKey+i, hlib.PutPayload(nil, nil, finals(uint64(64), []byte{1}))))
	}
	fwd := viaUs(sessionKey+9, hlib.PutPayload(nil, hlib.Seal(hlib.Priv(ourKey), hlib.Priv(blindKey),
		hlib.RouteData(hlib.Priv(nextKey).PubKey(), nil)), nil), []byte{1, 0})
	if sym.Choose("forward", 2) == 1 {
		msgs[1] = fwd
	}
	n.onSend = func(lndclient.CustomMessage) {
		if stopped {
			late = true
		}
	}
	quit := make(chan struct{})
	typ := sym.Uint32("msg.type")
	sym.Preempt(2)
	go func() {
		for _, d := range msgs {
			select {
			case n.msgs <- lndclient.CustomMessage{Peer: vertex(77), MsgType: typ, Data: d}:
			case <-quit:
				return
			}
		}
	}()
	c := start(func() error {
		err := m.Stop()
		stopped = true
		sym.Assert(running == 0, "no handler is running when stop returns")
		return err
	})
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(c.done && c.err == nil, "stop always returns")
	close(quit)
	sym.Settle()
	sym.Assert(!late, "no handler runs after stop returned")
	sym.Assert(len(s.errs) == 0, "an ordinary stop requests no shutdown")
	if handled > 0 {
		sym.Reach("handled")
	} else {
		sym.Reach("nothing handled")
	}
}

// C20_Busy: a handler is busy while we stop.
func C20_Busy() {
	n := newNode()
	m, s := started(n, ourKey)
	release := make(chan struct{})
	entered, left := 0, 0
	h := func(*lnwire.ReplyPath, []byte, []byte) error {
		entered++
		<-release
		left++
		return errHandler
	}
	sym.Assert(m.RegisterHandler(64, h) == nil, "a handler can be registered")
	go func() {
		for i := 0; i < 2; i++ {
			n.msgs <- lndclient.CustomMessage{Peer: vertex(77), MsgType: msgType,
				Data: toUs(sessionKey+i, hlib.PutPayload(nil, nil, finals(uint64(64), []byte{1})))}
		}
	}()
	sym.Settle()
	sym.Assert(entered == 1, "messages are handled one at a time")
	after := -1
	c := start(func() error {
		err := m.Stop()
		after = entered - left
		return err
	})
	sym.Settle()
	sym.Preempt(1)
	close(release)
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(c.done && c.err == nil, "stop always returns")
	sym.Assert(after == 0, "no handler is running when stop returns")
	sym.Assert(entered == left, "no handler runs after stop returned")
	sym.Assert(len(s.errs) == 0, "an ordinary stop requests no shutdown")
}

// C20_StopAtOnce: we stop before what was started got going.
func C20_StopAtOnce() {
	n := newNode()
	n.msgs = make(chan lndclient.CustomMessage, 2)
	m, s := messenger(n, ourKey)
	stopped, late := false, false
	n.onSend = func(lndclient.CustomMessage) { late = late || stopped }
	n.onSubscribe = func() { late = late || stopped }
	fwd := hlib.PutPayload(nil, hlib.Seal(hlib.Priv(ourKey), hlib.Priv(blindKey), hlib.RouteData(hlib.Priv(nextKey).PubKey(), nil)), nil)
	for i := 0; i < 2; i++ {
		n.msgs <- lndclient.CustomMessage{Peer: vertex(77), MsgType: msgType, Data: viaUs(sessionKey+i, fwd, []byte{1, 0})}
	}
	sym.Preempt(2)
	sym.Assert(m.Start() == nil, "the messenger starts")
	c := start(func() error {
		err := m.Stop()
		stopped = true
		return err
	})
	sym.Settle()
	sym.Preempt(0)
	sym.Assert(c.done && c.err == nil, "stop always returns")
	sym.Assert(!late, "nothing is done after stop returned")
	sym.Assert(n.subs == 0 || n.subCtx.Err() != nil, "the subscription is ended")
	sym.Assert(len(s.errs) == 0, "an ordinary stop requests no shutdown")
	if len(n.sent) > 0 {
		sym.Reach("forwarded")
	}
}
