package main

import (
	"context"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/zzverif/sym"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// stopped stops the daemon, which closed is the number of connections for.
func stopped(b *boltnd.Boltnd, w *world, closed int) {
	c := start(b.Stop)
	sym.Settle()
	sym.Assert(c.done, "stopping does not hang")
	sym.Assert(!c.done || c.err == nil, "the daemon can be stopped")
	sym.Assert(w.closed == closed, "the connection is closed when the daemon stops")
	sym.Assert(w.n.subCtx == nil || w.n.subCtx.Err() != nil, "the RPC server stops with the daemon")
	c = start(b.Stop)
	sym.Settle()
	sym.Assert(c.done && c.err != nil, "the daemon stops only once")
	sym.Assert(w.closed == closed, "the connection is closed exactly once")
	sym.Assert(sym.Blocked() == 0, "nothing keeps running")
}

// C29_Retries: any number of retries, and success at any attempt or never.
func C29_Retries() {
	retries := sym.Byte("retries")
	good := sym.Uint16("good")
	w := newWorld(func(i int) bool { return uint16(i) == good })
	b := daemon(func(c *boltnd.Config) { c.LNDRetires = retries })
	c := start(b.Start)
	sym.Settle()
	if !c.done {
		sym.Fail("starting ends")
	}
	sym.Assert(w.attempts >= 1, "at least one attempt is made")
	sym.Assert(w.attempts <= int(retries)+1, "at most one more attempt than retries is made")
	closed := 0
	if good <= uint16(retries) {
		sym.Reach("connects")
		sym.Assert(c.err == nil, "starting succeeds once an attempt does")
		sym.Assert(w.attempts == int(good)+1, "attempts stop at the first success")
		sym.Assert(w.n.calls == 2, "the RPC server starts on the connection")
		closed = 1
	} else {
		sym.Reach("never connects")
		sym.Assert(c.err != nil, "starting fails if no attempt succeeds")
		sym.Assert(w.attempts == int(retries)+1, "each retry is used")
		sym.Assert(c.err != nil && strings.Contains(c.err.Error(), failed(w.attempts-1).Error()), "the last error is reported")
		sym.Assert(w.n.calls == 0, "startup does not proceed without a connection")
	}
	sym.Assert(b.Start() != nil, "the daemon starts only once")
	sym.Assert(w.closed == 0, "a connection in use is not closed")
	stopped(b, w, closed)
}

// C29_Wait: any time to wait, on a clock of our own.
func C29_Wait() {
	sym.Virtual()
	wait := sym.Int64("wait")
	sym.Assume(wait >= 0 && wait <= int64(24*time.Hour))
	retries := byte(sym.Choose("retries", 4))
	good := sym.Choose("good", 5)
	if good > int(retries)+1 {
		sym.Skip()
	}
	w := newWorld(func(i int) bool { return i == good })
	w.takes = []time.Duration{0, 700 * time.Millisecond, time.Hour}[sym.Choose("takes", 3)]
	takes := int64(w.takes)
	b := daemon(func(c *boltnd.Config) {
		c.LNDRetires = retries
		c.LNDWait = time.Duration(wait)
	})
	sym.Assert((b.Start() == nil) == (good <= int(retries)), "starting succeeds exactly if an attempt does")
	end := int64(sym.Elapsed())
	fails := w.attempts
	if good < fails {
		fails = good
	}
	for i, t := range w.times {
		sym.Assert(t == int64(i)*(wait+takes), "each attempt waits for the configured time after the failure before")
	}
	sym.Assert(end == int64(fails)*wait+int64(w.attempts)*takes, "only failures are waited for")
	closed := 0
	if good <= int(retries) {
		closed = 1
	}
	stopped(b, w, closed)
}

// C29_Errors: an attempt may fail in any way.
func C29_Errors() {
	retries := 2
	good := sym.Choose("good", 4)
	w := newWorld(func(i int) bool { return i == good })
	kinds := []error{
		context.Canceled, context.DeadlineExceeded, io.EOF, os.ErrNotExist,
		lndclient.ErrVersionCheckNotImplemented, lndclient.ErrVersionIncompatible, lndclient.ErrBuildTagsMissing,
		status.Error(codes.Unavailable, "refused"), status.Error(codes.Unauthenticated, "refused"),
		status.Error(codes.Unimplemented, "refused"), status.Error(codes.Canceled, "refused"),
	}
	kind := make([]int, 3)
	for i := range kind {
		if i < good {
			kind[i] = sym.Choose("kind", len(kinds))
		}
	}
	wrapped := sym.Choose("wrapped", 2) == 1
	w.err = func(i int) error {
		if wrapped {
			return fmt.Errorf("lnd: %w", kinds[kind[i]])
		}
		return kinds[kind[i]]
	}
	b := daemon(func(c *boltnd.Config) { c.LNDRetires = byte(retries) })
	err := b.Start()
	sym.Settle()
	closed := 0
	if good <= retries {
		sym.Assert(err == nil, "starting succeeds once an attempt does")
		sym.Assert(w.attempts == good+1, "attempts stop at the first success")
		closed = 1
	} else {
		sym.Assert(err != nil, "starting fails if no attempt succeeds")
		sym.Assert(w.attempts == retries+1, "each retry is used")
		sym.Assert(err != nil && strings.Contains(err.Error(), kinds[kind[retries]].Error()), "the last error is reported")
	}
	stopped(b, w, closed)
}

// C29_RealWait: the same with time that passes.
func C29_RealWait() {
	retries := sym.Choose("retries", 3)
	w := newWorld(func(i int) bool { return false })
	w.takes = []time.Duration{0, 30 * time.Millisecond}[sym.Choose("takes", 2)]
	b := daemon(func(c *boltnd.Config) {
		c.LNDRetires = byte(retries)
		c.LNDWait = 50 * time.Millisecond
	})
	sym.Assert(b.Start() != nil, "starting fails if no attempt succeeds")
	for i, t := range w.times {
		lo := int64(i) * int64(50*time.Millisecond+w.takes)
		sym.Assert(t >= lo, "each attempt waits for the configured time after the failure before")
	}
	sym.Assert(len(w.times) == retries+1, "each retry is used")
	stopped(b, w, 0)
}

// C29_Fails: the RPC server cannot start, or lnd fails later.
func C29_Fails() {
	asked := 0
	w := newWorld(func(i int) bool { return true })
	how := sym.Choose("how", 4)
	callback := sym.Choose("callback", 2) == 1
	b := daemon(func(c *boltnd.Config) {
		if callback {
			c.RequestShutdown = func() { asked++ }
		}
	})
	switch how {
	case 0:
		w.n.identityErr = errLnd
	case 1:
		w.n.subErr = errLnd
	}
	err := b.Start()
	sym.Settle()
	sym.Assert((err == nil) == (how != 0), "starting fails if the RPC server does")
	sym.Assert(w.attempts == 1, "attempts stop at the first success")
	switch how {
	case 2:
		close(w.n.msgs)
	case 3:
		close(w.n.errs)
	}
	sym.Settle()
	want := 0
	if how > 0 && callback {
		want = 1
	}
	sym.Assert(asked == want, "a shutdown is requested if lnd fails")
	sym.Assert(w.closed == 0, "the connection is closed only when the daemon stops")
	stopped(b, w, 1)
	sym.Assert(asked == want, "an ordinary stop requests no shutdown")
}

// C29_Twice: starting and stopping twice at once.
func C29_Twice() {
	w := newWorld(func(i int) bool { return i == 1 })
	b := daemon(func(c *boltnd.Config) { c.LNDRetires = 2 })
	ran := sym.Choose("start", 2) == 1
	which := sym.Choose("at once", 2)
	twice := func(f func() error, what string, atOnce bool) {
		if atOnce {
			sym.Preempt(2)
		}
		x := start(f)
		if !atOnce {
			sym.Settle()
		}
		y := start(f)
		sym.Settle()
		sym.Preempt(0)
		sym.Assert(x.done && y.done, what+" returns")
		sym.Assert((x.err == nil) != (y.err == nil), what+" succeeds exactly once")
	}
	closed := 0
	if ran {
		twice(b.Start, "Start", which == 0)
		sym.Assert(w.attempts == 2 && w.n.calls == 2, "the daemon is started once")
		closed = 1
	}
	twice(b.Stop, "Stop", which == 1)
	sym.Assert(w.closed == closed, "the connection is closed exactly once")
	sym.Assert(!ran || w.n.subCtx.Err() != nil, "the RPC server stops with the daemon")
	sym.Assert(sym.Blocked() == 0, "nothing keeps running")
}

// C29_Config: the configured client is used.
func C29_Config() {
	w := newWorld(func(i int) bool { return i == 2 })
	var c *boltnd.Config
	b := daemon(func(x *boltnd.Config) { c = x })
	sym.Assert(b.Start() == nil, "the daemon starts")
	for _, x := range w.cfgs {
		sym.Assert(x == c.LndClientCfg, "the configured client is used")
	}
	stopped(b, w, 1)
}
