package peers

import (
	"context"
	"errors"
	"io"
	"net"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// Two connections with handlers of their own.
func vfC22_two() {
	vfUnroll()
	vfTrack("l")
	vfQuietTimers()
	a, b := &vfConn{id: 1}, &vfConn{id: 2}
	for _, c := range []*vfConn{a, b} {
		c.hello()
		c.send(10, 0x82, vfDef(1, "one"))
	}
	// the table of one connection means nothing to the other
	a.send(10, 0x82, vfDef(2, "two"))
	u, v := vfSome(0x81), vfSome(0x81)
	a.send(10, 0x81, u.bytes())
	b.send(10, 0x81, v.bytes())
	var hs []*vfHandler
	var ctxs []context.Context
	source := func() Handler {
		h := &vfHandler{}
		n := len(hs)
		h.onHandshake = func(ctx context.Context, _ *Handshake) {
			ctxs = append(ctxs, ctx)
			vfAssert(Connection(ctx) != nil, "a handler finds its connection")
			vfAssert(WriterFromContext(ctx) != nil, "a handler finds its writer")
		}
		h.onUpdate = func(ctx context.Context, e *sticktable.EntryUpdate) {
			if n == 0 {
				vfAssert(ctx.Err() == nil, "a session is not ended by another one")
				vfAssert(e.StickTable.StickTableID == 2, "each connection has its own tables")
				vfAssert(Connection(ctx) == net.Conn(a), "a handler finds its own connection")
			} else {
				vfAssert(ctx.Err() == nil, "a session is not ended by another one")
				vfAssert(e.StickTable.StickTableID == 1, "each connection has its own tables")
				vfAssert(Connection(ctx) == net.Conn(b), "a handler finds its own connection")
			}
		}
		hs = append(hs, h)
		return h
	}
	l := &vfListener{conns: []net.Conn{a, b}}
	p := Peer{HandlerSource: source, BaseContext: vfQuietCtx()}
	err := p.Serve(l)
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
	vfAssert(l.at == 2, "every connection is accepted")
	vfAssert(a.reads == 0 && b.reads == 0, "connections are served in their own goroutines")
	vfRunSpawned()
	vfReach("served")
	vfAssert(len(hs) == 2, "each connection has its own handler")
	for _, h := range hs {
		vfAssert(h.handshakes == 1 && h.updates == 1 && h.closes == 1, "each handler sees its own session")
	}
	vfAssert(a.closed > 0 && b.closed > 0, "a connection is closed when its session ends")
	vfAssertSame(a.out, []byte(vfOK), "each connection is answered")
	vfAssertSame(b.out, []byte(vfOK), "each connection is answered")
}

// vfBeside: a healthy connection is served whatever happens to another one.
func vfBeside(a *vfConn, bad func() *vfHandler) {
	vfTrack("l")
	vfQuietTimers()
	b := &vfConn{}
	b.hello()
	b.send(10, 0x82, vfDef(1, "one"))
	u := vfSome(0x80)
	b.send(10, 0x80, u.bytes())
	good := &vfHandler{}
	good.onUpdate = func(ctx context.Context, _ *sticktable.EntryUpdate) {
		vfAssert(ctx.Err() == nil, "a session is not ended by another one")
	}
	n := 0
	l := &vfListener{conns: []net.Conn{a, b}}
	p := Peer{BaseContext: vfQuietCtx(), HandlerSource: func() Handler {
		n++
		if n == 1 && bad != nil {
			return bad()
		}
		return good
	}}
	err := p.Serve(l)
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
	vfRunSpawned()
	vfReach("served")
	vfAssert(l.at == 2, "every connection is accepted")
	vfAssert(good.updates == 1, "a connection is served whatever happens to others")
	vfAssert(a.closed > 0 && b.closed > 0, "a connection is closed when its session ends")
	vfAssert(vfLogged() > 0, "a session that fails is reported")
	vfAssert(vfLocksHeld() == 0, "no lock is held when a session has ended")
}

func vfC22_read_fails()  { vfUnroll(); vfBeside(&vfConn{readErr: io.ErrNoProgress}, vfNormal) }
func vfC22_read_panics() { vfUnroll(); vfBeside(&vfConn{readPanic: true}, vfNormal) }

func vfNormal() *vfHandler { return &vfHandler{} }

func vfC22_write_fails() {
	vfUnroll()
	a := &vfConn{failAt: 1}
	a.hello()
	vfBeside(a, vfNormal)
}

func vfC22_garbage() {
	vfUnroll()
	a := &vfConn{}
	a.hello()
	a.send(7, 7, nil)
	vfBeside(a, vfNormal)
}

// Cancelling the base context closes the listener.
func vfC22_cancelled() {
	vfUnroll()
	ctx, cancel := context.WithCancel(vfQuietCtx())
	l := &vfListener{}
	p := Peer{Handler: &vfHandler{}, BaseContext: ctx}
	_ = p.Serve(l)
	vfAssert(l.closed == 0, "the listener is left open while the base context is not cancelled")
	cancel()
	vfRunSpawned()
	vfReach("cancelled")
	vfAssert(l.closed > 0, "cancelling the base context closes the listener")
}

func vfC22_open() {
	vfUnroll()
	l := &vfListener{}
	p := Peer{Handler: &vfHandler{}, BaseContext: vfQuietCtx()}
	_ = p.Serve(l)
	vfRunSpawned()
	vfReach("waiting")
	vfAssert(l.closed == 0, "the listener is left open while the base context is not cancelled")
}

func vfC22_both() {
	l := &vfListener{}
	p := Peer{Handler: &vfHandler{}, HandlerSource: func() Handler { return &vfHandler{} }, BaseContext: vfQuietCtx()}
	err := p.Serve(l)
	vfReach("refused")
	vfAssert(err != nil && l.at == 0, "a peer with two sources of handlers is refused")
}
