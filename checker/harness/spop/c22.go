package spop

import (
	"context"
	"encoding/binary"
	"errors"
	"net"
)

// vfHelloSent checks that an output starts with the answer to a hello that
// announced the frame size.
func vfHelloSent(out []byte, size uint32) []byte {
	vfAssert(len(out) >= 4, "every session has its own hello exchange")
	if len(out) < 4 {
		vfEnd()
	}
	n := int(binary.BigEndian.Uint32(out)) + 4
	vfAssert(len(out) >= n, "every session has its own hello exchange")
	if len(out) < n {
		vfEnd()
	}
	vfAgentHello(out[:n], size)
	return out[n:]
}

// Two connections: each is served in its own session and closed.
func vfC22_two() {
	vfUnroll()
	a, b := &vfConn{id: 1}, &vfConn{id: 2}
	s1, s2 := vfUint32(), vfUint32()
	vfAssume(s1 >= 256 && s1 < 1<<31 && s2 >= 256 && s2 < 1<<31)
	a.send(1, 1, 0, 0, vfHello(s1))
	b.send(1, 1, 0, 0, vfHello(s2))
	l, err := vfAgent(vfNop, a, b)
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
	vfAssert(l.at == 2, "every connection is accepted")
	vfAssert(len(a.out) == 0 && len(b.out) == 0, "connections are served in their own goroutines")
	vfRunSpawned()
	vfReach("served")
	vfAssert(a.closed > 0 && b.closed > 0, "a connection is closed when its session ends")
	vfHelloSent(a.out, s1)
	vfHelloSent(b.out, s2)
}

func vfHealthy() *vfConn {
	b := &vfConn{}
	b.send(1, 1, 0, 0, vfHello(2000))
	b.send(3, 1, 9, 10, vfNotify())
	return b
}

// vfServed: the connection was served although others failed.
func vfServed(l *vfListener, b *vfConn, calls int) {
	vfAssert(l.at == 2, "every connection is accepted")
	rest := vfHelloSent(b.out, 2000)
	vfAssert(len(rest) > 4, "a connection is served whatever happens to others")
	vfAssert(calls == 1, "a connection is served whatever happens to others")
	vfAssert(b.closed > 0, "a connection is closed when its session ends")
}

func vfBeside(a net.Conn) {
	b := vfHealthy()
	calls := 0
	l, _ := vfAgent(func(context.Context, *vfWriter, *vfMessage) { calls++ }, a, b)
	vfRunSpawned()
	vfReach("served")
	vfServed(l, b, calls)
}

func vfC22_read_fails() {
	vfUnroll()
	a := &vfConn{readFail: true}
	vfBeside(a)
	vfAssert(a.closed > 0, "a connection is closed when its session fails")
}

func vfC22_read_panics() {
	vfUnroll()
	a := &vfConn{readPanic: true}
	vfBeside(a)
	vfAssert(a.closed > 0, "a connection is closed when its session panics")
}

func vfC22_write_panics() {
	vfUnroll()
	a := &vfConn{writePanic: 1}
	a.send(1, 1, 0, 0, vfHello(2000))
	vfBeside(a)
	vfAssert(a.closed > 0, "a connection is closed when its session panics")
}

func vfC22_write_fails() {
	vfUnroll()
	a := &vfConn{}
	a.fail = true
	a.send(1, 1, 0, 0, vfHello(2000))
	vfBeside(a)
	vfAssert(a.closed > 0, "a connection is closed when its session fails")
}

func vfC22_garbage() {
	vfUnroll()
	a := &vfConn{}
	a.send(vfByte(), vfUint32(), 0, 0, nil)
	vfBeside(a)
	vfAssert(a.closed > 0, "a connection is closed when its session fails")
}

// The second frame has an unknown type or is a second hello.
func vfC22_bad_frame() {
	vfUnroll()
	a := &vfConn{}
	a.send(1, 1, 0, 0, vfHello(2000))
	t := vfByte()
	vfAssume(t != 3)
	a.send(t, 1, 0, 0, vfHello(2000))
	vfBeside(a)
	vfAssert(a.closed > 0, "a connection is closed when its session fails")
}

// Setting the options of a TCP connection may fail at any time.
func vfC22_tcp() {
	vfUnroll()
	before := vfSpawned()
	plain := Agent{Handler: HandlerFunc(vfNop), BaseContext: vfQuietCtx()}
	_ = plain.Serve(&vfListener{conns: []net.Conn{vfHealthy(), vfHealthy()}})
	two := vfSpawned() - before
	b := vfHealthy()
	l := &vfListener{conns: []net.Conn{&net.TCPConn{}, b}}
	a := Agent{Handler: HandlerFunc(vfNop), BaseContext: vfQuietCtx()}
	err := a.Serve(l)
	vfReach("accepted")
	vfAssert(vfSpawned()-before >= 2*two, "a connection is served whether its options can be set or not")
	vfAssert(l.at == 2, "a connection option that cannot be set does not end the accept loop")
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
}

func vfC22_any_error() {
	l := &vfListener{}
	var a Agent
	err := a.Serve(l)
	vfReach("ended")
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
}

// Cancelling the base context closes the listener.
func vfC22_cancelled() {
	vfUnroll()
	ctx, cancel := context.WithCancel(vfQuietCtx())
	l := &vfListener{}
	a := Agent{Handler: HandlerFunc(vfNop), BaseContext: ctx}
	_ = a.Serve(l)
	vfAssert(l.closed == 0, "the listener is left open while the base context is not cancelled")
	cancel()
	vfRunSpawned()
	vfReach("cancelled")
	vfAssert(l.closed > 0, "cancelling the base context closes the listener")
}

// Without a cancelled context nobody closes the listener.
func vfC22_open() {
	vfUnroll()
	l := &vfListener{}
	a := Agent{Handler: HandlerFunc(vfNop), BaseContext: vfQuietCtx()}
	_ = a.Serve(l)
	vfRunSpawned()
	vfReach("waiting")
	vfAssert(l.closed == 0, "the listener is left open while the base context is not cancelled")
}

// vfHandlerContext serves a NOTIFY and returns the context its handler got.
func vfHandlerContext(base context.Context) (*protocolClient, context.Context) {
	var got context.Context
	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, 1, 1, vfNotify())
	h := func(ctx context.Context, _ *vfWriter, _ *vfMessage) {
		vfAssert(ctx.Err() == nil, "the context of a handler is not cancelled while its session goes on")
		got = ctx
	}
	c := newProtocolClient(base, &p, newAsyncScheduler(), HandlerFunc(h))
	_ = c.Serve()
	vfRunSpawned()
	vfAssert(got != nil, "the handler runs")
	if got == nil {
		vfEnd()
	}
	return c, got
}

// The context of a handler ends with its own session, or with the base
// context, and not with another session.
func vfC22_context_closed() {
	vfUnroll()
	base, cancel := context.WithCancel(vfQuietCtx())
	a, actx := vfHandlerContext(base)
	_, bctx := vfHandlerContext(base)
	_ = a.Close()
	vfReach("closed")
	vfAssert(actx.Err() != nil, "the context of a handler ends with its session")
	vfAssert(bctx.Err() == nil, "the context of a handler does not end with another session")
	cancel()
	vfAssert(bctx.Err() != nil, "the context of a handler ends with the base context")
}

func vfC22_context_disconnected() {
	vfUnroll()
	var got context.Context
	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, 1, 1, vfNotify())
	p.send(2, 1, 0, 0, vfStatus(0))
	h := func(ctx context.Context, _ *vfWriter, _ *vfMessage) { got = ctx }
	c := newProtocolClient(vfQuietCtx(), &p, newAsyncScheduler(), HandlerFunc(h))
	_ = c.Serve()
	vfRunSpawned()
	vfReach("disconnected")
	if got != nil {
		vfReach("handled")
		vfAssert(got.Err() != nil, "the context of a handler ends with its session")
	}
}
