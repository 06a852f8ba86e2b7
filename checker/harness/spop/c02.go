package spop

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vfGoesOn: a frame whose processing panics, followed by a healthy NOTIFY of
// the same connection and one of another connection.
func vfGoesOn(first *vfConn, panicAt int) {
	vfManyCPUs()
	vfTrack("l")
	first.send(3, 1, 3, 4, vfNotify())
	second := vfHealthy()
	second.in = nil
	second.send(1, 1, 0, 0, vfHello(3000))
	second.send(3, 1, 5, 6, vfNotify())
	calls, good := 0, 0
	vfAgent(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		if calls == panicAt {
			panic("handler")
		}
		vfAssert(w.SetNull(encoding.VarScopeRequest, "x") == nil, "actions are written")
		good++
	}, first, second)
	vfRunSpawned()
	vfReach("served")
	vfAssert(vfLocksHeld() == 0, "no lock is held after a panic")
	vfAssert(vfLogged() > 0, "a contained panic is reported")
	vfAssert(good == 2, "the workers shared by all connections go on after a panic")
	vfAssert(first.closed > 0 && second.closed > 0, "connections are closed when their sessions end")
	rest := vfHelloSent(second.out, 3000)
	vfAckLast(rest, 5, 6)
}

// vfAckLast: the output ends with the ACK for a frame.
func vfAckLast(out []byte, stream, id uint64) {
	const n = 4 + 1 + 4 + 1 + 1 + 6
	vfAssert(len(out) >= n, "a NOTIFY is answered although another one failed")
	if len(out) < n {
		vfEnd()
	}
	p := vfHeader(out[len(out)-n:], 103, stream, id)
	var x vfEnc
	x.byte(1)
	x.byte(3)
	x.byte(3)
	x.bytes("x")
	x.byte(0)
	vfAssertSame(p, x.b, "the answer has the actions of its own NOTIFY")
}

// A handler panics in the first or the second message of a NOTIFY.
func vfC02_handler() {
	vfUnroll()
	c := &vfConn{}
	c.send(1, 1, 0, 0, vfHello(2000))
	c.send(3, 1, 1, 2, vfNotify())
	vfGoesOn(c, 1)
}

func vfC02_handler_reading() {
	vfUnroll()
	vfManyCPUs()
	vfTrack("l")
	c := &vfConn{}
	c.send(1, 1, 0, 0, vfHello(2000))
	var e vfEnc
	e.bytes("one")
	e.byte(1)
	e.str("a", vfString())
	e.bytes("two")
	e.byte(1)
	e.str("a", vfString())
	vfAssume(len(e.b) <= 1000)
	c.send(3, 1, 1, 2, e.b)
	c.send(3, 1, 5, 6, vfNotify())
	calls := 0
	vfAgent(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		k := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(k)
		if calls == 2 {
			m.KV.Next(k)
			panic(vfErr())
		}
		vfAssert(w.SetNull(encoding.VarScopeRequest, "x") == nil, "actions are written")
	}, c)
	vfRunSpawned()
	vfReach("served")
	vfAssert(calls == 3, "the workers go on after a panic")
	vfAssert(vfLogged() > 0, "a contained panic is reported")
	vfAssert(vfLocksHeld() == 0, "no lock is held after a panic")
	vfAckLast(vfHelloSent(c.out, 2000), 5, 6)
}

// A second hello panics inside the library.
func vfC02_second_hello() {
	vfUnroll()
	c := &vfConn{}
	c.send(1, 1, 0, 0, vfHello(2000))
	c.send(1, 1, 0, 0, vfHello(2000))
	vfGoesOn(c, -1)
}

// Any write of a connection panics: nothing escapes, and the next answer can
// be written. The last frame of a connection is not looked at here.
func vfWritePanics(n int) {
	vfManyCPUs()
	vfTrack("l")
	c := &vfConn{}
	c.send(1, 1, 0, 0, vfHello(2000))
	c.send(3, 1, 1, 2, vfNotify())
	c.send(3, 1, 5, 6, vfNotify())
	p := newProtocolClient(vfQuietCtx(), c, newAsyncScheduler(), HandlerFunc(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		vfAssert(vfLocksHeld() == 0, "no lock is held while a handler runs")
		_ = w.SetNull(encoding.VarScopeRequest, "x")
	}))
	_ = p.Serve()
	w := c.writes
	c.writePanic = c.writes + n
	vfRunSpawned()
	vfReach("served")
	vfAssert(vfLocksHeld() == 0, "no lock is held after a panic")
	vfAssert(vfLogged() > 0 || c.writes < w+n, "a contained panic is reported")
	if n <= 1 {
		vfAckLast(c.out, 5, 6)
	}
}

func vfC02_write_1() { vfUnroll(); vfWritePanics(1) }
func vfC02_write_2() { vfUnroll(); vfWritePanics(2) }
func vfC02_write_3() { vfUnroll(); vfWritePanics(3) }
func vfC02_write_4() { vfUnroll(); vfWritePanics(4) }

func vfHelloPanics(n int) {
	vfTrack("l")
	c := &vfConn{writePanic: n}
	c.send(1, 1, 0, 0, vfHello(2000))
	d := vfHealthy()
	calls := 0
	vfAgent(func(context.Context, *vfWriter, *vfMessage) { calls++ }, c, d)
	vfRunSpawned()
	vfReach("served")
	vfAssert(vfLogged() > 0 || c.writes < n, "a contained panic is reported")
	vfAssert(calls == 1 && d.closed > 0, "other connections go on after a panic")
	vfAssert(c.closed > 0, "a connection whose session panics is closed")
	vfAssert(vfLocksHeld() == 0, "no lock is held after a panic")
}

func vfC02_hello_1() { vfUnroll(); vfHelloPanics(1) }

func vfC02_read() {
	vfUnroll()
	vfTrack("l")
	c := &vfConn{readPanic: true}
	d := vfHealthy()
	calls := 0
	vfAgent(func(context.Context, *vfWriter, *vfMessage) { calls++ }, c, d)
	vfRunSpawned()
	vfReach("served")
	vfAssert(c.closed > 0, "a connection whose session panics is closed")
	vfAssert(vfLogged() > 0, "a contained panic is reported")
	vfAssert(calls == 1 && d.closed > 0, "other connections go on after a panic")
}
