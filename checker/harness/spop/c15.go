package spop

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// A session through the agent: the reader, the workers and the goroutine that
// waits for the context share what they share.
func vfC15_agent() {
	vfUnroll()
	vfManyCPUs()
	a, b := &vfConn{}, &vfConn{}
	a.send(1, 1, 0, 0, vfHello(4000))
	a.send(3, 1, 1, 2, vfNotify())
	a.send(3, 1, 3, 4, vfNotify())
	b.send(1, 1, 0, 0, vfHello(5000))
	b.send(3, 1, 1, 2, vfNotify())
	vfAgent(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		_ = w.SetNull(encoding.VarScopeRequest, "x")
	}, a, b)
	vfRunSpawned()
	vfReach("served")
}

// The parameters of a session are used by any number of workers: whatever
// frames follow the hello, they are not written to.
func vfShared(t byte, payload []byte) {
	vfManyCPUs()
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(4000))
	as := newAsyncScheduler()
	vfShare(as)
	c := newProtocolClient(vfQuietCtx(), p, as, HandlerFunc(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		_ = w.SetNull(encoding.VarScopeRequest, "x")
	}))
	_ = c.Serve()
	vfShare(c)
	p.send(t, 1, 1, 2, payload)
	p.send(t, 1, 3, 4, payload)
	_ = c.Serve()
	vfRunSpawned()
	_ = c.Close()
	vfReach("served")
}

func vfC15_notify() {
	vfUnroll()
	vfShared(3, vfNotify())
}

func vfC15_bad_notify() {
	vfUnroll()
	vfShared(3, []byte{1})
}

func vfC15_hello() {
	vfUnroll()
	vfShared(1, vfHello(5000))
}

func vfC15_disconnect() {
	vfUnroll()
	var e vfEnc
	e.uint32("status-code", 0)
	e.str("message", "x")
	vfShared(2, e.b)
}

func vfC15_unknown() {
	vfUnroll()
	t := vfByte()
	vfAssume(t > 3)
	vfShared(t, nil)
}
