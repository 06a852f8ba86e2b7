package spop

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// Whatever fails or panics in a session, no lock remains held, none is held
// while the handler runs and none is taken twice.
func vfLocks(p *vfConn, h HandlerFunc) {
	vfManyCPUs()
	vfAgent(h, p)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLocksHeld() == 0, "every lock is released, whatever happens")
}

func vfLockHandler(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	vfAssert(vfLocksHeld() == 0, "no lock is held while a handler runs")
	if vfBool() {
		panic("handler")
	}
	_ = w.SetNull(encoding.VarScopeRequest, "x")
}

func vfWriteAt(n int) {
	vfUnroll()
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(4000))
	p.send(3, 1, 1, 2, vfNotify())
	p.send(3, 1, 3, 4, vfNotify())
	if vfBool() {
		p.writePanic = n
	} else {
		p.failAt = n
	}
	vfLocks(p, vfLockHandler)
}

func vfC13_write_3() { vfWriteAt(3) }
func vfC13_write_4() { vfWriteAt(4) }
func vfC13_write_5() { vfWriteAt(5) }
func vfC13_write_6() { vfWriteAt(6) }
func vfC13_write_7() { vfWriteAt(7) }
func vfC13_write_8() { vfWriteAt(8) }

// The queue, also when it is full or empty.
func vfC13_queue() {
	vfUnroll()
	q, list := vfFilled(2, 2)
	vfOnWait(func() {
		vfAssert(vfLocksHeld() == 0, "the lock of the queue is free while somebody waits")
		vfTake(q, list[0])
		vfAssert(vfLocksHeld() == 0, "the lock of the queue is released")
	})
	vfPut(q, vfNew())
	vfAssert(vfLocksHeld() == 0, "the lock of the queue is released")
	q.Get()
	q.Get()
	vfAssert(vfLocksHeld() == 0, "the lock of the queue is released")
	vfOnWait(func() {
		vfAssert(vfLocksHeld() == 0, "the lock of the queue is free while somebody waits")
		vfPut(q, vfNew())
		vfAssert(vfLocksHeld() == 0, "the lock of the queue is released")
	})
	q.Get()
	vfReach("waited")
	vfAssert(vfLocksHeld() == 0, "the lock of the queue is released")
}
