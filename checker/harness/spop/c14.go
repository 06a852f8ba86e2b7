package spop

import (
	"context"
	"encoding/binary"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// A queue is used through newQueue, Put and Get. What it returns is compared
// with a list, for every sequence of puts and takes.

type vfItem struct {
	f *frame
	c *protocolClient
}

func vfNew() vfItem { return vfItem{&frame{}, &protocolClient{}} }

func vfPut(q *queue, i vfItem) { q.Put(i.f, i.c) }

func vfTake(q *queue, want vfItem) {
	e := q.Get()
	vfAssert(e.f == want.f, "frames are taken out in the order in which they were put in, each once")
	vfAssert(e.pc == want.c, "a frame is taken out with the connection it came from")
}

// vfAlone fails when a call waits that need not wait.
func vfAlone() {
	vfOnWait(func() { vfAssert(false, "a call waits although it could proceed") })
}

func vfSequence(cap, steps int) {
	vfUnroll()
	q := newQueue(cap)
	var list []vfItem
	vfAlone()
	for i := 0; i < steps; i++ {
		switch put := vfBool(); {
		case put && len(list) < cap:
			n := vfNew()
			vfPut(q, n)
			list = append(list, n)
		case !put && len(list) > 0:
			vfTake(q, list[0])
			list = list[1:]
		default:
			vfEnd()
		}
	}
	vfReach("sequence")
	for len(list) > 0 {
		vfTake(q, list[0])
		list = list[1:]
	}
	vfReach("emptied")
	vfAssert(vfLocksHeld() == 0, "the lock of the queue is released")
}

func vfC14_one()   { vfSequence(1, 6) }
func vfC14_two()   { vfSequence(2, 9) }
func vfC14_three() { vfSequence(3, 7) }

// vfFilled returns a queue at any of its positions that holds n frames.
func vfFilled(cap, n int) (*queue, []vfItem) {
	q := newQueue(cap)
	for i := 0; i < cap; i++ {
		if vfBool() {
			break
		}
		k := vfNew()
		vfPut(q, k)
		vfTake(q, k)
	}
	var list []vfItem
	for i := 0; i < n; i++ {
		k := vfNew()
		vfPut(q, k)
		list = append(list, k)
	}
	return q, list
}

// A full queue takes no more until something is taken out, and then what was
// put in first comes out first.
func vfFull(cap int) {
	vfUnroll()
	q, list := vfFilled(cap, cap)
	waits := 0
	vfOnWait(func() {
		waits++
		if waits == 1 {
			vfTake(q, list[0])
			list = list[1:]
			vfAssert(vfSignalled(), "taking a frame wakes who waits to put one")
		}
	})
	k := vfNew()
	vfPut(q, k)
	vfReach("put")
	vfAssert(waits == 1, "a full queue takes no more")
	vfAlone()
	for _, i := range list {
		vfTake(q, i)
	}
	vfTake(q, k)
	vfReach("emptied")
}

func vfC14_full_1() { vfFull(1) }
func vfC14_full_2() { vfFull(2) }
func vfC14_full_3() { vfFull(3) }

// Somebody else takes the place that became free.
func vfC14_full_stolen() {
	vfUnroll()
	q, list := vfFilled(2, 2)
	waits := 0
	other := vfNew()
	vfOnWait(func() {
		waits++
		vfTake(q, list[0])
		list = list[1:]
		if waits == 1 {
			vfPut(q, other)
			list = append(list, other)
		}
	})
	k := vfNew()
	vfPut(q, k)
	vfReach("put")
	vfAssert(waits == 2, "a full queue takes no more")
	vfAlone()
	vfTake(q, list[0])
	vfTake(q, k)
	vfReach("emptied")
}

// Who waits for a frame gets the one that is put in.
func vfEmpty(cap int) {
	vfUnroll()
	q, _ := vfFilled(cap, 0)
	waits := 0
	k := vfNew()
	vfOnWait(func() {
		waits++
		if waits == 1 {
			vfPut(q, k)
			vfAssert(vfSignalled(), "putting a frame wakes who waits for one")
		}
	})
	vfTake(q, k)
	vfReach("taken")
	vfAssert(waits == 1, "an empty queue returns nothing")
}

func vfC14_empty_1() { vfEmpty(1) }
func vfC14_empty_2() { vfEmpty(2) }
func vfC14_empty_3() { vfEmpty(3) }

// Somebody else takes the frame that was put in.
func vfC14_empty_stolen() {
	vfUnroll()
	q, _ := vfFilled(2, 0)
	waits := 0
	var k vfItem
	vfOnWait(func() {
		waits++
		if waits > 2 {
			return
		}
		k = vfNew()
		vfPut(q, k)
		if waits == 1 {
			vfTake(q, k)
		}
	})
	e := q.Get()
	vfReach("taken")
	vfAssert(e.f == k.f && e.pc == k.c, "a frame is taken out once")
	vfAssert(waits == 2, "an empty queue returns nothing")
}

// Every put wakes somebody, however full the queue is: several may wait.
func vfC14_every_put_wakes() {
	vfUnroll()
	q, _ := vfFilled(3, 0)
	var list []vfItem
	vfOnWait(func() {
		if len(list) > 0 {
			return
		}
		for i := 0; i < 3; i++ {
			vfClearSignals()
			k := vfNew()
			vfPut(q, k)
			list = append(list, k)
			vfAssert(vfSignalled(), "every put wakes one who waits for a frame")
		}
	})
	e := q.Get()
	vfReach("taken")
	vfAssert(e.f == list[0].f, "frames are taken out in order")
}

func vfC14_every_take_wakes() {
	vfUnroll()
	q, list := vfFilled(3, 3)
	vfOnWait(func() {
		if len(list) == 0 {
			return
		}
		for len(list) > 0 {
			vfClearSignals()
			vfTake(q, list[0])
			list = list[1:]
			vfAssert(vfSignalled(), "every take wakes one who waits to put a frame")
		}
	})
	k := vfNew()
	vfPut(q, k)
	vfReach("put")
	vfTake(q, k)
}

// The scheduler hands each frame to its own connection, once.
func vfC14_scheduled() {
	vfUnroll()
	vfManyCPUs()
	a, b := &vfConn{}, &vfConn{}
	a.send(1, 1, 0, 0, vfHello(4000))
	b.send(1, 1, 0, 0, vfHello(5000))
	a.send(3, 1, 11, 12, vfNotify())
	a.send(3, 1, 13, 14, vfNotify())
	b.send(3, 1, 21, 22, vfNotify())
	calls := 0
	vfAgent(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) { calls++ }, a, b)
	vfRunSpawned()
	vfReach("served")
	vfAssert(calls == 3, "every frame is handled once")
	x := vfAcks(vfHelloSent(a.out, 4000))
	y := vfAcks(vfHelloSent(b.out, 5000))
	vfAssert(len(x) == 2 && len(y) == 1, "every frame is answered once, on its own connection")
	if len(x) == 2 && len(y) == 1 {
		vfReach("answered")
		vfAssert(x[0] == 11 && x[1] == 13 || x[0] == 13 && x[1] == 11, "every frame is answered on its own connection")
		vfAssert(y[0] == 21, "every frame is answered on its own connection")
	}
}

// vfAcks lists the streams that were answered.
func vfAcks(out []byte) []byte {
	var ids []byte
	for len(out) > 4 {
		n := int(binary.BigEndian.Uint32(out)) + 4
		vfAssert(len(out) >= n, "frames are complete")
		if len(out) < n {
			vfEnd()
		}
		if out[4] == 103 {
			ids = append(ids, out[9])
		}
		out = out[n:]
	}
	return ids
}

// A signal reaches the other side: who waits for a frame is not woken, instead
// of who waits for a place, by the wrong one.
func vfC14_right_side() {
	vfUnroll()
	q, list := vfFilled(2, 2)
	putter, getter, all := 0, 0, false
	vfOnWait(func() {
		putter = vfWaiting()
		vfTake(q, list[0])
		all = vfSignalledAll()
	})
	vfPut(q, vfNew())
	vfOnWait(func() {
		getter = vfWaiting()
		vfPut(q, vfNew())
		all = all && vfSignalledAll()
	})
	q.Get()
	q.Get()
	q.Get()
	vfReach("both sides waited")
	vfAssert(putter != getter || all, "a signal may wake one of the wrong side only")
}
