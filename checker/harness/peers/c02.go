package peers

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

func vfUpdating() *vfConn {
	a := &vfConn{}
	a.hello()
	a.send(10, 0x82, vfDef(1, "one"))
	u := vfSome(0x80)
	a.send(10, 0x80, u.bytes())
	return a
}

func vfC02_handshake() {
	vfUnroll()
	vfBeside(vfUpdating(), func() *vfHandler {
		return &vfHandler{onHandshake: func(context.Context, *Handshake) { panic("handler") }}
	})
}

func vfC02_update() {
	vfUnroll()
	vfBeside(vfUpdating(), func() *vfHandler {
		return &vfHandler{onUpdate: func(context.Context, *sticktable.EntryUpdate) { panic(vfErr()) }}
	})
}

func vfC02_close() {
	vfUnroll()
	vfBeside(vfUpdating(), func() *vfHandler {
		return &vfHandler{onClose: func() error { panic("handler") }}
	})
}

func vfC02_both() {
	vfUnroll()
	vfBeside(vfUpdating(), func() *vfHandler {
		return &vfHandler{
			onUpdate: func(context.Context, *sticktable.EntryUpdate) { panic("handler") },
			onClose:  func() error { panic("handler") },
		}
	})
}

func vfC02_read() {
	vfUnroll()
	vfBeside(&vfConn{readPanic: true}, vfNormal)
}

func vfC02_write() {
	vfUnroll()
	a := vfUpdating()
	a.panicAt = 1
	vfBeside(a, vfNormal)
}

func vfC02_answer() {
	vfUnroll()
	a := vfUpdating()
	a.send(0, 0, nil)
	a.panicAt = 2
	vfBeside(a, vfNormal)
}

// The handler panics when it is closed by a timer.
func vfC02_timer() {
	vfUnroll()
	vfTrack("l")
	c := &vfConn{}
	c.hello()
	h := &vfHandler{onClose: func() error { panic("handler") }}
	c.onRead = func() {
		vfRunSpawned()
		vfReach("silent")
		vfAssert(c.closed > 0, "a connection is closed although its handler panics")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLogged() > 0, "a contained panic is reported")
}

func vfC02_unwritable() {
	vfUnroll()
	vfTrack("l")
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	h := &vfHandler{onClose: func() error { panic("handler") }}
	c.onRead = func() {
		c.failAt = c.writes + 1
		vfRunSpawned()
		vfReach("unwritable")
		vfAssert(c.closed > 0, "a connection is closed although its handler panics")
		vfAssert(vfLogged() > 0, "a contained panic is reported")
		vfAssert(vfLocksHeld() == 0, "no lock is held after a panic")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
}

// A value that panics while it is sent leaves the writer usable.
type vfPanics struct{}

func (*vfPanics) String() string                  { return "" }
func (*vfPanics) Unmarshal(b []byte) (int, error) { panic("value") }
func (*vfPanics) Marshal(b []byte) (int, error)   { panic("value") }

func vfTry(f func()) (ok bool) {
	defer func() { ok = recover() == nil }()
	f()
	return
}

func vfC02_writer() {
	vfUnroll()
	c, w := vfWriter()
	d := vfIntTable()
	e, n, m := vfIntEntry(d, vfBool())
	f := *e
	f.Data = []sticktable.MapData{&vfPanics{}}
	vfTry(func() { _ = w.SendEntry(&f) })
	vfAssert(vfLocksHeld() == 0, "no lock is held after a panic")
	vfTry(func() { _ = w.SendEntries([]*sticktable.EntryUpdate{&f}) })
	vfAssert(vfLocksHeld() == 0, "no lock is held after a panic")
	vfAssert(w.SendEntry(e) == nil, "the writer can be used after a panic")
	vfSent(c, vfLayout(nil, 0, e, n, m))
}
