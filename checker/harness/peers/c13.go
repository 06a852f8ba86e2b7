package peers

import (
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vfUnlocked calls f, which may panic, and checks that no lock remains held.
func vfUnlocked(f func()) {
	vfTry(f)
	vfReach("returned")
	vfAssert(vfLocksHeld() == 0, "every lock is released, whatever happens")
}

type vfPanicKey struct{}

func (*vfPanicKey) String() string                            { return "" }
func (*vfPanicKey) Unmarshal(b []byte, n uint64) (int, error) { panic("value") }
func (*vfPanicKey) Marshal(b []byte, n uint64) (int, error)   { panic("value") }

type vfFailKey struct{}

func (*vfFailKey) String() string                            { return "" }
func (*vfFailKey) Unmarshal(b []byte, n uint64) (int, error) { return 0, vfNoMore }
func (*vfFailKey) Marshal(b []byte, n uint64) (int, error)   { return 0, vfNoMore }

func vfEvery(f func(c *vfConn, w *Writer)) {
	vfUnroll()
	c := &vfConn{}
	w := newWriter(c, &sync.Mutex{})
	switch {
	case vfBool():
		c.panicAt = 1
	case vfBool():
		c.failAt = 1
	case vfBool():
		c.failFlush = 1
	}
	vfUnlocked(func() { f(c, w) })
	vfUnlocked(func() { f(c, w) })
}

func vfC13_entry() {
	vfEvery(func(c *vfConn, w *Writer) {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		switch {
		case vfBool():
			e.Key = &vfPanicKey{}
		case vfBool():
			e.Key = &vfFailKey{}
		case vfBool():
			e.StickTable = nil
		case vfBool():
			e = nil
		}
		_ = w.SendEntry(e)
	})
}

func vfC13_entries() {
	vfEvery(func(c *vfConn, w *Writer) {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		f, _, _ := vfIntEntry(vfIntTable(), vfBool())
		switch {
		case vfBool():
			f.Key = &vfPanicKey{}
		case vfBool():
			e.Key = &vfFailKey{}
		case vfBool():
			f = nil
		}
		_ = w.SendEntries([]*sticktable.EntryUpdate{e, f})
	})
}

func vfC13_definition() {
	vfEvery(func(c *vfConn, w *Writer) {
		d := vfIntTable()
		switch {
		case vfBool():
			d = nil
		case vfBool():
			d.DataTypes[0].DataType = 63
		}
		_ = w.SendTableDefinition(d)
	})
}

func vfC13_switch() {
	vfEvery(func(c *vfConn, w *Writer) { _ = w.SendTableSwitch(vfUint64()) })
}

func vfC13_flush() {
	vfEvery(func(c *vfConn, w *Writer) { _ = w.Flush() })
}

// A session: the answer to the handshake, to a request and the heartbeat, each
// of which may fail or panic, and pushes from the handler.
func vfWholeSession(n int) {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	c.send(0, 0, nil)
	c.send(0, 0, nil)
	switch {
	case vfBool():
		c.panicAt = n
	case vfBool():
		c.failAt = n
	default:
		c.failFlush = n
	}
	vfServe(&vfHandler{}, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLocksHeld() == 0, "every lock is released, whatever happens")
}

func vfC13_session_1() { vfWholeSession(1) }
func vfC13_session_2() { vfWholeSession(2) }
func vfC13_session_3() { vfWholeSession(3) }
func vfC13_session_4() { vfWholeSession(4) }
