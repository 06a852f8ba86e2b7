package peers

import (
	"context"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// A writer is used by any number of goroutines.
func vfMany(f func(w *Writer)) {
	vfUnroll()
	w := newWriter(&vfConn{}, &sync.Mutex{})
	vfShare(w)
	f(w)
	vfReach("sent")
}

func vfC15_entry() {
	vfMany(func(w *Writer) {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		_ = w.SendEntry(e)
	})
}

func vfC15_entries() {
	vfMany(func(w *Writer) {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		_ = w.SendEntries([]*sticktable.EntryUpdate{e, e})
	})
}

func vfC15_entry_fails() {
	vfMany(func(w *Writer) {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		e.Key = &vfFailKey{}
		_ = w.SendEntry(e)
		_ = w.SendEntries([]*sticktable.EntryUpdate{e, e})
	})
}

func vfC15_definition() { vfMany(func(w *Writer) { _ = w.SendTableDefinition(vfIntTable()) }) }
func vfC15_switch()     { vfMany(func(w *Writer) { _ = w.SendTableSwitch(vfUint64()) }) }
func vfC15_flush()      { vfMany(func(w *Writer) { _ = w.Flush() }) }

// A session with its timers, and a handler that pushes from goroutines of its
// own.
func vfC15_session() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	c.send(0, 0, nil)
	c.send(10, 0x82, vfIntDefinition())
	c.send(10, 0x80, []byte{0, 0, 0, 1, 0, 0, 0, 2, 3})
	c.send(0, 0, nil)
	c.send(10, 0x81, []byte{0, 0, 0, 2, 3})
	h := &vfHandler{onUpdate: func(ctx context.Context, e *sticktable.EntryUpdate) {
		w := WriterFromContext(ctx)
		go func() { _ = w.SendEntry(e) }()
		_ = w.SendEntry(e)
	}}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
}
