package peers

import (
	"context"
	"io"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vfLine is a connection which checks how messages are written.
type vfLine struct {
	vfConn
	cur    []byte // the message being written
	hello  bool   // the answer to the handshake comes first
	token  int    // the lock under which everything is written
	epoch  int
	count  int
	failed bool
	inside bool
}

func (l *vfLine) Write(b []byte) (int, error) {
	lock, epoch := vfLockToken(), vfLockEpoch()
	vfAssert(lock != 0, "everything is written under the lock of the connection")
	if lock == 0 {
		vfEnd()
	}
	if l.token != 0 {
		vfAssert(lock == l.token, "everything is written under the same lock")
	}
	l.token = lock
	if len(l.cur) > 0 {
		vfAssert(epoch == l.epoch, "a message is written without interruption")
	}
	vfAssert(!l.failed || epoch != l.epoch, "nothing of the same message follows a failed write")
	l.epoch = epoch
	l.writes++
	if l.failAt > 0 && l.failAt <= l.writes {
		l.failed = true
		return 0, vfErr()
	}
	l.out = append(l.out, b...)
	l.cur = append(l.cur, b...)
	if l.hello {
		if len(l.cur) >= 4 {
			l.done(4)
			l.hello = false
		}
		return len(b), nil
	}
	if len(l.cur) < 2 {
		return len(b), nil
	}
	if l.cur[1] < 128 {
		l.done(2)
		return len(b), nil
	}
	if len(l.cur) > 2 {
		n, k, err := encoding.Varint(l.cur[2:])
		if err == nil && len(l.cur) >= 2+k+int(n) {
			l.done(2 + k + int(n))
		}
	}
	return len(b), nil
}

func (l *vfLine) done(n int) {
	vfAssert(len(l.cur) == n, "nothing follows a message in the same write")
	l.cur = nil
	l.count++
}

// vfFlush is called where buffered data is handed over.
func (l *vfLine) vfFlush() error {
	lock := vfLockToken()
	vfAssert(lock != 0 && (l.token == 0 || lock == l.token), "data is handed over under the lock of the connection")
	return l.vfConn.vfFlush()
}

func (l *vfLine) whole(n int) {
	vfReach("written")
	vfAssert(l.count == n, "every message is written")
	vfAssert(len(l.cur) == 0, "every message is written completely")
	vfAssert(!vfUnflushed(), "messages are flushed")
	vfAssert(vfLocksHeld() == 0, "the lock of the connection is released")
}

func vfLineWriter() (*vfLine, *Writer) {
	vfUnroll()
	vfTrack("e")
	l := &vfLine{}
	return l, newWriter(l, &sync.Mutex{})
}

func vfC12_definition() {
	l, w := vfLineWriter()
	if w.SendTableDefinition(vfIntTable()) == nil {
		l.whole(1)
	}
}

func vfC12_switch() {
	l, w := vfLineWriter()
	if w.SendTableSwitch(vfUint64()) == nil {
		l.whole(1)
	}
}

func vfC12_entry() {
	l, w := vfLineWriter()
	e, _, _ := vfIntEntry(vfIntTable(), vfBool())
	if w.SendEntry(e) == nil {
		l.whole(1)
	}
	if w.SendEntry(e) == nil {
		l.whole(2)
	}
}

func vfC12_entries() {
	l, w := vfLineWriter()
	e, _, _ := vfIntEntry(vfIntTable(), vfBool())
	f, _, _ := vfIntEntry(vfIntTable(), vfBool())
	if w.SendEntries([]*sticktable.EntryUpdate{e, f}) == nil {
		l.whole(2)
	}
}

// A failed write is reported, and nothing of the same message follows it.
func vfBrokenLine(n int) {
	for i := 0; i < 4; i++ {
		l, w := vfLineWriter()
		l.failAt = n
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		var err error
		switch i {
		case 0:
			err = w.SendTableDefinition(vfIntTable())
		case 1:
			err = w.SendTableSwitch(vfUint64())
		case 2:
			err = w.SendEntry(e)
		case 3:
			err = w.SendEntries([]*sticktable.EntryUpdate{e, e})
		}
		vfReach("failed")
		vfAssert(l.failed == (err != nil), "a failed write is reported")
		vfAssert(vfLocksHeld() == 0, "the lock of the connection is released")
	}
}

func vfC12_fails_1() { vfUnroll(); vfBrokenLine(1) }
func vfC12_fails_2() { vfUnroll(); vfBrokenLine(2) }
func vfC12_fails_3() { vfUnroll(); vfBrokenLine(3) }

func vfUnhanded(send func(w *Writer) error) {
	l, w := vfLineWriter()
	l.failFlush = 1
	vfAssert(send(w) != nil, "what was not handed over is not reported as sent")
	vfReach("failed")
	vfAssert(vfLocksHeld() == 0, "the lock of the connection is released")
}

func vfC12_flush_definition() {
	vfUnhanded(func(w *Writer) error { return w.SendTableDefinition(vfIntTable()) })
}

func vfC12_flush_switch() {
	vfUnhanded(func(w *Writer) error { return w.SendTableSwitch(vfUint64()) })
}

func vfC12_flush_entry() {
	vfUnhanded(func(w *Writer) error {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		return w.SendEntry(e)
	})
}

func vfC12_flush_entries() {
	vfUnhanded(func(w *Writer) error {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		return w.SendEntries([]*sticktable.EntryUpdate{e})
	})
}

func vfC12_flush() {
	vfUnhanded(func(w *Writer) error { return w.Flush() })
}

// A session: the answer to the handshake, the answer to a request, the
// heartbeat and what the handler pushes share one lock.
func vfC12_session() {
	vfUnroll()
	vfTrack("e")
	l := &vfLine{hello: true}
	l.in = append(l.in, vfHello...)
	l.send(10, 0x82, vfIntDefinition())
	l.send(10, 0x80, []byte{0, 0, 0, 1, 0, 0, 0, 2, 3})
	l.send(0, 0, nil)
	pushed := 0
	h := &vfHandler{onUpdate: func(ctx context.Context, e *sticktable.EntryUpdate) {
		if WriterFromContext(ctx).SendEntry(e) == nil {
			pushed++
		}
	}}
	l.onRead = func() { vfRunSpawned() }
	vfServe(h, l)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(pushed == 1, "an update is pushed back")
	vfAssert(len(l.cur) == 0, "every message is written completely")
	vfAssert(l.count >= 3, "every message is written")
	vfAssert(!vfUnflushed(), "messages are flushed")
}

// A batch that fails leaves what it has written before, and nothing written
// later may overtake that.
func vfC12_failed_batch() {
	vfUnroll()
	vfTrack("e")
	l := &vfLine{hello: true}
	l.in = append(l.in, vfHello...)
	l.send(10, 0x82, vfIntDefinition())
	l.send(10, 0x80, []byte{0, 0, 0, 1, 0, 0, 0, 2, 3})
	l.send(0, 0, nil)
	h := &vfHandler{onUpdate: func(ctx context.Context, e *sticktable.EntryUpdate) {
		bad, _, _ := vfIntEntry(e.StickTable, false)
		bad.Key = new(vfBadKey)
		vfAssert(WriterFromContext(ctx).SendEntries([]*sticktable.EntryUpdate{e, bad}) != nil, "a batch fails when an entry cannot be encoded")
	}}
	l.onRead = func() { vfRunSpawned() }
	vfServe(h, l)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(len(l.cur) == 0, "every message is written completely")
}

type vfBadKey struct{ sticktable.SignedIntegerKey }

func (*vfBadKey) Marshal([]byte, uint64) (int, error) { return 0, io.ErrShortBuffer }

// vfIntDefinition is the message for vfIntTable.
func vfIntDefinition() []byte {
	b := make([]byte, 64)
	n, err := vfIntTable().Marshal(b)
	vfAssert(err == nil, "a definition is encoded")
	return b[:n]
}
