package spop

import (
	"context"
	"encoding/binary"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vfWire is a connection which checks how frames are written.
type vfWire struct {
	vfPeer
	left     int // bytes of the current frame still to be written
	locked   int // the lock under which the last piece was written
	epoch    int
	piece    bool // a frame was written in pieces
	bare     bool // something was written without a lock
	failAt   int
	failed   bool
	failedIn int
}

func (w *vfWire) Write(b []byte) (int, error) {
	w.writes++
	if w.failAt > 0 && w.writes == w.failAt {
		w.failed = true
		w.failedIn = vfLockEpoch()
		return 0, vfErr()
	}
	lock, epoch := vfLockToken(), vfLockEpoch()
	if lock == 0 {
		w.bare = true
	}
	if w.locked != 0 && lock != 0 {
		vfAssert(lock == w.locked, "all frames of a connection are written under the same lock")
	}
	if lock != 0 {
		w.locked = lock
	}
	if w.left == 0 {
		vfAssert(len(b) >= 4, "a frame starts with its length")
		if len(b) < 4 {
			vfEnd()
		}
		w.left = int(binary.BigEndian.Uint32(b)) + 4
		w.epoch = epoch
	} else {
		vfAssert(epoch == w.epoch && lock != 0, "a frame is written without interruption under one lock")
	}
	vfAssert(len(b) <= w.left, "nothing follows a frame before the next one")
	if len(b) < w.left {
		w.piece = true
	}
	w.left -= len(b)
	vfAssert(!w.piece || !w.bare, "frames of a connection are written under its lock")
	w.out = append(w.out, b...)
	return len(b), nil
}

func vfWhole(w *vfWire) {
	vfReach("written")
	vfAssert(w.left == 0, "every frame is written completely")
	vfAssert(vfLocksHeld() == 0, "the lock of a connection is released after a frame")
}

func vfC12_session() {
	vfUnroll()
	vfTrack("e")
	w := &vfWire{}
	w.send(1, 1, 0, 0, vfHello(16380))
	w.send(3, 1, vfUint64(), vfUint64(), vfNotify())
	w.send(3, 1, vfUint64(), vfUint64(), vfNotify())
	calls := 0
	c := newProtocolClient(vfQuietCtx(), w, newAsyncScheduler(), HandlerFunc(func(_ context.Context, a *encoding.ActionWriter, m *encoding.Message) {
		vfAssert(vfLocksHeld() == 0, "no lock is held while a handler runs")
		calls++
		if calls == 1 {
			_ = a.SetBinary(encoding.VarScopeRequest, "x", vfBytes())
		}
	}))
	vfManyCPUs()
	_ = c.Serve()
	vfWhole(w)
	vfRunSpawned()
	_ = c.Close()
	vfWhole(w)
}

// The disconnect that closes a session does not tear a frame apart either.
func vfC12_disconnect() {
	vfUnroll()
	vfTrack("e")
	w := &vfWire{}
	w.send(1, 1, 0, 0, vfHello(16380))
	c := newProtocolClient(vfQuietCtx(), w, newAsyncScheduler(), HandlerFunc(vfIgnore))
	_ = c.Serve()
	n := len(w.out)
	_ = c.Close()
	vfWhole(w)
	vfAssert(len(w.out) > n, "closing a session sends a disconnect")
	vfHeader(w.out[n:], 102, 0, 0)
}

// After a failed write nothing of the same frame follows.
func vfFailing(n int) {
	vfTrack("el")
	w := &vfWire{}
	w.send(1, 1, 0, 0, vfHello(16380))
	w.send(3, 1, 1, 2, vfNotify())
	c := newProtocolClient(vfQuietCtx(), w, newAsyncScheduler(), HandlerFunc(func(_ context.Context, a *encoding.ActionWriter, m *encoding.Message) {
		_ = a.SetBinary(encoding.VarScopeRequest, "x", vfBytes())
	}))
	_ = c.Serve()
	w.failAt = w.writes + n
	last := w.writes
	vfRunSpawned()
	vfReach("ended")
	if w.failed {
		vfAssert(w.writes == last+n, "nothing of a frame is written after a failed write")
		vfAssert(vfLogged() > 0, "a failed write is reported")
	}
	vfAssert(vfLocksHeld() == 0, "the lock of a connection is released after a failed write")
}

func vfC12_fail_1() { vfUnroll(); vfFailing(1) }
func vfC12_fail_2() { vfUnroll(); vfFailing(2) }
func vfC12_fail_3() { vfUnroll(); vfFailing(3) }
