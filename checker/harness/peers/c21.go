package peers

import (
	"context"
	"errors"
	"io"
	"net"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vfClosed: the session has ended completely.
func vfClosed(c *vfConn, h *vfHandler) {
	vfReach("ended")
	vfAssert(h.closes == 1, "the handler is closed exactly once")
	vfAssert(c.closed > 0, "the connection is closed when its session ends")
	vfAssert(vfTimers() == 0, "the timers of a session stop when it ends")
	// one goroutine waits for the base context
	vfAssert(vfBlocked() <= 1, "the goroutines of a session stop when it ends")
}

// The first thing on a connection is the handshake.
func vfC21_handshake() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	h := &vfHandler{}
	var sctx context.Context
	h.onHandshake = func(ctx context.Context, s *Handshake) {
		sctx = ctx
		vfAssert(len(c.out) == 0, "the handshake is answered after the handler has seen it")
		vfAssert(c.at == len(vfHello), "exactly the three lines of the handshake are read")
		vfAssert(s.ProtocolIdentifier == "HAProxyS", "the handler gets the protocol of the handshake")
		vfAssert(s.Version == "2.1", "the handler gets the version of the handshake")
		vfAssert(s.RemotePeer == "me", "the handler gets the names of the handshake")
		vfAssert(s.LocalPeerIdentifier == "him", "the handler gets the names of the handshake")
		vfAssert(s.ProcessID == 7 && s.RelativeProcessID == 3, "the handler gets the process of the handshake")
		vfReach("handshake")
	}
	c.onRead = func() {
		vfReach("waiting")
		vfAssert(!vfUnflushed(), "the answer is handed over before more is awaited")
	}
	_, err := vfServe(h, c)
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
	vfRunSpawned()
	vfAssert(h.handshakes == 1, "a session has one handshake")
	vfAssert(len(c.out) >= 4, "a handshake is answered")
	if len(c.out) >= 4 {
		vfAssertSame(c.out[:4], []byte(vfOK), "a handshake is answered with status 200")
	}
	vfAssert(sctx != nil, "the handler gets the context of the session")
	if sctx != nil {
		vfAssert(vfDone(sctx), "the context of a session ends with it")
	}
	vfClosed(c, h)
}

// Nothing is answered, and no handler runs, without a complete handshake.
func vfTruncated(n int) {
	vfTrack("t")
	c := &vfConn{in: []byte(vfHello[:n])}
	h := &vfHandler{}
	vfServe(h, c)
	vfRunSpawned()
	vfAssert(h.handshakes == 0, "an incomplete handshake is not handed to the handler")
	vfAssert(len(c.out) == 0, "an incomplete handshake is not answered")
	vfClosed(c, h)
}

func vfC21_truncated_0()  { vfUnroll(); vfTruncated(0) }
func vfC21_truncated_13() { vfUnroll(); vfTruncated(13) }
func vfC21_truncated_16() { vfUnroll(); vfTruncated(16) }
func vfC21_truncated_5()  { vfUnroll(); vfTruncated(5) }

// Messages right behind the handshake are not lost.
func vfC21_following() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	c.send(0, 0, nil)
	h := &vfHandler{}
	vfServe(h, c)
	vfRunSpawned()
	vfAssertSame(c.out, []byte(vfOK+"\x00\x02"), "the message following the handshake is read")
	vfClosed(c, h)
}

// A session that ends on errors of any kind.
func vfFails(c *vfConn, h *vfHandler) {
	vfTrack("t")
	vfServe(h, c)
	vfRunSpawned()
	vfClosed(c, h)
}

func vfC21_read_fails() {
	vfUnroll()
	c := &vfConn{readErr: io.ErrNoProgress}
	c.hello()
	vfFails(c, &vfHandler{})
}

func vfC21_read_fails_first() {
	vfUnroll()
	vfFails(&vfConn{readErr: io.ErrNoProgress}, &vfHandler{})
}

func vfC21_read_panics() {
	vfUnroll()
	c := &vfConn{readPanic: true}
	c.hello()
	vfFails(c, &vfHandler{})
}

func vfC21_write_fails() {
	vfUnroll()
	c := &vfConn{failAt: 1}
	c.hello()
	vfFails(c, &vfHandler{})
}

func vfC21_flush_fails() {
	vfUnroll()
	c := &vfConn{failFlush: 1}
	c.hello()
	vfFails(c, &vfHandler{})
}

func vfC21_write_panics() {
	vfUnroll()
	c := &vfConn{panicAt: 1}
	c.hello()
	vfFails(c, &vfHandler{})
}

func vfC21_handshake_panics() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	vfFails(c, &vfHandler{onHandshake: func(context.Context, *Handshake) { panic("handler") }})
}

func vfC21_update_panics() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	c.send(10, 0x82, vfDefinition)
	c.send(10, 0x80, vfEntry)
	h := &vfHandler{onUpdate: func(context.Context, *sticktable.EntryUpdate) { panic("handler") }}
	vfFails(c, h)
	vfAssert(h.updates == 1, "an update is handed to the handler")
}

func vfC21_close_panics() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	vfFails(c, &vfHandler{onClose: func() error { panic("handler") }})
}

func vfC21_close_fails() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	vfFails(c, &vfHandler{onClose: func() error { return io.ErrNoProgress }})
}

func vfC21_bad_message() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	class, t := vfByte(), vfByte()
	vfAssume(t < 128)
	c.send(class, t, nil)
	vfFails(c, &vfHandler{})
}

func vfC21_unknown_class() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	class, t := vfByte(), vfByte()
	vfAssume(t >= 128 && class != 10)
	c.send(class, t, vfBytes())
	vfFails(c, &vfHandler{})
}

func vfC21_unknown_type() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	t := vfByte()
	vfAssume(t >= 128 && t != 0x82)
	c.send(10, t, vfBytes())
	vfFails(c, &vfHandler{})
}

func vfC21_truncated_definition() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	c.send(10, 0x82, vfDefinition[:4])
	vfFails(c, &vfHandler{})
}

// A peer that sends nothing is disconnected.
func vfC21_silent() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	h := &vfHandler{}
	c.onRead = func() {
		vfRunSpawned()
		vfReach("silent")
		vfAssert(c.closed > 0, "a silent peer is disconnected")
		vfAssert(h.closes == 1, "the handler of a silent peer is closed once")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfAssert(h.closes == 1, "the handler is closed exactly once")
}

// A peer that cannot be written to is disconnected, even if it still sends.
func vfC21_unwritable() {
	vfUnroll()
	vfTrack("t")
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	h := &vfHandler{}
	c.onRead = func() {
		c.failAt = c.writes + 1
		vfRunSpawned()
		vfReach("unwritable")
		vfAssert(c.closed > 0, "a peer that cannot be written to is disconnected")
		vfAssert(h.closes == 1, "the handler of a dead peer is closed once")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfClosed(c, h)
}

// Every message is a sign of life.
func vfC21_alive() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	c.send(0, 4, nil)
	c.send(0, 1, nil)
	c.send(10, 0x82, vfDefinition)
	h := &vfHandler{}
	c.onRead = func() {
		vfReach("read")
		vfAssert(!vfUnflushed(), "the answer is handed over before more is awaited")
		vfAssert(vfArmed() >= 4, "every message restarts the timer of a silent peer")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfClosed(c, h)
}

// vfDefinition is a table of integer keys with one counter.
var vfDefinition = []byte{1, 1, 't', 2, 4, 2, 0}

// vfEntry is an update of an integer key.
var vfEntry = []byte{0, 0, 0, 1, 0, 0, 0, 7, 9}

// A peer is sent a heartbeat after three seconds, and one that has sent
// nothing for five seconds is disconnected.
func vfC21_intervals() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	h := &vfHandler{}
	served := false
	c.onWrite = func() {
		if served {
			vfReach("heartbeat")
			vfAssert(vfExpired() == 3000000000, "a heartbeat is sent every three seconds")
		}
	}
	h.onClose = func() error {
		vfReach("dead")
		vfAssert(vfExpired() == 5000000000, "a peer is dead after five seconds of silence")
		return nil
	}
	c.onRead = func() {
		served = true
		vfRunSpawned()
	}
	vfServe(h, c)
	vfRunSpawned()
}

// The same holds after messages have restarted the timers.
func vfC21_intervals_later() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	c.send(0, 4, nil)
	c.send(0, 4, nil)
	h := &vfHandler{}
	h.onClose = func() error {
		vfReach("dead")
		vfAssert(vfExpired() == 5000000000, "a peer is dead after five seconds of silence")
		return nil
	}
	c.onRead = func() {
		vfRunSpawned()
	}
	vfServe(h, c)
	vfRunSpawned()
}

// A handler that fails to close keeps no connection open.
func vfSilentClose(c *vfConn, h *vfHandler, write bool) {
	vfTrack("t")
	c.hello()
	c.onRead = func() {
		if write {
			c.failAt = c.writes + 1
		}
		vfRunSpawned()
		vfReach("gone")
		vfAssert(c.closed > 0, "a dead peer is disconnected, whatever its handler does")
		vfAssert(h.closes == 1, "the handler of a dead peer is closed once")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfAssert(h.closes == 1, "the handler is closed exactly once")
}

func vfC21_silent_close_panics() {
	vfUnroll()
	vfSilentClose(&vfConn{}, &vfHandler{onClose: func() error { panic("handler") }}, false)
}

func vfC21_silent_close_fails() {
	vfUnroll()
	vfSilentClose(&vfConn{}, &vfHandler{onClose: func() error { return io.ErrNoProgress }}, false)
}

func vfC21_unwritable_close_panics() {
	vfUnroll()
	vfQuietTimers()
	vfSilentClose(&vfConn{}, &vfHandler{onClose: func() error { panic("handler") }}, true)
}

func vfC21_unwritable_close_fails() {
	vfUnroll()
	vfQuietTimers()
	vfSilentClose(&vfConn{}, &vfHandler{onClose: func() error { return io.ErrNoProgress }}, true)
}

// However long the handler takes for a handshake, it is answered first.
func vfC21_slow_handshake() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	h := &vfHandler{}
	h.onHandshake = func(context.Context, *Handshake) {
		vfRunSpawned()
		vfReach("handshake")
		vfAssert(c.writes == 0 && len(c.out) == 0, "nothing is sent before the handshake was answered")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfClosed(c, h)
}

// A message is a sign of life as soon as it was received.
func vfC21_alive_at_once() {
	vfUnroll()
	vfTrack("t")
	c := &vfConn{}
	c.hello()
	c.send(10, 0x82, vfDefinition)
	c.send(10, 0x80, vfEntry)
	h := &vfHandler{}
	h.onUpdate = func(context.Context, *sticktable.EntryUpdate) {
		vfReach("update")
		vfAssert(vfArmed() >= 3, "a message restarts the timer of a silent peer before it is handled")
	}
	vfServe(h, c)
	vfRunSpawned()
	vfClosed(c, h)
}

// vfCancelled: the base context is cancelled at the given read.
func vfCancelled(at int) {
	vfTrack("t")
	ctx, cancel := context.WithCancel(vfQuietCtx())
	c := &vfConn{}
	c.hello()
	c.send(0, 4, nil)
	c.send(10, 0x82, vfDefinition)
	c.send(10, 0x80, vfEntry)
	h := &vfHandler{}
	if at == 2 {
		h.onUpdate = func(context.Context, *sticktable.EntryUpdate) { cancel() }
	}
	if at == 1 {
		h.onHandshake = func(context.Context, *Handshake) { cancel() }
	}
	if at == 3 {
		c.onRead = func() { cancel() }
	}
	l := &vfListener{conns: []net.Conn{c}}
	p := Peer{Handler: h, BaseContext: ctx}
	_ = p.Serve(l)
	if at == 0 {
		cancel()
	}
	vfRunSpawned()
	vfReach("cancelled")
	vfClosed(c, h)
}

func vfC21_cancelled_before()    { vfUnroll(); vfCancelled(0) }
func vfC21_cancelled_handshake() { vfUnroll(); vfCancelled(1) }
func vfC21_cancelled_update()    { vfUnroll(); vfCancelled(2) }
func vfC21_cancelled_reading()   { vfUnroll(); vfCancelled(3) }
