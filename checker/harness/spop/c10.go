package spop

import (
	"context"
	"encoding/binary"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

func vfClean() {
	vfAssert(vfPoolLive() == 0, "what was taken from a pool is returned on every path")
	vfAssert(vfLocksHeld() == 0, "no lock is held at the end")
}

func vfEveryThing(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	if vfBool() {
		_ = w.SetString(encoding.VarScopeRequest, "x", vfString())
	}
	k := encoding.AcquireKVEntry()
	m.KV.Next(k)
	if vfBool() {
		m.KV.Next(k)
	}
	encoding.ReleaseKVEntry(k)
}

// vfOneSession: a session with a frame behind the hello.
func vfOneSession(t byte, flags uint32, stream, id uint64, payload []byte, h HandlerFunc) {
	vfTrack("l")
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(t, flags, stream, id, payload)
	vfAgent(h, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

func vfC10_notify() {
	vfUnroll()
	var e vfEnc
	e.bytes(vfString())
	e.byte(2)
	e.str("a", vfString())
	e.uint32("b", vfUint32())
	e.bytes("second")
	e.byte(0)
	vfOneSession(3, vfUint32(), vfUint64(), vfUint64(), e.b, vfEveryThing)
}

func vfC10_truncated() {
	vfUnroll()
	var e vfEnc
	e.bytes("message")
	e.byte(2)
	e.str("a", vfString())
	e.bytes("b")
	e.byte(8)
	e.byte(200)
	vfOneSession(3, 1, 1, 1, e.b, vfEveryThing)
}

func vfC10_panic() {
	vfUnroll()
	vfOneSession(3, 1, vfUint64(), vfUint64(), vfNotify(), func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if vfBool() {
			_ = w.SetString(encoding.VarScopeRequest, "x", vfString())
		}
		panic("handler")
	})
}

func vfC10_second_hello() {
	vfUnroll()
	vfOneSession(1, 1, 0, 0, vfHello(4096), vfEveryThing)
}

func vfC10_disconnect() {
	vfUnroll()
	var e vfEnc
	e.uint32("status-code", vfUint32())
	e.str("message", vfString())
	vfOneSession(2, 1, 0, 0, e.b, vfEveryThing)
}

func vfC10_disconnect_bad() {
	vfUnroll()
	var e vfEnc
	e.uint32(vfString(), vfUint32())
	e.str("message", "x")
	vfOneSession(2, 1, 0, 0, e.b, vfEveryThing)
}

func vfC10_disconnect_empty() {
	vfUnroll()
	vfOneSession(2, 1, 0, 0, nil, vfEveryThing)
}

func vfC10_unknown() {
	vfUnroll()
	t := vfByte()
	vfAssume(t > 3)
	vfOneSession(t, vfUint32(), vfUint64(), vfUint64(), vfNotify(), vfEveryThing)
}

func vfC10_first_frame() {
	vfUnroll()
	vfTrack("l")
	t := vfByte()
	vfAssume(t != 1)
	p := &vfConn{}
	p.send(t, vfUint32(), vfUint64(), vfUint64(), vfHello(4096))
	vfAgent(vfEveryThing, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

func vfFirst(hello []byte) {
	vfTrack("l")
	p := &vfConn{}
	p.send(1, 1, 0, 0, hello)
	vfAgent(vfEveryThing, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

func vfC10_hello_bad_size() {
	vfUnroll()
	vfFirst(vfHello(vfUint32()))
}

func vfC10_hello_no_size() {
	vfUnroll()
	var e vfEnc
	e.str("supported-versions", vfString())
	vfFirst(e.b)
}

func vfC10_hello_truncated() {
	vfUnroll()
	var e vfEnc
	e.uint32("max-frame-size", 4096)
	e.str("engine-id", vfString())
	e.bytes("capabilities")
	e.byte(8)
	e.byte(9)
	vfFirst(e.b)
}

func vfC10_healthcheck() {
	vfUnroll()
	var e vfEnc
	e.uint32("max-frame-size", 4096)
	e.bytes("healthcheck")
	e.byte(0x11)
	vfFirst(e.b)
}

// The connection ends or fails inside a frame.
func vfC10_cut() {
	vfUnroll()
	vfTrack("l")
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(4096))
	p.send(3, 1, vfUint64(), vfUint64(), vfNotify())
	n := vfInt()
	vfAssume(n >= 0 && n <= len(p.in))
	p.in = p.in[:n]
	vfAgent(vfEveryThing, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

func vfC10_write_fails() {
	vfUnroll()
	vfTrack("l")
	p := &vfConn{}
	p.fail = true
	p.send(1, 1, 0, 0, vfHello(4096))
	vfAgent(vfEveryThing, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

func vfC10_ack_fails() {
	vfUnroll()
	vfTrack("l")
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(4096))
	p.send(3, 1, vfUint64(), vfUint64(), vfNotify())
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), HandlerFunc(vfEveryThing))
	_ = c.Serve()
	p.fail = true
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

// A frame whose header ends early, or with identifiers that are not integers.
func vfC10_bad_header() {
	vfUnroll()
	vfTrack("l")
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(4096))
	p.in = append(p.in, 0, 0, 0, 6, 3, 0, 0, 0, 1, vfByte())
	vfAgent(vfEveryThing, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

func vfC10_too_long() {
	vfUnroll()
	vfTrack("l")
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(4096))
	p.in = append(p.in, vfByte(), 0, 255, 255, 3, 0, 0, 0, 1, vfByte())
	vfAgent(vfEveryThing, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

// An answer that is longer than the connection allows.
func vfC10_long_answer() {
	vfUnroll()
	vfTrack("l")
	p := &vfConn{}
	p.send(1, 1, 0, 0, vfHello(256))
	p.send(3, 1, vfUint64(), vfUint64(), vfNotify())
	vfAgent(vfEveryThing, p)
	vfRunSpawned()
	vfReach("ended")
	vfClean()
}

// vfAfter: whatever the frame of another connection leaves behind, the next
// connection gets its own answers.
func vfAfter(t byte, payload []byte) {
	vfTrack("l")
	a := &vfConn{}
	a.send(1, 1, 0, 0, vfHello(16380))
	a.send(t, vfUint32(), vfUint64(), vfUint64(), payload)
	b := &vfConn{}
	b.send(1, 1, 0, 0, vfHello(16380))
	stream, id := vfUint64(), vfUint64()
	var e vfEnc
	e.bytes("second connection")
	e.byte(1)
	e.str("argument", "value")
	b.send(3, 1, stream, id, e.b)
	calls := 0
	vfAgent(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if string(m.NameBytes()) != "second connection" {
			_ = w.SetString(encoding.VarScopeRequest, "x", vfString())
			return
		}
		calls++
		k := encoding.AcquireKVEntry()
		vfAssert(m.KV.Next(k), "a message has its arguments")
		vfAssertSame(k.NameBytes(), []byte("argument"), "an argument has its name")
		vfAssertSame(k.ValueBytes(), []byte("value"), "an argument has its value")
		vfAssert(!m.KV.Next(k), "a message has only its arguments")
		vfAssert(m.KV.Error() == nil, "a message has no errors of others")
		encoding.ReleaseKVEntry(k)
		_ = w.SetNull(encoding.VarScopeRequest, "y")
	}, a, b)
	vfRunSpawned()
	vfAssert(calls == 1, "the frame of the second connection is processed")
	out := vfHelloSent(b.out, 16380)
	if len(out) < 4 {
		vfAssert(false, "the second connection is answered")
		return
	}
	n := binary.BigEndian.Uint32(out)
	vfAssert(len(out) >= int(n)+4, "the second connection is answered")
	if len(out) < int(n)+4 {
		return
	}
	ack := out[:n+4]
	if ack[4] == 102 {
		// the session was closed before its frame was answered
		ack = out[n+4:]
	}
	var x vfEnc
	x.byte(1)
	x.byte(3)
	x.byte(3)
	x.bytes("y")
	x.byte(0)
	vfAssertSame(vfHeader(ack, 103, stream, id), x.b, "an answer has nothing of other frames")
	vfReach("compared")
}

func vfC10_after_notify() {
	vfUnroll()
	vfAfter(3, vfNotify())
}

func vfC10_after_broken() {
	vfUnroll()
	var e vfEnc
	e.bytes("message")
	e.byte(2)
	e.str("a", vfString())
	e.bytes("b")
	e.byte(8)
	e.byte(200)
	vfAfter(3, e.b)
}

func vfC10_after_disconnect() {
	vfUnroll()
	var e vfEnc
	e.uint32("status-code", vfUint32())
	e.str("message", vfString())
	vfAfter(2, e.b)
}

func vfC10_after_unknown() {
	vfUnroll()
	vfAfter(77, vfBytes())
}
