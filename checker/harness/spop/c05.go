package spop

import (
	"context"
	"encoding/binary"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// A NOTIFY with two messages, the first with two arguments.
func vfC05_notify() {
	vfUnroll()
	stream, id := vfUint64(), vfUint64()
	m1, a1, v1, a2, v2 := vfString(), vfString(), vfString(), vfString(), vfUint32()
	m2 := vfString()
	var e vfEnc
	e.bytes(m1)
	e.byte(2)
	e.str(a1, v1)
	e.uint32(a2, v2)
	e.bytes(m2)
	e.byte(0)

	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, stream, id, e.b)

	name, val := vfString(), vfBytes()
	calls := 0
	h := func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		switch calls {
		case 1:
			vfAssertSame(m.NameBytes(), []byte(m1), "the messages are handled in order")
			k := &encoding.KVEntry{}
			if vfBool() {
				vfAssert(m.KV.Next(k), "the handler gets the arguments of the message")
				vfAssertSame(k.NameBytes(), []byte(a1), "the handler gets the arguments of the message")
				vfAssertSame(k.ValueBytes(), []byte(v1), "the handler gets the arguments of the message")
			}
			vfAssert(w.SetBinary(encoding.VarScopeSession, name, val) == nil, "actions are written")
		case 2:
			vfAssertSame(m.NameBytes(), []byte(m2), "the messages are handled in order")
			k := &encoding.KVEntry{}
			vfAssert(!m.KV.Next(k), "the handler gets no arguments of other messages")
			vfAssert(w.Unset(encoding.VarScopeRequest, name) == nil, "actions are written")
		default:
			vfAssert(false, "the handler runs once per message")
		}
	}
	c := newProtocolClient(vfQuietCtx(), &p, newAsyncScheduler(), HandlerFunc(h))
	_ = c.Serve()
	hello := len(p.out)
	vfRunSpawned()
	vfReach("handled")
	sent := p.out[hello:]
	if len(sent) == 0 {
		vfReach("nothing sent")
		return
	}
	vfReach("answered")
	vfAssert(calls == 2, "the handler runs once per message")
	out := vfHeader(sent, 103, stream, id)
	var x vfEnc
	x.byte(1)
	x.byte(3)
	x.byte(1)
	x.bytes(name)
	x.byte(9)
	x.bytes(string(val))
	x.byte(2)
	x.byte(2)
	x.byte(3)
	x.bytes(name)
	vfAssertSame(out, x.b, "the answer carries exactly the actions of the handler")
}

func vfSession(payload []byte, stream, id uint64, h HandlerFunc) (*vfPeer, []byte) {
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, stream, id, payload)
	_, _ = vfServe(p, h)
	hello := len(p.out)
	p.helloWrites = p.writes
	vfRunSpawned()
	return p, p.out[hello:]
}

func vfNop(context.Context, *encoding.ActionWriter, *encoding.Message) {}

// No messages at all: an empty answer.
func vfC05_no_messages() {
	vfUnroll()
	stream, id := vfUint64(), vfUint64()
	_, sent := vfSession(nil, stream, id, vfIgnore)
	vfReach("handled")
	vfAssert(len(sent) > 0, "an empty message list is answered")
	vfAssert(len(vfHeader(sent, 103, stream, id)) == 0, "an empty message list has no actions")
}

// Two messages, the handler reads any number of arguments of the first.
func vfC05_no_actions() {
	vfUnroll()
	stream, id := vfUint64(), vfUint64()
	var e vfEnc
	e.bytes("first")
	e.byte(2)
	e.str("a", vfString())
	e.uint32("b", vfUint32())
	e.bytes("second")
	e.byte(1)
	e.str("c", vfString())
	calls := 0
	_, sent := vfSession(e.b, stream, id, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		k := &encoding.KVEntry{}
		if calls == 1 {
			vfAssert(string(m.NameBytes()) == "first", "the messages are handled in order")
			if vfBool() {
				vfAssert(m.KV.Next(k), "the handler gets the arguments of the message")
			}
			if vfBool() {
				_ = m.KV.Next(k)
				_ = m.KV.Next(k)
				vfAssert(!m.KV.Next(k), "the handler gets no arguments of other messages")
			}
			return
		}
		vfAssert(string(m.NameBytes()) == "second", "the messages are handled in order")
		vfAssert(m.KV.Next(k), "the handler gets the arguments of the message")
		vfAssert(string(k.NameBytes()) == "c", "the handler gets the arguments of the message")
	})
	vfReach("handled")
	vfAssert(calls == 2, "the handler runs once per message")
	vfAssert(len(sent) > 0, "every NOTIFY is answered")
	vfAssert(len(vfHeader(sent, 103, stream, id)) == 0, "an answer carries the actions of the handler only")
}

// Two NOTIFY frames of one connection.
func vfC05_two_frames() {
	vfUnroll()
	s1, i1, s2, i2 := vfUint64(), vfUint64(), vfUint64(), vfUint64()
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, s1, i1, vfNotify())
	p.send(3, 1, s2, i2, vfNotify())
	calls := 0
	_, _ = vfServe(p, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		if calls == 1 {
			vfAssert(w.SetNull(encoding.VarScopeRequest, "x") == nil, "actions are written")
		}
	})
	hello := len(p.out)
	vfRunSpawned()
	sent := p.out[hello:]
	vfReach("handled")
	vfAssert(calls == 2, "the handler runs once per message")
	vfAssert(len(sent) >= 4, "every NOTIFY is answered")
	n := binary.BigEndian.Uint32(sent)
	vfAssert(len(sent) > int(n)+4, "every NOTIFY is answered")
	if len(sent) <= int(n)+4 {
		return
	}
	a := vfHeader(sent[:n+4], 103, s1, i1)
	b := vfHeader(sent[n+4:], 103, s2, i2)
	var x vfEnc
	x.byte(1)
	x.byte(3)
	x.byte(3)
	x.bytes("x")
	x.byte(0)
	vfAssertSame(a, x.b, "an answer carries the actions of the handler for its own frame")
	vfAssert(len(b) == 0, "an answer carries the actions of the handler for its own frame")
}

func vfC05_panic() {
	vfUnroll()
	var e vfEnc
	e.bytes("first")
	e.byte(0)
	e.bytes("second")
	e.byte(0)
	e.bytes("third")
	e.byte(0)
	calls := 0
	p, sent := vfSession(e.b, vfUint64(), vfUint64(), func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		_ = w.SetNull(encoding.VarScopeRequest, "x")
		if calls == 2 {
			panic("handler")
		}
	})
	vfReach("handled")
	vfAssert(calls == 2, "no further message is handled after a panic")
	vfAssert(len(sent) == 0 && p.writes == p.helloWrites, "nothing is sent when the handler panics")
}

func vfBroken(payload []byte) {
	p, sent := vfSession(payload, vfUint64(), vfUint64(), func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		_ = w.SetNull(encoding.VarScopeRequest, "x")
		if vfBool() {
			k := &encoding.KVEntry{}
			for m.KV.Next(k) {
			}
		}
	})
	vfReach("handled")
	vfAssert(len(sent) == 0 && p.writes == p.helloWrites, "nothing is sent for a malformed message list")
}

func vfC05_broken_value() {
	vfUnroll()
	var e vfEnc
	e.bytes("first")
	e.byte(0)
	e.bytes("second")
	e.byte(1)
	e.bytes("argument")
	e.byte(8)
	e.byte(7)
	e.b = append(e.b, "short"...)
	vfBroken(e.b)
}

func vfC05_broken_type() {
	vfUnroll()
	var e vfEnc
	e.bytes("first")
	e.byte(1)
	e.bytes("argument")
	e.byte(13)
	e.byte(7)
	vfBroken(e.b)
}

func vfC05_broken_count() {
	vfUnroll()
	var e vfEnc
	e.bytes("first")
	e.byte(2)
	e.str("argument", "value")
	vfBroken(e.b)
}

func vfC05_no_count() {
	vfUnroll()
	var e vfEnc
	e.bytes("first")
	e.byte(1)
	e.str("argument", "value")
	e.bytes("second")
	vfBroken(e.b)
}

func vfC05_broken_name() {
	vfUnroll()
	var e vfEnc
	e.bytes("first")
	e.byte(1)
	e.str("argument", "value")
	e.byte(200)
	e.b = append(e.b, "short"...)
	vfBroken(e.b)
}

// Writing fails: the answer is given up, and the session goes on.
func vfC05_write_fails() {
	vfUnroll()
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, 1, 1, vfNotify())
	_, _ = vfServe(p, vfNop)
	n, m := p.writes, len(p.out)
	p.fail = true
	vfRunSpawned()
	vfReach("handled")
	vfAssert(p.writes == n+1, "nothing of an answer is sent after a write has failed")
	vfAssert(len(p.out) == m, "nothing is sent")
}

// A NOTIFY with very many messages, each with an argument: all of them are
// handled, and every action is in the ACK.
func vfC05_many_messages() {
	vfUnroll()
	var e vfEnc
	for i := 0; i < 300; i++ {
		e.bytes(string([]byte{'m', byte(i / 16), byte(i)}))
		e.byte(1)
		e.bytes("a")
		e.byte(byte(i%2)<<4 | 1)
	}
	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, 5, 6, e.b)
	calls := 0
	var want vfEnc
	h := func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		name := []byte{'m', byte(calls / 16), byte(calls)}
		vfAssertSame(m.NameBytes(), name, "the messages are handled in order")
		k := &encoding.KVEntry{}
		vfAssert(m.KV.Next(k), "the handler gets the arguments of the message")
		vfAssert(k.ValueBool() == (calls%2 == 1), "the handler gets the arguments of the message")
		vfAssert(w.SetBool(encoding.VarScopeSession, string(name), calls%3 == 0) == nil, "actions are written")
		want.byte(1)
		want.byte(3)
		want.byte(1)
		want.bytes(string(name))
		if calls%3 == 0 {
			want.byte(17)
		} else {
			want.byte(1)
		}
		calls++
	}
	c := newProtocolClient(vfQuietCtx(), &p, newAsyncScheduler(), HandlerFunc(h))
	_ = c.Serve()
	hello := len(p.out)
	vfRunSpawned()
	vfReach("handled")
	vfAssert(calls == 300, "the handler runs once per message")
	sent := p.out[hello:]
	vfAssert(len(sent) == 4+5+2+len(want.b), "exactly one ACK is sent")
	if len(sent) == 4+5+2+len(want.b) {
		vfAssertSame(sent[11:], want.b, "the ACK carries exactly the actions of the handler")
	}
}

// The frame ends where the arguments of the last message should begin.
func vfC05_missing_arguments() {
	vfUnroll()
	var e vfEnc
	e.bytes("first")
	e.byte(0)
	e.bytes("second")
	e.byte(1)
	vfBroken(e.b)
}

// A session that ends while its messages are handled: an ACK is sent only
// when all of them were.
func vfC05_cancelled() {
	vfUnroll()
	var e vfEnc
	for i := 0; i < 3; i++ {
		e.bytes("msg")
		e.byte(0)
	}
	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, 5, 6, e.b)
	ctx, cancel := context.WithCancel(vfQuietCtx())
	calls := 0
	h := func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if calls == 0 {
			cancel()
		}
		calls++
	}
	c := newProtocolClient(ctx, &p, newAsyncScheduler(), HandlerFunc(h))
	_ = c.Serve()
	hello := len(p.out)
	vfRunSpawned()
	vfReach("handled")
	vfAssert(calls == 3 || len(p.out) == hello, "an ACK is sent only when every message was handled")
}

// An answer is sent exactly when it fits into a frame, and a failure is
// reported otherwise.
func vfC05_long_answer() {
	vfUnroll()
	vfTrack("l")
	limit := vfUint32()
	vfAssume(limit >= 256 && limit <= 1<<31-1)
	val := vfBytes()
	var want vfEnc
	want.byte(1)
	want.byte(3)
	want.byte(3)
	want.bytes("x")
	want.byte(9)
	want.bytes(string(val))
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(limit))
	p.send(3, 1, 5, 6, vfNotify())
	set := true
	_, _ = vfServe(p, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		set = w.SetBinary(encoding.VarScopeRequest, "x", val) == nil
	})
	hello := len(p.out)
	vfRunSpawned()
	vfAssert(set, "actions are written, however long")
	n := len(p.out) - hello
	if 7+len(want.b) > int(limit) {
		vfReach("too long")
		vfAssert(n == 0, "no part of an answer that is too long is sent")
		vfAssert(vfLogged() > 0, "an answer that is too long is reported")
	} else {
		vfReach("fits")
		vfAssert(n == 4+7+len(want.b), "exactly one ACK is sent")
		vfAssert(vfLogged() == 0, "what was answered is not reported as failed")
	}
}
