package spop

import (
	"context"
	"encoding/binary"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// Whatever length is announced, a frame beyond the limit is rejected before
// its body is read, and memory is taken for the limit at most.
func vfC03_frame_limit() {
	limit := vfUint32()
	f := acquireFrame()
	vfAllocBound(int(limit))
	in := &vfInput{}
	n, err := f.readFrom(in, limit)
	if err == nil {
		vfReach("frame")
		vfAssert(n-4 <= int64(limit), "no frame beyond the limit is accepted")
		return
	}
	vfReach("rejected")
}

func vfC03_frame_body() {
	limit, size := vfUint32(), vfUint32()
	vfAssume(size > limit)
	p := &vfPeer{}
	p.in = binary.BigEndian.AppendUint32(p.in, size)
	p.in = append(p.in, vfBytes()...)
	f := acquireFrame()
	_, err := f.readFrom(p, limit)
	vfReach("rejected")
	vfAssert(err != nil, "a frame beyond the limit is rejected")
	vfAssert(p.at == 4, "a frame beyond the limit is rejected before its body is read")
}

// Before the negotiation.
func vfC03_first_frame() {
	size := vfUint32()
	vfAssume(size > 65535)
	p := &vfPeer{}
	p.in = binary.BigEndian.AppendUint32(p.in, size)
	p.in = append(p.in, vfBytes()...)
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), HandlerFunc(vfIgnore))
	vfAllocBound(1 << 16)
	err := c.Serve()
	vfReach("rejected")
	vfAssert(err != nil, "a first frame beyond the initial limit is rejected")
	vfAssert(p.at == 4, "a first frame beyond the initial limit is rejected before its body is read")
	vfAssert(p.writes == 0, "nothing is sent before a hello was received")
}

// After it.
func vfC03_negotiated() {
	vfUnroll()
	limit, size := vfUint32(), vfUint32()
	vfAssume(limit >= 256 && limit <= 1<<31-1)
	vfAssume(size > limit)
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(limit))
	at := len(p.in)
	p.in = binary.BigEndian.AppendUint32(p.in, size)
	p.in = append(p.in, vfBytes()...)
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), HandlerFunc(vfIgnore))
	vfAllocBound(1 << 16)
	err := c.Serve()
	vfReach("rejected")
	vfAssert(err != nil, "a frame beyond the negotiated size is rejected")
	vfAssert(p.at == at+4, "a frame beyond the negotiated size is rejected before its body is read")
}

// Frames up to the negotiated size are accepted, also beyond the initial limit.
func vfC03_accepted() {
	vfUnroll()
	limit := vfUint32()
	vfAssume(limit >= 65536 && limit <= 1<<31-1)
	val := vfBytes()
	vfAssume(len(val) > 65536 && len(val) <= int(limit)-32)
	var e vfEnc
	e.bytes("m")
	e.byte(1)
	e.bytes("a")
	e.byte(9)
	e.varint(uint64(len(val)))
	e.b = append(e.b, val...)
	var h vfEnc
	h.byte(3)
	h.b = append(h.b, 0, 0, 0, 1)
	h.varint(1)
	h.varint(1)
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(limit))
	p.in = binary.BigEndian.AppendUint32(p.in, uint32(len(h.b)+len(e.b)))
	p.in = append(p.in, h.b...)
	p.in = append(p.in, e.b...)
	calls := 0
	_, _ = vfServe(p, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		k := &encoding.KVEntry{}
		vfAssert(m.KV.Next(k), "frames up to the negotiated size are accepted")
		vfAssertSame(k.ValueBytes(), val, "frames up to the negotiated size are accepted")
	})
	vfRunSpawned()
	vfReach("handled")
	vfAssert(calls == 1, "frames up to the negotiated size are accepted")
}

// Answers never exceed the negotiated size, and fail as a whole.
func vfC03_answer() {
	vfUnroll()
	limit := vfUint32()
	vfAssume(limit >= 256 && limit <= 1<<31-1)
	name, val := vfString(), vfBytes()
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(limit))
	p.send(3, 1, vfUint64(), vfUint64(), vfNotify())
	_, _ = vfServe(p, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		_ = w.SetBinary(encoding.VarScopeRequest, name, val)
	})
	hello := len(p.out)
	vfRunSpawned()
	n := len(p.out) - hello
	if n == 0 {
		vfReach("nothing sent")
		return
	}
	vfReach("answered")
	vfAssert(n-4 <= int(limit), "no answer exceeds the negotiated frame size")
}
