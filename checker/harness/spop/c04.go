package spop

import (
	"context"
	"encoding/binary"
	"io"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vfPeer is HAProxy's end of a connection: it delivers the given bytes and
// then ends the stream, and records what it is sent.
type vfPeer struct {
	in          []byte
	at          int
	out         []byte
	writes      int
	fail        bool // writing fails
	helloWrites int
}

func (p *vfPeer) Read(b []byte) (int, error) {
	panic("only whole reads are needed")
}

func (p *vfPeer) vfReadFull(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	left := len(p.in) - p.at
	if left <= 0 {
		return 0, io.EOF
	}
	if len(b) > left {
		return left, io.ErrUnexpectedEOF
	}
	copy(b, p.in[p.at:])
	p.at += len(b)
	return len(b), nil
}

func (p *vfPeer) Write(b []byte) (int, error) {
	p.writes++
	if p.fail {
		return 0, io.ErrClosedPipe
	}
	p.out = append(p.out, b...)
	return len(b), nil
}

func (p *vfPeer) send(t byte, flags uint32, stream, id uint64, payload []byte) {
	var e vfEnc
	e.byte(t)
	e.b = binary.BigEndian.AppendUint32(e.b, flags)
	e.varint(stream)
	e.varint(id)
	vfAssume(len(payload) <= 16000) // larger ones are looked at in C03
	n := uint32(len(e.b) + len(payload))
	p.in = binary.BigEndian.AppendUint32(p.in, n)
	p.in = append(p.in, e.b...)
	p.in = append(p.in, payload...)
}

func vfHello(size uint32) []byte {
	var e vfEnc
	e.str("supported-versions", "2.0")
	e.uint32("max-frame-size", size)
	e.str("capabilities", "pipelining,async")
	return e.b
}

func vfIgnore(context.Context, *encoding.ActionWriter, *encoding.Message) {
	vfAssert(false, "no handler runs before a message was received")
}

// vfAgentHello checks that all that was sent is one AGENT-HELLO.
func vfAgentHello(out []byte, size uint32) {
	p := vfHeader(out, 101, 0, 0)
	var e vfEnc
	e.str("version", "2.0")
	e.uint32("max-frame-size", size)
	e.str("capabilities", "")
	vfAssertSame(p, e.b, "the answer is one AGENT-HELLO with version 2.0, the offered maximum frame size and the capabilities")
}

func vfC04_hello() {
	size := vfUint32()
	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(size))
	c := newProtocolClient(vfQuietCtx(), &p, newAsyncScheduler(), HandlerFunc(vfIgnore))
	err := c.Serve()
	if size < 256 || size > 1<<31-1 {
		vfReach("refused")
		vfAssert(err != nil, "a maximum frame size outside the protocol's range is refused")
		vfAssert(p.writes == 0, "a refused hello is not answered")
		return
	}
	vfReach("accepted")
	vfAgentHello(p.out, size)
}

// vfNotify is a well-formed message list.
func vfNotify() []byte {
	var e vfEnc
	e.bytes("message")
	e.byte(1)
	e.str("argument", "value")
	return e.b
}

func vfServe(p *vfPeer, h HandlerFunc) (*protocolClient, error) {
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), h)
	err := c.Serve()
	return c, err
}

func vfC04_first_frame() {
	vfUnroll()
	t := vfByte()
	vfAssume(t != 1)
	var p vfPeer
	p.send(t, vfUint32(), vfUint64(), vfUint64(), vfHello(16380))
	p.send(3, 1, 1, 1, vfNotify())
	_, err := vfServe(&p, vfIgnore)
	vfReach("refused")
	vfAssert(err != nil, "a session which does not start with a hello ends with an error")
	vfRunSpawned()
	vfAssert(p.writes == 0, "nothing is sent before a hello was received")
}

func vfC04_first_notify() {
	vfUnroll()
	var p vfPeer
	p.send(3, 1, 1, 1, vfNotify())
	p.send(1, 1, 0, 0, vfHello(16380))
	_, err := vfServe(&p, vfIgnore)
	vfReach("refused")
	vfAssert(err != nil, "a session which does not start with a hello ends with an error")
	vfRunSpawned()
	vfAssert(p.writes == 0, "nothing is sent before a hello was received")
}

func vfC04_no_size() {
	vfUnroll()
	var e vfEnc
	e.str("supported-versions", "2.0")
	e.str("capabilities", "")
	e.str("engine-id", "0")
	var p vfPeer
	p.send(1, 1, 0, 0, e.b)
	p.send(3, 1, 1, 1, vfNotify())
	_, err := vfServe(&p, vfIgnore)
	vfReach("refused")
	vfAssert(err != nil, "a hello without a maximum frame size is refused")
	vfRunSpawned()
	vfAssert(p.writes == 0, "a refused hello is not answered")
}

func vfC04_no_entries() {
	vfUnroll()
	var p vfPeer
	p.send(1, 1, 0, 0, nil)
	p.send(3, 1, 1, 1, vfNotify())
	_, err := vfServe(&p, vfIgnore)
	vfReach("refused")
	vfAssert(err != nil, "a hello without a maximum frame size is refused")
	vfRunSpawned()
	vfAssert(p.writes == 0, "a refused hello is not answered")
}

// The entries of a hello may come in any order and among unknown ones.
func vfC04_order() {
	vfUnroll()
	size := vfUint32()
	vfAssume(size >= 256 && size <= 1<<31-1)
	var e vfEnc
	e.str("capabilities", "")
	e.uint32("max-frame-size", size)
	e.str("engine-id", vfString())
	e.str("some-extension", vfString())
	e.str("supported-versions", "1.0, 2.0")
	var p vfPeer
	p.send(1, 1, 0, 0, e.b)
	c, err := vfServe(&p, vfIgnore)
	vfReach("accepted")
	vfAssert(err == nil, "a connection closed after a valid exchange is no error")
	vfAssert(c.maxFrameSize == size, "the offered frame size is the negotiated one")
	vfRunSpawned()
	vfAgentHello(p.out, size)
}

func vfC04_wide_size() {
	size := vfUint64()
	vfAssume(size > 1<<31-1 && size <= 1<<63-1)
	vfWideSize(size)
}

func vfC04_negative_size() {
	size := vfInt64()
	vfAssume(size < 0)
	vfWideSize(uint64(size))
}

func vfWideSize(size uint64) {
	vfUnroll()
	var e vfEnc
	e.bytes("max-frame-size")
	e.byte(5)
	e.varint(size)
	var p vfPeer
	p.send(1, 1, 0, 0, e.b)
	p.send(3, 1, 1, 1, vfNotify())
	_, err := vfServe(&p, vfIgnore)
	vfReach("refused")
	vfAssert(err != nil, "a frame size beyond the range of the protocol is refused, whatever its low bits are")
	vfRunSpawned()
	vfAssert(p.writes == 0, "a refused hello is not answered")
}

func vfC04_truncated() {
	vfUnroll()
	var e vfEnc
	e.uint32("max-frame-size", 16380)
	e.bytes("engine-id")
	var p vfPeer
	p.send(1, 1, 0, 0, e.b)
	p.send(3, 1, 1, 1, vfNotify())
	_, err := vfServe(&p, vfIgnore)
	vfReach("refused")
	vfAssert(err != nil, "a truncated hello is refused")
	vfRunSpawned()
	vfAssert(p.writes == 0, "a refused hello is not answered")
}

func vfC04_healthcheck() {
	vfUnroll()
	size := vfUint32()
	vfAssume(size >= 256 && size <= 1<<31-1)
	var e vfEnc
	if vfBool() {
		e.str("supported-versions", "2.0")
		e.uint32("max-frame-size", size)
		e.bytes("healthcheck")
		e.byte(0x11)
	} else {
		e.bytes("healthcheck")
		e.byte(0x11)
		e.str("supported-versions", "2.0")
		e.uint32("max-frame-size", size)
	}
	var p vfPeer
	p.send(1, 1, 0, 0, e.b)
	n := len(p.in)
	p.send(3, 1, 1, 1, vfNotify())
	_, _ = vfServe(&p, vfIgnore)
	vfReach("ended")
	vfAssert(p.at == n, "no frame is read after a healthcheck hello")
	vfRunSpawned()
	vfAgentHello(p.out, size)
}

// A hello that says it is no healthcheck starts a session.
func vfC04_no_healthcheck() {
	vfUnroll()
	var e vfEnc
	if vfBool() {
		e.uint32("max-frame-size", 16380)
		e.bytes("healthcheck")
		e.byte(0x01)
	} else {
		e.bytes("healthcheck")
		e.byte(0x01)
		e.uint32("max-frame-size", 16380)
	}
	var p vfPeer
	p.send(1, 1, 0, 0, e.b)
	p.send(3, 1, 1, 1, vfNotify())
	calls := 0
	_, err := vfServe(&p, func(context.Context, *encoding.ActionWriter, *encoding.Message) { calls++ })
	vfRunSpawned()
	vfReach("served")
	vfAssert(err == nil, "a hello that is no healthcheck starts a session")
	vfAssert(p.at == len(p.in), "frames are read after a hello that is no healthcheck")
	vfAssert(calls == 1, "frames are processed after a hello that is no healthcheck")
}

func vfC04_second_hello() {
	vfUnroll()
	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(1, 1, 0, 0, vfHello(16380))
	_, _ = vfServe(&p, vfIgnore)
	vfRunSpawned()
	vfReach("ended")
	vfAgentHello(p.out, 16380)
}

// The frame size of a session is settled by its first hello.
func vfC04_second_size() {
	vfUnroll()
	var p vfPeer
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(1, 1, 0, 0, vfHello(1<<20))
	c, _ := vfServe(&p, vfIgnore)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(c.maxFrameSize == 16380, "a second hello does not change the session")
}

func vfC04_write_fails() {
	vfUnroll()
	p := vfPeer{fail: true}
	p.send(1, 1, 0, 0, vfHello(16380))
	p.send(3, 1, 1, 1, vfNotify())
	_, err := vfServe(&p, vfIgnore)
	vfReach("ended")
	vfAssert(err != nil, "an answer which cannot be sent ends the session with an error")
	vfRunSpawned()
	vfAssert(len(p.out) == 0, "nothing is sent without a hello exchange")
}

// Whatever a hello contains, the answer is nothing or one hello.
func vfC04_any() {
	var p vfPeer
	c := newProtocolClient(vfQuietCtx(), &p, nil, HandlerFunc(vfIgnore))
	f := acquireFrame()
	b := vfBytes()
	if len(b) > len(f.buf.WriteBytes()) {
		return
	}
	copy(f.buf.WriteBytes(), b)
	f.buf.AdvanceW(len(b))
	err := c.onHAProxyHello(f)
	if p.writes == 0 {
		vfReach("no answer")
		vfAssert(err != nil, "an unanswered first frame is an error")
		return
	}
	vfReach("answer")
	vfAssert(c.maxFrameSize != 0 && c.maxFrameSize <= 1<<31-1, "the negotiated frame size is inside the range of the protocol")
	vfAssert(p.out[4] == 101, "a hello is answered by an AGENT-HELLO")
	vfAssert(len(p.out) == 4+int(binary.BigEndian.Uint32(p.out)), "a hello is answered once")
}

// Two frame sizes in one hello: each has to be inside the range.
func vfC04_repeated_size() {
	vfUnroll()
	a, b := vfUint32(), vfUint32()
	var e vfEnc
	e.uint32("max-frame-size", a)
	e.uint32("max-frame-size", b)
	var p vfPeer
	p.send(1, 1, 0, 0, e.b)
	c, err := vfServe(&p, vfIgnore)
	if p.writes == 0 {
		vfReach("refused")
		vfAssert(err != nil, "an unanswered first frame is an error")
		return
	}
	vfReach("accepted")
	vfAssert(c.maxFrameSize >= 256 && c.maxFrameSize <= 1<<31-1, "the negotiated frame size is inside the range of the protocol")
	vfAgentHello(p.out, c.maxFrameSize)
}
