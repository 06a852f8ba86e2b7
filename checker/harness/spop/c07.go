package spop

import (
	"encoding/binary"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vfOut records what is written.
type vfOut struct {
	b      []byte
	writes int
}

func (o *vfOut) Write(b []byte) (int, error) {
	o.b = append(o.b, b...)
	o.writes++
	return len(b), nil
}

func (o *vfOut) Read(b []byte) (int, error) {
	panic("the output is not read")
}

// vfReplay delivers a recorded output.
type vfReplay struct {
	b  []byte
	at int
}

func (r *vfReplay) Read(b []byte) (int, error) {
	panic("only whole reads are needed")
}

func (r *vfReplay) vfReadFull(b []byte) (int, error) {
	vfAssert(len(b) <= len(r.b)-r.at, "the decoder reads no more than the frame")
	if len(b) > len(r.b)-r.at {
		vfEnd()
	}
	copy(b, r.b[r.at:])
	r.at += len(b)
	return len(b), nil
}

func vfC07_roundtrip() {
	t, flags, stream, id := frameType(vfByte()), frameFlag(vfUint32()), vfUint64(), vfUint64()
	payload := vfBytes()

	f := acquireFrame()
	f.frameType = t
	f.meta.Flags = flags
	f.meta.StreamID = stream
	f.meta.FrameID = id
	vfAssert(f.encodeHeader() == nil, "a fresh frame has room for the header")
	room := f.buf.WriteBytes()
	if len(payload) > len(room) {
		return
	}
	copy(room, payload)
	f.buf.AdvanceW(len(payload))

	var out vfOut
	n, err := f.WriteTo(&out)
	vfAssert(err == nil, "a frame is written")
	vfAssert(n == int64(len(out.b)), "the number of bytes written is reported")
	releaseFrame(f)
	vfReach("written")

	total := len(out.b) - 4
	vfAssert(binary.BigEndian.Uint32(out.b) == uint32(total), "the length is the number of bytes which follow, in network order")
	vfAssert(out.b[4] == byte(t), "the frame type follows the length")
	vfAssert(binary.BigEndian.Uint32(out.b[5:]) == uint32(flags), "the flags follow the type, in network order")

	g := acquireFrame()
	in := &vfReplay{b: out.b}
	n, err = g.ReadFrom(in)
	vfAssert(err == nil, "a written frame is read")
	vfAssert(n == int64(len(out.b)), "a written frame is read completely")
	vfAssert(g.frameType == t, "the frame type is decoded as written")
	vfAssert(g.meta.Flags == flags, "the flags are decoded as written")
	vfAssert(g.meta.StreamID == stream, "the stream identifier is decoded as written")
	vfAssert(g.meta.FrameID == id, "the frame identifier is decoded as written")
	vfAssertSame(g.buf.ReadBytes(), payload, "the payload is decoded as written")
	releaseFrame(g)
	vfReach("read")
}

// vfHeader checks the header of a frame sent by an agent and returns its
// payload. The identifiers are decoded by the library, which C24 and the round
// trip above cover.
func vfHeader(b []byte, t byte, stream, id uint64) []byte {
	vfAssert(binary.BigEndian.Uint32(b) == uint32(len(b)-4), "the length is the number of bytes which follow, in network order")
	vfAssert(b[4] == t, "the frame has the type of its kind")
	vfAssert(binary.BigEndian.Uint32(b[5:]) == 1, "the frame is marked as the final fragment")
	s, n, err := encoding.Varint(b[9:])
	vfAssert(err == nil && s == stream, "the frame carries the stream identifier")
	if err != nil {
		vfEnd()
	}
	i, m, err := encoding.Varint(b[9+n:])
	vfAssert(err == nil && i == id, "the frame carries the frame identifier")
	if err != nil {
		vfEnd()
	}
	return b[9+n+m:]
}

type vfEnc struct{ b []byte }

func (e *vfEnc) byte(v byte) { e.b = append(e.b, v) }

func (e *vfEnc) varint(v uint64) {
	var t [10]byte
	n, err := encoding.PutVarint(t[:], v)
	vfAssert(err == nil, "ten bytes suffice for every integer")
	e.b = append(e.b, t[:n]...)
}

func (e *vfEnc) bytes(v string) {
	e.varint(uint64(len(v)))
	e.b = append(e.b, v...)
}

func (e *vfEnc) str(name, v string) {
	e.bytes(name)
	e.byte(8)
	e.bytes(v)
}

func (e *vfEnc) uint32(name string, v uint32) {
	e.bytes(name)
	e.byte(3)
	e.varint(uint64(v))
}

func vfText(c errorCode) string {
	switch c {
	case 0:
		return "normal"
	case 1:
		return "I/O error"
	case 2:
		return "a timeout occurred"
	case 3:
		return "frame is too big"
	case 4:
		return "invalid frame received"
	case 5:
		return "version value not found"
	case 6:
		return "max-frame-size value not found"
	case 7:
		return "capabilities value not found"
	case 8:
		return "unsupported version"
	case 9:
		return "max-frame-size too big or too small"
	case 10:
		return "fragmentation not supported"
	case 11:
		return "invalid interlaced frames"
	case 12:
		return "frame-id not found"
	case 13:
		return "resource allocation error"
	}
	return "an unknown error occurred"
}

func vfDisconnect(c errorCode) {
	var out vfOut
	n, err := (&AgentDisconnectFrame{ErrCode: c}).WriteTo(&out)
	vfAssert(err == nil, "a disconnect is written")
	vfAssert(n == int64(len(out.b)), "the number of bytes written is reported")
	p := vfHeader(out.b, 102, 0, 0)
	var e vfEnc
	e.uint32("status-code", uint32(c))
	e.str("message", vfText(c))
	vfAssertSame(p, e.b, "a disconnect carries the status code and its text")
	vfReach("disconnect")
}

func vfC07_disconnect_0()  { vfDisconnect(0) }
func vfC07_disconnect_1()  { vfDisconnect(1) }
func vfC07_disconnect_2()  { vfDisconnect(2) }
func vfC07_disconnect_3()  { vfDisconnect(3) }
func vfC07_disconnect_4()  { vfDisconnect(4) }
func vfC07_disconnect_5()  { vfDisconnect(5) }
func vfC07_disconnect_6()  { vfDisconnect(6) }
func vfC07_disconnect_7()  { vfDisconnect(7) }
func vfC07_disconnect_8()  { vfDisconnect(8) }
func vfC07_disconnect_9()  { vfDisconnect(9) }
func vfC07_disconnect_10() { vfDisconnect(10) }
func vfC07_disconnect_11() { vfDisconnect(11) }
func vfC07_disconnect_12() { vfDisconnect(12) }
func vfC07_disconnect_13() { vfDisconnect(13) }
func vfC07_disconnect_99() { vfDisconnect(99) }

func vfC07_disconnect_other() {
	var out vfOut
	c := errorCode(vfInt())
	vfAssume(c >= 0 && c <= 255)
	_, err := (&AgentDisconnectFrame{ErrCode: c}).WriteTo(&out)
	if err != nil {
		return
	}
	p := vfHeader(out.b, 102, 0, 0)
	vfReach("disconnect")
	s := encoding.NewKVScanner(p, -1)
	e := &encoding.KVEntry{}
	vfAssert(s.Next(e) && e.NameEquals("status-code") && e.ValueInt() == int64(c), "a disconnect carries the status code")
	vfAssert(s.Next(e) && e.NameEquals("message") && e.Type() == encoding.DataTypeString, "a disconnect carries a message")
	vfAssert(!s.Next(e) && s.Error() == nil, "a disconnect carries nothing else")
}

func vfC07_hello() {
	var out vfOut
	size := vfUint32()
	n, err := (&AgentHelloFrame{Version: "2.0", MaxFrameSize: size, Capabilities: []string{}}).WriteTo(&out)
	vfAssert(err == nil, "a hello is written")
	vfAssert(n == int64(len(out.b)), "the number of bytes written is reported")
	p := vfHeader(out.b, 101, 0, 0)
	var e vfEnc
	e.str("version", "2.0")
	e.uint32("max-frame-size", size)
	e.str("capabilities", "")
	vfAssertSame(p, e.b, "a hello answer carries version, maximum frame size and capabilities")
	vfReach("hello")
}

func vfC07_hello_any() {
	var out vfOut
	size := vfUint32()
	v, a, b := vfString(), vfString(), vfString()
	_, err := (&AgentHelloFrame{Version: v, MaxFrameSize: size, Capabilities: []string{a, b}}).WriteTo(&out)
	if err != nil {
		vfAssert(len(out.b) == 0, "nothing is sent of a hello which does not fit")
		return
	}
	vfReach("hello")
	p := vfHeader(out.b, 101, 0, 0)
	var e vfEnc
	e.str("version", v)
	e.uint32("max-frame-size", size)
	e.str("capabilities", a+","+b)
	vfAssertSame(p, e.b, "a hello answer carries version, maximum frame size and capabilities")
}

func vfC07_ack() {
	stream, id := vfUint64(), vfUint64()
	val := vfBytes()
	name := vfString()
	var out vfOut
	n, err := (&AckFrame{StreamID: stream, FrameID: id, ActionWriterCallback: func(w *encoding.ActionWriter) error {
		return w.SetBinary(encoding.VarScopeSession, name, val)
	}}).WriteTo(&out)
	if err != nil {
		vfAssert(len(out.b) == 0, "nothing is sent of an answer which does not fit")
		return
	}
	vfReach("ack")
	vfAssert(n == int64(len(out.b)), "the number of bytes written is reported")
	p := vfHeader(out.b, 103, stream, id)
	var e vfEnc
	e.byte(1)
	e.byte(3)
	e.byte(1)
	e.bytes(name)
	e.byte(9)
	e.bytes(string(val))
	vfAssertSame(p, e.b, "an answer carries the actions")
}
