package spop

import (
	"errors"
	"io"
	"net"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// Failing operations are reported: returned, or logged where there is nobody
// to return them to.

// vfFaulty is a writer of which one write fails.
type vfFaulty struct {
	writes, failAt int
	failed         bool
	taken          int
	err            error
}

func (w *vfFaulty) Write(b []byte) (int, error) {
	w.writes++
	if w.writes == w.failAt {
		w.failed, w.err = true, vfErr()
		return 0, w.err
	}
	w.taken += len(b)
	return len(b), nil
}

func (w *vfFaulty) check(n int64, err error) {
	if w.failed {
		vfReach("failed")
		vfAssert(errors.Is(err, w.err), "a failing write is reported")
	} else {
		vfReach("written")
		vfAssert(err == nil, "a frame that is written is not reported as failed")
		vfAssert(w.writes > 0, "what is reported as written was written")
	}
	vfAssert(n == int64(w.taken), "the number of bytes written is reported")
}

func vfC16_disconnect_frame() {
	vfUnroll()
	w := &vfFaulty{failAt: vfInt()}
	n, err := (&AgentDisconnectFrame{ErrCode: errorCode(vfUint32())}).WriteTo(w)
	w.check(n, err)
}

func vfC16_hello_frame() {
	vfUnroll()
	w := &vfFaulty{failAt: vfInt()}
	n, err := (&AgentHelloFrame{Version: "2.0", MaxFrameSize: vfUint32()}).WriteTo(w)
	w.check(n, err)
}

// A frame that does not fit is an error, and nothing is written.
func vfC16_long_hello() {
	vfUnroll()
	w := &vfFaulty{}
	v := vfString()
	vfAssume(len(v) > 65535)
	_, err := (&AgentHelloFrame{Version: v}).WriteTo(w)
	vfReach("refused")
	vfAssert(err != nil, "a frame that cannot be encoded is an error")
	vfAssert(w.writes == 0, "a frame that cannot be encoded is not sent")
}

func vfC16_ack_frame() {
	vfUnroll()
	w := &vfFaulty{failAt: vfInt()}
	n, err := (&AckFrame{StreamID: vfUint64(), FrameID: vfUint64(), ActionWriterCallback: func(a *encoding.ActionWriter) error {
		return a.SetNull(encoding.VarScopeRequest, "x")
	}}).WriteTo(w)
	w.check(n, err)
}

func vfC16_ack_callback() {
	vfUnroll()
	w := &vfFaulty{}
	_, err := (&AckFrame{StreamID: vfUint64(), FrameID: vfUint64(), ActionWriterCallback: func(a *encoding.ActionWriter) error {
		_ = a.SetNull(encoding.VarScopeRequest, "x")
		return io.ErrNoProgress
	}}).WriteTo(w)
	vfReach("refused")
	vfAssert(errors.Is(err, io.ErrNoProgress), "a failing callback is reported")
	vfAssert(w.writes == 0, "nothing is answered when the callback fails")
}

// vfCut ends the connection inside of the last frame, n bytes before its end.
func vfCut(p *vfPeer, size int) {
	n := vfInt()
	vfAssume(n > 0 && n < size)
	p.in = p.in[:len(p.in)-n]
	calls := 0
	_, err := vfServe(p, func(_ vfContext, w *vfWriter, m *vfMessage) { calls++ })
	vfRunSpawned()
	vfReach("ended")
	vfAssert(err != nil, "a connection ending inside of a frame is reported")
	vfAssert(calls == 0, "nothing is handed over of a truncated frame")

}

func vfC16_cut_hello() {
	vfUnroll()
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(2000))
	vfCut(p, len(p.in))
}

func vfC16_cut_notify() {
	vfUnroll()
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(2000))
	n := len(p.in)
	p.send(3, 1, 7, 8, vfNotify())
	vfCut(p, len(p.in)-n)
}

func vfC16_cut_disconnect() {
	vfUnroll()
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(2000))
	n := len(p.in)
	p.send(2, 1, 0, 0, vfStatus(0))
	vfCut(p, len(p.in)-n)
}

// vfEnding is a connection that fails where the script ends.
type vfEnding struct {
	vfPeer
	err error
}

func (p *vfEnding) vfReadFull(b []byte) (int, error) {
	left := len(p.in) - p.at
	if len(b) > left {
		return left, p.err
	}
	return p.vfPeer.vfReadFull(b)
}

func vfGivesUp(p *vfEnding) {
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), HandlerFunc(vfNop))
	err := c.Serve()
	vfReach("ended")
	vfAssert(errors.Is(err, io.ErrNoProgress), "a failing connection ends its session with the error")
}

func vfC16_read_first()  { vfUnroll(); vfGivesUp(&vfEnding{err: io.ErrNoProgress}) }
func vfC16_read_second() { vfUnroll(); vfReadLater(0) }
func vfC16_read_third()  { vfUnroll(); vfReadLater(4) }

func vfReadLater(n int) {
	p := &vfEnding{err: io.ErrNoProgress}
	p.send(1, 1, 0, 0, vfHello(2000))
	p.in = append(p.in, []byte{0, 0, 0, 9, 1}[:n]...)
	vfGivesUp(p)
}

// A hello that cannot be answered ends the session.
func vfC16_answer() {
	vfUnroll()
	p := &vfStops{failAt: vfInt()}
	p.send(1, 1, 0, 0, vfHello(2000))
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), HandlerFunc(vfNop))
	err := c.Serve()
	if p.failed {
		vfReach("failed")
		vfAssert(errors.Is(err, p.err), "a hello that cannot be answered ends the session with the error")
	} else {
		vfReach("served")
	}
}

// vfStops is a connection of which one write fails.
type vfStops struct {
	vfPeer
	failAt int
	failed bool
	err    error
}

func (p *vfStops) Write(b []byte) (int, error) {
	if p.writes+1 == p.failAt {
		p.writes++
		p.failed, p.err = true, vfErr()
		return 0, p.err
	}
	return p.vfPeer.Write(b)
}

// An ACK that cannot be written is reported.
func vfC16_ack() {
	vfUnroll()
	vfTrack("l")
	p := &vfStops{}
	p.send(1, 1, 0, 0, vfHello(2000))
	p.send(3, 1, 7, 8, vfNotify())
	as := newAsyncScheduler()
	c := newProtocolClient(vfQuietCtx(), p, as, HandlerFunc(func(_ vfContext, w *vfWriter, m *vfMessage) {
		_ = w.SetNull(encoding.VarScopeRequest, "x")
	}))
	_ = c.Serve()
	p.failAt = vfInt()
	vfAssume(p.failAt > p.writes)
	vfRunSpawned()
	if p.failed {
		vfReach("failed")
		vfAssert(vfLogged() > 0, "an answer that cannot be written is reported")
	} else {
		vfReach("answered")
		vfAssert(vfLogged() == 0, "nothing is reported as failed that did not")
	}
}

// vfReports: the payload of a frame after the hello is reported as malformed.
func vfReports(t byte, payload []byte) {
	vfTrack("l")
	p := &vfPeer{}
	p.send(1, 1, 0, 0, vfHello(2000))
	p.send(t, 1, 7, 8, payload)
	_, _ = vfServe(p, vfNop)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLogged() > 0, "a malformed frame is reported")
	if t == 3 {
		vfHelloSent(p.out, 2000)
		vfAssert(len(vfHelloSent(p.out, 2000)) == 0, "a malformed frame is not answered")
	}

}

// vfShort leaves out the end of a list, but not all of it.
func vfShort(b []byte) []byte {
	n := vfInt()
	vfAssume(n > 0 && n < len(b))
	return b[:n]
}

func vfStatus(code uint32) []byte {
	var e vfEnc
	e.uint32("status-code", code)
	return e.b
}

func vfC16_short_notify()     { vfUnroll(); vfReports(3, vfShort(vfNotify())) }
func vfC16_short_disconnect() { vfUnroll(); vfReports(2, vfShort(vfStatus(0))) }

func vfC16_second_message() {
	vfUnroll()
	b := vfNotify()
	vfReports(3, append(b, vfShort(vfNotify())...))
}

func vfC16_short_message() {
	vfUnroll()
	b := vfStatus(0)
	var e vfEnc
	e.str("message", "text")
	vfReports(2, append(b, vfShort(e.b)...))
}

func vfC16_unknown_entry() {
	vfUnroll()
	var e vfEnc
	e.str("what", "text")
	vfReports(2, append(vfStatus(0), e.b...))
}

// A disconnect with an error is reported, and so is one without a status.
func vfC16_error_code() {
	vfUnroll()
	code := vfUint32()
	vfAssume(code != 0 && code != 1 && code != 2)
	vfReports(2, vfStatus(code))
}

// A hello with a malformed list is refused.
func vfC16_short_hello() {
	vfUnroll()
	var e vfEnc
	e.str("id", "x")
	for n := 1; n < len(e.b); n++ {
		var b vfEnc
		b.uint32("max-frame-size", 2000)
		b.b = append(b.b, e.b[:n]...)
		p := &vfPeer{}
		p.send(1, 1, 0, 0, b.b)
		_, err := vfServe(p, vfNop)
		vfReach("refused")
		vfAssert(err != nil, "a malformed hello is refused")
		vfAssert(p.writes == 0, "a malformed hello is not answered")
	}
}

// The agent reports how sessions failed.
func vfC16_agent() {
	vfUnroll()
	vfTrack("l")
	a := &vfConn{readFail: true}
	vfAgent(vfNop, a)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLogged() > 0, "a failing session is reported")
	vfAssert(a.closed > 0, "a connection is closed when its session fails")
}

func vfC16_listen() {
	vfOnListen(func(network, addr string) (net.Listener, error) { return nil, io.ErrNoProgress })
	err := ListenAndServe("127.0.0.1:1", HandlerFunc(vfNop))
	vfReach("refused")
	vfAssert(errors.Is(err, io.ErrNoProgress), "a listener that cannot be opened is reported")
}

func vfC16_listening() {
	vfUnroll()
	l := &vfListener{}
	vfOnListen(func(network, addr string) (net.Listener, error) {
		vfAssert(network == "tcp" && addr == "127.0.0.1:1", "the listener is opened where the agent is told to")
		return l, nil
	})
	err := ListenAndServe("127.0.0.1:1", HandlerFunc(vfNop))
	vfReach("ended")
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
	vfAssert(l.closed > 0, "a listener is closed by who opened it")
}

// A frame whose header is cut short is refused, also as the first one.
func vfShortHeader(first bool) {
	for n := 0; n < 8; n++ {
		p := &vfPeer{}
		if !first {
			p.send(1, 1, 0, 0, vfHello(2000))
		}
		t := byte(1)
		if !first {
			t = 3
		}
		p.in = append(p.in, 0, 0, 0, byte(n))
		p.in = append(p.in, []byte{t, 0, 0, 0, 1, 240, 240, 0}[:n]...)
		calls := 0
		_, err := vfServe(p, func(vfContext, *vfWriter, *vfMessage) { calls++ })
		vfReach("ended")
		vfAssert(err != nil, "a frame with an incomplete header ends the session with an error")
		vfAssert(calls == 0, "nothing is handed over of a frame with an incomplete header")
	}
}

func vfC16_short_header_first() { vfUnroll(); vfShortHeader(true) }
func vfC16_short_header()       { vfUnroll(); vfShortHeader(false) }
