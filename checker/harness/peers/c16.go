package peers

import (
	"bufio"
	"errors"
	"io"
	"net"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// Failing operations are reported: returned, or logged where there is nobody
// to return them to.

// vfCut ends a stream at every point inside of its last message.
func vfCut(start int, script []byte) {
	for n := start + 1; n < len(script); n++ {
		c := &vfConn{in: script[:n]}
		h := &vfHandler{}
		p := newProtocolClient(vfQuietCtx(), c, h, &sync.Mutex{}, bufio.NewWriter(c))
		err := p.Serve()
		vfReach("ended")
		vfAssert(err != nil, "a connection ending inside of a message is reported")
		vfAssert(h.updates == 0, "nothing is handed over of a truncated message")
	}
}

func vfC16_cut_control() {
	vfUnroll()
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	n := len(c.in)
	c.send(0, 4, nil)
	vfCut(n, c.in)
}

func vfC16_cut_definition() {
	vfUnroll()
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	n := len(c.in)
	c.send(10, 0x82, vfDef(3, "t"))
	vfCut(n, c.in)
}

func vfC16_cut_update() {
	vfUnroll()
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	c.send(10, 0x82, []byte{1, 1, 't', 2, 4, 4, 100})
	n := len(c.in)
	c.send(10, 0x80, []byte{0, 0, 0, 1, 0, 0, 0, 2, 5})
	vfCut(n, c.in)
}

// The digits of the last line may end with the stream, the rest may not.
func vfC16_cut_handshake() {
	vfUnroll()
	vfQuietTimers()
	for n := 0; n < len(vfHello)-2; n++ {
		c := &vfConn{in: []byte(vfHello[:n])}
		h := &vfHandler{}
		p := newProtocolClient(vfQuietCtx(), c, h, &sync.Mutex{}, bufio.NewWriter(c))
		err := p.Serve()
		vfReach("ended")
		vfAssert(err != nil, "an incomplete handshake is reported")
		vfAssert(h.handshakes == 0, "an incomplete handshake is not handed to the handler")
	}
}

// Reading may fail anywhere.
func vfReadFails(n int) {
	vfTrack("l")
	vfQuietTimers()
	c := &vfConn{readErr: io.ErrNoProgress}
	if n > 0 {
		c.hello()
	}
	if n > 1 {
		c.send(0, 4, nil)
	}
	h := &vfHandler{}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLogged() > 0, "a failing connection is reported")
	vfAssert(h.closes == 1 && c.closed > 0, "a failing connection ends its session")
}

func vfC16_read_fails_0() { vfUnroll(); vfReadFails(0) }
func vfC16_read_fails_1() { vfUnroll(); vfReadFails(1) }
func vfC16_read_fails_2() { vfUnroll(); vfReadFails(2) }

// A handshake that cannot be answered ends the session.
func vfUnanswered(c *vfConn) {
	vfTrack("l")
	vfQuietTimers()
	c.hello()
	at := len(c.in)
	c.send(10, 0x82, []byte{1, 1, 't', 2, 4, 4, 100})
	c.send(10, 0x80, []byte{0, 0, 0, 1, 0, 0, 0, 2, 5})
	h := &vfHandler{}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLogged() > 0, "a handshake that cannot be answered is reported")
	vfAssert(c.at == at && h.updates == 0, "nothing is read after a failed handshake")
	vfAssert(h.closes == 1 && c.closed > 0, "a failed handshake ends the session")
}

func vfC16_unanswered() { vfUnroll(); vfUnanswered(&vfConn{failAt: 1}) }
func vfC16_unflushed()  { vfUnroll(); vfUnanswered(&vfConn{failFlush: 1}) }

// The error of a handler's Close is reported.
func vfC16_close() {
	vfUnroll()
	vfTrack("l")
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	h := &vfHandler{onClose: func() error { return io.ErrNoProgress }}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(h.closes == 1 && c.closed > 0, "a session ends although its handler cannot be closed")
	vfAssert(vfLogged() > 0, "the error of closing a handler is reported")
}

// A session that ends without an error reports none.
func vfC16_clean() {
	vfUnroll()
	vfTrack("l")
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	c.send(0, 4, nil)
	h := &vfHandler{}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(vfLogged() == 0, "the regular end of a connection is no error")
}

// What a writer could not write or hand over is not reported as sent.
func vfSends(failAt, failFlush int, send func(w *Writer) error) {
	c := &vfConn{failAt: failAt, failFlush: failFlush}
	w := newWriter(c, &sync.Mutex{})
	err := send(w)
	if failAt > 0 && failAt <= c.writes || failFlush > 0 && failFlush <= c.flushes {
		vfReach("failed")
		vfAssert(errors.Is(err, io.ErrClosedPipe), "what could not be sent is reported")
	} else {
		vfReach("sent")
		vfAssert(err == nil, "what was sent is not reported as failed")
		vfAssert(c.writes > 0 && c.flushes > 0, "what is reported as sent was sent")
		vfAssert(failAt > 0 || !vfUnflushed(), "what is reported as sent was sent")
	}
	vfAssert(vfLocksHeld() == 0, "the lock of the writer is released")
}

func vfSendsAll(send func(w *Writer) error) {
	vfUnroll()
	for n := 0; n < 5; n++ {
		vfSends(n, 0, send)
	}
	vfSends(0, 1, send)
}

func vfC16_definition() {
	vfSendsAll(func(w *Writer) error { return w.SendTableDefinition(vfIntTable()) })
}

func vfC16_switch() {
	vfSendsAll(func(w *Writer) error { return w.SendTableSwitch(3) })
}

func vfC16_entry() {
	vfSendsAll(func(w *Writer) error {
		k, v := sticktable.SignedIntegerKey(5), sticktable.UnsignedIntegerData(6)
		return w.SendEntry(&sticktable.EntryUpdate{StickTable: vfIntTable(), Key: &k, Data: []sticktable.MapData{&v}})
	})
}

func vfC16_entries() {
	vfUnroll()
	for n := 0; n < 8; n++ {
		vfSends(n, 0, vfTwoEntries)
	}
	vfSends(0, 1, vfTwoEntries)
}

func vfTwoEntries(w *Writer) error {
	k, v := sticktable.SignedIntegerKey(5), sticktable.UnsignedIntegerData(6)
	e := &sticktable.EntryUpdate{StickTable: vfIntTable(), Key: &k, Data: []sticktable.MapData{&v}}
	return w.SendEntries([]*sticktable.EntryUpdate{e, e})
}

// An entry that cannot be encoded is an error, wherever it is in a batch.
func vfUnencodable(i int) {
	c, w := vfWriter()
	var es []*sticktable.EntryUpdate
	for j := 0; j < 3; j++ {
		e, _, _ := vfIntEntry(vfIntTable(), vfBool())
		if i == j {
			s := sticktable.BinaryKey("too short")
			e.Key = &s
			e.StickTable.KeyLength = 1 << 20
		}
		es = append(es, e)
	}
	err := w.SendEntries(es)
	vfReach("refused")
	vfAssert(err != nil, "an entry that cannot be encoded is an error")
	_ = c
}

func vfC16_unencodable_0() { vfUnroll(); vfUnencodable(0) }
func vfC16_unencodable_1() { vfUnroll(); vfUnencodable(1) }
func vfC16_unencodable_2() { vfUnroll(); vfUnencodable(2) }

// A table that cannot be encoded is an error, and is not sent.
func vfC16_unknown_data() {
	vfUnroll()
	c, w := vfWriter()
	d := vfIntTable()
	d.DataTypes[0].DataType = 60
	err := w.SendTableDefinition(d)
	vfReach("refused")
	vfAssert(err != nil, "a definition that cannot be encoded is an error")
	vfAssert(c.writes == 0, "a definition that cannot be encoded is not sent")
}

// The handshake is written by clients.
func vfC16_handshake() {
	vfUnroll()
	for n := 0; n < 5; n++ {
		c := &vfConn{failAt: n}
		h := &Handshake{ProtocolIdentifier: "HAProxyS", Version: "2.1", RemotePeer: "me", LocalPeerIdentifier: "him", ProcessID: 7, RelativeProcessID: 3}
		nw, err := h.WriteTo(c)
		if n > 0 && n <= c.writes {
			vfReach("failed")
			vfAssert(errors.Is(err, io.ErrClosedPipe), "a handshake that could not be written is reported")
		} else {
			vfReach("sent")
			vfAssert(err == nil, "a handshake that was written is not reported as failed")
			vfAssertSame(c.out, []byte(vfHello), "a handshake has three lines")
		}
		vfAssert(nw == int64(len(c.out)), "the number of bytes written is reported")
	}
}

// A session whose heartbeat cannot be written ends.
func vfC16_heartbeat() {
	vfUnroll()
	c := &vfConn{failAt: 1}
	h := &vfHandler{}
	p := newProtocolClient(vfQuietCtx(), c, h, &sync.Mutex{}, bufio.NewWriter(c))
	p.resetHeartbeat()
	p.heartbeat()
	vfReach("ended")
	vfAssert(h.closes == 1 && c.closed > 0, "a session whose heartbeat cannot be written ends")
}

func vfC16_listen() {
	vfOnListen(func(network, addr string) (net.Listener, error) { return nil, io.ErrNoProgress })
	err := ListenAndServe("127.0.0.1:1", &vfHandler{})
	vfReach("refused")
	vfAssert(errors.Is(err, io.ErrNoProgress), "a listener that cannot be opened is reported")
}

func vfC16_listening() {
	vfUnroll()
	l := &vfListener{}
	vfOnListen(func(network, addr string) (net.Listener, error) {
		vfAssert(network == "tcp" && addr == "127.0.0.1:1", "the listener is opened where the server is told to")
		return l, nil
	})
	err := ListenAndServe("127.0.0.1:1", &vfHandler{})
	vfReach("ended")
	vfAssert(errors.Is(err, vfNoMore), "a listener that fails ends Serve with its error")
	vfAssert(l.closed > 0, "a listener is closed by who opened it")
}
