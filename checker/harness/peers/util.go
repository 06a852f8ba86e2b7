package peers

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vfListener accepts the given connections, one after the other, and then
// fails.
type vfListener struct {
	conns  []net.Conn
	at     int
	closed int
}

var vfNoMore = errors.New("no more connections")

func (l *vfListener) Accept() (net.Conn, error) {
	if l.at >= len(l.conns) {
		return nil, vfNoMore
	}
	c := l.conns[l.at]
	l.at++
	return c, nil
}

func (l *vfListener) Close() error   { l.closed++; return nil }
func (l *vfListener) Addr() net.Addr { return vfAddr{} }

type vfAddr struct{}

func (vfAddr) Network() string { return "tcp" }
func (vfAddr) String() string  { return "127.0.0.1:1" }

// vfConn is a connection to a scripted peer.
type vfConn struct {
	in        []byte
	at        int
	out       []byte
	writes    int
	reads     int
	closed    int
	failAt    int // the write which fails
	panicAt   int // the write which panics
	failFlush int // the flush which fails
	flushes   int
	readPanic bool
	readErr   error // what follows the script, instead of the end
	onRead    func()
	onWrite   func()
	id        int // of a connection beside others
}

func (c *vfConn) Read(b []byte) (int, error) { panic("only whole reads are needed") }

func (c *vfConn) vfEnd() error {
	if c.closed > 0 {
		return net.ErrClosed
	}
	if c.readPanic {
		panic("read")
	}
	if c.readErr != nil {
		return c.readErr
	}
	return io.EOF
}

func (c *vfConn) vfReadFull(b []byte) (int, error) {
	c.alone()
	c.reads++
	if len(b) == 0 {
		return 0, nil
	}
	left := len(c.in) - c.at
	if left <= 0 {
		if c.onRead != nil {
			c.onRead()
		}
		return 0, c.vfEnd()
	}
	if len(b) > left {
		return left, io.ErrUnexpectedEOF
	}
	copy(b, c.in[c.at:])
	c.at += len(b)
	return len(b), nil
}

func (c *vfConn) vfReadVarint() (uint64, error) {
	v, n, err := encoding.Varint(c.in[c.at:])
	c.at += n
	if err != nil {
		return 0, io.ErrUnexpectedEOF
	}
	return v, nil
}

func (c *vfConn) Write(b []byte) (int, error) {
	c.alone()
	c.writes++
	if c.onWrite != nil {
		c.onWrite()
	}
	if c.panicAt > 0 && c.panicAt == c.writes {
		panic("write")
	}
	if c.failAt > 0 && c.failAt <= c.writes || c.closed > 0 {
		return 0, io.ErrClosedPipe
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

// vfFlush is called where a buffered writer hands its data over.
func (c *vfConn) vfFlush() error {
	c.alone()
	c.flushes++
	if c.failFlush > 0 && c.failFlush <= c.flushes {
		return io.ErrClosedPipe
	}
	return nil
}

// alone checks that no other connection has to wait for an operation, which
// may take any time.
func (c *vfConn) alone() {
	if c.id > 0 {
		vfAssert(!vfLockOwner(c.id), "a lock held while one connection is read or written is not needed by another")
	}
}

func (c *vfConn) Close() error                     { c.closed++; return nil }
func (c *vfConn) LocalAddr() net.Addr              { return vfAddr{} }
func (c *vfConn) RemoteAddr() net.Addr             { return vfAddr{} }
func (c *vfConn) SetDeadline(time.Time) error      { return nil }
func (c *vfConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vfConn) SetWriteDeadline(time.Time) error { return nil }

const vfHello = "HAProxyS 2.1\nme\nhim 7 3\n"

func (c *vfConn) hello() { c.in = append(c.in, vfHello...) }

func vfVarint(b []byte, v uint64) []byte {
	var t [10]byte
	n, err := encoding.PutVarint(t[:], v)
	vfAssert(err == nil, "ten bytes suffice for every integer")
	return append(b, t[:n]...)
}

// send adds a message to the script.
func (c *vfConn) send(class, t byte, data []byte) {
	c.in = append(c.in, class, t)
	if t >= 128 {
		c.in = vfVarint(c.in, uint64(len(data)))
		c.in = append(c.in, data...)
	}
}

// vfHandler is a scripted handler.
type vfHandler struct {
	handshakes, updates, closes int

	onHandshake func(context.Context, *Handshake)
	onUpdate    func(context.Context, *sticktable.EntryUpdate)
	onClose     func() error
}

func (h *vfHandler) HandleHandshake(ctx context.Context, s *Handshake) {
	vfAssert(vfLocksHeld() == 0, "no lock is held while a handler runs")
	h.handshakes++
	if h.onHandshake != nil {
		h.onHandshake(ctx, s)
	}
}

func (h *vfHandler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	vfAssert(vfLocksHeld() == 0, "no lock is held while a handler runs")
	h.updates++
	if h.onUpdate != nil {
		h.onUpdate(ctx, u)
	}
}

func (h *vfHandler) Close() error {
	vfAssert(vfLocksHeld() == 0, "no lock is held while a handler runs")
	h.closes++
	if h.onClose != nil {
		return h.onClose()
	}
	return nil
}

// vfServe serves connections, all of them with the given handler.
func vfServe(h Handler, conns ...net.Conn) (*vfListener, error) {
	l := &vfListener{conns: conns}
	p := Peer{Handler: h, BaseContext: vfQuietCtx()}
	err := p.Serve(l)
	return l, err
}

const vfOK = "200\n"
