package spop

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vfListener accepts the given connections, one after the other, and then
// fails.
type vfListener struct {
	conns  []net.Conn
	at     int
	closed int
}

var vfNoMore = errors.New("no more connections")

func (l *vfListener) Accept() (net.Conn, error) {
	if l.at >= len(l.conns) {
		return nil, vfNoMore
	}
	c := l.conns[l.at]
	l.at++
	return c, nil
}

func (l *vfListener) Close() error   { l.closed++; return nil }
func (l *vfListener) Addr() net.Addr { return vfAddr{} }

type vfAddr struct{}

func (vfAddr) Network() string { return "tcp" }
func (vfAddr) String() string  { return "127.0.0.1:1" }

// vfConn is a connection to a scripted peer.
type vfConn struct {
	vfPeer
	closed     int
	readPanic  bool
	writePanic int // the write which panics
	readFail   bool
	failAt     int // the write from which on writing fails
	id         int // of a connection beside others
}

func (c *vfConn) Read(b []byte) (int, error) {
	panic("only whole reads are needed")
}

func (c *vfConn) vfReadFull(b []byte) (int, error) {
	c.alone()
	if c.readPanic {
		panic("read")
	}
	if c.readFail {
		return 0, io.ErrNoProgress
	}
	return c.vfPeer.vfReadFull(b)
}

func (c *vfConn) Write(b []byte) (int, error) {
	c.alone()
	if c.writePanic > 0 && c.writes+1 == c.writePanic {
		c.writes++
		panic("write")
	}
	if c.failAt > 0 && c.writes+1 >= c.failAt {
		c.writes++
		return 0, io.ErrClosedPipe
	}
	return c.vfPeer.Write(b)
}

// alone checks that no other connection has to wait for an operation, which
// may take any time.
func (c *vfConn) alone() {
	if c.id > 0 {
		vfAssert(!vfLockOwner(c.id), "a lock held while one connection is read or written is not needed by another")
	}
}

func (c *vfConn) Close() error                     { c.closed++; return nil }
func (c *vfConn) LocalAddr() net.Addr              { return vfAddr{} }
func (c *vfConn) RemoteAddr() net.Addr             { return vfAddr{} }
func (c *vfConn) SetDeadline(time.Time) error      { return nil }
func (c *vfConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vfConn) SetWriteDeadline(time.Time) error { return nil }

// vfAgent serves the connections.
func vfAgent(h HandlerFunc, conns ...net.Conn) (*vfListener, error) {
	l := &vfListener{conns: conns}
	a := Agent{Handler: h, BaseContext: vfQuietCtx()}
	err := a.Serve(l)
	return l, err
}

var _ context.Context

type (
	vfWriter  = encoding.ActionWriter
	vfMessage = encoding.Message
	vfContext = context.Context
)
