package spop

import (
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

func panics(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}

// F05: frames too short for a header must be refused.
func TestF05ShortFrame(t *testing.T) {
	for n := 0; n < 7; n++ {
		var b bytes.Buffer
		binary.Write(&b, binary.BigEndian, uint32(n))
		b.Write(bytes.Repeat([]byte{1}, n))
		if p := panics(func() {
			f := acquireFrame()
			_, err := f.ReadFrom(&b)
			if n < 7 && err == nil {
				t.Errorf("%d bytes accepted", n)
			}
		}); p != nil {
			t.Errorf("%d byte frame: %v", n, p)
		}
	}
}

// F04: the advertised max-frame-size is judged on its full value.
func TestF04MaxFrameSizeTruncated(t *testing.T) {
	f := acquireFrame()
	f.frameType = frameTypeIDHaproxyHello
	_ = f.encodeHeader()
	h := f.buf.Len()
	w := encoding.NewKVWriter(f.buf.WriteBytes(), 0)
	_ = w.SetUInt64(helloKeyMaxFrameSize, 1<<32|4096)
	f.buf.AdvanceW(w.Off())
	f.buf.AdvanceR(h)
	var rw bytes.Buffer
	c := newProtocolClient(context.Background(), &rw, nil, nil)
	if err := c.onHAProxyHello(f); err == nil {
		t.Errorf("offer of 2^32+4096 accepted as %d", c.maxFrameSize)
	}
}

type slowConn struct {
	io.ReadWriter
	mu  sync.Mutex
	out bytes.Buffer
}

func (s *slowConn) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.out.Write(p)
	s.mu.Unlock()
	time.Sleep(2 * time.Millisecond)
	return len(p), nil
}

// F06: frames written to one connection from several goroutines stay whole.
func TestF06Interleaved(t *testing.T) {
	sc := &slowConn{}
	c := newProtocolClient(context.Background(), sc, nil, HandlerFunc(func(_ context.Context, w *encoding.ActionWriter, _ *encoding.Message) {}))
	c.gotHello, c.maxFrameSize = true, maxFrameSize
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		f := acquireFrame()
		f.frameType = frameTypeIDNotify
		f.meta.StreamID = uint64(i)
		wg.Add(1)
		go func() { defer wg.Done(); _ = c.frameHandler(f) }()
	}
	wg.Wait()
	r := bytes.NewReader(sc.out.Bytes())
	for i := 0; i < 8; i++ {
		var f *frame
		var err error
		if p := panics(func() {
			f = acquireFrame()
			_, err = f.ReadFrom(r)
		}); p != nil || err != nil || f.frameType != frameTypeIDAck {
			t.Fatalf("ack %d: panic %v err %v frame %+v", i, p, err, f)
		}
	}
}

// closedListener hands out one TCP connection that is already closed, then a good one.
type closedListener struct {
	net.Listener
	n int
}

func (l *closedListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil && l.n == 0 {
		l.n++
		c.Close()
	}
	return c, err
}

// F18: trouble with one connection must not end the accept loop.
func TestF18AcceptLoop(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	a := Agent{Handler: HandlerFunc(nil)}
	done := make(chan error, 1)
	go func() { done <- a.Serve(&closedListener{Listener: l}) }()
	if c, err := net.Dial("tcp", l.Addr().String()); err == nil {
		defer c.Close()
	}
	select {
	case err := <-done:
		t.Fatalf("Serve ended: %v", err)
	case <-time.After(300 * time.Millisecond):
	}
	l.Close()
}

// F27: a hello that says it is no healthcheck starts a session.
func TestF27HealthcheckFalse(t *testing.T) {
	f := acquireFrame()
	f.frameType = frameTypeIDHaproxyHello
	_ = f.encodeHeader()
	h := f.buf.Len()
	w := encoding.NewKVWriter(f.buf.WriteBytes(), 0)
	_ = w.SetUInt32(helloKeyMaxFrameSize, 16380)
	_ = w.SetBool(helloKeyHealthcheck, false)
	f.buf.AdvanceW(w.Off())
	f.buf.AdvanceR(h)
	var rw bytes.Buffer
	c := newProtocolClient(context.Background(), &rw, nil, nil)
	if err := c.onHAProxyHello(f); err != nil {
		t.Fatal(err)
	}
	if c.ctx.Err() != nil {
		t.Errorf("the session ended although the hello says it is no healthcheck")
	}
}
