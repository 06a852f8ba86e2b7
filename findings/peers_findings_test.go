package peers

import (
	"bufio"
	"bytes"
	"context"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

func startPeer(t *testing.T, h func() Handler) net.Conn {
	t.Helper()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	p := &Peer{HandlerSource: h}
	go p.Serve(l)
	return helperDialPeer(t, l.Addr().String(), "a", "b")
}

// F08: bytes sent by a peer, or a panicking handler, must not end the process.
func TestF08Crash(t *testing.T) {
	if os.Getenv("F08_CHILD") != "" {
		c := startPeer(t, func() Handler {
			return &testHandler{onUpdate: func(context.Context, *sticktable.EntryUpdate) { panic("handler") }}
		})
		switch os.Getenv("F08_CHILD") {
		case "huge":
			c.Write([]byte{10, 130, 255, 255, 255, 255, 255, 255, 255, 255, 127})
		case "oom":
			c.Write([]byte{10, 130, 0xf0, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f})
		case "handler":
			w := newWriter(c, &sync.Mutex{})
			def := &sticktable.Definition{Name: "x", KeyType: sticktable.KeyTypeString}
			w.SendTableDefinition(def)
			k := sticktable.StringKey("k")
			w.SendEntry(&sticktable.EntryUpdate{StickTable: def, Key: &k})
		}
		time.Sleep(500 * time.Millisecond)
		return
	}
	for _, mode := range []string{"huge", "oom", "handler"} {
		cmd := exec.Command(os.Args[0], "-test.run=TestF08Crash")
		cmd.Env = append(os.Environ(), "F08_CHILD="+mode)
		out, err := cmd.CombinedOutput()
		if err != nil {
			first := strings.SplitN(string(out), "\n", 3)
			t.Errorf("%s: process died: %v: %v", mode, err, first[:2])
		}
	}
}

// F15: the handshake must consume exactly its three lines.
func TestF15HandshakeOverread(t *testing.T) {
	r := bufio.NewReader(bytes.NewReader([]byte("HAProxyS 2.1\nremote\nlocal 1 0\n\x00\x04")))
	var h Handshake
	if _, err := h.ReadFrom(r); err != nil {
		t.Fatal(err)
	}
	if b, err := r.ReadByte(); err != nil || b != 0 {
		t.Fatalf("bytes after the handshake are lost: %v %v", b, err)
	}
}

type closeCounter struct {
	testHandler
	n atomic.Int32
}

func (c *closeCounter) Close() error { time.Sleep(100 * time.Millisecond); c.n.Add(1); return nil }

// F16: a silent peer is disconnected, its handler closed once.
func TestF16DeadPeer(t *testing.T) {
	h := &closeCounter{}
	c := startPeer(t, func() Handler { return h })
	c.SetReadDeadline(time.Now().Add(9 * time.Second))
	b := make([]byte, 16)
	for {
		if _, err := c.Read(b); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				t.Error("silent peer still connected after 9s")
			}
			break
		}
	}
}

func TestF16CloseOnce(t *testing.T) {
	h := &closeCounter{}
	p := newProtocolClient(context.Background(), nil, h, &sync.Mutex{}, bufio.NewWriter(&bytes.Buffer{}))
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.Close() }()
	}
	wg.Wait()
	if h.n.Load() != 1 {
		t.Errorf("handler closed %d times", h.n.Load())
	}
}

// F17: a panicking value must not leave the writer locked.
func TestF17WriterLock(t *testing.T) {
	w := newWriter(&bytes.Buffer{}, &sync.Mutex{})
	func() {
		defer func() { recover() }()
		w.SendEntry(&sticktable.EntryUpdate{})
	}()
	if !w.mu.TryLock() {
		t.Error("writer still locked")
	}
}

// F24: after a table switch updates belong to the selected table.
func TestF24Switch(t *testing.T) {
	got := make(chan string, 1)
	c := startPeer(t, func() Handler {
		return &testHandler{onUpdate: func(_ context.Context, u *sticktable.EntryUpdate) { got <- u.StickTable.Name }}
	})
	w := newWriter(c, &sync.Mutex{})
	a := &sticktable.Definition{Name: "a", StickTableID: 1, KeyType: sticktable.KeyTypeString}
	b := &sticktable.Definition{Name: "b", StickTableID: 2, KeyType: sticktable.KeyTypeString}
	w.SendTableDefinition(a)
	w.SendTableDefinition(b)
	w.SendTableSwitch(1)
	k := sticktable.StringKey("k")
	w.SendEntry(&sticktable.EntryUpdate{StickTable: a, Key: &k})
	select {
	case n := <-got:
		if n != "a" {
			t.Errorf("update attributed to table %q", n)
		}
	case <-time.After(2 * time.Second):
		t.Error("no update")
	}
}
