package peers

import (
	"bufio"
	"context"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vfAnything hides the scripted methods of a connection.
type vfAnything struct{}

func (c *vfAnything) Read(b []byte) (int, error) { panic("only whole reads are needed") }
func (c *vfAnything) Close() error               { return nil }
func (c *vfAnything) Write(b []byte) (int, error) {
	if vfBool() {
		return 0, vfErr()
	}
	return len(b), nil
}

func vfC01_handshake() {
	var h Handshake
	n, err := h.ReadFrom(bufio.NewReader(&vfAnything{}))
	vfAssert(n >= 0, "the size of a handshake is not negative")
	if err == nil {
		vfReach("handshake")
	} else {
		vfReach("rejected")
	}
}

func vfC01_message() {
	var m rawMessage
	n, err := m.ReadFrom(bufio.NewReader(&vfAnything{}))
	vfAssert(n >= 0, "the size of a message is not negative")
	if err == nil {
		vfReach("message")
	} else {
		vfReach("rejected")
	}
}

// vfSessionOf is a session with a peer that sends anything.
func vfSessionOf(h Handler) *protocolClient {
	c := &vfAnything{}
	mu := &sync.Mutex{}
	w := newWriter(c, mu)
	return newProtocolClient(vfQuietCtx(), c, h, mu, w.bufferedWriter())
}

func vfAnyMessage() *rawMessage {
	return &rawMessage{MessageClass: MessageClass(vfByte()), MessageType: vfByte(), Data: vfBytes()}
}

// A message before anything else.
func vfC01_first() {
	c := vfSessionOf(&vfHandler{})
	if c.messageHandler(vfAnyMessage()) == nil {
		vfReach("accepted")
	} else {
		vfReach("rejected")
	}
}

// A message after any definition.
func vfSecond(m *rawMessage, update bool) {
	h := &vfHandler{}
	h.onUpdate = func(_ context.Context, e *sticktable.EntryUpdate) {
		vfAssert(e != nil && e.StickTable != nil && e.Key != nil, "an update has its table and key")
	}
	c := vfSessionOf(h)
	if c.messageHandler(&rawMessage{MessageClass: 10, MessageType: 0x82, Data: vfBytes()}) != nil {
		return
	}
	vfReach("defined")
	if c.messageHandler(m) == nil {
		vfReach("accepted")
		if update {
			vfAssert(h.updates == 1, "an update that is accepted is delivered")
		}
	} else {
		vfReach("rejected")
	}
}

func vfC01_second_update() {
	vfSecond(&rawMessage{MessageClass: 10, MessageType: 0x80, Data: vfBytes()}, true)
}

func vfC01_second_incremental() {
	vfSecond(&rawMessage{MessageClass: 10, MessageType: 0x81, Data: vfBytes()}, true)
}

func vfC01_second_timed() {
	vfSecond(&rawMessage{MessageClass: 10, MessageType: 0x85, Data: vfBytes()}, true)
}

func vfC01_second_incremental_timed() {
	vfSecond(&rawMessage{MessageClass: 10, MessageType: 0x86, Data: vfBytes()}, true)
}

func vfC01_second_definition() {
	vfSecond(&rawMessage{MessageClass: 10, MessageType: 0x82, Data: vfBytes()}, false)
}

func vfC01_second_other() {
	m := vfAnyMessage()
	vfAssume(m.MessageType > 0x82 && m.MessageType < 0x85)
	vfSecond(m, false)
}
