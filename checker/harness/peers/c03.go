package peers

import "bufio"

// Whatever length is announced, memory is taken up to the limit at most.
func vfC03_message() {
	vfAllocBound(16 << 20)
	var m rawMessage
	n, err := m.ReadFrom(bufio.NewReader(&vfAnything{}))
	if err == nil {
		vfReach("message")
		vfAssert(n <= 16<<20+2, "no message beyond the limit is accepted")
		vfAssert(len(m.Data) <= 16<<20, "no message beyond the limit is accepted")
	} else {
		vfReach("rejected")
	}
}

// A longer message is rejected before its body is read.
func vfC03_body() {
	vfUnroll()
	size := vfUint64()
	vfAssume(size > 16<<20)
	c := &vfConn{in: []byte{10, 0x80}}
	c.in = vfVarint(c.in, size)
	at := len(c.in)
	c.in = append(c.in, vfBytes()...)
	vfAllocBound(16 << 20)
	var m rawMessage
	_, err := m.ReadFrom(bufio.NewReader(c))
	vfReach("rejected")
	vfAssert(err != nil, "a message beyond the limit is rejected")
	vfAssert(c.at == at, "a message beyond the limit is rejected before its body is read")
}

// The lines of a handshake are limited.
func vfC03_handshake() {
	vfAllocBound(128 << 10)
	var h Handshake
	_, err := h.ReadFrom(bufio.NewReader(&vfAnything{}))
	if err == nil {
		vfReach("handshake")
	} else {
		vfReach("rejected")
	}
}

// Definitions and updates take no more memory than the message has bytes.
func vfC03_decoded() {
	c := vfSessionOf(&vfHandler{})
	b := vfBytes()
	vfAssume(len(b) <= 16<<20)
	vfAllocBound(16 << 20)
	if c.messageHandler(&rawMessage{MessageClass: 10, MessageType: 0x82, Data: b}) == nil {
		vfReach("defined")
	} else {
		vfReach("rejected")
	}
}
