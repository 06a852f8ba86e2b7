package spop

// What a session keeps does not share memory with the frames it reads.

// vfKeeps: after a hello nothing of its frame is kept.
func vfKeeps(payload []byte) {
	vfUnroll()
	f := acquireFrame()
	vfAssume(len(payload) <= 4096)
	copy(f.buf.WriteNBytes(len(payload)), payload)
	p := &vfPeer{}
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), HandlerFunc(vfIgnore))
	if c.onHAProxyHello(f) != nil {
		return
	}
	vfReach("accepted")
	vfAssert(!vfAliases(c, f), "a session keeps nothing of the frames it reads")
	releaseFrame(f)
}

func vfC11_engine_id() {
	var e vfEnc
	e.uint32("max-frame-size", 4096)
	e.str("engine-id", vfString())
	vfKeeps(e.b)
}

func vfC11_hello_strings() {
	var e vfEnc
	e.str("supported-versions", vfString())
	e.uint32("max-frame-size", 4096)
	e.str("capabilities", vfString())
	e.str("engine-id", vfString())
	e.str(vfString(), vfString())
	vfKeeps(e.b)
}

// The session as a whole: nothing which it holds on to is part of a frame
// which is read into again.
func vfC11_notify() {
	vfUnroll()
	f := acquireFrame()
	n := vfNotify()
	vfAssume(len(n) <= 4096)
	copy(f.buf.WriteNBytes(len(n)), n)
	p := &vfPeer{}
	c := newProtocolClient(vfQuietCtx(), p, newAsyncScheduler(), HandlerFunc(vfEveryThing))
	c.maxFrameSize = 4096
	if c.onNotify(f) != nil {
		return
	}
	vfReach("answered")
	vfAssert(!vfAliases(c, f), "a session keeps nothing of the frames it reads")
	releaseFrame(f)
}

func vfC11_disconnect() {
	vfUnroll()
	f := acquireFrame()
	var e vfEnc
	e.uint32("status-code", vfUint32())
	e.str("message", vfString())
	vfAssume(len(e.b) <= 4096)
	copy(f.buf.WriteNBytes(len(e.b)), e.b)
	p := &vfPeer{}
	c := newProtocolClient(vfCtx(), p, newAsyncScheduler(), HandlerFunc(vfEveryThing))
	_ = c.onHAProxyDisconnect(f)
	vfReach("ended")
	vfAssert(!vfAliases(c, f), "a session keeps nothing of the frames it reads")
	releaseFrame(f)
}
