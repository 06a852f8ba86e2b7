From 7ce550b8cf73e2b7f468afcedd249b36c03162ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 01/27] fix: report truncated SPOP arguments instead of
 panicking

KVScanner and MessageScanner sliced their buffer with lengths taken from
the wire without checking them against the bytes present.
---
 pkg/encoding/kvscanner.go      | 48 +++++++++++++++++++++++++---------
 pkg/encoding/messagescanner.go |  6 +++++
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..8df0616 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -183,6 +183,19 @@ func (k *KVEntry) Reset() {
 	k.intVal = 0
 }
 
+// take consumes the next n bytes of the buffer. It fails without consuming
+// anything when the buffer is shorter than that.
+func (k *KVScanner) take(n uint64) ([]byte, bool) {
+	if n > uint64(len(k.buf)) {
+		k.lastErr = ErrUnterminatedSequence
+		return nil, false
+	}
+
+	b := k.buf[:n]
+	k.buf = k.buf[n:]
+	return b, true
+}
+
 func (k *KVScanner) Next(e *KVEntry) bool {
 	if len(k.buf) == 0 {
 		return false
@@ -201,13 +214,18 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 	}
 	k.buf = k.buf[n:]
 
-	e.name = k.buf[:nameLen]
-	k.buf = k.buf[nameLen:]
+	var ok bool
+	if e.name, ok = k.take(nameLen); !ok {
+		return false
+	}
 
-	e.dataType = DataType(k.buf[0] & dataTypeMask)
+	typeByte, ok := k.take(1)
+	if !ok {
+		return false
+	}
+	e.dataType = DataType(typeByte[0] & dataTypeMask)
 	// just always decode the boolVar even tho its wrong.
-	e.boolVar = k.buf[0]&dataFlagTrue > 0
-	k.buf = k.buf[1:]
+	e.boolVar = typeByte[0]&dataFlagTrue > 0
 
 	switch e.dataType {
 	case DataTypeNull, DataTypeBool:
@@ -225,12 +243,14 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		k.buf = k.buf[n:]
 
 	case DataTypeIPV4:
-		e.byteVal = k.buf[:net.IPv4len]
-		k.buf = k.buf[net.IPv4len:]
+		if e.byteVal, ok = k.take(net.IPv4len); !ok {
+			return false
+		}
 
 	case DataTypeIPV6:
-		e.byteVal = k.buf[:net.IPv6len]
-		k.buf = k.buf[net.IPv6len:]
+		if e.byteVal, ok = k.take(net.IPv6len); !ok {
+			return false
+		}
 
 	case DataTypeString:
 		nameLen, n, err := Varint(k.buf)
@@ -240,8 +260,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
-		e.byteVal = k.buf[:nameLen]
-		k.buf = k.buf[nameLen:]
+		if e.byteVal, ok = k.take(nameLen); !ok {
+			return false
+		}
 
 	case DataTypeBinary:
 		valLen, n, err := Varint(k.buf)
@@ -251,8 +272,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
-		e.byteVal = k.buf[:valLen]
-		k.buf = k.buf[valLen:]
+		if e.byteVal, ok = k.take(valLen); !ok {
+			return false
+		}
 
 	default:
 		k.lastErr = fmt.Errorf("unknown data type: %x", e.dataType)
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 3e1cc7a..bc6ec98 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -85,6 +85,12 @@ func (s *MessageScanner) Next(m *Message) bool {
 	}
 	s.buf = s.buf[n:]
 
+	// the name is followed by the number of arguments
+	if nameLen >= uint64(len(s.buf)) {
+		s.lastErr = ErrUnterminatedSequence
+		return false
+	}
+
 	m.name = s.buf[:nameLen]
 	s.buf = s.buf[nameLen:]
 
-- 
2.43.0


From 63df26ec0bdd72586680f43611adef88dfd6930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 02/27] fix: honour the argument count of a SPOP message

KVScanner ignored the number of arguments declared by the message header
and kept reading into the following message of the same NOTIFY frame. A
scanner with a non-negative count now stops there, and MessageScanner
skips the arguments the caller left unread.
---
 pkg/encoding/kvscanner.go      | 21 +++++++++++++++------
 pkg/encoding/messagescanner.go | 10 ++++++++--
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 8df0616..fa67096 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -47,7 +47,10 @@ func ReleaseKVEntry(k *KVEntry) {
 type KVScanner struct {
 	lastErr error
 	buf     []byte
-	left    int
+
+	// left is the number of entries still to be read; a negative count reads
+	// entries until the end of the buffer.
+	left int
 }
 
 // RemainingBuf returns the remaining length of the buffer
@@ -197,7 +200,15 @@ func (k *KVScanner) take(n uint64) ([]byte, bool) {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
+	if k.left == 0 {
+		return false
+	}
+
 	if len(k.buf) == 0 {
+		if k.left > 0 {
+			// fewer arguments present than declared
+			k.lastErr = ErrUnterminatedSequence
+		}
 		return false
 	}
 
@@ -205,7 +216,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		panic("KVEntry cant be nil")
 	}
 	e.Reset()
-	k.left--
+	if k.left > 0 {
+		k.left--
+	}
 
 	nameLen, n, err := Varint(k.buf)
 	if err != nil {
@@ -285,10 +298,6 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 }
 
 func (k *KVScanner) Discard() error {
-	if k.RemainingBuf() == 0 {
-		return nil
-	}
-
 	e := AcquireKVEntry()
 	defer ReleaseKVEntry(e)
 	for k.Next(e) {
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index bc6ec98..bf0f825 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -67,11 +67,17 @@ func (s *MessageScanner) Error() error {
 
 func (s *MessageScanner) Next(m *Message) bool {
 	if m.KV != nil {
-		// if the scanner is still existing from a previous read
-		// forward the current slice to the correct position
+		// if the scanner is still existing from a previous read, skip the
+		// arguments nobody read and forward the current slice to the
+		// correct position
+		err := m.KV.Discard()
 		s.buf = s.buf[len(s.buf)-m.KV.RemainingBuf():]
 		ReleaseKVScanner(m.KV)
 		m.KV = nil
+		if err != nil {
+			s.lastErr = err
+			return false
+		}
 	}
 
 	if len(s.buf) == 0 {
-- 
2.43.0


From 50419e6a5b80e8fecd80fce67b23a201a64452de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 03/27] fix: keep the first scan error instead of resuming
 mid-argument

---
 pkg/encoding/kvscanner.go      | 3 ++-
 pkg/encoding/messagescanner.go | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index fa67096..49c1ea4 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -200,7 +200,8 @@ func (k *KVScanner) take(n uint64) ([]byte, bool) {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
-	if k.left == 0 {
+	// there is no way to resynchronise after an error
+	if k.lastErr != nil || k.left == 0 {
 		return false
 	}
 
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index bf0f825..9459097 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -66,6 +66,11 @@ func (s *MessageScanner) Error() error {
 }
 
 func (s *MessageScanner) Next(m *Message) bool {
+	// there is no way to resynchronise after an error
+	if s.lastErr != nil {
+		return false
+	}
+
 	if m.KV != nil {
 		// if the scanner is still existing from a previous read, skip the
 		// arguments nobody read and forward the current slice to the
-- 
2.43.0


From 34272414c08eeb917d51a1653e6cea8e90c0b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 04/27] fix: range check max-frame-size before truncating it to
 32 bits

---
 spop/protocol.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..71aa473 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -128,13 +128,14 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
-			c.maxFrameSize = uint32(k.ValueInt())
-			if c.maxFrameSize < 256 {
-				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
+			size := k.ValueInt()
+			if size < 256 {
+				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", size)
 			}
-			if c.maxFrameSize > maxHAProxyFrameSize {
-				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", c.maxFrameSize)
+			if size > maxHAProxyFrameSize {
+				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", size)
 			}
+			c.maxFrameSize = uint32(size)
 
 		case k.NameEquals(helloKeyEngineID):
 			// Engine ID allocation is necessary since we need to store it beyond the lifetime
-- 
2.43.0


From 1d8b9889a30deb06822a3f789831c80149180b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 05/27] fix: reject frames shorter than the frame header

Decoding such a frame read the previous content of the pooled buffer, or
panicked.
---
 spop/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..7e54924 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -124,6 +124,10 @@ func (f *frame) encodeHeader() error {
 }
 
 func (f *frame) decodeHeader() error {
+	if f.buf.Len() < 1+uint32Len {
+		return fmt.Errorf("frame length %d shorter than frame header", f.buf.Len())
+	}
+
 	// We don't need to validate here,
 	// there is validation further down the chain
 	f.frameType = frameType(f.buf.ReadNBytes(1)[0])
-- 
2.43.0


From f877caf21280d8caf743b81a1f7b1ad0a44c3c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 06/27] fix: do not interleave frames of one connection on the
 wire

Workers answer NOTIFY frames of the same connection concurrently, each
frame taking up to three writes.
---
 spop/frame.go    |  6 ++++++
 spop/protocol.go | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/spop/frame.go b/spop/frame.go
index 7e54924..78ad672 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -87,6 +87,12 @@ func (f *frame) writeTo(w io.Writer, payload []byte) (int64, error) {
 	}
 	binary.BigEndian.PutUint32(f.length, uint32(frameLen))
 
+	// A frame takes several writes: keep other frames out until it is complete.
+	if l, ok := w.(sync.Locker); ok {
+		l.Lock()
+		defer l.Unlock()
+	}
+
 	n, err := w.Write(f.length)
 	written := int64(n)
 	if err != nil {
diff --git a/spop/protocol.go b/spop/protocol.go
index 71aa473..fcec0cc 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"sync"
 	"syscall"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
@@ -12,13 +13,20 @@ import (
 
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, as *asyncScheduler, handler Handler) *protocolClient {
 	var c protocolClient
-	c.rw = rw
+	c.rw = &lockedConn{ReadWriter: rw}
 	c.handler = handler
 	c.ctx, c.ctxCancel = context.WithCancelCause(ctx)
 	c.as = as
 	return &c
 }
 
+// lockedConn lets the workers answering frames of the same connection write
+// one frame at a time.
+type lockedConn struct {
+	io.ReadWriter
+	sync.Mutex
+}
+
 type protocolClient struct {
 	rw      io.ReadWriter
 	handler Handler
-- 
2.43.0


From 534d09ac70ab69a2f94699c22cfb3b9b68cc55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 07/27] fix: leave no partial entry behind when a KV or action
 setter fails

A failed setter left the beginning of its entry in the buffer, and
KVWriter panicked when the name filled the buffer exactly.
---
 pkg/encoding/actionwriter.go |  2 ++
 pkg/encoding/kvwriter.go     | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..54c1ef1 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,7 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	start := aw.off
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
@@ -231,6 +232,7 @@ func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
 	case v.Is4():
 		aw.data[aw.off] = byte(DataTypeIPV4)
 	default:
+		aw.off = start
 		return fmt.Errorf("invalid address")
 	}
 	aw.off++
diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..0fc4882 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -45,17 +45,24 @@ func (aw *KVWriter) Bytes() []byte {
 	return aw.data[:aw.off]
 }
 
+// writeKey writes the name of an entry and makes sure that there is space for
+// the type byte following it. It writes nothing when it fails.
 func (aw *KVWriter) writeKey(name []byte) error {
 	n, err := PutBytes(aw.data[aw.off:], name)
 	if err != nil {
 		return err
 	}
 
+	if n == len(aw.data)-aw.off {
+		return ErrInsufficientSpace
+	}
+
 	aw.off += n
 	return nil
 }
 
 func (aw *KVWriter) SetString(name string, v string) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -65,6 +72,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -73,6 +81,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 }
 
 func (aw *KVWriter) SetBinary(name string, v []byte) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -82,6 +91,7 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -122,6 +132,7 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 }
 
 func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -131,6 +142,7 @@ func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
 
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -146,6 +158,7 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 }
 
 func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -156,12 +169,14 @@ func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
 	case v.Is4():
 		aw.data[aw.off] = byte(DataTypeIPV4)
 	default:
+		aw.off = start
 		return fmt.Errorf("invalid address")
 	}
 	aw.off++
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
-- 
2.43.0


From fb968d2445e782efe3c342097c8c6cb9004e6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 08/27] fix: keep accepting when setting the socket buffers of
 a connection fails

---
 spop/agent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spop/agent.go b/spop/agent.go
index 545944b..a8755c7 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -50,13 +50,14 @@ func (a *Agent) Serve(l net.Listener) error {
 		}
 
 		if tcp, ok := nc.(*net.TCPConn); ok {
+			// a connection that is already gone must not end the accept loop
 			err = tcp.SetWriteBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			if err != nil {
-				return err
+				log.Println(err)
 			}
 			err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			if err != nil {
-				return err
+				log.Println(err)
 			}
 		}
 
-- 
2.43.0


From dabaa747b546a0c45017d150bf6bfb7b210d9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 09/27] fix: contain panics of a peer connection

A malformed message or a panicking handler ended the whole process.
---
 peers/peers.go    | 19 +++++++++++++++++--
 peers/protocol.go | 12 ++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index 2a4d056..ae15190 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"net"
+	"runtime/debug"
 	"sync"
 )
 
@@ -66,15 +67,29 @@ func (a *Peer) Serve(l net.Listener) error {
 		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
 		go func() {
 			defer nc.Close()
-			defer p.Close()
 
-			if err := p.Serve(); err != nil && err != p.ctx.Err() {
+			// don't let panics inside the protocol or the handler kill the
+			// entire process
+			err := wrapPanic(func() error {
+				defer p.Close()
+				return p.Serve()
+			})
+			if err != nil && err != p.ctx.Err() {
 				log.Println(err)
 			}
 		}()
 	}
 }
 
+func wrapPanic(fn func() error) (err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("peers: panic: %v\n%s", e, debug.Stack())
+		}
+	}()
+	return fn()
+}
+
 type contextKey string
 
 const (
diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..5278bea 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -107,7 +107,7 @@ func (c *protocolClient) heartbeat() {
 	for range c.nextHeartbeat.C {
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
-			_ = c.Close()
+			c.closeRecovered()
 			return
 		}
 	}
@@ -116,7 +116,15 @@ func (c *protocolClient) heartbeat() {
 func (c *protocolClient) lastMessage() {
 	<-c.lastMessageTimer.C
 	log.Println("last message timer expired: closing connection")
-	_ = c.Close()
+	c.closeRecovered()
+}
+
+// closeRecovered closes the client from one of its own goroutines, where
+// nothing else recovers from a panic inside the handler.
+func (c *protocolClient) closeRecovered() {
+	if err := wrapPanic(c.Close); err != nil && err != c.ctx.Err() {
+		log.Println(err)
+	}
 }
 
 func (c *protocolClient) Serve() error {
-- 
2.43.0


From a97f7c28467409e27a7078fdc923909e69e3efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 10/27] fix: bound the memory a peer message header can make us
 allocate

---
 peers/protocol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/peers/protocol.go b/peers/protocol.go
index 5278bea..0c1af76 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -177,6 +177,11 @@ type byteReader interface {
 	io.Reader
 }
 
+// maxMessageSize limits the memory a remote peer can make us allocate for a
+// single message. HAProxy builds messages in a buffer of tune.bufsize bytes,
+// which is 16 KiB by default.
+const maxMessageSize = 16 << 20
+
 type rawMessage struct {
 	Data []byte
 
@@ -203,6 +208,10 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
+		if dataLength > maxMessageSize {
+			return int64(n), fmt.Errorf("message length %d exceeds maximum %d", dataLength, maxMessageSize)
+		}
+
 		m.Data = make([]byte, dataLength)
 		readData, err = io.ReadFull(r, m.Data)
 		if err != nil {
-- 
2.43.0


From 0fc5d6fff210d54350fe07f49601565d328c69d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 11/27] fix: report truncated stick table messages instead of
 panicking

The decoders indexed and sliced with lengths taken from the wire, allocated
names and values of any declared length and accepted short names.
---
 peers/sticktable/sticktables.go | 10 ++++++++++
 peers/sticktable/values.go      | 24 ++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..1c1f00e 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -38,6 +38,10 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if nameLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+
 	name := make([]byte, nameLength)
 	offset += copy(name, b[offset:])
 	s.Name = string(name)
@@ -224,11 +228,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..7a42a95 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -17,6 +17,10 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -32,6 +36,10 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
 
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
 }
@@ -47,6 +55,10 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
 
+	if len(b) < 16 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
 	return 16, nil
@@ -66,6 +78,10 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, encoding.ErrUnterminatedSequence
+	}
+
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +93,10 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = b[:keySize]
 	return int(keySize), nil
 }
@@ -225,6 +245,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	if valueLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+
 	value := make([]byte, valueLength)
 	offset += copy(value, b[offset:])
 	f.Value = value
-- 
2.43.0


From 710499515c4746ff664dbb29472b80cedeed688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 12/27] fix: report unsupported key types as an error instead
 of panicking

EntryUpdate.Unmarshal checks for a nil key, which KeyType.New never
returned.
---
 peers/sticktable/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..71f2da9 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -33,7 +33,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
-- 
2.43.0


From ff81eec06d87084d431caa77a36c77df0fa71092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 13/27] fix: read the period of glitch_rate from table
 definitions

glitch_rate is a frequency counter like the other rates, its definition
carries a counter and a period.
---
 peers/sticktable/constants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index 71f2da9..cc5ff3b 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -110,7 +110,8 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
-		DataTypeHttpFailRate:
+		DataTypeHttpFailRate,
+		DataTypeGlitchRate:
 		return true
 	default:
 		return false
-- 
2.43.0


From b29d86ea9e3385d90e26a60bad0165f0ca64c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 14/27] fix: encode and decode the length of dictionary entries

The first length of a dictionary entry covers the ID and the value, not
just the value, and is zero for a missing entry. What we sent could not be
decoded by HAProxy, nor by us when there was no value.
---
 peers/sticktable/values.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 7a42a95..d478569 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -224,6 +224,13 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	// The length covers the whole entry: its ID and, unless the remote peer
+	// knows that we have it cached, the value.
+	if length > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	b = b[:offset+int(length)]
+
 	id, n, err := encoding.Varint(b[offset:])
 	offset += n
 	if err != nil {
@@ -231,7 +238,7 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 	}
 	f.ID = id
 
-	if length == 1 {
+	if offset == len(b) {
 		return offset, nil
 	}
 
@@ -331,7 +338,26 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 func (f *DictData) Marshal(b []byte) (int, error) {
 	var offset int
 
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
+	if f.ID == 0 {
+		// no entry
+		return encoding.PutVarint(b, 0)
+	}
+
+	// The entry is preceded by its length in bytes.
+	var scratch [10]byte
+	length, err := encoding.PutVarint(scratch[:], f.ID)
+	if err != nil {
+		return offset, err
+	}
+	if len(f.Value) > 0 {
+		n, err := encoding.PutVarint(scratch[:], uint64(len(f.Value)))
+		if err != nil {
+			return offset, err
+		}
+		length += n + len(f.Value)
+	}
+
+	n, err := encoding.PutVarint(b[offset:], uint64(length))
 	offset += n
 	if err != nil {
 		return offset, err
-- 
2.43.0


From f188424ea52a6f06a823cbd8b543c53a8db35b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 15/27] fix: refuse stick table keys and values that do not fit

Short buffers truncated keys silently or panicked, and short binary keys
were not padded to the key size of the table.
---
 peers/sticktable/sticktables.go |  9 +++++++++
 peers/sticktable/values.go      | 34 ++++++++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 1c1f00e..51e8af8 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -123,6 +123,9 @@ func (s *Definition) Marshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if len(s.Name) > len(b)-offset {
+		return offset, encoding.ErrInsufficientSpace
+	}
 	offset += copy(b[offset:], s.Name)
 
 	n, err = encoding.PutVarint(b[offset:], uint64(s.KeyType))
@@ -197,11 +200,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index d478569..a6b3f87 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -264,6 +264,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -272,6 +276,13 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	if addr := (*netip.Addr)(v); !addr.Is4() && !addr.Is4In6() {
+		return 0, fmt.Errorf("not an ipv4 address: %s", addr)
+	}
+
 	a := (*netip.Addr)(v).As4()
 	copy(b, a[:])
 	return 4, nil
@@ -281,6 +292,13 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
+	if len(b) < 16 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	if addr := (*netip.Addr)(v); !addr.IsValid() {
+		return 0, fmt.Errorf("not an ipv6 address: %s", addr)
+	}
+
 	a := (*netip.Addr)(v).As16()
 	copy(b, a[:])
 	return 16, nil
@@ -292,11 +310,21 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 		return n, err
 	}
 
+	if len(*v) > len(b)-n {
+		return n, encoding.ErrInsufficientSpace
+	}
+
 	return n + copy(b[n:], *v), nil
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
-	return copy(b[:keySize], *v), nil
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
+	// a key always takes keySize bytes
+	clear(b[copy(b[:keySize], *v):keySize])
+	return int(keySize), nil
 }
 
 func (f *FreqData) Marshal(b []byte) (int, error) {
@@ -376,6 +404,10 @@ func (f *DictData) Marshal(b []byte) (int, error) {
 			return offset, err
 		}
 
+		if len(f.Value) > len(b)-offset {
+			return offset, encoding.ErrInsufficientSpace
+		}
+
 		copy(b[offset:], f.Value)
 		offset += len(f.Value)
 	}
-- 
2.43.0


From bcb8725077f93fdeacae2a5b949a02efe090ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 16/27] fix: leave messages following the handshake in the
 reader

bufio.Scanner reads ahead: messages sent along with the handshake were
lost, and the rest of the session was out of step.
---
 peers/messages.go | 60 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..8fe47a8 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -2,6 +2,7 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -41,26 +42,61 @@ func NewHandshake(remotePeer string) *Handshake {
 	}
 }
 
-func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+// readLine reads a line byte by byte, since everything following the handshake
+// has to stay in the reader.
+func readLine(r io.Reader) (string, int64, error) {
+	var (
+		line []byte
+		n    int64
+		b    [1]byte
+	)
+	for {
+		if _, err := io.ReadFull(r, b[:]); err != nil {
+			if err == io.EOF && len(line) > 0 {
+				break
+			}
+			return "", n, err
+		}
+		n++
+		if b[0] == '\n' {
+			break
+		}
+		if len(line) == bufio.MaxScanTokenSize {
+			return "", n, bufio.ErrTooLong
+		}
+		line = append(line, b[0])
+	}
+	return string(bytes.TrimSuffix(line, []byte{'\r'})), n, nil
+}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
+func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
+	line, nr, err := readLine(r)
+	n += nr
+	if err != nil {
+		return n, err
+	}
+	_, err = fmt.Sscanf(line, "%s %s", &h.ProtocolIdentifier, &h.Version)
 	if err != nil {
-		return -1, err
+		return n, err
 	}
 
-	scanner.Scan()
-	h.RemotePeer = scanner.Text()
+	h.RemotePeer, nr, err = readLine(r)
+	n += nr
+	if err != nil {
+		return n, err
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	line, nr, err = readLine(r)
+	n += nr
+	if err != nil {
+		return n, err
+	}
+	_, err = fmt.Sscanf(line, "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
 	if err != nil {
-		return -1, err
+		return n, err
 	}
 
-	//TODO: find out how many bytes where read.
-	return -1, scanner.Err()
+	return n, nil
 }
 
 func (h *Handshake) WriteTo(w io.Writer) (nw int64, err error) {
-- 
2.43.0


From 1012e4628e9ae782ec566ed61092641f08cc8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 17/27] fix: close the connection of a dead peer and its
 handler only once

When the last message timer expired, the connection stayed open and the
heartbeat kept going. Concurrent calls could close the handler twice, and
the goroutines of a closed session lingered.
---
 peers/protocol.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 0c1af76..75fa27b 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -22,6 +22,7 @@ type protocolClient struct {
 	br        *bufio.Reader
 	bw        *bufio.Writer
 	wmu       *sync.Mutex
+	closeOnce sync.Once
 
 	nextHeartbeat       *time.Ticker
 	lastMessageTimer    *time.Timer
@@ -42,13 +43,20 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 	return &c
 }
 
+// Close ends the session: it closes the handler, once, stops the goroutines of
+// the client and closes the connection, which ends Serve.
 func (c *protocolClient) Close() error {
-	defer c.ctxCancel()
-	if c.ctx.Err() != nil {
-		return c.ctx.Err()
-	}
-
-	return c.handler.Close()
+	err := c.ctx.Err()
+	c.closeOnce.Do(func() {
+		defer func() {
+			c.ctxCancel()
+			if rwc, ok := c.rw.(io.Closer); ok {
+				_ = rwc.Close()
+			}
+		}()
+		err = c.handler.Close()
+	})
+	return err
 }
 
 func (c *protocolClient) lockedWrite(data []byte) (int, error) {
@@ -104,7 +112,14 @@ func (c *protocolClient) resetLastMessage() {
 }
 
 func (c *protocolClient) heartbeat() {
-	for range c.nextHeartbeat.C {
+	defer c.nextHeartbeat.Stop()
+	for {
+		select {
+		case <-c.ctx.Done():
+			return
+		case <-c.nextHeartbeat.C:
+		}
+
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
 			c.closeRecovered()
@@ -114,7 +129,13 @@ func (c *protocolClient) heartbeat() {
 }
 
 func (c *protocolClient) lastMessage() {
-	<-c.lastMessageTimer.C
+	defer c.lastMessageTimer.Stop()
+	select {
+	case <-c.ctx.Done():
+		return
+	case <-c.lastMessageTimer.C:
+	}
+
 	log.Println("last message timer expired: closing connection")
 	c.closeRecovered()
 }
-- 
2.43.0


From 5ebad88eefba00eee4ee8796554b848b9d3772bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 18/27] fix: release the writer lock when marshaling an entry
 panics

---
 peers/writer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/peers/writer.go b/peers/writer.go
index 2a378e3..e4dcf7b 100644
--- a/peers/writer.go
+++ b/peers/writer.go
@@ -170,6 +170,8 @@ func marshalEntry(buf []byte, entry *sticktable.EntryUpdate, updateID uint32) (i
 // Note: for bulk operations, prefer SendEntries which batches writes and flushes once.
 func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	updateID := w.nextUpdateID
 	w.nextUpdateID++
 
@@ -180,7 +182,6 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 
 	offset, err := marshalEntry(w.buf, entry, updateID)
 	if err != nil {
-		w.mu.Unlock()
 		return fmt.Errorf("marshaling entry update: %w", err)
 	}
 
@@ -189,13 +190,10 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 		byte(msgType),
 		w.buf[:offset],
 	); err != nil {
-		w.mu.Unlock()
 		return err
 	}
 
-	err = w.bw.Flush()
-	w.mu.Unlock()
-	return err
+	return w.bw.Flush()
 }
 
 // SendEntries sends multiple stick table entry updates in a single
-- 
2.43.0


From 4c71d24943929f9da33f34e112778790da34b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 19/27] fix: honour stick table switch messages

Updates following a switch were attributed to the table defined last.
---
 peers/protocol.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 75fa27b..3db541a 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -26,6 +26,7 @@ type protocolClient struct {
 
 	nextHeartbeat       *time.Ticker
 	lastMessageTimer    *time.Timer
+	tableDefinitions    map[uint64]*sticktable.Definition
 	lastTableDefinition *sticktable.Definition
 	lastEntryUpdate     *sticktable.EntryUpdate
 
@@ -282,11 +283,24 @@ func (t StickTableUpdateMessageType) OnMessage(m *rawMessage, c *protocolClient)
 		if _, err := std.Unmarshal(m.Data); err != nil {
 			return err
 		}
+		if c.tableDefinitions == nil {
+			c.tableDefinitions = make(map[uint64]*sticktable.Definition)
+		}
+		c.tableDefinitions[std.StickTableID] = &std
 		c.lastTableDefinition = &std
 
 		return nil
 	case StickTableUpdateMessageTypeStickTableSwitch:
-		log.Printf("not implemented: %s", t)
+		id, _, err := encoding.Varint(m.Data)
+		if err != nil {
+			return err
+		}
+		std, ok := c.tableDefinitions[id]
+		if !ok {
+			return fmt.Errorf("switch to undefined stick table: %d", id)
+		}
+		c.lastTableDefinition = std
+
 		return nil
 	case StickTableUpdateMessageTypeUpdateAcknowledge:
 		// HAProxy sends ack messages after receiving our pushed updates.
-- 
2.43.0


From 1b8c0d3da55603908774213035867e479f81c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 20/27] fix: return the argument scanner of a message to its
 pool

---
 pkg/encoding/messagescanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 9459097..eefaa8e 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -34,8 +34,12 @@ func AcquireMessage() *Message {
 }
 
 func ReleaseMessage(m *Message) {
+	if m.KV != nil {
+		// the arguments of a message which was not read to its end
+		ReleaseKVScanner(m.KV)
+		m.KV = nil
+	}
 	m.name = nil
-	m.KV = nil
 	m.kvEntryCount = 0
 
 	messagePool.Put(m)
-- 
2.43.0


From 1f74b143e155fe51fc8c7958782f536053f46df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 21/27] fix: reject unknown data types when encoding a
 definition

---
 peers/sticktable/sticktables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 51e8af8..d54c88e 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -142,6 +142,9 @@ func (s *Definition) Marshal(b []byte) (int, error) {
 
 	var dataTypes uint64
 	for _, dataType := range s.DataTypes {
+		if dataType.DataType.New() == nil {
+			return offset, fmt.Errorf("unknown data type: %v", dataType.DataType)
+		}
 		dataTypes |= 1 << dataType.DataType
 	}
 
-- 
2.43.0


From 99063121ad7ac8355a3472b43b03e378812e0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 22/27] fix: number only the entry updates that are sent

---
 peers/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peers/writer.go b/peers/writer.go
index e4dcf7b..670adbd 100644
--- a/peers/writer.go
+++ b/peers/writer.go
@@ -173,7 +173,6 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	defer w.mu.Unlock()
 
 	updateID := w.nextUpdateID
-	w.nextUpdateID++
 
 	msgType := StickTableUpdateMessageTypeEntryUpdate
 	if entry.WithExpiry {
@@ -184,6 +183,7 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	if err != nil {
 		return fmt.Errorf("marshaling entry update: %w", err)
 	}
+	w.nextUpdateID++
 
 	if err = w.writeMessageLocked(
 		MessageClassStickTableUpdates,
@@ -206,7 +206,6 @@ func (w *Writer) SendEntries(entries []*sticktable.EntryUpdate) error {
 
 	for _, entry := range entries {
 		updateID := w.nextUpdateID
-		w.nextUpdateID++
 
 		msgType := StickTableUpdateMessageTypeEntryUpdate
 		if entry.WithExpiry {
@@ -217,6 +216,7 @@ func (w *Writer) SendEntries(entries []*sticktable.EntryUpdate) error {
 		if err != nil {
 			return fmt.Errorf("marshaling entry update: %w", err)
 		}
+		w.nextUpdateID++
 
 		if err := w.writeMessageLocked(
 			MessageClassStickTableUpdates,
-- 
2.43.0


From 4a3a14eeb3a9a37f47f7d3cafbcddef1fbf84a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 23/27] fix: report a malformed disconnect frame instead of a
 clean end

---
 spop/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index fcec0cc..a02886c 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -241,6 +241,9 @@ func (c *protocolClient) onHAProxyDisconnect(f *frame) error {
 	default:
 		err = fmt.Errorf("disconnect frame with code %d: %s", code, code)
 	}
+	if scanErr := s.Error(); scanErr != nil {
+		err = fmt.Errorf("disconnect frame: %w", scanErr)
+	}
 
 	c.ctxCancel(err)
 	return err
-- 
2.43.0


From e725b654733e23d6b9e957f343039553f4251bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 24/27] fix: report a frame that ends behind its length instead
 of a clean end

---
 spop/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spop/frame.go b/spop/frame.go
index 78ad672..1d900f4 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -69,6 +69,10 @@ func (f *frame) readFrom(r io.Reader, limit uint32) (int64, error) {
 
 	// read full frame into buffer
 	n, err := io.ReadFull(r, dataBuf)
+	if err == io.EOF {
+		// the connection ended behind the length, inside of the frame
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return int64(n + len(f.length)), fmt.Errorf("reading frame payload: %w", err)
 	}
-- 
2.43.0


From 322b48f671b33dffb08b21835d7ae38acec84cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 25/27] fix: report the error of closing a handler when its
 session ends

---
 peers/peers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peers/peers.go b/peers/peers.go
index ae15190..8519fc7 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -71,7 +71,11 @@ func (a *Peer) Serve(l net.Listener) error {
 			// don't let panics inside the protocol or the handler kill the
 			// entire process
 			err := wrapPanic(func() error {
-				defer p.Close()
+				defer func() {
+					if err := p.Close(); err != nil && err != p.ctx.Err() {
+						log.Println(err)
+					}
+				}()
 				return p.Serve()
 			})
 			if err != nil && err != p.ctx.Err() {
-- 
2.43.0


From d4bf61f4cd0e7cc7a655d5088b61b3e50f375de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 26/27] fix: return an error for an unset pointer field that
 cannot be set

---
 pkg/encoding/kvunmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/encoding/kvunmarshal.go b/pkg/encoding/kvunmarshal.go
index 3b289bc..febe1cd 100644
--- a/pkg/encoding/kvunmarshal.go
+++ b/pkg/encoding/kvunmarshal.go
@@ -126,6 +126,9 @@ func (k *KVScanner) Unmarshal(v any) error {
 	// Only iterate through known pointer fields instead of all fields
 	for _, idx := range pointerFieldIndices {
 		if !setPointerFields[idx] {
+			if !rv.Field(idx).CanSet() {
+				return fmt.Errorf("field %s is not settable", rt.Field(idx).Name)
+			}
 			rv.Field(idx).Set(reflect.Zero(rt.Field(idx).Type))
 		}
 	}
-- 
2.43.0


From 24cea64bcbced0b6d609e99a7291d7cd6be85472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 27/27] fix: a hello with a healthcheck item set to false is no
 healthcheck

---
 spop/protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a02886c..d185460 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -154,7 +154,10 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		case k.NameEquals(helloKeyHealthcheck):
 			// as described in the protocol, close connection after hello
 			// AGENT-HELLO + close()
-			defer c.ctxCancel(nil)
+			// The item can be ignored when it is set to FALSE.
+			if k.ValueBool() {
+				defer c.ctxCancel(nil)
+			}
 		}
 	}
 
-- 
2.43.0

