package peers

import (
	"context"
	"encoding/binary"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// An update keeps its contents, whatever is received after it.

// vfKept serves two updates of a table and checks that the first is not
// changed by the second.
func vfKept(keyType byte, keyLen byte, types uint64, key func(n uint32) []byte, value func(n uint32) []byte, same func(e *sticktable.EntryUpdate, n uint32)) {
	vfTrack("l")
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	def := []byte{1, 5, 't', 'a', 'b', 'l', 'e', keyType, keyLen}
	def = vfVarint(def, types)
	def = append(def, 100)
	c.send(10, 0x82, def)
	n1, n2 := vfUint32(), vfUint32()
	for i, n := range []uint32{n1, n2} {
		b := binary.BigEndian.AppendUint32(nil, uint32(i))
		b = append(b, key(n)...)
		b = append(b, value(n)...)
		c.send(10, 0x80, b)
	}
	// another table, whose messages have the same length
	c.send(10, 0x82, []byte{2, 5, 'o', 't', 'h', 'e', 'r', 2, 4, 2, 100})
	var got []*sticktable.EntryUpdate
	h := &vfHandler{}
	h.onUpdate = func(_ context.Context, e *sticktable.EntryUpdate) { got = append(got, e) }
	vfServe(h, c)
	vfRunSpawned()
	vfAssert(len(got) == 2, "every update is handed to the handler")
	if len(got) != 2 {
		return
	}
	vfReach("kept")
	same(got[0], n1)
	same(got[1], n2)
	for _, e := range got {
		vfAssert(e.StickTable.Name == "table", "an update keeps its table")
		vfAssert(e.StickTable.StickTableID == 1, "an update keeps its table")
	}
	vfAssert(got[0] != got[1], "two updates do not share storage")
	vfAssert(!vfAliases(got[0].Key, got[1].Key), "two updates do not share their keys")
	if len(got[0].Data) == 1 && len(got[1].Data) == 1 {
		vfAssert(!vfAliases(got[0].Data[0], got[1].Data[0]), "two updates do not share their values")
	}
	vfAssert(got[0].LocalUpdateID == 0 && got[1].LocalUpdateID == 1, "an update keeps its identifier")
}

func vfBytesOf(n uint32) []byte { return binary.BigEndian.AppendUint32(nil, n) }

func vfNone(uint32) []byte { return nil }

func vfC11_binary_keys() {
	vfUnroll()
	vfKept(7, 4, 0, vfBytesOf, vfNone, func(e *sticktable.EntryUpdate, n uint32) {
		k, ok := e.Key.(*sticktable.BinaryKey)
		vfAssert(ok, "a key has the type of its table")
		vfAssertSame([]byte(*k), vfBytesOf(n), "an update keeps its key")
	})
}

func vfC11_string_keys() {
	vfUnroll()
	vfKept(6, 16, 0, func(n uint32) []byte { return append([]byte{4}, vfBytesOf(n)...) }, vfNone, func(e *sticktable.EntryUpdate, n uint32) {
		k, ok := e.Key.(*sticktable.StringKey)
		vfAssert(ok, "a key has the type of its table")
		vfAssertSame([]byte(*k), vfBytesOf(n), "an update keeps its key")
	})
}

func vfC11_dictionary() {
	vfUnroll()
	vfKept(2, 4, 1<<19, vfBytesOf, func(n uint32) []byte { return append([]byte{6, 9, 4}, vfBytesOf(n)...) }, func(e *sticktable.EntryUpdate, n uint32) {
		vfAssert(len(e.Data) == 1, "an update has the data of its table")
		d, ok := e.Data[0].(*sticktable.DictData)
		vfAssert(ok, "a value has the type of its table")
		vfAssert(d.ID == 9, "an update keeps its values")
		vfAssertSame(d.Value, vfBytesOf(n), "an update keeps its values")
	})
}

func vfC11_counters() {
	vfUnroll()
	vfKept(2, 4, 1<<2, vfBytesOf, func(n uint32) []byte { return vfVarint(nil, uint64(n)) }, func(e *sticktable.EntryUpdate, n uint32) {
		vfAssert(len(e.Data) == 1, "an update has the data of its table")
		d, ok := e.Data[0].(*sticktable.UnsignedIntegerData)
		vfAssert(ok, "a value has the type of its table")
		vfAssert(uint32(*d) == n, "an update keeps its values")
		k, ok := e.Key.(*sticktable.SignedIntegerKey)
		vfAssert(ok, "a key has the type of its table")
		vfAssert(int32(*k) == int32(n), "an update keeps its key")
	})
}

// The names of a handshake are kept while the session reads on.
func vfC11_handshake() {
	vfUnroll()
	vfTrack("l")
	vfQuietTimers()
	c := &vfConn{}
	c.hello()
	c.send(10, 0x82, vfDefinition)
	c.send(10, 0x80, vfEntry)
	h := &vfHandler{}
	var hs *Handshake
	h.onHandshake = func(_ context.Context, s *Handshake) { hs = s }
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(hs != nil, "the handler gets the handshake")
	if hs != nil {
		vfAssert(hs.RemotePeer == "me" && hs.LocalPeerIdentifier == "him", "a handshake keeps its names")
		vfAssert(!vfAliases(hs, c.in), "a handshake keeps nothing of what is read")
	}
}

// Sending keeps nothing of what was sent.
func vfC11_writer() {
	vfUnroll()
	c := &vfConn{}
	w := newWriter(c, &sync.Mutex{})
	key := sticktable.BinaryKey(vfBytes())
	e := &sticktable.EntryUpdate{StickTable: &sticktable.Definition{KeyLength: 8}, Key: &key}
	if w.SendEntry(e) == nil {
		vfReach("sent")
	}
	vfAssert(!vfAliases(w, e), "a writer keeps nothing of what it sends")
}
