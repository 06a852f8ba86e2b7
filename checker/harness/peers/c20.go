package peers

import (
	"encoding/binary"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vfWire is a connection that other goroutines write updates to as well,
// whenever the lock of the writer is free.
type vfWire struct {
	vfConn
	next   uint32 // the identifier of the next update on the wire
	w      *Writer
	ids    []uint32
	shared bool
}

func (c *vfWire) vfLocked() {
	vfAssert(c.w.nextUpdateID == c.next, "the next identifier is the one following the last update sent")
	n := vfUint32()
	vfAssume(n < 1<<31)
	c.next = n
	c.w.nextUpdateID = n
}

func vfWriter() (*vfWire, *Writer) {
	c := &vfWire{}
	w := newWriter(c, &sync.Mutex{})
	c.w = w
	return c, w
}

func vfIntTable() *sticktable.Definition {
	return &sticktable.Definition{StickTableID: 1, Name: "t", KeyType: 2, KeyLength: 4, DataTypes: []sticktable.DataTypeDefinition{{DataType: 1}}}
}

func vfIntEntry(d *sticktable.Definition, timed bool) (*sticktable.EntryUpdate, int32, uint32) {
	n, m := vfInt32(), vfUint32()
	k, v := sticktable.SignedIntegerKey(n), sticktable.UnsignedIntegerData(m)
	return &sticktable.EntryUpdate{StickTable: d, Key: &k, Data: []sticktable.MapData{&v}, WithExpiry: timed, Expiry: vfUint32(), LocalUpdateID: vfUint32(), WithLocalUpdateID: vfBool()}, n, m
}

// vfLayout appends an update as the receiving side expects it.
func vfLayout(out []byte, id uint32, e *sticktable.EntryUpdate, n int32, m uint32) []byte {
	b := binary.BigEndian.AppendUint32(nil, id)
	t := byte(0x80)
	if e.WithExpiry {
		t = 0x85
		b = binary.BigEndian.AppendUint32(b, e.Expiry)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(n))
	b = vfVarint(b, uint64(m))
	out = append(out, 10, t)
	out = vfVarint(out, uint64(len(b)))
	return append(out, b...)
}

func vfSent(c *vfWire, want []byte) {
	vfReach("sent")
	vfAssertSame(c.out, want, "updates are sent with consecutive identifiers, their type, length and layout")
	vfAssert(!vfUnflushed(), "updates are flushed")
	vfAssert(vfLocksHeld() == 0, "the lock of the writer is released")
}

func vfFirst(timed bool) {
	c, w := vfWriter()
	d := vfIntTable()
	e, n, m := vfIntEntry(d, timed)
	vfAssert(w.SendEntry(e) == nil, "an entry is sent")
	want := vfLayout(nil, 0, e, n, m)
	vfSent(c, want)
	f, n, m := vfIntEntry(d, vfBool())
	vfAssert(w.SendEntry(f) == nil, "an entry is sent")
	want = vfLayout(want, 1, f, n, m)
	vfSent(c, want)
}

func vfC20_first()       { vfUnroll(); vfFirst(false) }
func vfC20_first_timed() { vfUnroll(); vfFirst(true) }

func vfC20_batch() {
	vfUnroll()
	c, w := vfWriter()
	d := vfIntTable()
	e, n, m := vfIntEntry(d, vfBool())
	f, o, p := vfIntEntry(d, vfBool())
	vfAssert(w.SendEntries([]*sticktable.EntryUpdate{e, f}) == nil, "entries are sent")
	vfSent(c, vfLayout(vfLayout(nil, 0, e, n, m), 1, f, o, p))
	g, n, m := vfIntEntry(d, true)
	vfAssert(w.SendEntry(g) == nil, "an entry is sent")
	e2 := c.out
	b := vfLayout(nil, 2, g, n, m)
	vfAssert(len(e2) >= len(b), "updates are sent")
	if len(e2) >= len(b) {
		vfAssertSame(e2[len(e2)-len(b):], b, "identifiers go on after a batch")
	}
}

func vfC20_empty_batch() {
	c, w := vfWriter()
	vfAssert(w.SendEntries(nil) == nil, "no entries are sent")
	vfSent(c, nil)
}

// With other senders.
func vfC20_concurrent() {
	vfUnroll()
	c, w := vfWriter()
	e, n, m := vfIntEntry(vfIntTable(), vfBool())
	vfOnLock(c.vfLocked)
	err := w.SendEntry(e)
	vfAssert(err == nil, "an entry is sent")
	vfSent(c, vfLayout(nil, c.next, e, n, m))
	vfAssert(w.nextUpdateID == c.next+1, "the next identifier is the one following the last update sent")
}

func vfC20_concurrent_batch() {
	vfUnroll()
	c, w := vfWriter()
	d := vfIntTable()
	e, n, m := vfIntEntry(d, vfBool())
	f, o, p := vfIntEntry(d, vfBool())
	vfOnLock(c.vfLocked)
	err := w.SendEntries([]*sticktable.EntryUpdate{e, f})
	vfAssert(err == nil, "entries are sent")
	vfSent(c, vfLayout(vfLayout(nil, c.next, e, n, m), c.next+1, f, o, p))
	vfAssert(w.nextUpdateID == c.next+2, "the next identifier is the one following the last update sent")
}

// An entry that cannot be encoded uses no identifier.
func vfC20_failed() {
	vfUnroll()
	c, w := vfWriter()
	d := vfIntTable()
	e, _, _ := vfIntEntry(d, vfBool())
	s := sticktable.BinaryKey([]byte{1, 2, 3})
	e.Key = &s
	d2 := *d
	d2.KeyLength = 1 << 20
	e.StickTable = &d2
	vfAssert(w.SendEntry(e) != nil, "an entry that does not fit is an error")
	f, n, m := vfIntEntry(d, vfBool())
	vfAssert(w.SendEntry(f) == nil, "an entry is sent")
	vfSent(c, vfLayout(nil, 0, f, n, m))
}

// A batch that fails part of the way: the entries sent before the one that
// cannot be encoded have used identifiers, and no others.
func vfFailedBatch(before int) {
	c, w := vfWriter()
	d := vfIntTable()
	bad, _, _ := vfIntEntry(d, vfBool())
	bad.Key = new(vfBadKey)
	var es []*sticktable.EntryUpdate
	var want []byte
	id := uint32(0)
	for i := 0; i < before; i++ {
		e, n, m := vfIntEntry(d, false)
		es = append(es, e)
		want = vfLayout(want, uint32(i), e, n, m)
	}
	g, _, _ := vfIntEntry(d, false)
	vfAssert(w.SendEntries(append(es, bad, g)) != nil, "an entry that cannot be encoded is an error")
	if len(c.out) > 0 {
		id = uint32(before)
	} else {
		want = nil
	}
	f, n, m := vfIntEntry(d, vfBool())
	vfAssert(w.SendEntry(f) == nil, "an entry is sent")
	vfSent(c, vfLayout(want, id, f, n, m))
}

func vfC20_failed_batch_0() { vfUnroll(); vfFailedBatch(0) }
func vfC20_failed_batch_1() { vfUnroll(); vfFailedBatch(1) }
func vfC20_failed_batch_2() { vfUnroll(); vfFailedBatch(2) }

// Definitions and switches.
func vfC20_definition() {
	vfUnroll()
	c, w := vfWriter()
	id := vfUint64()
	d := &sticktable.Definition{StickTableID: id, Name: "one", KeyType: 2, KeyLength: 4, Expiry: 100, DataTypes: []sticktable.DataTypeDefinition{{DataType: 1}}}
	vfAssert(w.SendTableDefinition(d) == nil, "a definition is sent")
	p := vfDef(id, "one")
	want := vfVarint([]byte{10, 0x82}, uint64(len(p)))
	want = append(want, p...)
	vfSent(c, want)
	vfAssert(w.SendTableSwitch(id) == nil, "a switch is sent")
	p = vfVarint(nil, id)
	want = append(want, 10, 0x83)
	want = vfVarint(want, uint64(len(p)))
	want = append(want, p...)
	vfSent(c, want)
}

// vfIDs takes apart what is written, in pieces of any size: messages of
// twelve bytes, with consecutive identifiers.
type vfIDs struct {
	next uint32
	msg  []byte
	key  int32
}

func (c *vfIDs) Write(b []byte) (int, error) {
	c.msg = append(c.msg, b...)
	if len(c.msg) == 12 {
		vfReach("message")
		want := binary.BigEndian.AppendUint32([]byte{10, 0x80, 9}, c.next)
		want = binary.BigEndian.AppendUint32(want, uint32(c.key))
		vfAssertSame(c.msg, append(want, 5), "every update of a batch has the identifier following the one before")
		c.msg = nil
		c.next++
	}
	vfAssert(len(c.msg) < 12, "an update has its type, length and layout")
	return len(b), nil
}

func (c *vfIDs) vfFlush() error { return nil }

// A long batch.
func vfC20_long_batch() {
	vfUnroll()
	c := &vfIDs{key: vfInt32(), next: vfUint32()}
	vfAssume(c.next < 1<<30)
	w := newWriter(c, &sync.Mutex{})
	w.nextUpdateID = c.next
	k, v := sticktable.SignedIntegerKey(c.key), sticktable.UnsignedIntegerData(5)
	e := &sticktable.EntryUpdate{StickTable: vfIntTable(), Key: &k, Data: []sticktable.MapData{&v}}
	var es [300]*sticktable.EntryUpdate
	for i := range es {
		es[i] = e
	}
	first := c.next
	err := w.SendEntries(es[:])
	vfAssert(err == nil, "entries are sent")
	vfReach("sent")
	vfAssert(c.next == first+300, "every entry of a batch is sent")
	vfAssert(w.nextUpdateID == c.next, "the next identifier is the one following the last update sent")
	vfAssert(len(c.msg) == 0, "updates are sent completely")
}

// Definitions and switches between updates.
func vfC20_tables() {
	vfUnroll()
	c, w := vfWriter()
	d := vfIntTable()
	var want []byte
	id := uint32(0)
	table := func() {
		vfAssert(w.SendTableDefinition(d) == nil, "a definition is sent")
		p := make([]byte, 64)
		n, err := d.Marshal(p)
		vfAssert(err == nil, "a definition is encoded")
		want = vfVarint(append(want, 10, 0x82), uint64(n))
		want = append(want, p[:n]...)
	}
	choose := func() {
		vfAssert(w.SendTableSwitch(1) == nil, "a switch is sent")
		want = append(want, 10, 0x83, 1, 1)
	}
	entry := func(timed bool) {
		e, n, m := vfIntEntry(d, timed)
		vfAssert(w.SendEntry(e) == nil, "an update is sent")
		want = vfLayout(want, id, e, n, m)
		id++
	}
	batch := func() {
		e, n, m := vfIntEntry(d, false)
		f, k, l := vfIntEntry(d, true)
		vfAssert(w.SendEntries([]*sticktable.EntryUpdate{e, f}) == nil, "updates are sent")
		want = vfLayout(want, id, e, n, m)
		want = vfLayout(want, id+1, f, k, l)
		id += 2
	}
	table()
	entry(false)
	table()
	entry(true)
	choose()
	entry(false)
	batch()
	choose()
	batch()
	table()
	batch()
	entry(true)
	vfSent(c, want)
}
