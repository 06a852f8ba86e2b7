package peers

import (
	"context"
	"encoding/binary"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vfDef is the definition of a table of integer keys with one counter (gpt0).
func vfDef(id uint64, name string) []byte {
	b := vfVarint(nil, id)
	b = vfVarint(b, uint64(len(name)))
	b = append(b, name...)
	b = append(b, 2, 4, 2) // integer keys of four bytes, gpt0
	return append(b, 100)  // expiry
}

// vfUpdate is an update as the peers protocol lays it out.
type vfUpdate struct {
	t           byte
	id, expiry  uint32
	key         int32
	value       uint32
	table       uint64
	name        string
	idKnown, ex bool
}

func vfSome(t byte) vfUpdate {
	return vfUpdate{t: t, id: vfUint32(), expiry: vfUint32(), key: vfInt32(), value: vfUint32(), idKnown: t == 0x80 || t == 0x85, ex: t == 0x85 || t == 0x86}
}

func (u vfUpdate) bytes() []byte {
	var b []byte
	if u.idKnown {
		b = binary.BigEndian.AppendUint32(b, u.id)
	}
	if u.ex {
		b = binary.BigEndian.AppendUint32(b, u.expiry)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(u.key))
	return vfVarint(b, uint64(u.value))
}

// vfIs: the handler was given this update.
func (u vfUpdate) vfIs(e *sticktable.EntryUpdate, id uint32) {
	vfAssert(e.StickTable != nil && e.Key != nil, "an update has its table and key")
	if e.StickTable == nil || e.Key == nil {
		return
	}
	vfAssert(e.StickTable.StickTableID == u.table, "an update belongs to the table selected last")
	vfAssert(e.StickTable.Name == u.name, "an update is decoded with the latest definition of its table")
	vfAssert(e.LocalUpdateID == id, "an update has its identifier")
	if u.ex {
		vfAssert(e.WithExpiry && e.Expiry == u.expiry, "an update with an expiry has it")
	} else {
		vfAssert(!e.WithExpiry && e.Expiry == 0, "an update without an expiry has none")
	}
	vfAssert(e.WithLocalUpdateID == u.idKnown, "an update tells whether its identifier was sent")
	k, ok := e.Key.(*sticktable.SignedIntegerKey)
	vfAssert(ok, "a key has the type of its table")
	if ok {
		vfAssert(int32(*k) == u.key, "an update has its key")
	}
	vfAssert(len(e.Data) == 1, "an update has the data of its table")
	if len(e.Data) == 1 {
		v, ok := e.Data[0].(*sticktable.UnsignedIntegerData)
		vfAssert(ok, "a value has the type of its table")
		if ok {
			vfAssert(uint32(*v) == u.value, "an update has its values")
		}
	}
}

// vfPlay serves the script and ends it.
func vfPlay(c *vfConn, want ...vfUpdate) *vfHandler {
	vfTrack("l")
	vfQuietTimers()
	h := &vfHandler{}
	last := uint32(0)
	h.onUpdate = func(_ context.Context, e *sticktable.EntryUpdate) {
		vfAssert(h.updates <= len(want), "an update is delivered exactly once")
		if h.updates > len(want) {
			vfEnd()
		}
		u := want[h.updates-1]
		id := u.id
		if !u.idKnown {
			if h.updates == 1 {
				id = 0 // there is none
			} else {
				id = last + 1
			}
		}
		last = id
		u.vfIs(e, id)
	}
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(h.updates == len(want), "every update is delivered to the handler")
	return h
}

// vfOne is an update of the only table.
func vfOne(t byte) {
	c := &vfConn{}
	c.hello()
	id := vfUint64()
	c.send(10, 0x82, vfDef(id, "one"))
	u := vfSome(t)
	u.table, u.name = id, "one"
	c.send(10, t, u.bytes())
	vfPlay(c, u)
	vfAssert(vfLogged() == 0, "updates are accepted")
}

func vfC19_update()            { vfUnroll(); vfOne(0x80) }
func vfC19_incremental()       { vfUnroll(); vfOne(0x81) }
func vfC19_timed()             { vfUnroll(); vfOne(0x85) }
func vfC19_incremental_timed() { vfUnroll(); vfOne(0x86) }

// vfPair: two updates of different types.
func vfPair(t, s byte) {
	c := &vfConn{}
	c.hello()
	id := vfUint64()
	c.send(10, 0x82, vfDef(id, "one"))
	u, v := vfSome(t), vfSome(s)
	u.table, u.name = id, "one"
	v.table, v.name = id, "one"
	c.send(10, t, u.bytes())
	c.send(10, s, v.bytes())
	vfPlay(c, u, v)
	vfAssert(vfLogged() == 0, "updates are accepted")
}

func vfC19_pair_80_81() { vfUnroll(); vfPair(0x80, 0x81) }
func vfC19_pair_85_81() { vfUnroll(); vfPair(0x85, 0x81) }
func vfC19_pair_80_86() { vfUnroll(); vfPair(0x80, 0x86) }
func vfC19_pair_81_81() { vfUnroll(); vfPair(0x81, 0x81) }
func vfC19_pair_86_86() { vfUnroll(); vfPair(0x86, 0x86) }
func vfC19_pair_81_80() { vfUnroll(); vfPair(0x81, 0x80) }

// The table is the one defined or selected last.
func vfC19_tables() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	a, b := vfUint64(), vfUint64()
	vfAssume(a != b)
	u, v, w := vfSome(0x80), vfSome(0x81), vfSome(0x85)
	u.table, u.name = a, "one"
	v.table, v.name = b, "two"
	w.table, w.name = a, "one"
	c.send(10, 0x82, vfDef(a, "one"))
	c.send(10, 0x80, u.bytes())
	c.send(10, 0x82, vfDef(b, "two"))
	c.send(10, 0x81, v.bytes())
	c.send(10, 0x83, vfVarint(nil, a))
	c.send(10, 0x85, w.bytes())
	vfPlay(c, u, v, w)
	vfAssert(vfLogged() == 0, "updates are accepted")
}

// A table that is defined again is used with its new definition.
func vfC19_redefined() {
	vfUnroll()
	c := &vfConn{}
	c.hello()
	a, b := vfUint64(), vfUint64()
	vfAssume(a != b)
	u := vfSome(0x80)
	u.table, u.name = a, "new"
	c.send(10, 0x82, vfDef(a, "one"))
	c.send(10, 0x82, vfDef(a, "new"))
	c.send(10, 0x82, vfDef(b, "two"))
	c.send(10, 0x83, vfVarint(nil, a))
	c.send(10, 0x80, u.bytes())
	vfPlay(c, u)
	vfAssert(vfLogged() == 0, "updates are accepted")
}

// vfBad: a message that ends the session with an error.
func vfBad(class, t byte, data []byte, define bool) {
	c := &vfConn{}
	c.hello()
	if define {
		c.send(10, 0x82, vfDef(7, "one"))
	}
	c.send(class, t, data)
	at := len(c.in)
	c.send(0, 0, nil) // would be answered
	vfPlay(c)
	vfAssert(c.at == at, "nothing is read after a bad message")
	vfAssertSame(c.out, []byte(vfOK), "nothing is sent after a bad message")
	vfAssert(vfLogged() > 0, "a bad message is an error")
	vfAssert(c.closed > 0, "a bad message ends the session")
}

func vfC19_no_table_80() { vfUnroll(); u := vfSome(0x80); vfBad(10, u.t, u.bytes(), false) }
func vfC19_no_table_81() { vfUnroll(); u := vfSome(0x81); vfBad(10, u.t, u.bytes(), false) }
func vfC19_no_table_85() { vfUnroll(); u := vfSome(0x85); vfBad(10, u.t, u.bytes(), false) }
func vfC19_no_table_86() { vfUnroll(); u := vfSome(0x86); vfBad(10, u.t, u.bytes(), false) }

func vfC19_unknown_table() {
	vfUnroll()
	id := vfUint64()
	vfAssume(id != 7)
	vfBad(10, 0x83, vfVarint(nil, id), true)
}

func vfC19_no_tables() {
	vfUnroll()
	vfBad(10, 0x83, vfVarint(nil, vfUint64()), false)
}

func vfC19_empty_switch() { vfUnroll(); vfBad(10, 0x83, nil, true) }

func vfC19_unknown_class() {
	vfUnroll()
	class, t := vfByte(), vfByte()
	vfAssume(class > 1 && class != 10)
	vfAssume(t < 128)
	vfBad(class, t, nil, true)
}

func vfC19_unknown_class_data() {
	vfUnroll()
	class, t := vfByte(), vfByte()
	vfAssume(class > 1 && class != 10)
	vfAssume(t >= 128)
	vfBad(class, t, []byte{0, 0, 0, 1, 0, 0, 0, 2, 3}, true)
}

func vfC19_unknown_control() {
	vfUnroll()
	t := vfByte()
	vfAssume(t > 4 && t < 128)
	vfBad(0, t, nil, true)
}

func vfC19_unknown_control_data() {
	vfUnroll()
	t := vfByte()
	vfAssume(t >= 128)
	vfBad(0, t, []byte{0, 0, 0, 1, 0, 0, 0, 2, 3}, true)
}

func vfC19_unknown_type() {
	vfUnroll()
	t := vfByte()
	vfAssume(t > 0x86)
	vfBad(10, t, []byte{0, 0, 0, 1, 0, 0, 0, 2, 3}, true)
}

func vfC19_unknown_type_small() {
	vfUnroll()
	t := vfByte()
	vfAssume(t < 0x80)
	vfBad(10, t, nil, true)
}

func vfC19_error_message() {
	vfUnroll()
	t := vfByte()
	vfAssume(t < 128)
	vfBad(1, t, nil, true)
}

func vfC19_error_message_data() {
	vfUnroll()
	t := vfByte()
	vfAssume(t >= 128)
	vfBad(1, t, []byte{0, 0, 0, 1, 0, 0, 0, 2, 3}, true)
}

func vfC19_truncated_update() { vfUnroll(); vfBad(10, 0x80, []byte{0, 0, 0, 1, 0, 0, 0}, true) }
func vfC19_truncated_value()  { vfUnroll(); vfBad(10, 0x80, []byte{0, 0, 0, 1, 0, 0, 0, 2}, true) }
func vfC19_truncated_timed()  { vfUnroll(); vfBad(10, 0x85, []byte{0, 0, 0, 1, 0, 0}, true) }
func vfC19_truncated_id()     { vfUnroll(); vfBad(10, 0x80, []byte{0, 0}, true) }
func vfC19_truncated_definition() {
	vfUnroll()
	vfBad(10, 0x82, []byte{9, 3, 'o'}, true)
}

// Acknowledgements and control messages do not touch the selected table, nor
// the numbering of updates.
func vfBetween(class, t byte, data []byte, answer string) {
	c := &vfConn{}
	c.hello()
	id := vfUint64()
	u, v := vfSome(0x80), vfSome(0x81)
	u.table, u.name = id, "one"
	v.table, v.name = id, "one"
	c.send(10, 0x82, vfDef(id, "one"))
	c.send(10, 0x80, u.bytes())
	c.send(class, t, data)
	c.send(10, 0x81, v.bytes())
	vfPlay(c, u, v)
	vfAssertSame(c.out, []byte(vfOK+answer), "only a resync request is answered")
	vfAssert(vfLogged() == 0, "control messages are accepted")
}

func vfC19_ack() {
	vfUnroll()
	b := vfBytes()
	vfAssume(len(b) <= 16384)
	vfBetween(10, 0x84, b, "")
}
func vfC19_resync()    { vfUnroll(); vfBetween(0, 0, nil, "\x00\x02") }
func vfC19_finished()  { vfUnroll(); vfBetween(0, 1, nil, "") }
func vfC19_partial()   { vfUnroll(); vfBetween(0, 2, nil, "") }
func vfC19_confirmed() { vfUnroll(); vfBetween(0, 3, nil, "") }
func vfC19_heartbeat() { vfUnroll(); vfBetween(0, 4, nil, "") }

// vfDef2 is another definition of such a table, without its counter.
func vfDef2(id uint64, name string) []byte {
	b := vfVarint(nil, id)
	b = vfVarint(b, uint64(len(name)))
	b = append(b, name...)
	return append(b, 2, 4, 0, 50)
}

// vfScript runs messages against a model of the tables, followed by updates
// with and without an identifier. The tables 3 and 4 have the definitions vfDef and vfDef2.
func vfScript(ops ...byte) {
	c := &vfConn{}
	c.hello()
	h := &vfHandler{}
	var ids [2]bool    // the tables defined so far
	var plain [2]bool  // whether the latest definition is the second one
	var cur int = -1   // the table selected
	var last uint32    // the identifier of the last update
	var some, bad bool // there was an update; the session ends
	type exp struct {
		table uint64
		plain bool
		id    uint32
		ex    bool
	}
	var want []exp
	end := 0
	for _, op := range append(ops, 'i', 'u', 'i', 'I') {
		if bad {
			break
		}
		switch op {
		case 'a', 'A', 'b', 'B':
			i, p := 0, op == 'A' || op == 'B'
			if op == 'b' || op == 'B' {
				i = 1
			}
			ids[i], plain[i], cur = true, p, i
			if p {
				c.send(10, 0x82, vfDef2(uint64(3+i), "t"))
			} else {
				c.send(10, 0x82, vfDef(uint64(3+i), "t"))
			}
		case 's', 'S':
			i := 0
			if op == 'S' {
				i = 1
			}
			c.send(10, 0x83, []byte{byte(3 + i)})
			if bad = !ids[i]; !bad {
				cur = i
			}
		case 'k', 'K':
			i := 0
			if op == 'K' {
				i = 1
			}
			c.send(10, 0x84, []byte{byte(3 + i), 0, 0, 0, 1})
		case 'h':
			c.send(0, 4, nil)
		case 'f':
			c.send(0, 1, nil)
		case 'u', 'U', 'i', 'I':
			u := vfSome(0x80)
			switch op {
			case 'U':
				u = vfSome(0x85)
			case 'i':
				u = vfSome(0x81)
			case 'I':
				u = vfSome(0x86)
			}
			b := u.bytes()
			if cur >= 0 && plain[cur] {
				b = b[:len(b)-1]
			}
			c.send(10, u.t, b)
			if bad = cur < 0; bad {
				break
			}
			id := u.id
			if !u.idKnown {
				id = 0
				if some {
					id = last + 1
				}
			}
			last, some = id, true
			want = append(want, exp{uint64(3 + cur), plain[cur], id, u.ex})
		}
	}
	end = len(c.in)
	h.onUpdate = func(_ context.Context, e *sticktable.EntryUpdate) {
		vfAssert(h.updates <= len(want), "an update is delivered exactly once")
		if h.updates > len(want) {
			vfEnd()
		}
		w := want[h.updates-1]
		vfAssert(e.StickTable != nil, "an update has its table")
		vfAssert(e.StickTable.StickTableID == w.table, "an update belongs to the table selected last")
		vfAssert(len(e.StickTable.DataTypes) == 0 == w.plain, "an update is decoded with the latest definition of its table")
		vfAssert(len(e.Data) == 0 == w.plain, "an update has the data of its table")
		vfAssert(e.LocalUpdateID == w.id, "an update has its identifier")
		vfAssert(e.WithExpiry == w.ex, "an update with an expiry has it")
	}
	if bad {
		c.send(0, 4, nil)
	}
	vfTrack("l")
	vfQuietTimers()
	vfServe(h, c)
	vfRunSpawned()
	vfReach("ended")
	vfAssert(h.updates == len(want), "every update is delivered to the handler")
	vfAssert(c.at == end, "messages are read up to the first bad one")
	vfAssert(vfLogged() > 0 == bad, "exactly bad messages are errors")
}
