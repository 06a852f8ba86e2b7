package peers

import (
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vfNothing: what cannot be encoded puts nothing on the connection.
func vfNothing(c *vfWire, err error) {
	if err != nil {
		vfReach("failed")
		vfAssert(len(c.out) == 0, "nothing is sent of what cannot be encoded")
		vfAssert(vfLocksHeld() == 0, "the lock of the writer is released")
	} else {
		vfReach("sent")
		vfAssert(len(c.out) > 0, "what is reported as sent was sent")
		vfAssert(!vfUnflushed(), "what is reported as sent was flushed")
	}
}

// vfSome values fail at any point of an entry.
type vfAnyValue struct{}

func (*vfAnyValue) String() string                  { return "" }
func (*vfAnyValue) Unmarshal(b []byte) (int, error) { return 0, vfErr() }
func (*vfAnyValue) Marshal(b []byte) (int, error) {
	n := vfInt()
	vfAssume(n >= 0 && n <= len(b))
	if vfBool() {
		return n, vfErr()
	}
	return n, nil
}

func vfAnyEntry() *sticktable.EntryUpdate {
	k := sticktable.StringKey(vfString())
	e := &sticktable.EntryUpdate{StickTable: &sticktable.Definition{KeyLength: vfUint64()}, Key: &k, WithLocalUpdateID: vfBool(), LocalUpdateID: vfUint32(), WithExpiry: vfBool(), Expiry: vfUint32()}
	e.Data = []sticktable.MapData{&vfAnyValue{}}
	vfRepeat(&e.Data)
	return e
}

func vfC08_entry() {
	c, w := vfWriter()
	vfNothing(c, w.SendEntry(vfAnyEntry()))
}

func vfC08_entry_binary() {
	c, w := vfWriter()
	k := sticktable.BinaryKey(vfBytes())
	e := vfAnyEntry()
	e.Key = &k
	vfNothing(c, w.SendEntry(e))
}

func vfC08_entries() {
	c, w := vfWriter()
	vfNothing(c, w.SendEntries([]*sticktable.EntryUpdate{vfAnyEntry()}))
}

func vfC08_definition() {
	c, w := vfWriter()
	var d sticktable.Definition
	d.Name = vfString()
	d.KeyType, d.KeyLength, d.StickTableID, d.Expiry = sticktable.KeyType(vfInt()), vfUint64(), vfUint64(), vfUint64()
	for vfBool() {
		t := vfInt()
		vfAssume(t >= 0)
		d.DataTypes = append(d.DataTypes, sticktable.DataTypeDefinition{DataType: sticktable.DataType(t), Counter: vfUint64(), Period: vfUint64()})
	}
	vfNothing(c, w.SendTableDefinition(&d))
}
