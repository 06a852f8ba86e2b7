package sticktable

import (
	"bytes"
	"net/netip"
	"testing"
)

func panics(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}

// F10: truncated definitions and updates must be reported, not panic.
func TestF10Truncated(t *testing.T) {
	if p := panics(func() { new(Definition).Unmarshal([]byte{0, 255, 255, 255, 255, 255, 255, 255, 255, 127}) }); p != nil {
		t.Errorf("Definition name length: %v", p)
	}
	keys := map[KeyType]uint64{KeyTypeSignedInteger: 4, KeyTypeIPv4Address: 4, KeyTypeIPv6Address: 16, KeyTypeString: 20, KeyTypeBinary: 8}
	for kt, kl := range keys {
		e := EntryUpdate{StickTable: &Definition{KeyType: kt, KeyLength: kl}, WithLocalUpdateID: true, WithExpiry: true}
		for n := 0; n < 12; n++ {
			in := bytes.Repeat([]byte{200}, n)
			if p := panics(func() { e.Unmarshal(in) }); p != nil {
				t.Errorf("key type %v, %d bytes: %v", kt, n, p)
				break
			}
		}
	}
	if p := panics(func() { new(DictData).Unmarshal([]byte{9, 1, 255, 255, 255, 255, 255, 255, 255, 127}) }); p != nil {
		t.Errorf("DictData: %v", p)
	}
}

// F10b: a definition whose name is cut short must not be accepted.
func TestF10ShortName(t *testing.T) {
	var d Definition
	if _, err := d.Unmarshal([]byte{0, 100, 'a', 'b'}); err == nil {
		t.Error("accepted")
	}
}

// F11: a key type the library cannot decode must be an error.
func TestF11UnknownKeyType(t *testing.T) {
	e := EntryUpdate{StickTable: &Definition{KeyType: KeyTypeAny}}
	if p := panics(func() {
		if _, err := e.Unmarshal([]byte{1, 2, 3, 4}); err == nil {
			t.Error("accepted")
		}
	}); p != nil {
		t.Errorf("panic: %v", p)
	}
}

// F12: dictionary entries must survive the wire.
func TestF12Dict(t *testing.T) {
	for _, in := range []DictData{{ID: 5}, {ID: 1, Value: []byte("x")}, {ID: 300, Value: []byte("xy")}, {}} {
		b := make([]byte, 64)
		n, err := in.Marshal(b)
		if err != nil {
			t.Fatal(err)
		}
		var out DictData
		m, err := out.Unmarshal(b[:n])
		if err != nil {
			t.Errorf("%v: %v", in, err)
			continue
		}
		if m != n || out.ID != in.ID || !bytes.Equal(out.Value, in.Value) {
			t.Errorf("%+v: wrote %d bytes %x, read %d: %+v", in, n, b[:n], m, out)
		}
	}
}

// F13: keys that do not fit must be refused, short binary keys padded.
func TestF13Keys(t *testing.T) {
	k := StringKey("hello world")
	if n, err := k.Marshal(make([]byte, 4), 20); err == nil {
		t.Errorf("StringKey truncated to %d bytes without an error", n)
	}
	bk := BinaryKey("ab")
	b := bytes.Repeat([]byte{0xee}, 16)
	n, err := bk.Marshal(b, 4)
	if err != nil || n != 4 || !bytes.Equal(b[:4], []byte{'a', 'b', 0, 0}) {
		t.Errorf("BinaryKey: n=%d err=%v %x", n, err, b[:4])
	}
	ip := IPv4AddressKey(netip.MustParseAddr("1.2.3.4"))
	if n, err := ip.Marshal(make([]byte, 2), 4); err == nil {
		t.Errorf("IPv4 key into 2 bytes: %d", n)
	}
	if p := panics(func() {
		e := EntryUpdate{StickTable: &Definition{KeyLength: 4}, Key: &ip, WithLocalUpdateID: true}
		if _, err := e.Marshal(make([]byte, 2)); err == nil {
			t.Error("EntryUpdate fits 2 bytes")
		}
	}); p != nil {
		t.Errorf("EntryUpdate.Marshal: %v", p)
	}
}

// F14: every rate type carries counter and period in the definition.
func TestF14Delay(t *testing.T) {
	for d := DataTypeServerId; d <= DataTypeGlitchRate; d++ {
		_, freq := d.New().(*FreqData)
		if freq != d.IsDelay() {
			t.Errorf("%v: decoded as rate: %v, IsDelay: %v", d, freq, d.IsDelay())
		}
	}
}
