package encoding

import "net/netip"

// A writer keeps exactly what was completed, whatever runs out of space.

// vfKept compares what was in the writer before with what it holds now.
func vfKept(data, old []byte, off, now, min, max int, err error) {
	if err != nil {
		vfReach("failed")
		vfAssert(now == off, "a failed setter leaves no partial entry")
		vfAssert(len(data) == off, "what the writer holds ends at its offset")
	} else {
		vfReach("written")
		vfAssert(now >= off+min && now <= off+max, "a setter that succeeds has written a whole entry")
		vfAssert(len(data) == now, "what the writer holds ends at its offset")
	}
	vfAssertSame(data[:off], old, "the entries before are kept")
}

// vfRoom is a list of any length in a buffer with any room behind it.
func vfRoom() (*KVWriter, int, []byte) {
	off := vfInt()
	b := vfBytes()
	vfAssume(off >= 0 && off <= len(b))
	old := append([]byte(nil), b[:off]...)
	return NewKVWriter(b, off), off, old
}

func vfActionRoom() (*ActionWriter, int, []byte) {
	off := vfInt()
	b := vfBytes()
	vfAssume(off >= 0 && off <= len(b))
	old := append([]byte(nil), b[:off]...)
	return NewActionWriter(b, off), off, old
}

// vfAddr is any address, or none.
func vfAddr() netip.Addr {
	if ip, ok := netip.AddrFromSlice(vfBytes()); ok {
		return ip
	}
	return netip.Addr{}
}

func vfC08_kv_string() {
	w, off, old := vfRoom()
	name, v := vfString(), vfString()
	err := w.SetString(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+len(v)+1, len(name)+11+len(v)+10, err)
}

func vfC08_kv_binary() {
	w, off, old := vfRoom()
	name, v := vfString(), vfBytes()
	err := w.SetBinary(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+len(v)+1, len(name)+11+len(v)+10, err)
}

func vfC08_kv_null() {
	w, off, old := vfRoom()
	name := vfString()
	err := w.SetNull(name)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+0, len(name)+11+0, err)
}

func vfC08_kv_bool() {
	w, off, old := vfRoom()
	name, v := vfString(), vfBool()
	err := w.SetBool(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+0, len(name)+11+0, err)
}

func vfC08_kv_int32() {
	w, off, old := vfRoom()
	name, v := vfString(), vfInt32()
	err := w.SetInt32(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+1, len(name)+11+10, err)
}

func vfC08_kv_uint32() {
	w, off, old := vfRoom()
	name, v := vfString(), vfUint32()
	err := w.SetUInt32(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+1, len(name)+11+10, err)
}

func vfC08_kv_int64() {
	w, off, old := vfRoom()
	name, v := vfString(), vfInt64()
	err := w.SetInt64(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+1, len(name)+11+10, err)
}

func vfC08_kv_uint64() {
	w, off, old := vfRoom()
	name, v := vfString(), vfUint64()
	err := w.SetUInt64(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+1, len(name)+11+10, err)
}

func vfC08_kv_addr() {
	w, off, old := vfRoom()
	name, v := vfString(), vfAddr()
	err := w.SetAddr(name, v)
	vfKept(w.Bytes(), old, off, w.Off(), len(name)+2+4, len(name)+11+16, err)
}

func vfC08_action_string() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfString()
	err := w.SetString(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+len(v)+1, len(name)+14+len(v)+10, err)
}

func vfC08_action_binary() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfBytes()
	err := w.SetBinary(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+len(v)+1, len(name)+14+len(v)+10, err)
}

func vfC08_action_null() {
	w, off, old := vfActionRoom()
	s, name := vfScope(), vfString()
	err := w.SetNull(s, name)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+0, len(name)+14+0, err)
}

func vfC08_action_bool() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfBool()
	err := w.SetBool(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+0, len(name)+14+0, err)
}

func vfC08_action_int32() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfInt32()
	err := w.SetInt32(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+1, len(name)+14+10, err)
}

func vfC08_action_uint32() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfUint32()
	err := w.SetUInt32(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+1, len(name)+14+10, err)
}

func vfC08_action_int64() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfInt64()
	err := w.SetInt64(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+1, len(name)+14+10, err)
}

func vfC08_action_uint64() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfUint64()
	err := w.SetUInt64(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+1, len(name)+14+10, err)
}

func vfC08_action_addr() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfAddr()
	err := w.SetAddr(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+4, len(name)+14+16, err)
}

func vfC08_action_stringbytes() {
	w, off, old := vfActionRoom()
	s, name, v := vfScope(), vfString(), vfBytes()
	err := w.SetStringBytes(s, name, v)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+len(v)+1, len(name)+14+len(v)+10, err)
}

func vfC08_action_unset() {
	w, off, old := vfActionRoom()
	s, name := vfScope(), vfString()
	err := w.Unset(s, name)
	vfActionKept(w.Bytes(), old, off, w.Off(), len(name)+5+-1, len(name)+14+-1, err)
}

// vfActionKept: action writers grow, so only invalid values fail.
func vfActionKept(data, old []byte, off, now, min, max int, err error) {
	if err != nil {
		vfAssert(now == off, "a failed setter leaves no partial action")
		vfAssert(len(data) == off, "what the writer holds ends at its offset")
	} else {
		vfReach("written")
		vfAssert(now >= off+min && now <= off+max, "a setter that succeeds has written a whole action")
		vfAssert(len(data) == now, "what the writer holds ends at its offset")
	}
	vfAssertSame(data[:off], old, "the actions before are kept")
}

// An address that is none is an error, and nothing of it is written.
func vfC08_invalid_kv() {
	w, off, old := vfRoom()
	name := vfString()
	err := w.SetAddr(name, netip.Addr{})
	vfAssert(err != nil, "an invalid value is an error")
	vfReach("refused")
	vfAssert(w.Off() == off, "a failed setter leaves no partial entry")
	vfAssertSame(w.Bytes(), old, "the entries before are kept")
}

func vfC08_invalid_action() {
	w, off, old := vfActionRoom()
	s, name := vfScope(), vfString()
	err := w.SetAddr(s, name, netip.Addr{})
	vfAssert(err != nil, "an invalid value is an error")
	vfReach("refused")
	vfAssert(w.Off() == off, "a failed setter leaves no partial action")
	vfAssertSame(w.Bytes(), old, "the actions before are kept")
}

// A setter that fails is followed by others that succeed.
func vfC08_kv_retry() {
	w, off, old := vfRoom()
	name, v := vfString(), vfBytes()
	if w.SetBinary(name, v) == nil {
		return
	}
	vfReach("failed")
	short := vfString()
	if w.SetNull(short) != nil {
		return
	}
	vfReach("written")
	e := vfEntry(w, off, short, 0, nil)
	vfAssert(e.Type() == DataTypeNull, "an entry following a failed one is intact")
	vfAssertSame(w.Bytes()[:off], old, "the entries before are kept")
}

// With enough room nothing fails.
func vfC08_kv_room() {
	off, b := vfInt(), vfBytes()
	vfAssume(off >= 0 && off <= len(b))
	w := NewKVWriter(b, off)
	name, v := vfString(), vfBytes()
	vfAssume(len(b)-off >= len(name)+len(v)+21)
	err := w.SetBinary(name, v)
	vfReach("written")
	vfAssert(err == nil, "with enough room nothing fails")
}

func vfC08_bytes() {
	b, v := vfBytes(), vfBytes()
	n, err := PutBytes(b, v)
	if err != nil {
		vfReach("failed")
		vfAssert(n == 0, "nothing is written in case of an error")
	} else {
		vfReach("written")
		vfAssert(n <= len(b), "what is written fits")
		vfAssert(n > len(v) && n <= len(v)+10, "the value is written whole")
	}
}

func vfC08_addr() {
	b, v := vfBytes(), vfAddr()
	n, err := PutAddr(b, v)
	if err != nil {
		vfReach("failed")
		vfAssert(n == 0, "nothing is written in case of an error")
	} else {
		vfReach("written")
		vfAssert(n <= len(b), "what is written fits")
		vfAssert(n == v.BitLen()/8, "the address is written whole")
	}
}
