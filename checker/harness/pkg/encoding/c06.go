package encoding

import "net/netip"

// The layout of the SPOE specification, against the encoders and the decoder.

type vfEnc struct{ b []byte }

func (e *vfEnc) byte(v byte) { e.b = append(e.b, v) }

func (e *vfEnc) varint(v uint64) {
	var t [10]byte
	n, err := PutVarint(t[:], v)
	vfAssert(err == nil, "ten bytes suffice for every integer")
	e.b = append(e.b, t[:n]...)
}

func (e *vfEnc) bytes(v []byte) {
	e.varint(uint64(len(v)))
	e.b = append(e.b, v...)
}

// vfEntry checks an encoded entry and decodes it.
func vfEntry(w *KVWriter, before int, name string, tag byte, val []byte) *KVEntry {
	var exp vfEnc
	exp.bytes([]byte(name))
	exp.byte(tag)
	exp.b = append(exp.b, val...)
	vfAssertSame(w.Bytes()[before:], exp.b, "an entry is its name, its type and its value")
	vfAssert(w.Off() == before+len(exp.b), "the offset is behind the entry")

	s := NewKVScanner(w.Bytes()[before:], 1)
	e := &KVEntry{}
	ok := s.Next(e)
	vfAssert(ok, "a written entry is decoded")
	vfAssert(s.Error() == nil, "no error for a written entry")
	vfAssert(s.RemainingBuf() == 0, "a written entry is decoded completely")
	vfAssertSame(e.NameBytes(), []byte(name), "the name is decoded as written")
	vfAssert(byte(e.Type()) == tag&0x0f, "the type is decoded as written")
	return e
}

func vfWriter() (*KVWriter, int) {
	off := vfInt()
	b := vfBytes()
	vfAssume(off >= 0 && off <= len(b))
	return NewKVWriter(b, off), off
}

func vfVarintBytes(v uint64) []byte {
	var e vfEnc
	e.varint(v)
	return e.b
}

func vfC06_kv_string() {
	w, off := vfWriter()
	name, v := vfString(), vfString()
	if w.SetString(name, v) != nil {
		return
	}
	vfReach("written")
	var val vfEnc
	val.bytes([]byte(v))
	e := vfEntry(w, off, name, 8, val.b)
	vfAssertSame(e.ValueBytes(), []byte(v), "the string is decoded as written")
	s, ok := e.Value().(string)
	vfAssert(ok, "a string has a string value")
	vfAssertSame([]byte(s), []byte(v), "the string value is the one written")
}

func vfC06_kv_binary() {
	w, off := vfWriter()
	name, v := vfString(), vfBytes()
	if w.SetBinary(name, v) != nil {
		return
	}
	vfReach("written")
	var val vfEnc
	val.bytes(v)
	e := vfEntry(w, off, name, 9, val.b)
	vfAssertSame(e.ValueBytes(), v, "the binary is decoded as written")
	s, ok := e.Value().([]byte)
	vfAssert(ok, "a binary has a bytes value")
	vfAssertSame(s, v, "the binary value is the one written")
}

func vfC06_kv_null() {
	w, off := vfWriter()
	name := vfString()
	if w.SetNull(name) != nil {
		return
	}
	vfReach("written")
	e := vfEntry(w, off, name, 0, nil)
	vfAssert(e.Value() == nil, "null has no value")
}

func vfC06_kv_bool() {
	w, off := vfWriter()
	name, v := vfString(), vfBool()
	if w.SetBool(name, v) != nil {
		return
	}
	vfReach("written")
	tag := byte(0x01)
	if v {
		tag = 0x11
	}
	e := vfEntry(w, off, name, tag, nil)
	vfAssert(e.ValueBool() == v, "the boolean is decoded as written")
	b, ok := e.Value().(bool)
	vfAssert(ok, "a boolean has a bool value")
	vfAssert(b == v, "the boolean value is the one written")
}

func vfC06_kv_int32() {
	w, off := vfWriter()
	name, v := vfString(), vfInt32()
	if w.SetInt32(name, v) != nil {
		return
	}
	vfReach("written")
	e := vfEntry(w, off, name, 2, vfVarintBytes(uint64(int64(v))))
	vfAssert(e.ValueInt() == int64(v), "the integer is decoded as written")
	i, ok := e.Value().(int32)
	vfAssert(ok, "an int32 has an int32 value")
	vfAssert(i == v, "the int32 value is the one written")
}

func vfC06_kv_uint32() {
	w, off := vfWriter()
	name, v := vfString(), vfUint32()
	if w.SetUInt32(name, v) != nil {
		return
	}
	vfReach("written")
	e := vfEntry(w, off, name, 3, vfVarintBytes(uint64(v)))
	vfAssert(e.ValueInt() == int64(v), "the integer is decoded as written")
	i, ok := e.Value().(uint32)
	vfAssert(ok, "an uint32 has an uint32 value")
	vfAssert(i == v, "the uint32 value is the one written")
}

func vfC06_kv_int64() {
	w, off := vfWriter()
	name, v := vfString(), vfInt64()
	if w.SetInt64(name, v) != nil {
		return
	}
	vfReach("written")
	e := vfEntry(w, off, name, 4, vfVarintBytes(uint64(v)))
	vfAssert(e.ValueInt() == v, "the integer is decoded as written")
	i, ok := e.Value().(int64)
	vfAssert(ok, "an int64 has an int64 value")
	vfAssert(i == v, "the int64 value is the one written")
}

func vfC06_kv_uint64() {
	w, off := vfWriter()
	name, v := vfString(), vfUint64()
	if w.SetUInt64(name, v) != nil {
		return
	}
	vfReach("written")
	e := vfEntry(w, off, name, 5, vfVarintBytes(v))
	vfAssert(uint64(e.ValueInt()) == v, "the integer is decoded as written")
	i, ok := e.Value().(uint64)
	vfAssert(ok, "an uint64 has an uint64 value")
	vfAssert(i == v, "the uint64 value is the one written")
}

func vfC06_kv_addr() {
	w, off := vfWriter()
	name := vfString()
	raw := vfBytes()
	ip, ok := netip.AddrFromSlice(raw)
	if !ok {
		return
	}
	if w.SetAddr(name, ip) != nil {
		return
	}
	var e *KVEntry
	if len(raw) == 4 {
		vfReach("ipv4")
		e = vfEntry(w, off, name, 6, raw)
	} else {
		vfReach("ipv6")
		e = vfEntry(w, off, name, 7, raw)
	}
	vfAssertSame(e.ValueBytes(), raw, "the address is decoded as written")
	a := e.ValueAddr()
	vfAssertSame(a.AsSlice(), raw, "the address value is the one written")
	b, ok := e.Value().(netip.Addr)
	vfAssert(ok, "an address has an address value")
	vfAssertSame(b.AsSlice(), raw, "the address value is the one written")
}

// Actions.

func vfActions() (*ActionWriter, int) {
	off := vfInt()
	b := vfBytes()
	vfAssume(off >= 0 && off <= len(b))
	return NewActionWriter(b, off), off
}

func vfScope() varScope { return varScope(vfByte()) }

func vfAction(w *ActionWriter, before int, s varScope, name string, rest []byte) {
	var exp vfEnc
	exp.byte(1)
	exp.byte(3)
	exp.byte(byte(s))
	exp.bytes([]byte(name))
	exp.b = append(exp.b, rest...)
	vfAssertSame(w.Bytes()[before:], exp.b, "an action is its type, argument count, scope, name, value type and value")
	vfAssert(w.Off() == before+len(exp.b), "the offset is behind the action")
}

func vfTagged(tag byte, val []byte) []byte {
	var e vfEnc
	e.byte(tag)
	e.b = append(e.b, val...)
	return e.b
}

func vfC06_action_string() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfString()
	err := w.SetString(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	var val vfEnc
	val.bytes([]byte(v))
	vfAction(w, off, s, name, vfTagged(8, val.b))
}

func vfC06_action_stringbytes() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfBytes()
	err := w.SetStringBytes(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	var val vfEnc
	val.bytes(v)
	vfAction(w, off, s, name, vfTagged(8, val.b))
}

func vfC06_action_binary() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfBytes()
	err := w.SetBinary(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	var val vfEnc
	val.bytes(v)
	vfAction(w, off, s, name, vfTagged(9, val.b))
}

func vfC06_action_null() {
	w, off := vfActions()
	s, name := vfScope(), vfString()
	err := w.SetNull(s, name)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	vfAction(w, off, s, name, vfTagged(0, nil))
}

func vfC06_action_bool() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfBool()
	err := w.SetBool(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	if v {
		vfAction(w, off, s, name, vfTagged(0x11, nil))
	} else {
		vfAction(w, off, s, name, vfTagged(0x01, nil))
	}
}

func vfC06_action_int64() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfInt64()
	err := w.SetInt64(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	vfAction(w, off, s, name, vfTagged(4, vfVarintBytes(uint64(v))))
}

// vfNumber checks the action of an integer whose type may be announced
// exactly or as a signed 64-bit integer, which HAProxy treats alike.
func vfNumber(w *ActionWriter, before int, s varScope, name string, exact byte, val uint64) {
	var exp vfEnc
	exp.byte(1)
	exp.byte(3)
	exp.byte(byte(s))
	exp.bytes([]byte(name))
	at := before + len(exp.b)
	vfAssertSame(w.Bytes()[before:at], exp.b, "an action is its type, argument count, scope, name, value type and value")
	tag := w.Bytes()[at]
	vfAssert(tag == 4 || tag == exact, "the value type is an integer type of the SPOE specification")
	vfAssertSame(w.Bytes()[at+1:], vfVarintBytes(val), "the value is encoded as written")
}

func vfC06_action_int32() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfInt32()
	err := w.SetInt32(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	vfNumber(w, off, s, name, 2, uint64(int64(v)))
}

func vfC06_action_uint32() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfUint32()
	err := w.SetUInt32(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	vfNumber(w, off, s, name, 3, uint64(v))
}

func vfC06_action_uint64() {
	w, off := vfActions()
	s, name, v := vfScope(), vfString(), vfUint64()
	err := w.SetUInt64(s, name, v)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	vfNumber(w, off, s, name, 5, v)
}

func vfC06_action_addr() {
	w, off := vfActions()
	s, name := vfScope(), vfString()
	raw := vfBytes()
	ip, ok := netip.AddrFromSlice(raw)
	if !ok {
		return
	}
	err := w.SetAddr(s, name, ip)
	vfAssert(err == nil, "the action writer grows as needed")
	if len(raw) == 4 {
		vfReach("ipv4")
		vfAction(w, off, s, name, vfTagged(6, raw))
	} else {
		vfReach("ipv6")
		vfAction(w, off, s, name, vfTagged(7, raw))
	}
}

func vfC06_action_unset() {
	w, off := vfActions()
	s, name := vfScope(), vfString()
	err := w.Unset(s, name)
	vfAssert(err == nil, "the action writer grows as needed")
	vfReach("written")
	var exp vfEnc
	exp.byte(2)
	exp.byte(2)
	exp.byte(byte(s))
	exp.bytes([]byte(name))
	vfAssertSame(w.Bytes()[off:], exp.b, "an unset action is its type, argument count, scope and name")
}

func vfC06_constants() {
	vfAssert(VarScopeProcess == 0 && VarScopeSession == 1 && VarScopeTransaction == 2 && VarScopeRequest == 3 && VarScopeResponse == 4, "the scopes have the numbers of the specification")
	vfAssert(DataTypeNull == 0 && DataTypeBool == 1 && DataTypeInt32 == 2 && DataTypeUInt32 == 3 && DataTypeInt64 == 4 && DataTypeUInt64 == 5 && DataTypeIPV4 == 6 && DataTypeIPV6 == 7 && DataTypeString == 8 && DataTypeBinary == 9, "the types have the numbers of the specification")
	vfReach("constants")
}
