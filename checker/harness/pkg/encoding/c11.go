package encoding

// Writers keep nothing of what they are given to write.

func vfC11_action_binary() {
	w := NewActionWriter(vfBytes(), 0)
	name, v := vfString(), vfBytes()
	if w.SetBinary(VarScopeSession, name, v) == nil {
		vfReach("written")
	}
	vfAssert(!vfAliases(w, v), "an action writer keeps nothing of the value")
}

func vfC11_action_string_bytes() {
	w := NewActionWriter(vfBytes(), 0)
	name, v := vfString(), vfBytes()
	if w.SetStringBytes(VarScopeSession, name, v) == nil {
		vfReach("written")
	}
	vfAssert(!vfAliases(w, v), "an action writer keeps nothing of the value")
}

func vfC11_kv_binary() {
	w := NewKVWriter(vfBytes(), 0)
	name, v := vfString(), vfBytes()
	if w.SetBinary(name, v) == nil {
		vfReach("written")
	}
	vfAssert(!vfAliases(w, v), "a list writer keeps nothing of the value")
}

// A released scanner or message keeps nothing of its list.
func vfC11_released() {
	b := vfBytes()
	s := AcquireMessageScanner(b)
	m := AcquireMessage()
	k := AcquireKVEntry()
	for s.Next(m) {
		for vfBool() && m.KV.Next(k) {
		}
	}
	err := s.Error()
	ReleaseKVEntry(k)
	ReleaseMessage(m)
	ReleaseMessageScanner(s)
	vfReach("released")
	vfAssert(!vfAliases(k, b), "a released entry keeps nothing of its list")
	vfAssert(!vfAliases(m, b), "a released message keeps nothing of its list")
	vfAssert(!vfAliases(s, b), "a released message list keeps nothing of its list")
	vfAssert(!vfAliases(err, b), "an error keeps nothing of the list")
}

// The value of a string does not change with the list it was read from.
func vfC11_string_value() {
	vfUnroll()
	var e vfEnc
	e.str("name", vfString())
	s := NewKVScanner(e.b, 1)
	k := &KVEntry{}
	vfAssert(s.Next(k), "the argument is delivered")
	v := k.Value()
	vfReach("value")
	vfAssert(!vfAliases(v, e.b), "a string value is a copy")
}

// What a struct was given for one message is not overwritten when the struct
// is used for the next one.
func vfC11_stored_bytes_kept() {
	vfUnroll()
	v := struct {
		B []byte  `spoe:"b"`
		P *[]byte `spoe:"p"`
		S string  `spoe:"s"`
	}{}
	var first, second vfEnc
	b, p, str := vfBytes(), vfBytes(), vfString()
	first.bytes([]byte("b"))
	first.byte(9)
	first.bytes(b)
	first.bytes([]byte("p"))
	first.byte(9)
	first.bytes(p)
	first.str("s", str)
	if NewKVScanner(first.b, 3).Unmarshal(&v) != nil {
		return
	}
	vfAssert(v.P != nil, "an optional field is stored")
	if v.P == nil {
		return
	}
	kept, keptTo, keptStr := v.B, v.P, v.S
	second.bytes([]byte("b"))
	second.byte(9)
	second.bytes(vfBytes())
	second.bytes([]byte("p"))
	second.byte(9)
	second.bytes(vfBytes())
	second.str("s", vfString())
	_ = NewKVScanner(second.b, 3).Unmarshal(&v)
	vfReach("used again")
	vfAssertSame(kept, b, "a stored value does not change when the struct is used again")
	vfAssertSame(*keptTo, p, "a stored value does not change when the struct is used again")
	vfAssertSame([]byte(keptStr), []byte(str), "a stored value does not change when the struct is used again")
}

// An action writer that needs more room than it was given takes it elsewhere:
// what follows the buffer in memory is left alone.
func vfC11_action_room() {
	b := vfBytes()
	n := vfInt()
	vfAssume(0 <= n && n <= len(b))
	tail := append([]byte(nil), b[n:]...)
	w := NewActionWriter(b[:n], 0)
	if w.SetString(VarScopeSession, vfString(), vfString()) == nil {
		vfReach("written")
	}
	if w.SetAddr(VarScopeSession, vfString(), vfAddr()) == nil {
		vfReach("written twice")
	}
	vfAssertSame(b[n:], tail, "an action writer writes nothing behind the buffer it was given")
}

// The same for a list writer, which does not grow.
func vfC11_list_room() {
	b := vfBytes()
	n := vfInt()
	vfAssume(0 <= n && n <= len(b))
	tail := append([]byte(nil), b[n:]...)
	w := NewKVWriter(b[:n], 0)
	if w.SetString(vfString(), vfString()) == nil {
		vfReach("written")
	}
	vfAssertSame(b[n:], tail, "a list writer writes nothing behind the buffer it was given")
}
