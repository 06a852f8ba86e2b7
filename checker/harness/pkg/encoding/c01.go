package encoding

// Any bytes, read in any way: the decoders return, and never panic.

func vfUseEntry(e *KVEntry) {
	_ = len(e.NameBytes())
	_ = e.ValueBytes()
	_ = e.ValueInt()
	_ = e.ValueBool()
	switch e.Type() {
	case DataTypeIPV4, DataTypeIPV6:
		_ = e.ValueAddr()
	}
	_ = e.Value()
	_ = e.NameEquals(vfString())
	_ = e.NameEqualBytes(vfBytes())
	_ = e.NameEqualUnsafe(vfString())
}

func vfC01_message_list() {
	sc := AcquireMessageScanner(vfBytes())
	m := AcquireMessage()
	e := AcquireKVEntry()
	for sc.Next(m) {
		vfReach("message")
		_ = len(m.NameBytes())
		for vfBool() && m.KV.Next(e) {
			vfReach("argument")
			_ = e.Value()
		}
		if vfBool() {
			_ = m.KV.Error()
			_ = m.KV.RemainingBuf()
		}
	}
	_ = sc.Error()
	ReleaseKVEntry(e)
	ReleaseMessage(m)
	ReleaseMessageScanner(sc)
	vfReach("end")
}

func vfC01_kv_list() {
	count := vfInt()
	k := NewKVScanner(vfBytes(), count)
	e := &KVEntry{}
	for k.Next(e) {
		vfReach("entry")
		vfUseEntry(e)
	}
	_ = k.Discard()
	_ = k.Error()
	vfReach("end")
}

func vfC01_varint_raw() {
	b := vfBytes()
	_, n, err := Varint(b)
	if err == nil {
		vfReach("value")
		vfAssert(n >= 1, "a decoded integer takes at least one byte")
		vfAssert(n <= len(b), "a decoded integer lies inside the buffer")
	}
	n, err = PutVarint(b, vfUint64())
	if err == nil {
		vfReach("encoded")
		vfAssert(n >= 1 && n <= len(b), "an encoded integer lies inside the buffer")
	}
}
