package sticktable

// What is decoded does not share memory with what is decoded next.

func vfC11_definition() {
	b := vfBytes()
	var d Definition
	if _, err := d.Unmarshal(b); err != nil {
		return
	}
	vfReach("decoded")
	vfAssert(!vfAliases(&d, b), "a definition does not keep the buffer it was decoded from")
}

func vfC11_entries() {
	// two updates of the same table
	var d Definition
	if _, err := d.Unmarshal(vfBytes()); err != nil {
		return
	}
	a, b := &EntryUpdate{StickTable: &d}, &EntryUpdate{StickTable: &d}
	if _, err := a.Unmarshal(vfBytes()); err != nil {
		return
	}
	if _, err := b.Unmarshal(vfBytes()); err != nil {
		return
	}
	vfReach("decoded")
	vfAssert(!vfAliases(a.Key, b.Key), "two updates do not share their keys")
	for _, x := range a.Data {
		for _, y := range b.Data {
			vfAssert(!vfAliases(x, y), "two updates do not share their values")
		}
	}
}

func vfC11_marshal() {
	// encoding keeps nothing of the buffer and changes nothing
	k := BinaryKey(vfBytes())
	e := EntryUpdate{StickTable: &Definition{KeyLength: vfUint64()}, Key: &k}
	b := vfBytes()
	if _, err := e.Marshal(b); err == nil {
		vfReach("encoded")
	}
	vfAssert(!vfAliases(&e, b), "an entry does not keep the buffer it was encoded to")
}
