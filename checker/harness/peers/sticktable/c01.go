package sticktable

// Any bytes: the decoders return, never panic and never consume more than they
// are given.

func vfChk(n, max int, err error) {
	vfAssert(n >= 0, "no negative number of bytes consumed")
	vfAssert(n <= max, "no more is consumed than given")
	if err == nil {
		vfReach("value")
	} else {
		vfReach("error")
	}
}

func vfC01_definition() {
	var d Definition
	b := vfBytes()
	n, err := d.Unmarshal(b)
	vfChk(n, len(b), err)
}

func vfC01_entry_update() {
	// any table, any flags
	var d Definition
	if _, err := d.Unmarshal(vfBytes()); err != nil {
		return
	}
	e := EntryUpdate{StickTable: &d, WithLocalUpdateID: vfBool(), WithExpiry: vfBool()}
	b := vfBytes()
	n, err := e.Unmarshal(b)
	vfChk(n, len(b), err)
	if err == nil {
		_ = e.Key.String()
	}
}

func vfC01_entry_update_empty_table() {
	e := EntryUpdate{StickTable: &Definition{KeyType: KeyType(vfInt()), KeyLength: vfUint64()}, WithLocalUpdateID: vfBool(), WithExpiry: vfBool()}
	b := vfBytes()
	n, err := e.Unmarshal(b)
	vfChk(n, len(b), err)
}

func vfC01_keys() {
	k := KeyType(vfInt()).New()
	if k == nil {
		return
	}
	b := vfBytes()
	n, err := k.Unmarshal(b, vfUint64())
	vfChk(n, len(b), err)
	if err == nil {
		_ = k.String()
	}
}

func vfC01_data() {
	d := DataType(vfInt()).New()
	if d == nil {
		return
	}
	b := vfBytes()
	n, err := d.Unmarshal(b)
	vfChk(n, len(b), err)
	if err == nil {
		_ = d.String()
	}
}
