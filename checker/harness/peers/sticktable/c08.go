package sticktable

// Encoders that run out of space or are given an invalid value return an
// error, and never more bytes than there is room for.

func vfWritten(n int, b []byte, err error) {
	vfAssert(n >= 0, "no negative number of bytes written")
	vfAssert(n <= len(b), "no more is written than there is room")
	if err == nil {
		vfReach("written")
	} else {
		vfReach("failed")
	}
}

func vfC08_definition() {
	var d Definition
	d.Name = vfString()
	d.KeyType, d.KeyLength, d.StickTableID, d.Expiry = KeyType(vfInt()), vfUint64(), vfUint64(), vfUint64()
	for vfBool() {
		t := vfInt()
		vfAssume(t >= 0)
		d.DataTypes = append(d.DataTypes, DataTypeDefinition{DataType: DataType(t), Counter: vfUint64(), Period: vfUint64()})
	}
	b := vfBytes()
	n, err := d.Marshal(b)
	vfWritten(n, b, err)
}

func vfC08_key_integer() {
	k := SignedIntegerKey(vfInt32())
	b := vfBytes()
	n, err := k.Marshal(b, vfUint64())
	vfWritten(n, b, err)
}

func vfC08_key_ipv4() {
	var k IPv4AddressKey
	vfHavoc(&k)
	b := vfBytes()
	n, err := k.Marshal(b, vfUint64())
	vfWritten(n, b, err)
	if err == nil {
		vfAssert(n == 4, "an address has its fixed size")
	}
}

func vfC08_key_ipv6() {
	var k IPv6AddressKey
	vfHavoc(&k)
	b := vfBytes()
	n, err := k.Marshal(b, vfUint64())
	vfWritten(n, b, err)
	if err == nil {
		vfAssert(n == 16, "an address has its fixed size")
	}
}

func vfC08_key_string() {
	k := StringKey(vfString())
	b := vfBytes()
	n, err := k.Marshal(b, vfUint64())
	vfWritten(n, b, err)
}

func vfC08_key_binary() {
	k := BinaryKey(vfBytes())
	b, size := vfBytes(), vfUint64()
	n, err := k.Marshal(b, size)
	vfWritten(n, b, err)
	if err == nil {
		vfAssert(uint64(n) == size, "a binary key has the size of its table")
	}
}

// vfAnyData is a value of any data type.
func vfAnyData() MapData {
	d := DataType(vfInt()).New()
	switch d := d.(type) {
	case *SignedIntegerData:
		*d = SignedIntegerData(vfInt32())
	case *UnsignedIntegerData:
		*d = UnsignedIntegerData(vfUint32())
	case *UnsignedLongLongData:
		*d = UnsignedLongLongData(vfUint64())
	case *FreqData:
		d.CurrentTick, d.CurrentPeriod, d.LastPeriod = vfUint64(), vfUint64(), vfUint64()
	case *DictData:
		d.ID = vfUint64()
		d.Value = vfBytes()
	}
	return d
}

func vfC08_data() {
	d := vfAnyData()
	if d == nil {
		return
	}
	b := vfBytes()
	n, err := d.Marshal(b)
	vfWritten(n, b, err)
}

// vfValue is a value that behaves as vfC08_data shows.
type vfValue struct{}

func (*vfValue) String() string                  { return vfString() }
func (*vfValue) Unmarshal(b []byte) (int, error) { return 0, vfErr() }
func (*vfValue) Marshal(b []byte) (int, error) {
	n := vfInt()
	vfAssume(n >= 0 && n <= len(b))
	if vfBool() {
		return n, vfErr()
	}
	return n, nil
}

func vfC08_entry() {
	k := StringKey(vfString())
	e := EntryUpdate{StickTable: &Definition{KeyLength: vfUint64()}, Key: &k, WithLocalUpdateID: vfBool(), LocalUpdateID: vfUint32(), WithExpiry: vfBool(), Expiry: vfUint32()}
	e.Data = []MapData{&vfValue{}}
	vfRepeat(&e.Data)
	b := vfBytes()
	n, err := e.Marshal(b)
	vfWritten(n, b, err)
}

func vfC08_entry_binary() {
	k := BinaryKey(vfBytes())
	e := EntryUpdate{StickTable: &Definition{KeyLength: vfUint64()}, Key: &k, WithLocalUpdateID: vfBool(), LocalUpdateID: vfUint32(), WithExpiry: vfBool(), Expiry: vfUint32()}
	b := vfBytes()
	n, err := e.Marshal(b)
	vfWritten(n, b, err)
}
