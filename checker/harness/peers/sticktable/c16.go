package sticktable

// An encoding that is cut short anywhere is refused, never decoded as
// something shorter.

func vfCutShort(b []byte, decode func(b []byte) (int, error)) {
	vfUnroll()
	for n := 0; n < len(b); n++ {
		_, err := decode(b[:n:n])
		vfAssert(err != nil, "an encoding that is cut short is an error")
	}
	m, err := decode(b)
	vfReach("whole")
	vfAssert(err == nil, "a whole encoding is decoded")
	vfAssert(m == len(b), "a whole encoding is consumed")
}

func vfCutData(t DataType, b ...byte) {
	vfUnroll()
	vfCutShort(b, func(b []byte) (int, error) { return t.New().Unmarshal(b) })
}

func vfC16_cut_signed()    { vfUnroll(); vfCutData(DataTypeServerId, 5) }
func vfC16_cut_unsigned()  { vfUnroll(); vfCutData(DataTypeGPC0, 244, 129, 2) }
func vfC16_cut_long()      { vfUnroll(); vfCutData(DataTypeBytesInCounter, 240, 144, 1) }
func vfC16_cut_rate()      { vfUnroll(); vfCutData(DataTypeGPC0Rate, 241, 7, 100, 250, 128, 3) }
func vfC16_cut_rate_zero() { vfUnroll(); vfCutData(DataTypeConnectionRate, 0, 0, 0) }
func vfC16_cut_dict()      { vfUnroll(); vfCutData(DataTypeServerKey, 6, 240, 1, 3, 's', 'r', 'v') }
func vfC16_cut_dict_id()   { vfUnroll(); vfCutData(DataTypeServerKey, 1, 9) }
func vfC16_cut_dict_none() { vfUnroll(); vfCutData(DataTypeServerKey, 0) }

// The entry of a dictionary ends before what it announces.
func vfC16_cut_dict_inside() {
	vfUnroll()
	for _, b := range [][]byte{{1, 240, 1, 1, 'a'}, {2, 1, 3, 'a', 'b', 'c'}, {4, 1, 3, 'a', 'b', 'c'}, {2, 1, 240, 0, 'a'}} {
		_, err := new(DictData).Unmarshal(b)
		vfReach("refused")
		vfAssert(err != nil, "a dictionary entry that ends inside is an error")
	}
}

func vfCutKey(t KeyType, size uint64, b ...byte) {
	vfUnroll()
	vfCutShort(b, func(b []byte) (int, error) { return t.New().Unmarshal(b, size) })
}

func vfC16_cut_integer() { vfUnroll(); vfCutKey(KeyTypeSignedInteger, 4, 255, 2, 3, 4) }
func vfC16_cut_ipv4()    { vfUnroll(); vfCutKey(KeyTypeIPv4Address, 4, 192, 0, 2, 1) }
func vfC16_cut_ipv6() {
	vfUnroll()
	vfCutKey(KeyTypeIPv6Address, 16, 32, 1, 13, 184, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
}
func vfC16_cut_string() { vfUnroll(); vfCutKey(KeyTypeString, 30, 4, 'a', 'b', 'c', 'd') }
func vfC16_cut_binary() { vfUnroll(); vfCutKey(KeyTypeBinary, 5, 1, 2, 3, 4, 5) }

// A key does not have the size its type needs.
func vfC16_key_size() {
	vfUnroll()
	b := make([]byte, 40)
	for _, size := range []uint64{0, 1, 3, 5, 8, 15, 16, 17, 32} {
		var v4 IPv4AddressKey
		n, err := v4.Unmarshal(b, size)
		vfReach("sized")
		vfAssert(err != nil || n == 4 && size >= 4, "an address of another size is refused")
		var v6 IPv6AddressKey
		n, err = v6.Unmarshal(b, size)
		vfAssert(err != nil || n == 16 && size >= 16, "an address of another size is refused")
	}
}

func vfC16_cut_definition() {
	vfUnroll()
	// server_id, gpc0_rate and http_req_rate of an address table
	b := []byte{3, 2, 't', '1', 4, 4, 249, 49, 100, 5, 232, 3, 240, 144, 1}
	vfCutShort(b, func(b []byte) (int, error) { return new(Definition).Unmarshal(b) })
}

func vfC16_cut_update() {
	vfUnroll()
	def := &Definition{StickTableID: 1, Name: "t", KeyType: KeyTypeString, KeyLength: 10,
		DataTypes: []DataTypeDefinition{{DataType: DataTypeServerId}, {DataType: DataTypeGPC0Rate}, {DataType: DataTypeServerKey}}}
	b := []byte{0, 0, 0, 7, 0, 0, 1, 0, 2, 'k', 'y', 9, 1, 2, 240, 0, 3, 1, 1, 's'}
	vfCutShort(b, func(b []byte) (int, error) {
		e := EntryUpdate{StickTable: def, WithLocalUpdateID: true, WithExpiry: true}
		return e.Unmarshal(b)
	})
}
