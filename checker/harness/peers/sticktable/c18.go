package sticktable

// The tables of HAProxy (include/haproxy/stick_table-t.h, stktable_data_types
// in src/stick_table.c, sample types in include/haproxy/sample_data-t.h).

const (
	vfSINT  = iota + 1 // signed 32-bit
	vfUINT             // unsigned 32-bit
	vfULL              // unsigned 64-bit
	vfFRQP             // frequency counter
	vfDICT             // dictionary entry
	vfARRAY            // arrays (only known to be accepted)
)

type vfTypeInfo struct {
	name string
	repr int
	rate bool
}

func vfKnown(i int) (vfTypeInfo, bool) {
	switch i {
	case 0:
		return vfTypeInfo{"server_id", vfSINT, false}, true
	case 1:
		return vfTypeInfo{"gpt0", vfUINT, false}, true
	case 2:
		return vfTypeInfo{"gpc0", vfUINT, false}, true
	case 3:
		return vfTypeInfo{"gpc0_rate", vfFRQP, true}, true
	case 4:
		return vfTypeInfo{"conn_cnt", vfUINT, false}, true
	case 5:
		return vfTypeInfo{"conn_rate", vfFRQP, true}, true
	case 6:
		return vfTypeInfo{"conn_cur", vfUINT, false}, true
	case 7:
		return vfTypeInfo{"sess_cnt", vfUINT, false}, true
	case 8:
		return vfTypeInfo{"sess_rate", vfFRQP, true}, true
	case 9:
		return vfTypeInfo{"http_req_cnt", vfUINT, false}, true
	case 10:
		return vfTypeInfo{"http_req_rate", vfFRQP, true}, true
	case 11:
		return vfTypeInfo{"http_err_cnt", vfUINT, false}, true
	case 12:
		return vfTypeInfo{"http_err_rate", vfFRQP, true}, true
	case 13:
		return vfTypeInfo{"bytes_in_cnt", vfULL, false}, true
	case 14:
		return vfTypeInfo{"bytes_in_rate", vfFRQP, true}, true
	case 15:
		return vfTypeInfo{"bytes_out_cnt", vfULL, false}, true
	case 16:
		return vfTypeInfo{"bytes_out_rate", vfFRQP, true}, true
	case 17:
		return vfTypeInfo{"gpc1", vfUINT, false}, true
	case 18:
		return vfTypeInfo{"gpc1_rate", vfFRQP, true}, true
	case 19:
		return vfTypeInfo{"server_key", vfDICT, false}, true
	case 20:
		return vfTypeInfo{"http_fail_cnt", vfUINT, false}, true
	case 21:
		return vfTypeInfo{"http_fail_rate", vfFRQP, true}, true
	case 22:
		return vfTypeInfo{"gpt", vfARRAY, false}, true
	case 23:
		return vfTypeInfo{"gpc", vfARRAY, false}, true
	case 24:
		return vfTypeInfo{"gpc_rate", vfARRAY, false}, true
	case 25:
		return vfTypeInfo{"glitch_cnt", vfUINT, false}, true
	case 26:
		return vfTypeInfo{"glitch_rate", vfFRQP, true}, true
	}
	return vfTypeInfo{}, false
}

func vfC18_data_types() {
	vfUnroll()
	for i := 0; i < 27; i++ {
		t, _ := vfKnown(i)
		d := DataType(i)
		vfAssert(d.String() == t.name, "a data type has HAProxy's name")
		vfAssert(d.IsDelay() == t.rate, "the rate types carry a period, the others do not")
		v := d.New()
		vfAssert(v != nil, "a data type of HAProxy is known")
		ok := false
		switch t.repr {
		case vfSINT:
			_, ok = v.(*SignedIntegerData)
		case vfUINT:
			_, ok = v.(*UnsignedIntegerData)
		case vfULL:
			_, ok = v.(*UnsignedLongLongData)
		case vfFRQP:
			_, ok = v.(*FreqData)
		case vfDICT:
			_, ok = v.(*DictData)
		case vfARRAY:
			ok = true
		}
		vfAssert(ok, "a data type has HAProxy's representation")
		vfReach("type")
	}
}

func vfC18_unknown_data_types() {
	d := DataType(vfInt())
	if d.New() == nil {
		vfReach("unknown")
		vfAssert(d < 0 || d > 26, "the data types of HAProxy are known")
		return
	}
	vfAssert(d >= 0 && d <= 26, "unknown data types are not guessed")
	vfReach("known")
}

func vfC18_unknown_delay() {
	d := DataType(vfInt())
	if d.IsDelay() {
		vfAssert(d >= 3 && d <= 26, "only known types carry a period")
		vfAssert(d.New() != nil, "only known types carry a period")
		vfReach("rate")
	}
	_ = d.String()
}

func vfC18_fresh() {
	d := DataType(vfInt())
	a, b := d.New(), d.New()
	if a == nil {
		return
	}
	vfReach("known")
	vfAssert(!vfAliases(a, b), "every value of a data type has its own storage")
}

func vfC18_key_types() {
	vfUnroll()
	for i := -1; i < 12; i++ {
		k := KeyType(i)
		v := k.New()
		ok := false
		switch i {
		case 2:
			_, ok = v.(*SignedIntegerKey)
		case 4:
			_, ok = v.(*IPv4AddressKey)
		case 5:
			_, ok = v.(*IPv6AddressKey)
		case 6:
			_, ok = v.(*StringKey)
		case 7:
			_, ok = v.(*BinaryKey)
		default:
			ok = v == nil
		}
		vfAssert(ok, "a key type has HAProxy's representation, and unknown types have none")
	}
	vfReach("end")
}

func vfC18_unknown_key_types() {
	k := KeyType(vfInt())
	v := k.New()
	if v != nil {
		vfAssert(k == 2 || k >= 4 && k <= 7, "unknown key types are not guessed")
		vfReach("known")
		vfAssert(!vfAliases(v, k.New()), "every key has its own storage")
	}
}

func vfC18_numbers() {
	vfAssert(KeyTypeAny == 0 && KeyTypeBoolean == 1 && KeyTypeSignedInteger == 2 && KeyTypeAddress == 3 &&
		KeyTypeIPv4Address == 4 && KeyTypeIPv6Address == 5 && KeyTypeString == 6 && KeyTypeBinary == 7 && KeyTypeMethod == 8,
		"key types have HAProxy's numbers")
	vfAssert(DataTypeServerId == 0 && DataTypeGPT0 == 1 && DataTypeGPC0 == 2 && DataTypeGPC0Rate == 3 &&
		DataTypeConnectionsCounter == 4 && DataTypeConnectionRate == 5 && DataTypeNumberOfCurrentConnections == 6 &&
		DataTypeSessionsCounter == 7 && DataTypeSessionRate == 8 && DataTypeHttpRequestsCounter == 9 &&
		DataTypeHttpRequestsRate == 10 && DataTypeErrorsCounter == 11 && DataTypeErrorsRate == 12 &&
		DataTypeBytesInCounter == 13 && DataTypeBytesInRate == 14 && DataTypeBytesOutCounter == 15 &&
		DataTypeBytesOutRate == 16 && DataTypeGPC1 == 17 && DataTypeGPC1Rate == 18 && DataTypeServerKey == 19 &&
		DataTypeHttpFailCounter == 20 && DataTypeHttpFailRate == 21 && DataTypeGPTArray == 22 && DataTypeGPCArray == 23 &&
		DataTypeGPCRateArray == 24 && DataTypeGlitchCounter == 25 && DataTypeGlitchRate == 26,
		"data types have HAProxy's numbers")
	vfReach("end")
}

// vfMasked is a definition that announces the given data types.
func vfMasked(mask uint64) []byte {
	b := []byte{1, 0, 2, 4}
	b = vfVarint(b, mask)
	b = append(b, 0)
	return append(b, vfBytes()...)
}

func vfC18_definition_unknown() {
	vfUnroll()
	for i := 27; i < 62; i++ {
		var d Definition
		_, err := d.Unmarshal(vfMasked(1 << uint(i)))
		vfAssert(err != nil, "a definition with an unknown data type is rejected")
	}
	vfReach("end")
}

func vfC18_definition_known() {
	vfUnroll()
	for i := 0; i < 27; i++ {
		var d Definition
		t, _ := vfKnown(i)
		_, err := d.Unmarshal(vfMasked(1 << uint(i)))
		if err != nil {
			vfAssert(t.rate, "a definition of a type without period is complete")
			continue
		}
		vfReach("known")
		vfAssert(len(d.DataTypes) == 1, "one announced data type is one data type")
		vfAssert(d.DataTypes[0].DataType == DataType(i), "the announced data type is the decoded one")
		if !t.rate {
			vfAssert(d.DataTypes[0].Counter == 0 && d.DataTypes[0].Period == 0, "types without period have none")
		}
	}
	vfReach("end")
}
