package sticktable

import (
	"encoding/binary"
	"net/netip"
)

// What is encoded is decoded again, and takes exactly the bytes produced.

// vfKey is a key of the given type with any content, and the size the
// definition of its table announces.
func vfKey(t KeyType) (MapKey, uint64) {
	switch t {
	case KeyTypeSignedInteger:
		k := SignedIntegerKey(vfInt32())
		return &k, 4
	case KeyTypeIPv4Address:
		b := vfBytes()
		vfAssume(len(b) == 4)
		k := IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
		return &k, 4
	case KeyTypeIPv6Address:
		b := vfBytes()
		vfAssume(len(b) == 16)
		k := IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
		return &k, 16
	case KeyTypeString:
		k := StringKey(vfString())
		return &k, vfUint64()
	case KeyTypeBinary:
		k := BinaryKey(vfBytes())
		return &k, uint64(len(k))
	}
	return nil, 0
}

func vfKeyBytes(k MapKey) []byte {
	switch k := k.(type) {
	case *SignedIntegerKey:
		return binary.BigEndian.AppendUint32(nil, uint32(*k))
	case *IPv4AddressKey:
		a := (*netip.Addr)(k).As4()
		return a[:]
	case *IPv6AddressKey:
		a := (*netip.Addr)(k).As16()
		return a[:]
	case *StringKey:
		return append(vfVarint(nil, uint64(len(*k))), *k...)
	case *BinaryKey:
		return *k
	}
	return nil
}

func vfSameKey(a, b MapKey) {
	switch a := a.(type) {
	case *SignedIntegerKey:
		b, ok := b.(*SignedIntegerKey)
		vfAssert(ok, "a key keeps its type")
		vfAssert(*a == *b, "an integer key is decoded as encoded")
	case *IPv4AddressKey:
		b, ok := b.(*IPv4AddressKey)
		vfAssert(ok, "a key keeps its type")
		vfAssert((*netip.Addr)(b).Is4(), "an address keeps its family")
		x, y := (*netip.Addr)(a).As4(), (*netip.Addr)(b).As4()
		vfAssertSame(x[:], y[:], "an address is decoded as encoded")
	case *IPv6AddressKey:
		b, ok := b.(*IPv6AddressKey)
		vfAssert(ok, "a key keeps its type")
		vfAssert((*netip.Addr)(b).Is6(), "an address keeps its family")
		x, y := (*netip.Addr)(a).As16(), (*netip.Addr)(b).As16()
		vfAssertSame(x[:], y[:], "an address is decoded as encoded")
	case *StringKey:
		b, ok := b.(*StringKey)
		vfAssert(ok, "a key keeps its type")
		vfAssertSame([]byte(*a), []byte(*b), "a string key is decoded as encoded")
	case *BinaryKey:
		b, ok := b.(*BinaryKey)
		vfAssert(ok, "a key keeps its type")
		vfAssertSame(*a, *b, "a binary key is decoded as encoded")
	default:
		vfAssert(false, "a key has a known type")
	}
}

func vfKeyRoundTrip(t KeyType) {
	k, size := vfKey(t)
	b := vfBytes()
	n, err := k.Marshal(b, size)
	vfAssert(n >= 0 && n <= len(b), "no more is written than there is room")
	if err != nil {
		vfAssert(len(b) < 10 || len(b) < len(vfKeyBytes(k)), "a key that fits is encoded")
		vfReach("too small")
		return
	}
	vfReach("encoded")
	vfAssertSame(b[:n], vfKeyBytes(k), "a key has the representation of its type")
	d := t.New()
	// whatever follows the key is not part of it
	m, err := d.Unmarshal(append(b[:n:n], vfBytes()...), size)
	vfAssert(err == nil, "an encoded key is decoded")
	vfAssert(m == n, "exactly the bytes produced are consumed")
	vfSameKey(k, d)
}

func vfC17_key_integer() { vfKeyRoundTrip(KeyTypeSignedInteger) }
func vfC17_key_ipv4()    { vfKeyRoundTrip(KeyTypeIPv4Address) }
func vfC17_key_ipv6()    { vfKeyRoundTrip(KeyTypeIPv6Address) }
func vfC17_key_string()  { vfKeyRoundTrip(KeyTypeString) }
func vfC17_key_binary()  { vfKeyRoundTrip(KeyTypeBinary) }

// vfData is a value of a data type with any content.
func vfData(t DataType) MapData {
	switch d := t.New().(type) {
	case *SignedIntegerData:
		*d = SignedIntegerData(vfInt32())
		return d
	case *UnsignedIntegerData:
		*d = UnsignedIntegerData(vfUint32())
		return d
	case *UnsignedLongLongData:
		*d = UnsignedLongLongData(vfUint64())
		return d
	case *FreqData:
		d.CurrentTick, d.CurrentPeriod, d.LastPeriod = vfUint64(), vfUint64(), vfUint64()
		return d
	case *DictData:
		d.ID = vfUint64()
		if d.ID != 0 {
			d.Value = vfBytes()
		}
		return d
	}
	return nil
}

func vfDataBytes(d MapData) []byte {
	switch d := d.(type) {
	case *SignedIntegerData:
		return vfVarint(nil, uint64(int64(*d)))
	case *UnsignedIntegerData:
		return vfVarint(nil, uint64(*d))
	case *UnsignedLongLongData:
		return vfVarint(nil, uint64(*d))
	case *FreqData:
		return vfVarint(vfVarint(vfVarint(nil, d.CurrentTick), d.CurrentPeriod), d.LastPeriod)
	case *DictData:
		if d.ID == 0 {
			return []byte{0}
		}
		e := vfVarint(nil, d.ID)
		if len(d.Value) > 0 {
			e = append(vfVarint(e, uint64(len(d.Value))), d.Value...)
		}
		return append(vfVarint(nil, uint64(len(e))), e...)
	}
	return nil
}

func vfSameData(a, b MapData) {
	switch a := a.(type) {
	case *SignedIntegerData:
		b, ok := b.(*SignedIntegerData)
		vfAssert(ok, "a value keeps its type")
		vfAssert(*a == *b, "a signed value is decoded as encoded")
	case *UnsignedIntegerData:
		b, ok := b.(*UnsignedIntegerData)
		vfAssert(ok, "a value keeps its type")
		vfAssert(*a == *b, "an unsigned value is decoded as encoded")
	case *UnsignedLongLongData:
		b, ok := b.(*UnsignedLongLongData)
		vfAssert(ok, "a value keeps its type")
		vfAssert(*a == *b, "a 64-bit value is decoded as encoded")
	case *FreqData:
		b, ok := b.(*FreqData)
		vfAssert(ok, "a value keeps its type")
		vfAssert(a.CurrentTick == b.CurrentTick, "the tick is decoded as encoded")
		vfAssert(a.CurrentPeriod == b.CurrentPeriod, "the current period is decoded as encoded")
		vfAssert(a.LastPeriod == b.LastPeriod, "the last period is decoded as encoded")
	case *DictData:
		b, ok := b.(*DictData)
		vfAssert(ok, "a value keeps its type")
		vfAssert(a.ID == b.ID, "the identifier is decoded as encoded")
		vfAssertSame(a.Value, b.Value, "the dictionary value is decoded as encoded")
	default:
		vfAssert(false, "a value has a known type")
	}
}

func vfDataRoundTrip(t DataType) {
	v := vfData(t)
	b := vfBytes()
	n, err := v.Marshal(b)
	vfAssert(n >= 0 && n <= len(b), "no more is written than there is room")
	if err != nil {
		vfReach("too small")
		return
	}
	vfReach("encoded")
	vfAssertSame(b[:n], vfDataBytes(v), "a value has the representation of its type")
	d := t.New()
	m, err := d.Unmarshal(append(b[:n:n], vfBytes()...))
	vfAssert(err == nil, "an encoded value is decoded")
	vfAssert(m == n, "exactly the bytes produced are consumed")
	vfSameData(v, d)
}

func vfC17_data_signed()   { vfDataRoundTrip(DataTypeServerId) }
func vfC17_data_unsigned() { vfDataRoundTrip(DataTypeGPC0) }
func vfC17_data_long()     { vfDataRoundTrip(DataTypeBytesInCounter) }
func vfC17_data_rate()     { vfDataRoundTrip(DataTypeGPC0Rate) }
func vfC17_data_dict()     { vfDataRoundTrip(DataTypeServerKey) }

// ---- definitions ----

func vfDefinition(types ...DataType) *Definition {
	d := &Definition{
		Name:         vfString(),
		KeyType:      KeyType(vfUint32()),
		StickTableID: vfUint64(),
		KeyLength:    vfUint64(),
		Expiry:       vfUint64(),
	}
	for _, t := range types {
		dt := DataTypeDefinition{DataType: t}
		if t.IsDelay() {
			dt.Counter, dt.Period = vfUint64(), vfUint64()
		}
		d.DataTypes = append(d.DataTypes, dt)
	}
	return d
}

func vfDefinitionRoundTrip(d *Definition) {
	b := vfBytes()
	n, err := d.Marshal(b)
	vfAssert(n >= 0 && n <= len(b), "no more is written than there is room")
	if err != nil {
		vfReach("too small")
		return
	}
	vfReach("encoded")
	exp := vfVarint(nil, d.StickTableID)
	exp = append(vfVarint(exp, uint64(len(d.Name))), d.Name...)
	exp = vfVarint(exp, uint64(d.KeyType))
	exp = vfVarint(exp, d.KeyLength)
	var mask uint64
	for _, t := range d.DataTypes {
		mask |= 1 << uint(t.DataType)
	}
	exp = vfVarint(exp, mask)
	exp = vfVarint(exp, d.Expiry)
	for _, t := range d.DataTypes {
		if t.DataType.IsDelay() {
			exp = vfVarint(vfVarint(exp, t.Counter), t.Period)
		}
	}
	vfAssertSame(b[:n], exp, "a definition has the layout of the protocol")

	var r Definition
	m, err := r.Unmarshal(append(b[:n:n], vfBytes()...))
	vfAssert(err == nil, "an encoded definition is decoded")
	vfAssert(m == n, "exactly the bytes produced are consumed")
	vfAssertSame([]byte(r.Name), []byte(d.Name), "the name is decoded as encoded")
	vfAssert(r.StickTableID == d.StickTableID, "the table identifier is decoded as encoded")
	vfAssert(r.KeyType == d.KeyType, "the key type is decoded as encoded")
	vfAssert(r.KeyLength == d.KeyLength, "the key length is decoded as encoded")
	vfAssert(r.Expiry == d.Expiry, "the expiry is decoded as encoded")
	vfAssert(len(r.DataTypes) == len(d.DataTypes), "every data type is decoded")
	for i, t := range d.DataTypes {
		vfAssert(r.DataTypes[i].DataType == t.DataType, "the data types are decoded in table order")
		vfAssert(r.DataTypes[i].Counter == t.Counter, "the counter is decoded as encoded")
		vfAssert(r.DataTypes[i].Period == t.Period, "the period is decoded as encoded")
	}
}

func vfC17_definition_empty() {
	vfWide()
	vfDefinitionRoundTrip(vfDefinition())
}

func vfC17_definition_one() {
	vfWide()
	for i := 0; i < 27; i++ {
		if vfBool() {
			vfDefinitionRoundTrip(vfDefinition(DataType(i)))
			vfEnd()
		}
	}
}

func vfDefinitionPairs(from, to int) {
	vfWide()
	for i := from; i < to; i++ {
		for j := i + 1; j < 27; j++ {
			if vfBool() {
				vfDefinitionRoundTrip(vfDefinition(DataType(i), DataType(j)))
				vfEnd()
			}
		}
	}
}

func vfC17_definition_pairs_1() { vfDefinitionPairs(0, 3) }
func vfC17_definition_pairs_2() { vfDefinitionPairs(3, 7) }
func vfC17_definition_pairs_3() { vfDefinitionPairs(7, 13) }
func vfC17_definition_pairs_4() { vfDefinitionPairs(13, 26) }

func vfC17_definition_all() {
	vfWide()
	var all []DataType
	for i := 0; i < 27; i++ {
		all = append(all, DataType(i))
	}
	vfDefinitionRoundTrip(vfDefinition(all...))
}

func vfC17_definition_three() {
	vfWide()
	vfDefinitionRoundTrip(vfDefinition(DataTypeGPC0, DataTypeGPC0Rate, DataTypeServerKey))
	vfDefinitionRoundTrip(vfDefinition(DataTypeConnectionRate, DataTypeSessionRate, DataTypeBytesOutRate))
}

// ---- entries ----

func vfEntryRoundTrip(kt KeyType, types ...DataType) {
	k, size := vfKey(kt)
	d := &Definition{KeyType: kt, KeyLength: size}
	e := &EntryUpdate{StickTable: d, Key: k, WithLocalUpdateID: vfBool(), WithExpiry: vfBool()}
	var exp []byte
	if e.WithLocalUpdateID {
		e.LocalUpdateID = vfUint32()
		exp = binary.BigEndian.AppendUint32(exp, e.LocalUpdateID)
	}
	if e.WithExpiry {
		e.Expiry = vfUint32()
		exp = binary.BigEndian.AppendUint32(exp, e.Expiry)
	}
	exp = append(exp, vfKeyBytes(k)...)
	for _, t := range types {
		d.DataTypes = append(d.DataTypes, DataTypeDefinition{DataType: t})
		v := vfData(t)
		e.Data = append(e.Data, v)
		exp = append(exp, vfDataBytes(v)...)
	}
	b := vfBytes()
	n, err := e.Marshal(b)
	vfAssert(n >= 0 && n <= len(b), "no more is written than there is room")
	if err != nil {
		vfReach("too small")
		return
	}
	vfReach("encoded")
	vfAssertSame(b[:n], exp, "an entry has the layout of the protocol")

	given := vfUint32()
	r := &EntryUpdate{StickTable: d, WithLocalUpdateID: e.WithLocalUpdateID, WithExpiry: e.WithExpiry, LocalUpdateID: given}
	m, err := r.Unmarshal(b[:n])
	vfAssert(err == nil, "an encoded entry is decoded")
	vfAssert(m == n, "exactly the bytes produced are consumed")
	if e.WithLocalUpdateID {
		vfAssert(r.LocalUpdateID == e.LocalUpdateID, "the update identifier is decoded as encoded")
	} else {
		vfAssert(r.LocalUpdateID == given, "without an identifier the one given is kept")
	}
	vfAssert(r.Expiry == e.Expiry, "the expiry is decoded as encoded")
	vfAssert(r.StickTable == d, "an entry keeps its table")
	vfSameKey(e.Key, r.Key)
	vfAssert(len(r.Data) == len(e.Data), "every value is decoded")
	for i := range e.Data {
		vfSameData(e.Data[i], r.Data[i])
	}
}

func vfC17_entry_integer() { vfWide(); vfEntryRoundTrip(KeyTypeSignedInteger) }
func vfC17_entry_ipv4()    { vfWide(); vfEntryRoundTrip(KeyTypeIPv4Address) }
func vfC17_entry_ipv6()    { vfWide(); vfEntryRoundTrip(KeyTypeIPv6Address) }
func vfC17_entry_string()  { vfWide(); vfEntryRoundTrip(KeyTypeString) }
func vfC17_entry_binary()  { vfWide(); vfEntryRoundTrip(KeyTypeBinary) }

// vfEachData takes one of the data types at a time.
func vfEachData(k KeyType) {
	vfWide()
	for i := 0; i < 27; i++ {
		if vfBool() {
			vfEntryRoundTrip(k, DataType(i))
			vfEnd()
		}
	}
}

func vfC17_entry_data_integer() { vfEachData(KeyTypeSignedInteger) }
func vfC17_entry_data_ipv4()    { vfEachData(KeyTypeIPv4Address) }
func vfC17_entry_data_ipv6()    { vfEachData(KeyTypeIPv6Address) }
func vfC17_entry_data_string()  { vfEachData(KeyTypeString) }
func vfC17_entry_data_binary()  { vfEachData(KeyTypeBinary) }

// vfEachPair takes a type of every representation behind the given one.
func vfEachPair(t DataType) {
	vfWide()
	for _, u := range []DataType{DataTypeServerId, DataTypeGPC0, DataTypeGPC0Rate, DataTypeBytesInCounter, DataTypeServerKey} {
		if u == DataTypeServerKey && u == t {
			continue
		}
		if vfBool() {
			vfEntryRoundTrip(KeyTypeString, t, u)
			vfEnd()
		}
	}
}

func vfC17_entry_pair_signed()   { vfEachPair(DataTypeServerId) }
func vfC17_entry_pair_unsigned() { vfEachPair(DataTypeGPC0) }
func vfC17_entry_pair_rate()     { vfEachPair(DataTypeGPC0Rate) }
func vfC17_entry_pair_long()     { vfEachPair(DataTypeBytesInCounter) }
func vfC17_entry_pair_dict()     { vfEachPair(DataTypeServerKey) }

func vfC17_entry_many() {
	vfWide()
	vfEntryRoundTrip(KeyTypeSignedInteger, DataTypeGPC0, DataTypeGPC0Rate, DataTypeConnectionsCounter, DataTypeBytesInCounter, DataTypeBytesInRate)
}
