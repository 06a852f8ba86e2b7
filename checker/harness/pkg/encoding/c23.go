package encoding

import "net/netip"

// Arguments are stored into the fields of a struct.

// vfArg appends an argument of a type, with arbitrary contents.
type vfArg struct {
	vfEnc
	n   uint64
	s   []byte
	b   bool
	is4 bool
}

func (a *vfArg) add(name string, t byte) {
	a.bytes([]byte(name))
	switch t {
	case 0:
		a.byte(0)
	case 1:
		a.b = vfBool()
		if a.b {
			a.byte(0x11)
		} else {
			a.byte(1)
		}
	case 2, 3, 4, 5:
		a.byte(t)
		a.n = vfUint64()
		a.varint(a.n)
	case 6, 7:
		a.byte(t)
		n := 4
		if t == 7 {
			n = 16
		}
		a.s = vfBytes()
		vfAssume(len(a.s) == n)
		a.vfEnc.b = append(a.vfEnc.b, a.s...)
	default:
		a.byte(t)
		a.s = vfBytes()
		a.bytes(a.s)
	}
}

const vfNumTypes = 10

func vfScan(a *vfArg, target any) error {
	return NewKVScanner(a.vfEnc.b, -1).Unmarshal(target)
}

// vfMatch: an argument is stored when its type matches the field, and refused
// otherwise.
func vfMatch(err error, match bool) bool {
	if !match {
		vfReach("refused")
		vfAssert(err != nil, "an argument of another type is an error")
		return false
	}
	vfReach("stored")
	vfAssert(err == nil, "an argument of the type of its field is stored")
	return true
}

func vfC23_string() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before string
			V      string `spoe:"name"`
			After  string
		}{"before", "old", "after"}
		if vfMatch(vfScan(&a, &v), t == 8) {
			vfAssertSame([]byte(v.V), a.s, "an argument is stored with its value")
		} else {
			vfAssert(v.V == "old", "a refused argument is not stored")
		}
		vfAssert(v.Before == "before" && v.After == "after", "fields of other arguments are not touched")
	}
}

func vfC23_bytes() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before int
			V      []byte `spoe:"name,omitempty"`
			After  int
		}{1, nil, 2}
		had := vfBool()
		if had {
			v.V = []byte("old value")
		}
		if vfMatch(vfScan(&a, &v), t == 8 || t == 9) {
			vfAssertSame(v.V, a.s, "an argument is stored with its value")
			vfAssert(!vfAliases(v.V, a.vfEnc.b), "what is stored is a copy")
		} else if had {
			vfAssertSame(v.V, []byte("old value"), "a refused argument is not stored")
		} else {
			vfAssert(v.V == nil, "a refused argument is not stored")
		}
		vfAssert(v.Before == 1 && v.After == 2, "fields of other arguments are not touched")
	}
}

func vfC23_int32() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before int32
			V      int32 `spoe:"name"`
			After  int32
		}{1, 3, 2}
		if vfMatch(vfScan(&a, &v), t == 2) {
			vfAssert(v.V == int32(a.n), "an argument is stored with its value")
		} else {
			vfAssert(v.V == 3, "a refused argument is not stored")
		}
		vfAssert(v.Before == 1 && v.After == 2, "fields of other arguments are not touched")
	}
}

func vfC23_uint32() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before uint32
			V      uint32 `spoe:"name"`
			After  uint32
		}{1, 3, 2}
		if vfMatch(vfScan(&a, &v), t == 3) {
			vfAssert(v.V == uint32(a.n), "an argument is stored with its value")
		} else {
			vfAssert(v.V == 3, "a refused argument is not stored")
		}
		vfAssert(v.Before == 1 && v.After == 2, "fields of other arguments are not touched")
	}
}

func vfC23_int64() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before int64
			V      int64 `spoe:"name"`
			After  int64
		}{1, 3, 2}
		if vfMatch(vfScan(&a, &v), t == 4) {
			vfAssert(v.V == int64(a.n), "an argument is stored with its value")
		} else {
			vfAssert(v.V == 3, "a refused argument is not stored")
		}
		vfAssert(v.Before == 1 && v.After == 2, "fields of other arguments are not touched")
	}
}

func vfC23_uint64() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before uint64
			V      uint64 `spoe:"name"`
			After  uint64
		}{1, 3, 2}
		if vfMatch(vfScan(&a, &v), t == 5) {
			vfAssert(v.V == a.n, "an argument is stored with its value")
		} else {
			vfAssert(v.V == 3, "a refused argument is not stored")
		}
		vfAssert(v.Before == 1 && v.After == 2, "fields of other arguments are not touched")
	}
}

func vfC23_bool() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before bool
			V      bool `spoe:"name"`
			After  bool
		}{true, false, true}
		if vfMatch(vfScan(&a, &v), t == 1) {
			vfAssert(v.V == a.b, "an argument is stored with its value")
		} else {
			vfAssert(!v.V, "a refused argument is not stored")
		}
		vfAssert(v.Before && v.After, "fields of other arguments are not touched")
	}
}

func vfC23_addr() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			Before string
			V      netip.Addr `spoe:"name"`
			After  string
		}{"before", netip.Addr{}, "after"}
		if vfMatch(vfScan(&a, &v), t == 6 || t == 7) {
			vfAssert(v.V.Is4() == (t == 6), "an address is stored with its kind")
			vfAssertSame(v.V.AsSlice(), a.s, "an argument is stored with its value")
		} else {
			vfAssert(!v.V.IsValid(), "a refused argument is not stored")
		}
		vfAssert(v.Before == "before" && v.After == "after", "fields of other arguments are not touched")
	}
}

// Optional fields.

func vfC23_optional_string() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		old := "old"
		v := struct {
			Before *string
			V      *string `spoe:"name"`
			After  string
		}{&old, &old, "after"}
		if vfMatch(vfScan(&a, &v), t == 8 || t == 0) {
			vfAssert((v.V == nil) == (t == 0), "an optional field is empty exactly for a null argument")
			if v.V != nil {
				vfAssertSame([]byte(*v.V), a.s, "an argument is stored with its value")
				vfAssert(v.V != &old, "an optional field does not keep its storage")
			}
		}
		vfAssert(old == "old", "what an optional field pointed to is not touched")
		vfAssert(v.Before == &old && v.After == "after", "fields of other arguments are not touched")
	}
}

func vfC23_optional_int64() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		old := int64(5)
		v := struct {
			Before *int64
			V      *int64 `spoe:"name"`
		}{&old, &old}
		if vfMatch(vfScan(&a, &v), t == 4 || t == 0) {
			vfAssert((v.V == nil) == (t == 0), "an optional field is empty exactly for a null argument")
			if v.V != nil {
				vfAssert(*v.V == int64(a.n), "an argument is stored with its value")
			}
		}
		vfAssert(old == 5 && v.Before == &old, "fields of other arguments are not touched")
	}
}

func vfC23_optional_addr() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			V *netip.Addr `spoe:"name"`
		}{}
		if vfMatch(vfScan(&a, &v), t == 6 || t == 7 || t == 0) {
			vfAssert((v.V == nil) == (t == 0), "an optional field is empty exactly for a null argument")
			if v.V != nil {
				vfAssertSame(v.V.AsSlice(), a.s, "an argument is stored with its value")
			}
		}
	}
}

func vfC23_optional_bytes() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		var a vfArg
		a.add("name", t)
		v := struct {
			V *[]byte `spoe:"name"`
		}{}
		if vfMatch(vfScan(&a, &v), t == 8 || t == 9 || t == 0) {
			vfAssert((v.V == nil) == (t == 0), "an optional field is empty exactly for a null argument")
			if v.V != nil {
				vfAssertSame(*v.V, a.s, "an argument is stored with its value")
				vfAssert(!vfAliases(*v.V, a.vfEnc.b), "what is stored is a copy")
			}
		}
	}
}

// Without its argument an optional field is reset, and others are kept.
func vfC23_absent() {
	vfUnroll()
	s, b := "old", true
	v := struct {
		P *string `spoe:"p"`
		Q *bool   `spoe:"q,omitempty"`
		S string  `spoe:"s"`
		I int64   `spoe:"i"`
		U *string
		D *string `spoe:"-"`
		E *string `spoe:",omitempty"`
		J *string `json:"p"`
	}{&s, &b, "s", 4, &s, &s, &s, &s}
	var a vfArg
	a.add("other", 8)
	err := vfScan(&a, &v)
	vfReach("skipped")
	vfAssert(err == nil, "an unknown argument is skipped")
	vfAssert(v.P == nil && v.Q == nil, "an optional field without an argument is reset")
	vfAssert(v.S == "s" && v.I == 4, "a field without an argument is kept")
	vfAssert(v.U == &s && v.D == &s && v.E == &s && v.J == &s, "a field without a name is not touched")
	vfAssert(s == "old" && b, "what an optional field pointed to is not touched")
}

// Several arguments in any order, with others between them.
func vfMixed(order [3]int) {
	old := "old"
	v := struct {
		S string `spoe:"s"`
		P *int64 `spoe:"p"`
		X *string
		B []byte  `spoe:"b"`
		Q *string `spoe:"q"`
	}{X: &old, Q: &old}
	var list []byte
	var s, p, b vfArg
	for _, i := range order {
		var o vfArg
		o.add("o", 4)
		list = append(list, o.vfEnc.b...)
		switch i {
		case 0:
			s.add("s", 8)
			list = append(list, s.vfEnc.b...)
		case 1:
			p.add("p", 4)
			list = append(list, p.vfEnc.b...)
		case 2:
			b.add("b", 9)
			list = append(list, b.vfEnc.b...)
		}
	}
	err := NewKVScanner(list, 6).Unmarshal(&v)
	vfReach("stored")
	vfAssert(err == nil, "arguments are stored in any order")
	vfAssertSame([]byte(v.S), s.s, "every argument is stored in its own field")
	vfAssertSame(v.B, b.s, "every argument is stored in its own field")
	vfAssert(v.P != nil && *v.P == int64(p.n), "every argument is stored in its own field")
	vfAssert(v.Q == nil, "an optional field without an argument is reset")
	vfAssert(v.X == &old, "a field without a name is not touched")
}

func vfC23_order_012() { vfUnroll(); vfMixed([3]int{0, 1, 2}) }
func vfC23_order_021() { vfUnroll(); vfMixed([3]int{0, 2, 1}) }
func vfC23_order_102() { vfUnroll(); vfMixed([3]int{1, 0, 2}) }
func vfC23_order_120() { vfUnroll(); vfMixed([3]int{1, 2, 0}) }
func vfC23_order_201() { vfUnroll(); vfMixed([3]int{2, 0, 1}) }
func vfC23_order_210() { vfUnroll(); vfMixed([3]int{2, 1, 0}) }

// A name is the whole name.
func vfC23_names() {
	vfUnroll()
	for i := 0; i < 4; i++ {
		var a vfArg
		a.add([]string{"nam", "name2", "Name", ""}[i], 8)
		v := struct {
			V string `spoe:"name"`
			W string `spoe:",omitempty"`
		}{"old", "w"}
		err := vfScan(&a, &v)
		vfReach("skipped")
		vfAssert(err == nil, "an unknown argument is skipped")
		vfAssert(v.V == "old" && v.W == "w", "an argument is stored only under its whole name")
	}
}

// A list that ends inside of an argument is an error.
func vfC23_cut() {
	vfUnroll()
	var e vfEnc
	e.bytes([]byte("s"))
	e.byte(8)
	e.bytes([]byte("xy"))
	n := len(e.b)
	e.bytes([]byte("t"))
	e.byte(6)
	e.b = append(e.b, 1, 2, 3, 4)
	for i := 1; i < len(e.b); i++ {
		v := struct {
			S string     `spoe:"s"`
			T netip.Addr `spoe:"t"`
		}{}
		err := NewKVScanner(e.b[:i], -1).Unmarshal(&v)
		vfReach("cut")
		vfAssert((err == nil) == (i == n), "a malformed list is an error")
	}
}

func vfC23_too_few() {
	vfUnroll()
	var a vfArg
	a.add("s", 8)
	v := struct {
		S string `spoe:"s"`
	}{}
	err := NewKVScanner(a.vfEnc.b, 2).Unmarshal(&v)
	vfReach("refused")
	vfAssert(err != nil, "a list with fewer arguments than declared is an error")
}

// Targets that cannot be filled are refused.
func vfC23_targets() {
	vfUnroll()
	var np *struct {
		S string `spoe:"s"`
	}
	st := struct {
		S string `spoe:"s"`
	}{}
	str, pp := "x", &st
	var err error
	var i any = &st
	for n := 0; n < 8; n++ {
		var a vfArg
		a.add("s", 8)
		switch n {
		case 0:
			err = vfScan(&a, nil)
		case 1:
			err = vfScan(&a, np)
		case 2:
			err = vfScan(&a, st)
		case 3:
			err = vfScan(&a, &str)
		case 4:
			err = vfScan(&a, &pp)
		case 5:
			err = vfScan(&a, &i)
		case 6:
			err = vfScan(&a, map[string]string{})
		case 7:
			err = vfScan(&a, []string{"s"})
		}
		vfReach("refused")
		vfAssert(err != nil, "a target which is no struct is an error")
	}
}

type vfNested struct{ S string }

// A field of a type Unmarshal does not support is an error once an argument
// is meant for it, whatever the argument's type.
func vfUnsupported(target any) {
	vfUnroll()
	for t := byte(1); t < vfNumTypes; t++ {
		var a vfArg
		a.add("a", t)
		err := vfScan(&a, target)
		vfReach("refused")
		vfAssert(err != nil, "an argument for a field of an unsupported type is an error")
	}
}

func vfC23_unsupported_int() {
	v := struct {
		A int `spoe:"a"`
	}{A: 3}
	vfUnsupported(&v)
}

func vfC23_unsupported_float() {
	v := struct {
		A float64 `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_strings() {
	v := struct {
		A []string `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_map() {
	v := struct {
		A map[string]int `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_struct() {
	v := struct {
		A vfNested `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_any() {
	v := struct {
		A any `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_array() {
	v := struct {
		A [4]byte `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_indirect() {
	s := "x"
	sp := &s
	v := struct {
		A **string `spoe:"a"`
	}{A: &sp}
	vfUnsupported(&v)
}

func vfC23_unsupported_intp() {
	one := 1
	v := struct {
		A *int `spoe:"a"`
	}{A: &one}
	vfUnsupported(&v)
}

func vfC23_unsupported_uint8() {
	v := struct {
		A uint8 `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_structp() {
	v := struct {
		A *vfNested `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_func() {
	v := struct {
		A func() `spoe:"a"`
	}{}
	vfUnsupported(&v)
}

func vfC23_unsupported_private() {
	v := struct {
		a string `spoe:"a"`
	}{}
	vfUnsupported(&v)
	vfAssert(v.a == "", "a field that cannot be set is not touched")
}

func vfC23_unsupported_privatep() {
	s := "x"
	v := struct {
		a *string `spoe:"a"`
	}{a: &s}
	vfUnsupported(&v)
	vfAssert(v.a == &s, "a field that cannot be set is not touched")
}

// A field that cannot be set is no reason to panic.
func vfC23_unexported() {
	vfUnroll()
	s := "x"
	v := struct {
		p *string `spoe:"p"`
		q string  `spoe:"q"`
		S string  `spoe:"s"`
	}{&s, "q", ""}
	var a vfArg
	a.add("s", 8)
	_ = vfScan(&a, &v)
	vfReach("returned")
	vfAssert(v.p == &s && v.q == "q", "a field that cannot be set is not touched")
}

func vfC23_unsupported_absent() {
	vfUnroll()
	v := struct {
		A int      `spoe:"a"`
		C []string `spoe:"c"`
		E vfNested `spoe:"e"`
		S string   `spoe:"s"`
	}{A: 3}
	var a vfArg
	a.add("s", 8)
	err := vfScan(&a, &v)
	vfReach("stored")
	vfAssert(err == nil && v.A == 3, "a field without an argument is kept")
	vfAssertSame([]byte(v.S), a.s, "an argument is stored with its value")
}

// Whatever the list contains, there is no panic and no silent end.
func vfAny(target any) {
	vfUnroll()
	s := NewKVScanner(vfBytes(), vfInt())
	if s.Unmarshal(target) == nil {
		vfReach("stored")
		vfAssert(s.Error() == nil, "a malformed list is an error")
	} else {
		vfReach("refused")
	}
}

func vfC23_any_string() {
	v := struct {
		F string `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_bytes() {
	v := struct {
		F []byte `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_int32() {
	v := struct {
		F int32 `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_int64() {
	v := struct {
		F int64 `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_uint32() {
	v := struct {
		F uint32 `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_uint64() {
	v := struct {
		F uint64 `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_bool() {
	v := struct {
		F bool `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_addr() {
	v := struct {
		F netip.Addr `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_optional() {
	v := struct {
		F *string `spoe:"f"`
	}{}
	vfAny(&v)
}

func vfC23_any_optional_addr() {
	v := struct {
		F *netip.Addr `spoe:"f"`
	}{}
	vfAny(&v)
}

// An argument of any type under any other name is skipped.
func vfC23_other_names() {
	vfUnroll()
	for t := byte(0); t < vfNumTypes; t++ {
		for i := 0; i < 3; i++ {
			var a vfArg
			a.add([]string{"nane", "nub", "p"}[i], t)
			s := "old"
			v := struct {
				S string  `spoe:"name"`
				P *string `spoe:"ptr"`
				N int64   `spoe:"num"`
				B []byte  `spoe:"bin"`
			}{S: "old", P: &s, N: 7}
			err := vfScan(&a, &v)
			vfReach("skipped")
			vfAssert(err == nil, "an unknown argument is skipped")
			vfAssert(v.S == "old" && v.N == 7 && v.B == nil && v.P == nil, "an argument is stored only under its whole name")
		}
	}
}

// A struct without fields for arguments takes none, but a malformed list is
// an error all the same.
func vfC23_any_none() {
	v := struct {
		F string
		G *int `spoe:"-"`
	}{}
	vfAny(&v)
}

func vfC23_none_cut() {
	vfUnroll()
	var a vfArg
	a.add("s", 8)
	v := struct{ F string }{"old"}
	err := NewKVScanner(a.vfEnc.b[:1], 1).Unmarshal(&v)
	vfReach("cut")
	vfAssert(err != nil, "a malformed list is an error")
	vfAssert(v.F == "old", "a field without a name is not touched")
}
