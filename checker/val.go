package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. All of them are immutable.

type Val interface{}

type IntV struct{ e Lin }

type bkind uint8

const (
	bConst bkind = iota
	bGE          // e >= 0
	bEQ          // e == 0
	bSym         // opaque
)

// BoolV is a condition. neg inverts it; a constant is true unless neg.
type BoolV struct {
	kind bkind
	neg  bool
	e    Lin
	sym  int32
	imp  []Lin // facts (>= 0) implied when an opaque condition is true
}

var (
	vTrue  = BoolV{}
	vFalse = BoolV{neg: true}
)

func mkBool(b bool) BoolV {
	if b {
		return vTrue
	}
	return vFalse
}

func (b BoolV) not() BoolV { b.neg = !b.neg; return b }

func (b BoolV) konst() (bool, bool) { return !b.neg, b.kind == bConst }

type PtrV struct {
	obj  int32 // 0: unknown/none
	path string
	elem bool // pointer to element idx of an array object
	idx  Lin
	nil_ BoolV
}

type SliceV struct {
	obj           int32
	off, len, cap Lin
	nil_          BoolV
}

type StrV struct {
	obj      int32
	off, len Lin
	k        *string
}

type IfaceV struct {
	nil_ BoolV
	dyn  types.Type
	v    Val
	id   int32
}

type FuncV struct {
	nil_  BoolV
	fn    *ssa.Function
	binds []Val
	id    int32
	nat   string // function of a modelled package
}

type StructV struct{ f []Val }

type TupleV struct{ v []Val }

type ArrV struct{ obj int32 } // immutable array snapshot

type MapV struct {
	obj  int32
	nil_ BoolV
}

type OpaqueV struct {
	id  int32
	typ types.Type
	gh  map[string]Val // modelled fields, by path relative to the value
}

// ---- memory ----

type segKind uint8

const (
	sgCopy   segKind = iota // tok[off..]
	sgByte                  // one byte of value e
	sgBE                    // big endian e in n bytes
	sgVarint                // varint encoding of e
	sgZero
	sgConst // constant string
)

type Seg struct {
	off, len Lin
	kind     segKind
	e        Lin
	tok      int32
	toff     Lin
	k        string
}

type mapEnt struct{ k, v Val }

type Obj struct {
	id    int32
	owner int64
	typ   types.Type
	isArr bool
	isMap bool
	lazy  bool // fields never written are unknown (not zero)
	alias bool // may be the same object as other alias objects of its type
	f     map[string]Val

	// arrays
	elem types.Type
	n    Lin
	tok  int32 // initial content; 0: zero
	segs []Seg

	ents   []mapEnt
	mapSum bool
	sumV   Val
	sumNN  bool // no value of the map is nil

	released string
	shared   int // reachable by several goroutines
	pool     int32
	frozen   bool
	site     string
	uniform  bool // every element is f["[*]"]
}

var nextID int32 = 1

func newID() int32 { nextID++; return nextID }

var tokNames = map[string]int32{}

func consTok(key string) int32 {
	if t, ok := tokNames[key]; ok {
		return t
	}
	t := newID()
	tokNames[key] = t
	return t
}

var boolNames = map[string]int32{}

func consBool(key string) int32 {
	if t, ok := boolNames[key]; ok {
		return t
	}
	t := newID()
	boolNames[key] = t
	return t
}

func freshBool() BoolV { return BoolV{kind: bSym, sym: newID()} }

// ---- equality and printing ----

func boolEq(a, b BoolV) bool {
	return a.kind == b.kind && a.neg == b.neg && a.sym == b.sym && a.e.eq(b.e)
}

func valEq(a, b Val) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case IntV:
		b, ok := b.(IntV)
		return ok && a.e.eq(b.e)
	case BoolV:
		b, ok := b.(BoolV)
		return ok && boolEq(a, b)
	case PtrV:
		b, ok := b.(PtrV)
		return ok && a.obj == b.obj && a.path == b.path && a.elem == b.elem && a.idx.eq(b.idx) && boolEq(a.nil_, b.nil_)
	case SliceV:
		b, ok := b.(SliceV)
		return ok && a.obj == b.obj && a.off.eq(b.off) && a.len.eq(b.len) && a.cap.eq(b.cap) && boolEq(a.nil_, b.nil_)
	case StrV:
		b, ok := b.(StrV)
		if !ok {
			return false
		}
		if a.k != nil || b.k != nil {
			return a.k != nil && b.k != nil && *a.k == *b.k
		}
		return a.obj == b.obj && a.off.eq(b.off) && a.len.eq(b.len)
	case IfaceV:
		b, ok := b.(IfaceV)
		if !ok || !boolEq(a.nil_, b.nil_) || a.id != b.id {
			return false
		}
		if (a.dyn == nil) != (b.dyn == nil) || a.dyn != nil && !types.Identical(a.dyn, b.dyn) {
			return false
		}
		return a.dyn == nil || valEq(a.v, b.v)
	case FuncV:
		b, ok := b.(FuncV)
		if !ok || a.fn != b.fn || a.id != b.id || a.nat != b.nat || !boolEq(a.nil_, b.nil_) || len(a.binds) != len(b.binds) {
			return false
		}
		for i := range a.binds {
			if !valEq(a.binds[i], b.binds[i]) {
				return false
			}
		}
		return true
	case StructV:
		b, ok := b.(StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !valEq(a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		b, ok := b.(TupleV)
		if !ok || len(a.v) != len(b.v) {
			return false
		}
		for i := range a.v {
			if !valEq(a.v[i], b.v[i]) {
				return false
			}
		}
		return true
	case ArrV:
		b, ok := b.(ArrV)
		return ok && a.obj == b.obj
	case MapV:
		b, ok := b.(MapV)
		return ok && a.obj == b.obj && boolEq(a.nil_, b.nil_)
	case OpaqueV:
		b, ok := b.(OpaqueV)
		return ok && a.id == b.id
	}
	panic(fmt.Sprintf("valEq %T", a))
}

func (b BoolV) String() string {
	s := ""
	switch b.kind {
	case bConst:
		return fmt.Sprint(!b.neg)
	case bGE:
		s = b.e.String() + ">=0"
	case bEQ:
		s = b.e.String() + "==0"
	case bSym:
		s = fmt.Sprintf("b%d", b.sym)
	}
	if b.neg {
		return "!(" + s + ")"
	}
	return s
}

func show(v Val) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case IntV:
		return v.e.String()
	case BoolV:
		return v.String()
	case PtrV:
		s := fmt.Sprintf("&o%d%s", v.obj, v.path)
		if v.elem {
			s = fmt.Sprintf("&o%d[%s]%s", v.obj, v.idx, v.path)
		}
		if k, ok := v.nil_.konst(); !ok {
			s += "?nil=" + v.nil_.String()
		} else if k {
			return "nil"
		}
		return s
	case SliceV:
		if k, ok := v.nil_.konst(); ok && k {
			return "nil[]"
		}
		return fmt.Sprintf("o%d[%s:+%s:%s]", v.obj, v.off, v.len, v.cap)
	case StrV:
		if v.k != nil {
			return fmt.Sprintf("%q", *v.k)
		}
		return fmt.Sprintf("str o%d[%s:+%s]", v.obj, v.off, v.len)
	case IfaceV:
		if k, ok := v.nil_.konst(); ok && k {
			return "nil(iface)"
		}
		return fmt.Sprintf("iface#%d{%v %s nil=%s}", v.id, v.dyn, show(v.v), v.nil_)
	case FuncV:
		return fmt.Sprintf("func %v#%d", v.fn, v.id)
	case StructV:
		var s []string
		for _, f := range v.f {
			s = append(s, show(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case TupleV:
		var s []string
		for _, f := range v.v {
			s = append(s, show(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case ArrV:
		return fmt.Sprintf("arr o%d", v.obj)
	case MapV:
		return fmt.Sprintf("map o%d", v.obj)
	case OpaqueV:
		return fmt.Sprintf("opaque#%d(%v)", v.id, v.typ)
	}
	return fmt.Sprintf("%T", v)
}

// ---- types ----

func intRange(t types.Type) (bits int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64:
		return 64, true, true
	case types.Int, types.UntypedInt:
		return wordBits, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64:
		return 64, false, true
	case types.Uint, types.Uintptr:
		return wordBits, false, true
	}
	return 0, false, false
}

var wordBits = 64

func maxLen() int64 {
	if wordBits == 32 {
		return 1 << 28
	}
	return 1 << 44
}

// makeMax is the largest number of elements an allocation may have; objects
// that exist are assumed to be much smaller (see maxLen).
func makeMax() int64 {
	if wordBits == 32 {
		return 1<<31 - 1
	}
	return 1 << 47
}

// typeBounds returns the bounds of an integer type; the upper bound of uint64
// does not fit and is left open.
func typeBounds(t types.Type) (lo, hi int64, hasHi bool) {
	bits, signed, _ := intRange(t)
	if signed {
		return -1 << (bits - 1), 1<<(bits-1) - 1, true
	}
	if bits == 64 {
		return 0, 0, false
	}
	return 0, 1<<bits - 1, true
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// leafStruct: struct types of other modules are opaque.
func (x *X) leafStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if isReflStruct(n) {
		return false
	}
	p := n.Obj().Pkg()
	if p != nil && !x.own[p.Path()] {
		return !goModelTypes[p.Path()+"."+n.Obj().Name()]
	}
	// a type defined as a struct of another module
	st, ok := n.Underlying().(*types.Struct)
	if !ok || p == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); !f.Exported() && f.Pkg() != nil && !x.own[f.Pkg().Path()] {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
