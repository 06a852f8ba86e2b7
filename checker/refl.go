package main

import (
	"go/token"
	"go/types"
	"reflect"
)

// Models of package reflect.
//
// A reflect.Type is an interface value whose id stands for the type. A
// reflect.Value has three parts, like the real one: its type, a pointer to
// where the value is kept, and whether it is addressable (1) and whether it was
// reached through an unexported field (2). The zero Value has no type.

var (
	rtypeOf  = map[int32]types.Type{}
	reflPkg  *types.Package
	canonTyp = map[string][]types.Type{}
)

func isReflStruct(n *types.Named) bool {
	if p := n.Obj().Pkg(); p != nil && p.Path() == "reflect" && (n.Obj().Name() == "Value" || n.Obj().Name() == "StructField") {
		reflPkg = p
		return true
	}
	return false
}

func (x *X) rtype(t types.Type) IfaceV {
	if b, ok := t.(*types.Basic); ok { // byte and uint8
		t = types.Typ[b.Kind()]
	}
	k := types.TypeString(t, nil)
	n := -1
	for i, u := range canonTyp[k] {
		if types.Identical(t, u) {
			n = i
		}
	}
	if n < 0 {
		n = len(canonTyp[k])
		canonTyp[k] = append(canonTyp[k], t)
	}
	id := consTok("rtype:" + k + ":" + string(rune('a'+n)))
	x.uniq[id] = true
	rtypeOf[id] = t
	return IfaceV{nil_: vFalse, id: id}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

type rval struct {
	t    types.Type // nil: the zero Value
	p    PtrV
	flag int64
}

const rAddr, rRO = 1, 2

func (x *X) rpack(r rval) Val {
	return StructV{[]Val{x.rtype(r.t), r.p, IntV{K(r.flag)}}}
}

func (x *X) rzero() Val {
	return StructV{[]Val{PtrV{nil_: vTrue}, PtrV{nil_: vTrue}, IntV{K(0)}}}
}

// runpack fails when nothing is known about the value.
func (x *X) runpack(v Val) (rval, bool) {
	s, ok := v.(StructV)
	if !ok || len(s.f) != 3 {
		return rval{}, false
	}
	switch t := s.f[0].(type) {
	case PtrV:
		return rval{}, true
	case IfaceV:
		ty := rtypeOf[t.id]
		p, ok1 := s.f[1].(PtrV)
		f, ok2 := s.f[2].(IntV)
		if ty == nil || !ok1 || !ok2 || !f.e.isConst() {
			return rval{}, false
		}
		return rval{ty, p, f.e.c}, true
	}
	return rval{}, false
}

// rbox makes a value that is not addressable.
func (x *X) rbox(s *State, t types.Type, v Val, flag int64) Val {
	o := x.zeroObj(s, t, "reflect")
	p := PtrV{obj: o.id, nil_: vFalse}
	x.store(s, p, t, v)
	return x.rpack(rval{t, p, flag &^ rAddr})
}

func (x *X) reflPanic(s *State, c *callCtx, ok BoolV) (*State, []*State) {
	return x.obliges(s, "reflect panic", c.pos, ok)
}

func (x *X) rgive(s *State, c *callCtx) []*State {
	x.giveUp("reflection on a value of unknown type (%s)", c.name)
	for _, a := range c.args {
		x.havocArg(s, a)
	}
	s.ret = x.freshResults(s, c.res, "reflect")
	return one(s)
}

// rmethod is a method of reflect.Value.
func rmethod(kinds []reflect.Kind, set bool, f func(x *X, s *State, c *callCtx, r rval) []*State) model {
	return func(x *X, s *State, c *callCtx) []*State {
		r, ok := x.runpack(c.args[0])
		if !ok {
			return x.rgive(s, c)
		}
		good := r.t != nil || kinds == nil && !set
		if good && kinds != nil {
			good = false
			for _, k := range kinds {
				if kindOf(r.t) == k {
					good = true
				}
			}
		}
		if set && (r.flag&rAddr == 0 || r.flag&rRO != 0) {
			good = false
		}
		x.sites["reflect operation"]++
		if !good {
			_, bad := x.reflPanic(s, c, vFalse)
			return bad
		}
		return f(x, s, c, r)
	}
}

func nilOf(v Val) (BoolV, bool) {
	switch v := v.(type) {
	case PtrV:
		return v.nil_, true
	case SliceV:
		return v.nil_, true
	case MapV:
		return v.nil_, true
	case FuncV:
		return v.nil_, true
	case IfaceV:
		return v.nil_, true
	}
	return BoolV{}, false
}

func (x *X) rvalueOf(s *State, v Val, flag int64, c *callCtx) []*State {
	i, ok := v.(IfaceV)
	if !ok {
		return x.rgive(s, c)
	}
	n, known := s.truth(i.nil_)
	if known && n {
		return ret(s, x.rzero())
	}
	if i.dyn == nil {
		return x.rgive(s, c)
	}
	var out []*State
	if !known {
		t := s.clone()
		if t.assume(i.nil_) {
			out = ret(t, x.rzero())
		}
		if !s.assume(i.nil_.not()) {
			return out
		}
	}
	return append(ret(s, x.rbox(s, i.dyn, i.v, flag)), out...)
}

func (x *X) rset(s *State, r rval, v Val) []*State {
	x.store(s, r.p, r.t, v)
	s.ret = nil
	return one(s)
}

var (
	rints    = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	ruints   = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	rnilable = []reflect.Kind{reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer}
)

func rkinds(k ...reflect.Kind) []reflect.Kind { return k }

func isBytes(t types.Type) bool {
	u, ok := t.Underlying().(*types.Slice)
	return ok && kindOf(u.Elem()) == reflect.Uint8
}

// rzeroVal is what reflect.Zero holds.
func (x *X) rload(s *State, r rval) Val { return x.load(s, r.p, r.t) }

var reflModels map[string]model

func init() {
	setTo := func(x *X, s *State, c *callCtx, r rval) []*State { return x.rset(s, r, c.args[1]) }
	setInt := func(x *X, s *State, c *callCtx, r rval) []*State {
		v, ok := c.args[1].(IntV)
		if !ok {
			return x.rset(s, r, x.fresh(s, r.t, "set"))
		}
		return x.rset(s, r, x.norm(s, v.e, r.t, "set"))
	}
	get := func(x *X, s *State, c *callCtx, r rval) []*State { return ret(s, x.rload(s, r)) }
	getInt := func(x *X, s *State, c *callCtx, r rval) []*State {
		v, ok := x.rload(s, r).(IntV)
		if !ok {
			return ret(s, x.fresh(s, c.res.At(0).Type(), "get"))
		}
		return ret(s, x.norm(s, v.e, c.res.At(0).Type(), "get"))
	}
	typeArg := func(f func(x *X, s *State, c *callCtx, t types.Type) []*State) model {
		return func(x *X, s *State, c *callCtx) []*State {
			i, _ := c.args[0].(IfaceV)
			t := rtypeOf[i.id]
			if t == nil {
				return x.rgive(s, c)
			}
			x.sites["reflect operation"]++
			return f(x, s, c, t)
		}
	}
	overflow := func(x *X, s *State, c *callCtx, r rval) []*State {
		v, ok := c.args[1].(IntV)
		if !ok {
			return ret(s, freshBool())
		}
		n := x.norm(s, v.e, r.t, "overflow")
		return ret(s, x.eqVals(s, n, v).not())
	}
	reflModels = map[string]model{
		"reflect.ValueOf": func(x *X, s *State, c *callCtx) []*State { return x.rvalueOf(s, c.args[0], 0, c) },
		"reflect.TypeOf": func(x *X, s *State, c *callCtx) []*State {
			i, ok := c.args[0].(IfaceV)
			if !ok {
				return x.rgive(s, c)
			}
			if n, known := s.truth(i.nil_); known && n {
				return ret(s, IfaceV{nil_: vTrue})
			}
			if i.dyn == nil {
				return x.rgive(s, c)
			}
			return ret(s, x.rtype(i.dyn))
		},
		"reflect.Zero": typeArg(func(x *X, s *State, c *callCtx, t types.Type) []*State {
			return ret(s, x.rbox(s, t, x.zero(s, t), 0))
		}),
		"reflect.New": typeArg(func(x *X, s *State, c *callCtx, t types.Type) []*State {
			o := x.zeroObj(s, t, "reflect.New")
			return ret(s, x.rbox(s, types.NewPointer(t), PtrV{obj: o.id, nil_: vFalse}, 0))
		}),
		"reflect.PointerTo": typeArg(func(x *X, s *State, c *callCtx, t types.Type) []*State {
			return ret(s, x.rtype(types.NewPointer(t)))
		}),
		"reflect.Indirect": func(x *X, s *State, c *callCtx) []*State {
			r, ok := x.runpack(c.args[0])
			if !ok {
				return x.rgive(s, c)
			}
			if r.t == nil || kindOf(r.t) != reflect.Pointer {
				return ret(s, c.args[0])
			}
			return x.relem(s, c, r)
		},
		"(reflect.Value).Kind": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			if r.t == nil {
				return ret(s, IntV{K(0)})
			}
			return ret(s, IntV{K(int64(kindOf(r.t)))})
		}),
		"(reflect.Value).IsValid": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State { return ret(s, mkBool(r.t != nil)) }),
		"(reflect.Value).CanSet": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			return ret(s, mkBool(r.flag&rAddr != 0 && r.flag&rRO == 0))
		}),
		"(reflect.Value).CanAddr":      rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State { return ret(s, mkBool(r.flag&rAddr != 0)) }),
		"(reflect.Value).CanInterface": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State { return ret(s, mkBool(r.flag&rRO == 0)) }),
		"(reflect.Value).IsNil": rmethod(rnilable, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			b, ok := nilOf(x.rload(s, r))
			if !ok {
				b = freshBool()
			}
			return ret(s, b)
		}),
		"(reflect.Value).IsZero": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			if r.t == nil {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			if _, ok := r.t.Underlying().(*types.Struct); ok {
				return ret(s, freshBool())
			}
			return ret(s, x.eqVals(s, x.rload(s, r), x.zero(s, r.t)))
		}),
		"(reflect.Value).Elem": rmethod(rkinds(reflect.Pointer, reflect.Interface), false, func(x *X, s *State, c *callCtx, r rval) []*State { return x.relem(s, c, r) }),
		"(reflect.Value).Type": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			if r.t == nil {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			return ret(s, x.rtype(r.t))
		}),
		"(reflect.Value).NumField": rmethod(rkinds(reflect.Struct), false, func(x *X, s *State, c *callCtx, r rval) []*State {
			return ret(s, IntV{K(int64(r.t.Underlying().(*types.Struct).NumFields()))})
		}),
		"(reflect.Value).Field": rmethod(rkinds(reflect.Struct), false, func(x *X, s *State, c *callCtx, r rval) []*State {
			i, ok := c.args[1].(IntV)
			st := r.t.Underlying().(*types.Struct)
			if !ok || !i.e.isConst() {
				return x.rgive(s, c)
			}
			if i.e.c < 0 || i.e.c >= int64(st.NumFields()) {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			f := st.Field(int(i.e.c))
			p, ok := x.fieldPtr(s, r.p, r.t, int(i.e.c)).(PtrV)
			if !ok || x.leafType(r.t) {
				return x.rgive(s, c)
			}
			flag := r.flag
			if !f.Exported() {
				flag |= rRO
			}
			return ret(s, x.rpack(rval{f.Type(), p, flag}))
		}),
		"(reflect.Value).Addr": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			if r.t == nil || r.flag&rAddr == 0 {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			return ret(s, x.rbox(s, types.NewPointer(r.t), r.p, r.flag))
		}),
		"(reflect.Value).Set": rmethod(nil, true, func(x *X, s *State, c *callCtx, r rval) []*State {
			q, ok := x.runpack(c.args[1])
			if !ok {
				return x.rgive(s, c)
			}
			if q.t == nil || q.flag&rRO != 0 || !types.AssignableTo(q.t, r.t) {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			v := x.rload(s, q)
			if types.IsInterface(r.t) && !types.IsInterface(q.t) {
				v = IfaceV{nil_: vFalse, dyn: q.t, v: v}
			}
			return x.rset(s, r, v)
		}),
		"(reflect.Value).SetZero": rmethod(nil, true, func(x *X, s *State, c *callCtx, r rval) []*State {
			return x.rset(s, r, x.zero(s, r.t))
		}),
		"(reflect.Value).SetString": rmethod(rkinds(reflect.String), true, setTo),
		"(reflect.Value).SetBool":   rmethod(rkinds(reflect.Bool), true, setTo),
		"(reflect.Value).SetInt":    rmethod(rints, true, setInt),
		"(reflect.Value).SetUint":   rmethod(ruints, true, setInt),
		"(reflect.Value).SetBytes": rmethod(rkinds(reflect.Slice), true, func(x *X, s *State, c *callCtx, r rval) []*State {
			if !isBytes(r.t) {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			return x.rset(s, r, c.args[1])
		}),
		"(reflect.Value).Int":          rmethod(rints, false, getInt),
		"(reflect.Value).Uint":         rmethod(ruints, false, getInt),
		"(reflect.Value).Bool":         rmethod(rkinds(reflect.Bool), false, get),
		"(reflect.Value).OverflowInt":  rmethod(rints, false, overflow),
		"(reflect.Value).OverflowUint": rmethod(ruints, false, overflow),
		"(reflect.Value).Bytes": rmethod(rkinds(reflect.Slice), false, func(x *X, s *State, c *callCtx, r rval) []*State {
			if !isBytes(r.t) {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			return get(x, s, c, r)
		}),
		"(reflect.Value).String": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			if r.t == nil {
				return ret(s, strConst("<invalid Value>"))
			}
			if kindOf(r.t) != reflect.String {
				return ret(s, strConst("<"+types.TypeString(r.t, (*types.Package).Name)+" Value>"))
			}
			return get(x, s, c, r)
		}),
		"(reflect.Value).Len": rmethod(rkinds(reflect.Slice, reflect.String), false, func(x *X, s *State, c *callCtx, r rval) []*State {
			return ret(s, IntV{valLen(x.rload(s, r))})
		}),
		"(reflect.Value).Interface": rmethod(nil, false, func(x *X, s *State, c *callCtx, r rval) []*State {
			if r.t == nil || r.flag&rRO != 0 {
				_, bad := x.reflPanic(s, c, vFalse)
				return bad
			}
			v := x.rload(s, r)
			if types.IsInterface(r.t) {
				return ret(s, v)
			}
			return ret(s, IfaceV{nil_: vFalse, dyn: r.t, v: v})
		}),
		"(reflect.StructTag).Get": func(x *X, s *State, c *callCtx) []*State {
			if v, _, ok := tagLookup(c); ok {
				return ret(s, strConst(v))
			}
			return ret(s, x.freshStr(s, "tag"))
		},
		"(reflect.StructTag).Lookup": func(x *X, s *State, c *callCtx) []*State {
			if v, has, ok := tagLookup(c); ok {
				return ret(s, strConst(v), mkBool(has))
			}
			return ret(s, x.freshStr(s, "tag"), freshBool())
		},
		"(reflect.StructField).IsExported": func(x *X, s *State, c *callCtx) []*State {
			if f, ok := c.args[0].(StructV); ok && len(f.f) > 1 {
				return ret(s, x.eqVals(s, f.f[1], strConst("")))
			}
			return ret(s, freshBool())
		},
		"(reflect.Kind).String": func(x *X, s *State, c *callCtx) []*State {
			if k, ok := c.args[0].(IntV); ok && k.e.isConst() {
				return ret(s, strConst(reflect.Kind(k.e.c).String()))
			}
			return ret(s, x.freshStr(s, "kind"))
		},
		"reflect.TypeFor": func(x *X, s *State, c *callCtx) []*State {
			if c.fn != nil && len(c.fn.TypeArgs()) == 1 {
				return ret(s, x.rtype(c.fn.TypeArgs()[0]))
			}
			return x.rgive(s, c)
		},
	}
}

func (x *X) leafType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && x.leafStruct(n)
}

func tagLookup(c *callCtx) (string, bool, bool) {
	t, ok1 := c.args[0].(StrV)
	k, ok2 := c.args[1].(StrV)
	if !ok1 || !ok2 || t.k == nil || k.k == nil {
		return "", false, false
	}
	v, has := reflect.StructTag(*t.k).Lookup(*k.k)
	return v, has, true
}

func (x *X) relem(s *State, c *callCtx, r rval) []*State {
	if kindOf(r.t) == reflect.Interface {
		return x.rvalueOf(s, x.rload(s, r), r.flag&rRO, c)
	}
	p, ok := x.rload(s, r).(PtrV)
	if !ok {
		return x.rgive(s, c)
	}
	e := r.t.Underlying().(*types.Pointer).Elem()
	var out []*State
	n, known := s.truth(p.nil_)
	if !known {
		t := s.clone()
		if t.assume(p.nil_) {
			out = ret(t, x.rzero())
		}
		if !s.assume(p.nil_.not()) {
			return out
		}
		p.nil_ = vFalse
	} else if n {
		return ret(s, x.rzero())
	}
	if p.obj == 0 {
		return append(x.rgive(s, c), out...)
	}
	return append(ret(s, x.rpack(rval{e, p, r.flag&rRO | rAddr})), out...)
}

// rtypeMethod is a method of reflect.Type.
func (x *X) rtypeMethod(s *State, t types.Type, name string, args []Val, sig *types.Signature, pos token.Pos) []*State {
	switch name {
	case "Kind":
		return ret(s, IntV{K(int64(kindOf(t)))})
	case "String":
		return ret(s, strConst(types.TypeString(t, (*types.Package).Name)))
	case "Name":
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return ret(s, strConst(n.Obj().Name()))
		case *types.Basic:
			return ret(s, strConst(n.Name()))
		}
		return ret(s, strConst(""))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return ret(s, x.rtype(u.Elem()))
		case *types.Slice:
			return ret(s, x.rtype(u.Elem()))
		case *types.Array:
			return ret(s, x.rtype(u.Elem()))
		case *types.Map:
			return ret(s, x.rtype(u.Elem()))
		case *types.Chan:
			return ret(s, x.rtype(u.Elem()))
		}
		_, bad := x.obliges(s, "reflect panic", pos, vFalse)
		return bad
	case "NumField":
		if st, ok := t.Underlying().(*types.Struct); ok {
			return ret(s, IntV{K(int64(st.NumFields()))})
		}
		_, bad := x.obliges(s, "reflect panic", pos, vFalse)
		return bad
	case "Field":
		st, ok := t.Underlying().(*types.Struct)
		i, ok2 := args[0].(IntV)
		if ok && ok2 && i.e.isConst() && i.e.c >= 0 && i.e.c < int64(st.NumFields()) {
			f := st.Field(int(i.e.c))
			rt, _ := sig.Results().At(0).Type().Underlying().(*types.Struct)
			v := make([]Val, rt.NumFields())
			for j := range v {
				switch rt.Field(j).Name() {
				case "Name":
					v[j] = strConst(f.Name())
				case "PkgPath":
					p := ""
					if !f.Exported() {
						p = f.Pkg().Path()
					}
					v[j] = strConst(p)
				case "Type":
					v[j] = x.rtype(f.Type())
				case "Tag":
					v[j] = strConst(st.Tag(int(i.e.c)))
				case "Anonymous":
					v[j] = mkBool(f.Embedded())
				default:
					v[j] = x.fresh(s, rt.Field(j).Type(), "structfield")
				}
			}
			return ret(s, StructV{v})
		}
		if !ok {
			_, bad := x.obliges(s, "reflect panic", pos, vFalse)
			return bad
		}
	case "AssignableTo", "ConvertibleTo", "Implements":
		if i, ok := args[0].(IfaceV); ok && rtypeOf[i.id] != nil {
			u := rtypeOf[i.id]
			switch name {
			case "AssignableTo":
				return ret(s, mkBool(types.AssignableTo(t, u)))
			case "ConvertibleTo":
				return ret(s, mkBool(types.ConvertibleTo(t, u)))
			}
			if it, ok := u.Underlying().(*types.Interface); ok {
				return ret(s, mkBool(types.Implements(t, it)))
			}
		}
	case "Comparable":
		return ret(s, mkBool(types.Comparable(t)))
	}
	x.giveUp("reflect.Type.%s is not modelled", name)
	s.ret = x.freshResults(s, sig.Results(), name)
	return one(s)
}
