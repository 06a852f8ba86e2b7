package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Joins of abstract states. A symbol denotes one value in all states, so what
// is equal on both sides keeps its name and what differs gets a new symbol.

var (
	widened    = map[Sym]bool{}
	widBool    = map[int32]bool{}
	widTok     = map[int32]bool{}
	widObj     = map[int32]bool{}
	widOpaque  = map[int32]bool{}
	joinMemory = 40
)

type joiner struct {
	x       *X
	a, b, c *State
	ints    map[string]Lin
	sa, sb  map[Sym]Lin
	news    []Sym
	objs    map[[2]int32]int32
	aUse    map[int32]map[int32]bool
	bUse    map[int32]map[int32]bool
	bools   map[string]BoolV
	toks    map[[2]int32]int32
	done    map[int32]bool
	work    [][3]int32
	same    bool
	why     string
	boolOf  map[int32]int32 // new opaque condition -> the one of a
	tokOf   map[int32]int32
	objOf   map[int32]int32
	opOf    map[int32]int32
	ids     map[string]int32
	inv     []Lin
	slices  []SliceV
}

func (j *joiner) differ(f string, args ...any) {
	if j.same && j.x.trace {
		j.why = fmt.Sprintf(f, args...)
	}
	j.same = false
}

func threshold(lo, hi i128, hasLo, hasHi bool) (int64, int64, bool, bool) {
	l := int64(-1 << 63)
	if hasLo {
		if lo.hi >= 0 {
			l = 0
		} else if lo.add(fromInt(1<<31)).hi >= 0 {
			l = -1 << 31
		}
	}
	if !hasHi {
		return l, 0, true, false
	}
	for _, t := range []int64{1, 255, 65535, 1<<31 - 1, 1<<32 - 1, 1 << 47, 1<<63 - 1} {
		if fromInt(t).add(hi.neg()).hi >= 0 {
			return l, t, true, true
		}
	}
	return l, 0, true, false
}

func upper(e Lin) (i128, bool) {
	n, ok := scale(e, -1)
	if !ok {
		return i128{}, false
	}
	l, ok := lower(n)
	return l.neg(), ok
}

func (j *joiner) pairInt(ea, eb Lin) Lin {
	if ea.eq(eb) {
		return ea
	}
	if j.b.facts.same(ea, eb) && !hasWid(ea) {
		return ea
	}
	key := ea.String() + "|" + eb.String()
	if r, ok := j.ints[key]; ok {
		return r
	}
	for _, w := range j.news {
		da, ok1 := lincomb(ea, -1, j.sa[w])
		db, ok2 := lincomb(eb, -1, j.sb[w])
		if ok1 && ok2 && da.eq(db) {
			r := add(S(w), da)
			j.ints[key] = r
			j.checkAffine(r, ea)
			return r
		}
		da, ok1 = lincomb(ea, 1, j.sa[w])
		db, ok2 = lincomb(eb, 1, j.sb[w])
		if ok1 && ok2 && da.eq(db) {
			r := sub(da, S(w))
			j.ints[key] = r
			j.checkAffine(r, ea)
			return r
		}
	}
	la, okla := lower(ea)
	lb, oklb := lower(eb)
	ua, okua := upper(ea)
	ub, okub := upper(eb)
	// what the facts say about the sign
	lo, hasLo := la, okla && oklb
	if hasLo && lb.add(la.neg()).hi < 0 {
		lo = lb
	}
	if !hasLo || lo.hi < 0 {
		if j.a.facts.entails(ea) && j.b.facts.entails(eb) {
			lo, hasLo = fromInt(0), true
		}
	}
	hi, hasHi := ua, okua && okub
	if hasHi && ua.add(ub.neg()).hi < 0 {
		hi = ub
	}
	l, h, hl, hh := threshold(lo, hi, hasLo, hasHi)
	if !hh && !symOpen(ea) && !symOpen(eb) {
		h, hh = 1<<63-1, true
	}
	w := newSym("w", l, h, hl, hh)
	widened[w] = true
	j.sa[w], j.sb[w] = ea, eb
	j.news = append(j.news, w)
	j.ints[key] = S(w)
	if s, ok := ea.sym(); !ok || !widened[s] || rangeGrows(s, w) {
		j.differ("int %s / %s", ea, eb)
	}
	return S(w)
}

// rangeGrows: w may have values outside the range of s.
func rangeGrows(s, w Sym) bool {
	a, b := &symtab[s], &symtab[w]
	return a.hasLo && (!b.hasLo || b.lo < a.lo) || a.hasHi && (!b.hasHi || b.hi > a.hi)
}

// checkAffine: the result r of a pair must be ea up to renaming.
func (j *joiner) checkAffine(r, ea Lin) {
	back, ok := r.subst(j.sa)
	if !ok || !back.eq(ea) {
		j.differ("affine %s / %s", r, ea)
	}
}

func hasWid(e Lin) bool {
	for _, t := range e.t {
		if widened[t.s] {
			return true
		}
	}
	return false
}

func (j *joiner) pairBool(a, b BoolV) BoolV {
	va, ka := j.a.truth(a)
	vb, kb := j.b.truth(b)
	if ka && kb && va == vb {
		return mkBool(va)
	}
	if boolEq(a, b) && !ka && !kb {
		return a
	}
	key := a.String() + "|" + b.String()
	if r, ok := j.bools[key]; ok {
		return r
	}
	r := freshBool()
	widBool[r.sym] = true
	j.bools[key] = r
	if a.kind == bSym && !a.neg && widBool[a.sym] && !ka {
		j.boolOf[r.sym] = a.sym
	} else {
		j.differ("bool %s / %s", a, b)
	}
	return r
}

func (j *joiner) pairID(kind string, a, b int32, wid map[int32]bool) int32 {
	if a == b {
		return a
	}
	key := fmt.Sprintf("%s|%d|%d", kind, a, b)
	if r, ok := j.ids[key]; ok {
		return r
	}
	r := newID()
	wid[r] = true
	j.ids[key] = r
	if wid[a] {
		j.opOf[r] = a
	} else {
		j.differ("%s %d / %d", kind, a, b)
	}
	return r
}

func (j *joiner) pairObj(oa, ob int32) int32 {
	if oa == 0 && ob == 0 {
		return 0
	}
	if oa == 0 {
		if j.a.heap[ob] != nil {
			oa = ob
		}
	} else if ob == 0 {
		if j.b.heap[oa] != nil {
			ob = oa
		}
	}
	k := [2]int32{oa, ob}
	if c, ok := j.objs[k]; ok {
		return c
	}
	c := oa
	switch {
	case oa == ob:
	case oa == 0:
		c = ob
		j.differ("object appears")
	case ob == 0:
	default:
		c = newID()
		widObj[c] = true
		if widObj[oa] {
			j.objOf[c] = oa
		} else {
			j.differ("object o%d / o%d", oa, ob)
		}
	}
	j.objs[k] = c
	for _, u := range []struct {
		m map[int32]map[int32]bool
		o int32
	}{{j.aUse, oa}, {j.bUse, ob}} {
		if u.o == 0 {
			continue
		}
		if u.m[u.o] == nil {
			u.m[u.o] = map[int32]bool{}
		}
		u.m[u.o][c] = true
	}
	j.work = append(j.work, [3]int32{oa, ob, c})
	return c
}

func (j *joiner) pairVal(a, b Val) Val {
	switch a := a.(type) {
	case nil:
		return nil
	case IntV:
		if b, ok := b.(IntV); ok {
			return IntV{j.pairInt(a.e, b.e)}
		}
	case BoolV:
		if b, ok := b.(BoolV); ok {
			return j.pairBool(a, b)
		}
	case PtrV:
		b, ok := b.(PtrV)
		if !ok {
			break
		}
		n := j.pairBool(a.nil_, b.nil_)
		va, ka := j.a.truth(a.nil_)
		vb, kb := j.b.truth(b.nil_)
		if ka && va {
			if kb && vb {
				return PtrV{nil_: vTrue}
			}
			r := b
			r.nil_ = n
			r.obj = j.pairObj(0, b.obj)
			return r
		}
		if kb && vb {
			r := a
			r.nil_ = n
			r.obj = j.pairObj(a.obj, 0)
			return r
		}
		if a.path != b.path || a.elem != b.elem {
			j.differ("pointer shape")
			return PtrV{nil_: n}
		}
		r := PtrV{obj: j.pairObj(a.obj, b.obj), path: a.path, elem: a.elem, nil_: n}
		if a.elem {
			r.idx = j.pairInt(a.idx, b.idx)
		}
		return r
	case SliceV:
		b, ok := b.(SliceV)
		if !ok {
			break
		}
		r := SliceV{nil_: j.pairBool(a.nil_, b.nil_)}
		va, ka := j.a.truth(a.nil_)
		vb, kb := j.b.truth(b.nil_)
		oa, ob := a.obj, b.obj
		if ka && va {
			oa = 0
		}
		if kb && vb {
			ob = 0
		}
		r.off = j.pairInt(a.off, b.off)
		r.len = j.pairInt(a.len, b.len)
		r.cap = j.pairInt(a.cap, b.cap)
		r.obj = j.pairObj(oa, ob)
		// what holds of every slice
		j.inv = append(j.inv, r.len, r.off)
		if d, ok := lincomb(r.cap, -1, r.len); ok {
			j.inv = append(j.inv, d)
		}
		j.slices = append(j.slices, r)
		return r
	case StrV:
		b, ok := b.(StrV)
		if !ok {
			break
		}
		if a.k != nil && b.k != nil && *a.k == *b.k {
			return a
		}
		if a.k == nil && b.k == nil && a.obj == b.obj {
			return StrV{obj: j.pairObj(a.obj, b.obj), off: j.pairInt(a.off, b.off), len: j.pairInt(a.len, b.len)}
		}
		// unknown content
		l := j.pairInt(a.len, b.len)
		ta, tb := j.strTok(j.a, a), j.strTok(j.b, b)
		t := j.pairTok(ta, tb)
		o := j.c.addObj(&Obj{typ: types.Typ[types.String], isArr: true, elem: types.Typ[types.Byte], n: l, tok: t, frozen: true})
		j.done[o.id] = true
		return StrV{obj: o.id, off: K(0), len: l}
	case IfaceV:
		b, ok := b.(IfaceV)
		if !ok {
			break
		}
		n := j.pairBool(a.nil_, b.nil_)
		va, ka := j.a.truth(a.nil_)
		vb, kb := j.b.truth(b.nil_)
		an, bn := ka && va, kb && vb
		switch {
		case an && bn:
			return IfaceV{nil_: vTrue}
		case an:
			if b.dyn == nil {
				return IfaceV{nil_: n, id: j.pairID("iface", 0, b.id, widOpaque)}
			}
			return IfaceV{nil_: n, dyn: b.dyn, v: j.oneSided(b.v, false)}
		case bn:
			if a.dyn == nil {
				return IfaceV{nil_: n, id: a.id}
			}
			return IfaceV{nil_: n, dyn: a.dyn, v: j.oneSided(a.v, true)}
		}
		if a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn) {
			return IfaceV{nil_: n, dyn: a.dyn, v: j.pairVal(a.v, b.v)}
		}
		if a.dyn == nil && b.dyn == nil {
			return IfaceV{nil_: n, id: j.pairID("iface", a.id, b.id, widOpaque)}
		}
		if a.dyn == nil {
			return IfaceV{nil_: n, id: j.pairID("iface", a.id, 0, widOpaque)}
		}
		j.differ("dynamic type")
		id := newID()
		widOpaque[id] = true
		return IfaceV{nil_: n, id: id}
	case FuncV:
		b, ok := b.(FuncV)
		if !ok {
			break
		}
		n := j.pairBool(a.nil_, b.nil_)
		if a.fn == b.fn && a.nat == b.nat && len(a.binds) == len(b.binds) {
			r := FuncV{fn: a.fn, nat: a.nat, nil_: n, id: a.id}
			if a.id != b.id {
				r.id = j.pairID("func", a.id, b.id, widOpaque)
			}
			for i := range a.binds {
				r.binds = append(r.binds, j.pairVal(a.binds[i], b.binds[i]))
			}
			return r
		}
		j.differ("function")
		return FuncV{nil_: n, id: newID()}
	case StructV:
		if b, ok := b.(StructV); ok && len(a.f) == len(b.f) {
			r := StructV{make([]Val, len(a.f))}
			for i := range a.f {
				r.f[i] = j.pairVal(a.f[i], b.f[i])
			}
			return r
		}
	case TupleV:
		if b, ok := b.(TupleV); ok && len(a.v) == len(b.v) {
			r := TupleV{make([]Val, len(a.v))}
			for i := range a.v {
				r.v[i] = j.pairVal(a.v[i], b.v[i])
			}
			return r
		}
	case ArrV:
		if b, ok := b.(ArrV); ok {
			return ArrV{j.pairObj(a.obj, b.obj)}
		}
	case MapV:
		if b, ok := b.(MapV); ok {
			return MapV{j.pairObj(a.obj, b.obj), j.pairBool(a.nil_, b.nil_)}
		}
	case OpaqueV:
		if b, ok := b.(OpaqueV); ok {
			return OpaqueV{id: j.pairID("opaque", a.id, b.id, widOpaque), typ: a.typ}
		}
	}
	j.differ("kind %T / %T", a, b)
	return nil
}

// oneSided copies a value which exists in one of the states only.
func (j *joiner) oneSided(v Val, isA bool) Val {
	switch v := v.(type) {
	case PtrV:
		if v.obj != 0 {
			if isA {
				v.obj = j.pairObj(v.obj, 0)
			} else {
				v.obj = j.pairObj(0, v.obj)
			}
		}
		return v
	case SliceV:
		if v.obj != 0 {
			if isA {
				v.obj = j.pairObj(v.obj, 0)
			} else {
				v.obj = j.pairObj(0, v.obj)
			}
		}
		return v
	case StrV:
		if v.obj != 0 {
			if isA {
				v.obj = j.pairObj(v.obj, 0)
			} else {
				v.obj = j.pairObj(0, v.obj)
			}
		}
		return v
	case ArrV:
		if isA {
			v.obj = j.pairObj(v.obj, 0)
		} else {
			v.obj = j.pairObj(0, v.obj)
		}
		return v
	case MapV:
		if v.obj != 0 {
			if isA {
				v.obj = j.pairObj(v.obj, 0)
			} else {
				v.obj = j.pairObj(0, v.obj)
			}
		}
		return v
	case IfaceV:
		v.v = j.oneSided(v.v, isA)
		return v
	case FuncV:
		nb := make([]Val, len(v.binds))
		for i := range nb {
			nb[i] = j.oneSided(v.binds[i], isA)
		}
		v.binds = nb
		return v
	case StructV:
		r := StructV{make([]Val, len(v.f))}
		for i := range v.f {
			r.f[i] = j.oneSided(v.f[i], isA)
		}
		return r
	case TupleV:
		r := TupleV{make([]Val, len(v.v))}
		for i := range v.v {
			r.v[i] = j.oneSided(v.v[i], isA)
		}
		return r
	}
	return v
}

func (j *joiner) strTok(s *State, v StrV) int32 {
	if v.k != nil {
		return consTok("const:" + *v.k)
	}
	if o := s.heap[v.obj]; o != nil && len(o.segs) == 0 {
		return o.tok
	}
	return -1
}

func (j *joiner) pairTok(a, b int32) int32 {
	if a == b && a != -1 {
		return a
	}
	k := [2]int32{a, b}
	if t, ok := j.toks[k]; ok && a != -1 && b != -1 {
		return t
	}
	t := newID()
	widTok[t] = true
	j.toks[k] = t
	if widTok[a] {
		j.tokOf[t] = a
	} else {
		j.differ("content %d / %d", a, b)
	}
	return t
}

func zeroLike(x *X, s *State, v Val) Val {
	switch v := v.(type) {
	case IntV:
		return IntV{K(0)}
	case BoolV:
		return vFalse
	case PtrV:
		return PtrV{nil_: vTrue}
	case SliceV:
		return SliceV{nil_: vTrue}
	case StrV:
		return strConst("")
	case IfaceV:
		return IfaceV{nil_: vTrue}
	case FuncV:
		return FuncV{nil_: vTrue}
	case MapV:
		return MapV{nil_: vTrue}
	case OpaqueV:
		return x.zero(s, v.typ)
	case ArrV:
		o := *s.heap[v.obj]
		return x.zero(s, types.NewArray(o.elem, o.n.c))
	}
	return nil
}

func (j *joiner) joinObj(oa, ob, oc int32) {
	if j.done[oc] {
		return
	}
	j.done[oc] = true
	a, b := j.a.heap[oa], j.b.heap[ob]
	if a == nil || b == nil {
		src := a
		isA := true
		if src == nil {
			src, isA = b, false
		}
		if src == nil {
			return
		}
		n := *src
		n.id, n.owner = oc, j.c.id
		n.f = map[string]Val{}
		for k, v := range src.f {
			n.f[k] = j.oneSided(v, isA)
		}
		n.ents = nil
		for _, e := range src.ents {
			n.ents = append(n.ents, mapEnt{j.oneSided(e.k, isA), j.oneSided(e.v, isA)})
		}
		n.segs = append([]Seg(nil), src.segs...)
		if n.sumV != nil {
			n.sumV = j.oneSided(n.sumV, isA)
		}
		j.c.heap[oc] = &n
		return
	}
	n := &Obj{id: oc, owner: j.c.id, typ: a.typ, isArr: a.isArr, isMap: a.isMap, lazy: a.lazy || b.lazy, alias: a.alias || b.alias,
		elem: a.elem, frozen: a.frozen && b.frozen, site: a.site, pool: a.pool, f: map[string]Val{}, released: a.released, sumNN: a.sumNN && b.sumNN, shared: max(a.shared, b.shared), uniform: a.uniform && b.uniform}
	if b.released != "" {
		n.released = b.released
	}
	if n.lazy != a.lazy || n.alias != a.alias || n.released != a.released {
		j.differ("object state")
	}
	j.c.heap[oc] = n
	if a.isArr {
		n.n = j.pairInt(a.n, b.n)
		if a.elem != nil && isByteElem(a.elem) {
			if a.tok == b.tok && segsEq(a.segs, b.segs) {
				n.tok, n.segs = a.tok, append([]Seg(nil), a.segs...)
			} else if a.tok == b.tok && len(a.segs) == len(b.segs) && j.segShapes(a.segs, b.segs) {
				n.tok = a.tok
				for i := range a.segs {
					p, q := a.segs[i], b.segs[i]
					n.segs = append(n.segs, Seg{off: j.pairInt(p.off, q.off), len: j.pairInt(p.len, q.len), kind: p.kind, e: j.pairInt(p.e, q.e), tok: j.pairTok(p.tok, q.tok), toff: j.pairInt(p.toff, q.toff), k: p.k})
				}
			} else {
				ta, tb := a.tok, b.tok
				if len(a.segs) > 0 {
					ta = -1
				}
				if len(b.segs) > 0 {
					tb = -1
				}
				n.tok = j.pairTok(ta, tb)
			}
			return
		}
		n.tok = a.tok
	}
	if a.isMap {
		j.joinMap(a, b, n)
		return
	}
	keys := map[string]bool{}
	for k := range a.f {
		keys[k] = true
	}
	for k := range b.f {
		keys[k] = true
	}
	if a.isArr {
		// elements: only identical index sets stay apart
		identical := len(keys) == len(a.f) && len(keys) == len(b.f)
		if !identical {
			j.sumArr(a, b, n)
			return
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		va, oka := a.f[k]
		vb, okb := b.f[k]
		if !oka {
			if a.lazy {
				n.lazy = true
				continue
			}
			va = zeroLike(j.x, j.a, vb)
		}
		if !okb {
			if b.lazy {
				n.lazy = true
				j.differ("field %s lost", k)
				continue
			}
			vb = zeroLike(j.x, j.b, va)
		}
		if v := j.pairVal(va, vb); v != nil {
			n.f[k] = v
		} else {
			n.lazy = true
		}
	}
}

func segsEq(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, q := a[i], b[i]
		if p.kind != q.kind || p.tok != q.tok || p.k != q.k || !p.off.eq(q.off) || !p.len.eq(q.len) || !p.e.eq(q.e) || !p.toff.eq(q.toff) {
			return false
		}
	}
	return true
}

func (j *joiner) segShapes(a, b []Seg) bool {
	for i := range a {
		if a[i].kind != b[i].kind || a[i].k != b[i].k {
			return false
		}
		if a[i].kind == sgCopy && a[i].tok != b[i].tok && len(a) > 8 {
			return false
		}
	}
	return true
}

func (j *joiner) joinMap(a, b, n *Obj) {
	n.mapSum = a.mapSum || b.mapSum
	if len(a.ents) == len(b.ents) {
		ok := true
		for i := range a.ents {
			if !valEq(a.ents[i].k, b.ents[i].k) {
				ok = false
			}
		}
		if ok {
			for i := range a.ents {
				n.ents = append(n.ents, mapEnt{a.ents[i].k, j.pairVal(a.ents[i].v, b.ents[i].v)})
			}
			return
		}
	}
	nn := func(s *State, o *Obj) bool {
		if o.mapSum && !o.sumNN {
			return false
		}
		for _, e := range o.ents {
			p, ok := e.v.(PtrV)
			if !ok {
				return false
			}
			if isNil, known := s.truth(p.nil_); !known || isNil {
				return false
			}
		}
		return true
	}
	n.sumNN = nn(j.a, a) && nn(j.b, b)
	n.mapSum = true
	n.lazy = true
	if !a.mapSum || len(a.ents) > 0 || a.sumNN != n.sumNN {
		j.differ("map")
	}
}

// sumArr summarises the elements of an array.
func (j *joiner) sumArr(a, b, n *Obj) {
	paths := map[string]bool{}
	for _, o := range []*Obj{a, b} {
		for k := range o.f {
			_, p := splitElem(k)
			paths[p] = true
		}
	}
	for p := range paths {
		t := typeAt(a.elem, p)
		if t == nil {
			continue
		}
		var all []Val
		nonNil := true
		for i, o := range []*Obj{a, b} {
			s := j.a
			if i == 1 {
				s = j.b
			}
			cnt := 0
			for k, v := range o.f {
				if _, q := splitElem(k); q == p {
					all = append(all, v)
					cnt++
					nonNil = nonNil && isNonNil(s, v)
				}
			}
			if !o.lazy && !j.x.covers(s, o, cnt) {
				// unused elements are zero, but elements in use are what counts:
				// slices never expose more than what was appended
				_ = cnt
			}
		}
		v := j.x.fresh(j.c, t, "element")
		if nonNil {
			switch w := v.(type) {
			case PtrV:
				w.nil_ = vFalse
				v = w
			case IfaceV:
				w.nil_ = vFalse
				w = sameDyn(j, all, w)
				v = w
			}
		}
		n.f["[*]"+p] = v
	}
	n.lazy = true
	if len(a.f) != len(n.f) || !a.lazy {
		j.differ("elements")
	}
}

func sameDyn(j *joiner, all []Val, w IfaceV) IfaceV { return w }

func isNonNil(s *State, v Val) bool {
	var n BoolV
	switch v := v.(type) {
	case PtrV:
		n = v.nil_
	case IfaceV:
		n = v.nil_
	case FuncV:
		n = v.nil_
	default:
		return false
	}
	isNil, known := s.truth(n)
	return known && !isNil
}

func (j *joiner) pairFrame(a, b *Frame) *Frame {
	if a == nil || b == nil {
		return nil
	}
	if a.fn != b.fn || len(a.regs) != len(b.regs) {
		j.x.giveUp("joining different frames")
	}
	n := *a
	n.owner = j.c.id
	n.parent = j.pairFrame(a.parent, b.parent)
	n.regs = make([]Val, len(a.regs))
	for i := range a.regs {
		if a.regs[i] == nil || b.regs[i] == nil {
			continue
		}
		n.regs[i] = j.pairVal(a.regs[i], b.regs[i])
	}
	n.defers = nil
	i, k := 0, 0
	for i < len(a.defers) || k < len(b.defers) {
		if i < len(a.defers) && k < len(b.defers) && a.defers[i].site == b.defers[k].site {
			d := a.defers[i]
			d.fv = j.pairVal(a.defers[i].fv, b.defers[k].fv)
			d.args = nil
			for m := range a.defers[i].args {
				d.args = append(d.args, j.pairVal(a.defers[i].args[m], b.defers[k].args[m]))
			}
			if b.defers[k].many && !d.many {
				d.many = true
				j.differ("deferred call")
			}
			n.defers = append(n.defers, d)
			i++
			k++
			continue
		}
		j.x.giveUp("different deferred calls at a join in %s", fnName(a.fn))
	}
	if a.result != nil || b.result != nil {
		n.result = nil
	}
	return &n
}

// collapseDefers folds repetitions of the same deferred call.
func collapseDefers(s *State) {
	f := s.fr
	dup := false
	for i := 1; i < len(f.defers); i++ {
		if f.defers[i].site == f.defers[i-1].site {
			dup = true
		}
	}
	if !dup {
		return
	}
	f = s.frame()
	var out []deferred
	for _, d := range f.defers {
		if n := len(out); n > 0 && out[n-1].site == d.site && valEq(out[n-1].fv, d.fv) && len(out[n-1].args) == len(d.args) {
			eq := true
			for i := range d.args {
				if !valEq(out[n-1].args[i], d.args[i]) {
					eq = false
				}
			}
			if eq {
				out[n-1].many = true
				continue
			}
		}
		out = append(out, d)
	}
	f.defers = out
}

// join is an upper bound of a and b; same reports that it is a up to the
// names of symbols and objects.
func (x *X) join(a, b *State, widen bool) (*State, bool) {
	x.joins++
	stateIDs++
	c := &State{id: stateIDs, heap: map[int32]*Obj{}, facts: newFacts(), bools: map[int32]bool{}, locks: map[string]int{}, glob: map[string]Val{}}
	j := &joiner{x: x, a: a, b: b, c: c, ints: map[string]Lin{}, sa: map[Sym]Lin{}, sb: map[Sym]Lin{}, objs: map[[2]int32]int32{}, aUse: map[int32]map[int32]bool{}, bUse: map[int32]map[int32]bool{},
		bools: map[string]BoolV{}, toks: map[[2]int32]int32{}, done: map[int32]bool{}, same: true, boolOf: map[int32]int32{}, tokOf: map[int32]int32{}, objOf: map[int32]int32{}, opOf: map[int32]int32{}, ids: map[string]int32{}}
	c.pan = a.pan
	if c.approx = a.approx; c.approx == "" {
		c.approx = b.approx
	}
	for k, v := range a.locks {
		c.locks[k] = v
		if b.locks[k] != v {
			x.giveUp("lock state differs at a join in %s", x.construct(a))
		}
	}
	for k, v := range b.locks {
		if a.locks[k] != v {
			x.giveUp("lock state differs at a join in %s", x.construct(a))
		}
	}
	c.fr = j.pairFrame(a.fr, b.fr)
	if a.ret != nil && b.ret != nil {
		c.ret = j.pairVal(a.ret, b.ret)
	}
	for _, g := range x.globals {
		if a.heap[g] != nil || b.heap[g] != nil {
			j.pairObj(g, g)
		}
	}
	c.spawn = a.spawnCopy()
	for k, vb := range b.spawn {
		va, ok := c.spawn[k]
		if !ok {
			nv := make([]Val, len(vb))
			for i := range vb {
				nv[i] = j.oneSided(vb[i], false)
			}
			c.spawn[k] = nv
			j.differ("goroutine started")
			continue
		}
		nv := make([]Val, len(va))
		for i := range va {
			nv[i] = j.pairVal(va[i], vb[i])
		}
		c.spawn[k] = nv
	}
	for k, va := range a.spawn {
		if _, ok := b.spawn[k]; !ok {
			nv := make([]Val, len(va))
			for i := range va {
				nv[i] = j.oneSided(va[i], true)
			}
			c.spawn[k] = nv
		}
	}
	for k := range b.glob {
		if _, ok := a.glob[k]; !ok && strings.HasPrefix(k, "n:") {
			if v := j.pairVal(IntV{K(0)}, b.glob[k]); v != nil {
				c.glob[k] = v
			}
		}
	}
	for k, va := range a.glob {
		vb, ok := b.glob[k]
		if !ok && strings.HasPrefix(k, "n:") {
			vb, ok = IntV{K(0)}, true
		}
		if ok {
			if v := j.pairVal(va, vb); v != nil {
				c.glob[k] = v
			}
		} else {
			j.differ("ghost %s", k)
		}
	}
	for len(j.work) > 0 {
		w := j.work[0]
		j.work = j.work[1:]
		j.joinObj(w[0], w[1], w[2])
	}
	// objects split by the join may be the same variable
	for _, use := range []map[int32]map[int32]bool{j.aUse, j.bUse} {
		for _, cs := range use {
			if len(cs) < 2 {
				continue
			}
			for id := range cs {
				if o := c.heap[id]; o != nil && !o.alias && !o.frozen {
					o.alias = true
					j.differ("aliasing")
				}
			}
		}
	}
	for k, v := range a.bools {
		if w, ok := b.bools[k]; ok && v == w {
			c.bools[k] = v
		}
	}
	j.facts(widen)
	if j.same {
		j.checkSame()
	}
	if x.trace && !j.same {
		fmt.Printf("    join differs: %s\n", j.why)
	}
	if x.trace2 {
		for _, w := range j.news {
			fmt.Printf("      s%d = %s | %s\n", w, j.sa[w], j.sb[w])
		}
		fmt.Printf("      a: %v\n      b: %v\n      c: %v\n", a.facts.ge, b.facts.ge, c.facts.ge)
	}
	return c, j.same
}

func (s *State) spawnCopy() map[goKey][]Val {
	n := map[goKey][]Val{}
	for k, v := range s.spawn {
		n[k] = v
	}
	return n
}

func (j *joiner) facts(widen bool) {
	a, b, c := j.a.facts, j.b.facts, j.c.facts
	live := j.x.reachable(j.c)
	ra, rb := j.x.reachable(j.a), j.x.reachable(j.b)
	// view restates the facts of a side about what is live after the join
	view := func(f *Facts, m0 map[Sym]Lin) *Facts {
		sub1 := map[Sym]Lin{}
		type def struct {
			w Sym
			e Lin
		}
		var eqs []def
		ge := append([]Lin(nil), f.ge...)
		ne := append([]Lin(nil), f.ne...)
		apply := func(g Lin) (Lin, bool) { return g.subst(sub1) }
		for _, w := range j.news {
			e, ok := apply(m0[w])
			if !ok {
				continue
			}
			var pick Sym = -1
			var k int64
			for _, t := range e.t {
				if (t.k == 1 || t.k == -1) && !live.syms[t.s] && !isNew(j, t.s) {
					// a symbol which occurs nowhere else says nothing
					pick, k = t.s, t.k
					if symtab[t.s].hasLo {
						break
					}
				}
			}
			if pick < 0 {
				ge = append(ge, sub(S(w), e), sub(e, S(w)))
				if len(e.t) > 0 {
					eqs = append(eqs, def{w, e})
				}
				continue
			}
			// w = e  =>  pick = k*(w - (e - k*pick))
			rest, ok1 := lincomb(e, -k, S(pick))
			v, ok2 := lincomb(S(w), -1, rest)
			if !ok1 || !ok2 {
				continue
			}
			if v, ok = scale(v, k); !ok {
				continue
			}
			for s, o := range sub1 {
				if n, ok := o.subst(map[Sym]Lin{pick: v}); ok {
					sub1[s] = n
				}
			}
			sub1[pick] = v
			si := &symtab[pick]
			if si.hasLo && si.lo != math.MinInt64 {
				if g, ok := addOK(v.c, -si.lo); ok {
					ge = append(ge, Lin{c: g, t: v.t})
				}
			}
			if si.hasHi {
				if g, ok := lincomb(K(si.hi), -1, v); ok {
					ge = append(ge, g)
				}
			}
		}
		// the other way round for what has two names now
		for _, d := range eqs {
			m := len(ge)
			for _, g := range ge[:m] {
				if coef(g.t, d.w) != 0 || len(ge) > 300 {
					continue
				}
				k := coef(g.t, d.e.t[0].s)
				if k == 0 || k%d.e.t[0].k != 0 {
					continue
				}
				k /= d.e.t[0].k
				v, ok := lincomb(g, -k, d.e)
				if !ok {
					continue
				}
				v, ok = lincomb(v, k, S(d.w))
				if ok && len(v.t) <= len(g.t) {
					ge = append(ge, v)
				}
			}
		}
		// a number which is known on this side only
		if !widen && len(ge) < 80 {
			m := len(ge)
			for _, w := range j.news {
				e, ok := apply(m0[w])
				if !ok || !e.isConst() {
					continue
				}
				for _, g := range ge[:m] {
					if len(g.t) == 0 || len(g.t) > 2 || coef(g.t, w) != 0 || g.c == 0 || len(ge) > 160 {
						continue
					}
					switch {
					case e.c == 0 && g.c < 0:
						ge = append(ge, sub(g, S(w)))
					case e.c > 0 && g.c <= -e.c:
						ge = append(ge, Lin{c: 0, t: sub(g, S(w)).t})
					case e.c > 0 && g.c == e.c:
						ge = append(ge, Lin{c: 0, t: add(g, S(w)).t})
					}
				}
			}
		}
		n := newFacts()
		for _, g := range ge {
			if v, ok := apply(g); ok {
				v = tighten(v)
				if k := v.String(); !nonneg(v) && !n.index[k] {
					n.index[k] = true
					n.ge = append(n.ge, v)
				}
			}
		}
		for _, g := range ne {
			if v, ok := apply(g); ok {
				n.ne = append(n.ne, v)
			}
		}
		keepSym := map[Sym]bool{}
		for s := range live.syms {
			keepSym[s] = true
		}
		for _, w := range j.news {
			keepSym[w] = true
		}
		n.dead = f.dead
		return n.projectN(keepSym, 15)
	}
	va, vb := view(a, j.sa), view(b, j.sb)
	usable := func(g Lin) bool {
		for _, t := range g.t {
			if !live.syms[t.s] {
				if _, isD := symDeps[t.s]; !isD {
					return false
				}
			}
		}
		return true
	}
	keep := func(g Lin) { c = c.with(g) }
	holds := func(f *Facts, g Lin, m map[Sym]Lin) bool {
		e, ok := g.subst(m)
		return ok && f.entails(e)
	}
	privateTo := func(g Lin, other *reach) bool {
		if len(g.t) == 0 {
			return false
		}
		for _, t := range g.t {
			if other.syms[t.s] || j.sa[t.s].t != nil || widened[t.s] && isNew(j, t.s) {
				return false
			}
			if _, isD := symDeps[t.s]; isD {
				return false
			}
		}
		return true
	}
	for _, r := range j.slices {
		o := j.c.heap[r.obj]
		if o == nil || !o.isArr {
			continue
		}
		if e, ok := lincomb(o.n, -1, r.off); ok {
			if e, ok = lincomb(e, -1, r.cap); ok {
				keep(e)
			}
		}
	}
	for _, e := range j.inv {
		keep(e)
	}
	for _, v := range va.ge {
		if usable(v) && (holds(b, v, j.sb) || privateTo(v, rb)) {
			keep(v)
		}
	}
	if !widen {
		for _, v := range vb.ge {
			if usable(v) && (holds(a, v, j.sa) || privateTo(v, ra)) {
				keep(v)
			}
		}
		lim := j.news
		if len(lim) > 14 {
			lim = lim[:14]
		}
		for _, w := range lim {
			ea, eb := j.sa[w], j.sb[w]
			if ea.isConst() && eb.isConst() {
				lo, hi := ea.c, eb.c
				if lo > hi {
					lo, hi = hi, lo
				}
				keep(S(w).addc(-lo))
				keep(K(hi).sub(S(w)))
			}
			for _, d := range []Lin{S(w), S(w).addc(-1)} {
				if holds(a, d, j.sa) && holds(b, d, j.sb) {
					keep(d)
				}
			}
			for _, v := range lim {
				if v != w {
					d := sub(S(v), S(w))
					if holds(a, d, j.sa) && holds(b, d, j.sb) {
						keep(d)
					}
				}
			}
			// against what the other side says
			for _, e := range []Lin{ea, eb} {
				if e.isConst() || len(e.t) > 2 {
					continue
				}
				for _, d := range []Lin{sub(e, S(w)), sub(S(w), e)} {
					if usable(d) && holds(a, d, j.sa) && holds(b, d, j.sb) {
						keep(d)
					}
				}
			}
		}
	}
	// limits that the code of the loop mentions
	if ks := j.x.limitsOf(j.c.fr); len(ks) > 0 {
		lim := j.news
		if len(lim) > 14 {
			lim = lim[:14]
		}
		for _, w := range lim {
			for _, k := range ks {
				d := K(k).sub(S(w))
				if holds(a, d, j.sa) && holds(b, d, j.sb) {
					keep(d)
					break
				}
			}
		}
	}
	// lengths of what the code of the loop looks at
	if ls := lensOf(j.c); len(ls) > 0 {
		lim := j.news
		if len(lim) > 14 {
			lim = lim[:14]
		}
		for _, w := range lim {
			for _, l := range ls {
				d, ok := lincomb(l, -1, S(w))
				if ok && coef(l.t, w) == 0 && usable(d) && holds(a, d, j.sa) && holds(b, d, j.sb) {
					keep(d)
				}
			}
		}
	}
	for _, v := range va.ne {
		if e, ok := v.subst(j.sb); ok && usable(v) && b.nez(e) {
			c = c.withNe(v)
		}
	}
	if !widen {
		for _, v := range vb.ne {
			if e, ok := v.subst(j.sa); ok && usable(v) && a.nez(e) {
				c = c.withNe(v)
			}
		}
	}
	for _, k := range a.cl {
		if b.hasClause(k.key) {
			c = c.withClause(k.alt[0].restrict(live.syms), k.alt[1].restrict(live.syms))
		}
	}
	j.c.facts = c.prune()
}

// limitsOf lists the constants that a function compares integers with for
// equality, in ascending order; < and <= leave facts of their own.
func (x *X) limitsOf(fr *Frame) []int64 {
	if fr == nil || fr.fn == nil {
		return nil
	}
	if ks, ok := x.limits[fr.fn]; ok {
		return ks
	}
	var ks []int64
	for _, b := range fr.fn.Blocks {
		for _, i := range b.Instrs {
			op, ok := i.(*ssa.BinOp)
			if !ok || op.Op != token.EQL && op.Op != token.NEQ && op.Op != token.GEQ && op.Op != token.GTR {
				continue
			}
			for _, v := range []ssa.Value{op.X, op.Y} {
				c, ok := v.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					continue
				}
				if k, ok := constant.Int64Val(c.Value); ok && k > 1 && !slices.Contains(ks, k) {
					ks = append(ks, k)
				}
			}
		}
	}
	slices.Sort(ks)
	if len(ks) > 6 {
		ks = ks[:6]
	}
	if x.limits == nil {
		x.limits = map[*ssa.Function][]int64{}
	}
	x.limits[fr.fn] = ks
	return ks
}

// lensOf lists lengths of the slices that a function holds.
func lensOf(s *State) (ls []Lin) {
	if s.fr == nil {
		return nil
	}
	for _, v := range s.fr.regs {
		v, ok := v.(SliceV)
		if !ok || v.len.isConst() && v.len.c < 2 {
			continue
		}
		if !slices.ContainsFunc(ls, v.len.eq) {
			ls = append(ls, v.len)
		}
		if len(ls) == 4 {
			break
		}
	}
	return ls
}

func isNew(j *joiner, s Sym) bool { _, ok := j.sa[s]; return ok }

// checkSame verifies that a is an instance of c under a renaming, and c of a.
func (j *joiner) checkSame() {
	if j.c.approx != j.a.approx {
		j.differ("approximation")
		return
	}
	live := j.x.reachable(j.c)
	ren := map[Sym]Lin{}
	used := map[Sym]bool{}
	for _, w := range j.news {
		if !live.syms[w] {
			continue
		}
		v, ok := j.sa[w].sym()
		if !ok || !widened[v] {
			j.differ("new symbol for %s", j.sa[w])
			return
		}
		if live.syms[v] || used[v] {
			j.differ("symbol s%d split", v)
			return
		}
		used[v] = true
		ren[v] = S(w)
	}
	for _, m := range []map[int32]int32{j.boolOf, j.tokOf, j.objOf, j.opOf} {
		seen := map[int32]bool{}
		for _, old := range m {
			if seen[old] {
				j.differ("id %d split", old)
				return
			}
			seen[old] = true
		}
	}
	for _, old := range j.objOf {
		if live.objs[old] {
			j.differ("object o%d split", old)
			return
		}
	}
	for _, old := range j.boolOf {
		if live.bools[old] {
			j.differ("condition b%d split", old)
			return
		}
	}
	ra := j.x.reachable(j.a)
	for _, g := range j.a.facts.ge {
		v, ok := g.subst(ren)
		if !ok {
			j.differ("fact")
			return
		}
		ok = true
		for _, t := range g.t {
			if !ra.syms[t.s] {
				ok = false // does not concern the state
			}
		}
		if ok && !j.c.facts.entails(v) {
			j.differ("fact %s lost", g)
			return
		}
	}
	for _, g := range j.a.facts.ne {
		v, ok := g.subst(ren)
		if !ok || !j.c.facts.nez(v) {
			j.differ("fact %s!=0 lost", g)
			return
		}
	}
	for _, c := range j.a.facts.cl {
		if !j.c.facts.hasClause(c.key) {
			j.differ("clause %s lost", c.key)
			return
		}
	}
	for k := range j.a.bools {
		if _, ok := j.c.bools[k]; !ok && ra.bools[k] {
			if _, ren := invert(j.boolOf)[k]; !ren {
				j.differ("condition b%d lost", k)
				return
			}
		}
	}
}

func invert(m map[int32]int32) map[int32]int32 {
	r := map[int32]int32{}
	for k, v := range m {
		r[v] = k
	}
	return r
}

// ---- merging of states at control flow joins ----

// mergeStates merges states which only differ in what is known about their
// symbols, and, beyond limit, any states of the same shape.
func (x *X) mergeStates(ss []*State, limit int) []*State {
	if len(ss) < 2 {
		return ss
	}
	var out []*State
	for _, s := range ss {
		merged := false
		for i, t := range out {
			if x.sameMem(t, s) {
				out[i] = x.mergeFacts(t, s)
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, s)
		}
	}
	if len(out) <= limit {
		return out
	}
	if x.trace {
		fmt.Printf("  merging %d states in %s\n", len(out), x.construct(out[0]))
	}
	groups := map[string]*State{}
	var order []string
	for _, s := range out {
		x.collect(s)
		k := x.shapeKey(s)
		if x.trace2 {
			fmt.Printf("    shape %s\n", k)
		}
		if g := groups[k]; g != nil {
			groups[k], _ = x.join(g, s, false)
			x.collect(groups[k])
		} else {
			groups[k] = s
			order = append(order, k)
		}
	}
	res := make([]*State, 0, len(order))
	for _, k := range order {
		res = append(res, groups[k])
	}
	return res
}

func (x *X) mergeFacts(a, b *State) *State {
	n := a.clone()
	if n.approx == "" {
		n.approx = b.approx
	}
	f := newFacts()
	for _, g := range a.facts.ge {
		if b.facts.entails(g) {
			f = f.with(g)
		}
	}
	for _, g := range b.facts.ge {
		if a.facts.entails(g) {
			f = f.with(g)
		}
	}
	for _, g := range a.facts.ne {
		if b.facts.nez(g) {
			f = f.withNe(g)
		}
	}
	for _, g := range b.facts.ne {
		if a.facts.nez(g) {
			f = f.withNe(g)
		}
	}
	for _, c := range a.facts.cl {
		if b.facts.hasClause(c.key) {
			f = f.withClause(c.alt[0], c.alt[1])
		}
	}
	n.facts = f.withClause(a.facts.beyond(b.facts), b.facts.beyond(a.facts))
	for k, v := range n.bools {
		if w, ok := b.bools[k]; !ok || v != w {
			delete(n.bools, k)
		}
	}
	return n
}

// beyond is some of what f says and g does not.
func (f *Facts) beyond(g *Facts) (r alternative) {
	for _, e := range f.ge {
		if len(r.ge) < 3 && !g.entails(e) {
			r.ge = append(r.ge, e)
		}
	}
	for _, e := range f.ne {
		if len(r.ne) < 2 && !g.nez(e) {
			r.ne = append(r.ne, e)
		}
	}
	return
}

// shapeKey separates states a join would lose too much of.
func (x *X) shapeKey(s *State) string {
	var sb strings.Builder
	if s.pan != nil {
		fmt.Fprintf(&sb, "pan=%s@%s;", s.pan.kind, s.pan.pos)
	}
	shape := func(v Val) {
		var rec func(v Val)
		rec = func(v Val) {
			switch v := v.(type) {
			case BoolV:
				if b, known := s.truth(v); known {
					fmt.Fprintf(&sb, "%v", b)
				} else {
					sb.WriteByte('?')
				}
			case IfaceV:
				if b, known := s.truth(v.nil_); known {
					fmt.Fprintf(&sb, "i%v", b)
				}
				fmt.Fprintf(&sb, "%v", v.dyn)
			case PtrV:
				if b, known := s.truth(v.nil_); known {
					fmt.Fprintf(&sb, "p%v", b)
				}
			case TupleV:
				for _, e := range v.v {
					rec(e)
					sb.WriteByte(',')
				}
			case FuncV:
				fmt.Fprintf(&sb, "f%v", v.fn)
			case IntV:
				if z, known := s.truth(BoolV{kind: bEQ, e: v.e}); known {
					fmt.Fprintf(&sb, "z%v", z)
				}
			}
		}
		rec(v)
		sb.WriteByte(';')
	}
	if s.ret != nil {
		shape(s.ret)
	}
	if s.fr != nil {
		for _, v := range s.fr.regs {
			if v != nil {
				shape(v)
			} else {
				sb.WriteByte('_')
			}
		}
		for _, d := range s.fr.defers {
			fmt.Fprintf(&sb, "d%d", d.site.Pos())
		}
	}
	for _, id := range s.objIDs() {
		o := s.heap[id]
		if o.isArr || o.frozen {
			continue
		}
		for _, k := range sortedKeys(o.f) {
			switch o.f[k].(type) {
			case BoolV, IfaceV, PtrV:
				fmt.Fprintf(&sb, "o%d%s=", x.stableID(s, id), k)
				shape(o.f[k])
			case IntV:
				if c := enumRange(s, o, k); c != "" {
					fmt.Fprintf(&sb, "o%d%s=%s;", x.stableID(s, id), k, c)
				}
			}
		}
		if o.released != "" {
			fmt.Fprintf(&sb, "o%d!;", x.stableID(s, id))
		}
	}
	for _, k := range lockKeys(s) {
		fmt.Fprintf(&sb, "L%s=%d;", k, s.locks[k])
	}
	return sb.String()
}

// enumRange is what is known about a field of an enumeration type. States
// with different ranges are kept apart: other fields depend on it.
func enumRange(s *State, o *Obj, path string) string {
	v, ok := o.f[path].(IntV)
	if !ok || strings.HasPrefix(path, "[") {
		return ""
	}
	n, ok := typeAt(o.typ, path).(*types.Named)
	if !ok {
		return ""
	}
	if _, ok = n.Underlying().(*types.Basic); !ok {
		return ""
	}
	lo, hi, hasLo, hasHi := s.facts.bounds(v.e)
	if !hasLo || !hasHi || hi-lo > 64 || hi-lo < 0 {
		return ""
	}
	return fmt.Sprintf("%d:%d", lo, hi)
}

// sameMem reports whether two states have the same reachable memory.
func (x *X) sameMem(a, b *State) bool {
	if (a.pan == nil) != (b.pan == nil) {
		return false
	}
	if a.pan != nil && (a.pan.kind != b.pan.kind || a.pan.pos != b.pan.pos) {
		return false
	}
	if !valEqN(a.ret, b.ret) || len(a.spawn) != len(b.spawn) || len(a.glob) != len(b.glob) {
		return false
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			return false
		}
	}
	for k, v := range b.locks {
		if a.locks[k] != v {
			return false
		}
	}
	for k, v := range a.glob {
		if w, ok := b.glob[k]; !ok || !valEq(v, w) {
			return false
		}
	}
	for k, v := range a.spawn {
		w, ok := b.spawn[k]
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !valEq(v[i], w[i]) {
				return false
			}
		}
	}
	for f, g := a.fr, b.fr; f != nil || g != nil; f, g = f.parent, g.parent {
		if f == g {
			break
		}
		if f == nil || g == nil || f.fn != g.fn || len(f.defers) != len(g.defers) || f.panicking != g.panicking || f.recovered != g.recovered || f.running != g.running {
			return false
		}
		for i := range f.regs {
			if !valEqN(f.regs[i], g.regs[i]) {
				return false
			}
		}
		for i := range f.defers {
			if f.defers[i].site != g.defers[i].site || !valEq(f.defers[i].fv, g.defers[i].fv) {
				return false
			}
			for k := range f.defers[i].args {
				if !valEq(f.defers[i].args[k], g.defers[i].args[k]) {
					return false
				}
			}
		}
	}
	r := x.reachable(a)
	for id := range r.objs {
		p, q := a.heap[id], b.heap[id]
		if p == q {
			continue
		}
		if q == nil || !objEq(p, q) {
			return false
		}
	}
	return true
}

func valEqN(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return valEq(a, b)
}

func objEq(p, q *Obj) bool {
	if p.lazy != q.lazy || p.alias != q.alias || p.released != q.released || p.tok != q.tok || len(p.f) != len(q.f) || len(p.ents) != len(q.ents) || p.mapSum != q.mapSum || !p.n.eq(q.n) || !segsEq(p.segs, q.segs) {
		return false
	}
	for k, v := range p.f {
		if w, ok := q.f[k]; !ok || !valEq(v, w) {
			return false
		}
	}
	for i := range p.ents {
		if !valEq(p.ents[i].k, q.ents[i].k) || !valEq(p.ents[i].v, q.ents[i].v) {
			return false
		}
	}
	return true
}
