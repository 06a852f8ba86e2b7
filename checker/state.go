package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	site *ssa.Defer
	fv   Val   // function value, or interface receiver
	args []Val // arguments
	many bool  // any number of times
}

type Frame struct {
	owner     int64
	fn        *ssa.Function
	regs      []Val
	parent    *Frame
	defers    []deferred
	panicking bool
	recovered bool
	running   bool // running deferred calls
	isDefer   bool // called as a deferred function
	result    []Val
	depth     int
}

type event struct {
	prev *event
	n    int
	kind string
	obj  int32
	v    Val
}

// goKey names a goroutine: where it was started, and which one of those.
type goKey struct {
	site *ssa.Go
	n    int
}

type State struct {
	id    int64
	fr    *Frame
	heap  map[int32]*Obj
	facts *Facts
	bools map[int32]bool
	locks map[string]int
	ev    *event
	spawn map[goKey][]Val // latest function value and arguments
	glob  map[string]Val  // values of globals of other modules
	ret   Val             // result of the call that just returned
	pan   *panicInfo      // set while a panic is propagating

	approx string // a function without model was called

	last, lastPos string // function of the repository the harness called last
}

type panicInfo struct {
	kind string // rule
	site string // construct
	pos  string
	val  Val
	user bool // raised by the harness
}

var stateIDs int64

func newState() *State {
	stateIDs++
	return &State{id: stateIDs, heap: map[int32]*Obj{}, facts: newFacts(), bools: map[int32]bool{}, locks: map[string]int{}, spawn: map[goKey][]Val{}, glob: map[string]Val{}}
}

func (s *State) clone() *State {
	n := *s
	stateIDs++
	n.id = stateIDs
	stateIDs++
	s.id = stateIDs
	n.heap = make(map[int32]*Obj, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.bools = make(map[int32]bool, len(s.bools))
	for k, v := range s.bools {
		n.bools[k] = v
	}
	n.locks = make(map[string]int, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.spawn = make(map[goKey][]Val, len(s.spawn))
	for k, v := range s.spawn {
		n.spawn[k] = v
	}
	n.glob = make(map[string]Val, len(s.glob))
	for k, v := range s.glob {
		n.glob[k] = v
	}
	return &n
}

func (s *State) frame() *Frame {
	f := s.fr
	if f.owner != s.id {
		c := *f
		c.owner = s.id
		c.regs = append([]Val(nil), f.regs...)
		c.defers = append([]deferred(nil), f.defers...)
		s.fr = &c
		return &c
	}
	return f
}

func (s *State) mut(id int32) *Obj {
	o := s.heap[id]
	if o == nil {
		panic(fmt.Sprintf("no object o%d", id))
	}
	if o.owner != s.id {
		c := *o
		c.owner = s.id
		c.f = make(map[string]Val, len(o.f))
		for k, v := range o.f {
			c.f[k] = v
		}
		c.segs = append([]Seg(nil), o.segs...)
		c.ents = append([]mapEnt(nil), o.ents...)
		s.heap[id] = &c
		return &c
	}
	return o
}

func (s *State) addObj(o *Obj) *Obj {
	if o.id == 0 {
		o.id = newID()
	}
	o.owner = s.id
	if o.f == nil {
		o.f = map[string]Val{}
	}
	s.heap[o.id] = o
	return o
}

func (s *State) event(kind string, obj int32, v Val) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &event{prev: s.ev, n: n, kind: kind, obj: obj, v: v}
}

func (s *State) events() []*event {
	var r []*event
	for e := s.ev; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) addFact(es ...Lin) { s.facts = s.facts.with(es...) }

// truth evaluates a condition as far as it is known.
func (s *State) truth(b BoolV) (val, known bool) {
	switch b.kind {
	case bConst:
		return !b.neg, true
	case bSym:
		if v, ok := s.bools[b.sym]; ok {
			return v != b.neg, true
		}
		return false, false
	case bGE:
		if s.facts.entails(b.e) {
			return !b.neg, true
		}
		if s.facts.entails(neg(b.e).addc(-1)) {
			return b.neg, true
		}
	case bEQ:
		if s.facts.nez(b.e) {
			return b.neg, true
		}
		if s.facts.eqz(b.e) {
			return !b.neg, true
		}
	}
	return false, false
}

// assume restricts the state to b; it reports false if that is impossible.
func (s *State) assume(b BoolV) bool {
	if v, ok := s.truth(b); ok {
		return v
	}
	switch b.kind {
	case bSym:
		s.bools[b.sym] = !b.neg
		if !b.neg {
			for _, e := range b.imp {
				if s.facts.refutes(e) {
					return false
				}
				s.addFact(e)
			}
		}
	case bGE:
		if b.neg {
			s.addFact(neg(b.e).addc(-1))
		} else {
			s.addFact(b.e)
		}
	case bEQ:
		if b.neg {
			s.facts = s.facts.withNe(b.e)
		} else {
			s.facts = s.facts.withEq(b.e)
		}
	}
	if len(s.facts.cl) > 0 {
		f, ok := s.facts.propagate()
		if !ok {
			return false
		}
		s.facts = f
	}
	return true
}

// ---- fresh and zero values ----

func freshInt(t types.Type, name string) IntV {
	lo, hi, hasHi := typeBounds(t)
	return IntV{S(newSym(name, lo, hi, true, hasHi))}
}

func (x *X) fresh(s *State, t types.Type, name string) Val {
	if x.leafStruct(t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return OpaqueV{id: newID(), typ: t}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return freshBool()
		case u.Info()&types.IsInteger != 0:
			return freshInt(t, name)
		case u.Info()&types.IsString != 0:
			return x.freshStr(s, name)
		case u.Kind() == types.UntypedNil:
			return PtrV{nil_: vTrue}
		}
		return OpaqueV{id: newID(), typ: t}
	case *types.Slice:
		l := S(newSym("len("+name+")", 0, maxLen(), true, true))
		c := S(newSym("cap("+name+")", 0, maxLen(), true, true))
		s.addFact(sub(c, l))
		o := s.addObj(&Obj{typ: t, isArr: true, elem: u.Elem(), n: c, tok: newID(), lazy: true, alias: true, site: name})
		n := freshBool()
		return SliceV{obj: o.id, off: K(0), len: l, cap: c, nil_: n}
	case *types.Pointer:
		o := x.lazyObj(s, u.Elem(), name)
		return PtrV{obj: o.id, nil_: freshBool()}
	case *types.Interface:
		return IfaceV{nil_: freshBool(), id: newID()}
	case *types.Signature:
		return FuncV{nil_: freshBool(), id: newID()}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = x.fresh(s, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return StructV{f}
	case *types.Array:
		o := s.addObj(&Obj{typ: t, isArr: true, elem: u.Elem(), n: K(u.Len()), tok: newID(), lazy: true, frozen: true})
		return ArrV{o.id}
	case *types.Map:
		o := s.addObj(&Obj{typ: t, isMap: true, mapSum: true, lazy: true, alias: true})
		return MapV{o.id, freshBool()}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = x.fresh(s, u.At(i).Type(), fmt.Sprintf("%s#%d", name, i))
		}
		return TupleV{f}
	}
	return OpaqueV{id: newID(), typ: t}
}

func (x *X) freshStr(s *State, name string) StrV {
	l := S(newSym("len("+name+")", 0, maxLen(), true, true))
	o := s.addObj(&Obj{typ: types.Typ[types.String], isArr: true, elem: types.Typ[types.Byte], n: l, tok: newID(), lazy: true, frozen: true})
	return StrV{obj: o.id, off: K(0), len: l}
}

func (x *X) lazyObj(s *State, t types.Type, name string) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok {
		return s.addObj(&Obj{typ: t, isArr: true, elem: a.Elem(), n: K(a.Len()), tok: newID(), lazy: true, alias: true, site: name})
	}
	return s.addObj(&Obj{typ: t, lazy: true, alias: true, site: name})
}

func strConst(k string) StrV { return StrV{k: &k, len: K(int64(len(k)))} }

func (x *X) zero(s *State, t types.Type) Val {
	if x.leafStruct(t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return OpaqueV{id: consTok("zero:" + types.TypeString(t.Underlying(), nil)), typ: t}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsInteger != 0:
			return IntV{K(0)}
		case u.Info()&types.IsString != 0:
			return strConst("")
		case u.Kind() == types.UntypedNil:
			return PtrV{nil_: vTrue}
		}
		return OpaqueV{id: consTok("zero:" + t.String()), typ: t}
	case *types.Slice:
		return SliceV{nil_: vTrue, off: K(0), len: K(0), cap: K(0)}
	case *types.Pointer:
		return PtrV{nil_: vTrue}
	case *types.Interface:
		return IfaceV{nil_: vTrue}
	case *types.Signature:
		return FuncV{nil_: vTrue}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = x.zero(s, u.Field(i).Type())
		}
		return StructV{f}
	case *types.Array:
		o := s.addObj(&Obj{typ: t, isArr: true, elem: u.Elem(), n: K(u.Len()), frozen: true})
		return ArrV{o.id}
	case *types.Map:
		return MapV{nil_: vTrue}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = x.zero(s, u.At(i).Type())
		}
		return TupleV{f}
	}
	return OpaqueV{id: consTok("zero:" + t.String()), typ: t}
}

// zeroObj allocates a zeroed variable.
func (x *X) zeroObj(s *State, t types.Type, site string) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok {
		return s.addObj(&Obj{typ: t, isArr: true, elem: a.Elem(), n: K(a.Len()), site: site})
	}
	return s.addObj(&Obj{typ: t, site: site})
}

// ---- field access on tree objects ----

func fieldPath(p string, i int) string { return fmt.Sprintf("%s/%d", p, i) }

// typeAt returns the type at a path inside t.
func typeAt(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	for _, p := range strings.Split(path[1:], "/") {
		var i int
		fmt.Sscanf(p, "%d", &i)
		st, ok := t.Underlying().(*types.Struct)
		if !ok || i >= st.NumFields() {
			return nil
		}
		t = st.Field(i).Type()
	}
	return t
}

// elemKey is the prefix of the fields of an array element.
func elemKey(idx Lin) string {
	k := "[" + idx.String() + "]"
	idxOf[k] = idx
	return k
}

var idxOf = map[string]Lin{"[*]": {}}

func splitElem(key string) (prefix, path string) {
	if !strings.HasPrefix(key, "[") {
		return "", key
	}
	i := strings.IndexByte(key, ']')
	return key[:i+1], key[i+1:]
}

// readPath reads a (possibly structured) value from an object; prefix is "",
// or an element key, or "[*]" for any element of an array.
func (x *X) readPath(s *State, id int32, prefix, path string, t types.Type) Val {
	if st, ok := t.Underlying().(*types.Struct); ok && !x.leafStruct(t) {
		f := make([]Val, st.NumFields())
		for i := range f {
			f[i] = x.readPath(s, id, prefix, fieldPath(path, i), st.Field(i).Type())
		}
		return StructV{f}
	}
	o := s.heap[id]
	if x.leafStruct(t) {
		var gh map[string]Val
		for k, v := range o.f {
			if strings.HasPrefix(k, prefix+path+"/~") {
				if gh == nil {
					gh = map[string]Val{}
				}
				gh[k[len(prefix+path):]] = v
			}
		}
		if gh != nil {
			return OpaqueV{id: newID(), typ: t, gh: gh}
		}
	}
	if v, ok := o.f[prefix+path]; ok && prefix != "[*]" {
		return v
	}
	if prefix != "" && o.uniform {
		if v, ok := o.f["[*]"+path]; ok {
			return v
		}
	}
	if prefix != "" {
		idx := idxOf[prefix]
		maybe := 0
		var cand Val
		same := true
		for _, k := range sortedKeys(o.f) {
			p, q := splitElem(k)
			if q != path || p == "" {
				continue
			}
			if p != "[*]" && prefix != "[*]" {
				if s.facts.same(idxOf[p], idx) {
					return o.f[k]
				}
				if d, ok := lincomb(idxOf[p], -1, idx); ok && s.facts.nez(d) {
					continue
				}
			}
			if maybe > 0 && !valEq(cand, o.f[k]) {
				same = false
			}
			cand = o.f[k]
			maybe++
		}
		if maybe > 0 {
			if same && prefix == "[*]" && (o.lazy || x.covers(s, o, maybe)) {
				return cand
			}
			if same && x.isScalarConst(cand) && (x.covers(s, o, maybe)) {
				return cand
			}
			v := x.fresh(s, t, o.site+prefix+path)
			x.weakFacts(s, o, path, v, maybe)
			if prefix != "[*]" && o.f["[*]"+path] == nil {
				s.mut(id).f[prefix+path] = v
			}
			return v
		}
	}
	var v Val
	if o.lazy || strings.Contains(path, "~") {
		v = x.fresh(s, t, o.site+prefix+path)
	} else {
		v = x.zero(s, t)
		if prefix == "[*]" {
			return v
		}
	}
	s.mut(id).f[prefix+path] = v
	return v
}

func (x *X) isScalarConst(v Val) bool {
	switch v := v.(type) {
	case IntV:
		return v.e.isConst()
	case BoolV:
		return v.kind == bConst
	}
	return false
}

// weakFacts keeps what all candidates of an unknown element have in common.
func (x *X) weakFacts(s *State, o *Obj, path string, v Val, n int) {
	if !o.lazy && !x.covers(s, o, n) {
		return // may be zero
	}
	p, ok := v.(PtrV)
	if !ok {
		return
	}
	for k, w := range o.f {
		if pre, q := splitElem(k); pre != "" && q == path {
			wp, ok := w.(PtrV)
			if !ok {
				return
			}
			if isNil, known := s.truth(wp.nil_); !known || isNil {
				return
			}
		}
	}
	s.assume(p.nil_.not())
}

// covers: every element of the array was stored through a constant index.
func (x *X) covers(s *State, o *Obj, n int) bool {
	return o.n.isConst() && o.n.c == int64(n)
}

func (x *X) writePath(s *State, id int32, prefix, path string, t types.Type, v Val) {
	if st, ok := t.Underlying().(*types.Struct); ok && !x.leafStruct(t) {
		sv, ok := v.(StructV)
		if !ok {
			sv = x.fresh(s, t, "struct").(StructV)
		}
		for i := range sv.f {
			x.writePath(s, id, prefix, fieldPath(path, i), st.Field(i).Type(), sv.f[i])
		}
		return
	}
	o := s.mut(id)
	if prefix != "" {
		o.uniform = false
	}
	if ov, ok := v.(OpaqueV); ok && x.leafStruct(t) {
		for k := range o.f {
			if strings.HasPrefix(k, prefix+path+"/~") {
				delete(o.f, k)
			}
		}
		for k, w := range ov.gh {
			o.f[prefix+path+k] = w
		}
		ov.gh = nil
		v = ov
	}
	if av, ok := v.(ArrV); ok {
		// arrays inside structs are objects of their own
		c := *s.heap[av.obj]
		c.id, c.frozen = 0, false
		c.f = copyMap(c.f)
		v = ArrV{s.addObj(&c).id}
	}
	if prefix == "[*]" {
		if old, ok := o.f[prefix+path]; ok && !valEq(old, v) {
			v = x.weak(s, t, old, v)
		}
	}
	if prefix != "" {
		for _, k := range sortedKeys(o.f) {
			p, q := splitElem(k)
			if q != path || p == "" || p == prefix {
				continue
			}
			if p == "[*]" {
				if !valEq(o.f[k], v) {
					o.f[k] = x.weak(s, t, o.f[k], v)
				}
				continue
			}
			if prefix != "[*]" {
				if s.facts.same(idxOf[p], idxOf[prefix]) {
					delete(o.f, k)
					continue
				}
				if d, ok := lincomb(idxOf[p], -1, idxOf[prefix]); ok && s.facts.nez(d) {
					continue
				}
			}
			if !valEq(o.f[k], v) {
				o.f[k] = x.weak(s, t, o.f[k], v)
			}
		}
	}
	o.f[prefix+path] = v
	if o.alias {
		for _, oid := range s.objIDs() {
			p := s.heap[oid]
			if oid != id && p.alias && p.isArr == o.isArr && types.Identical(p.typ, o.typ) {
				if prefix == "" {
					q := s.mut(oid)
					delete(q.f, path)
					q.lazy = true
					continue
				}
				for _, k := range sortedKeys(p.f) {
					if _, r := splitElem(k); r == path {
						q := s.mut(oid)
						delete(q.f, k)
						q.lazy = true
					}
				}
			}
		}
	}
}

// weak is the value of a variable holding either a or b.
func (x *X) weak(s *State, t types.Type, a, b Val) Val {
	if pa, ok := a.(PtrV); ok {
		if pb, ok := b.(PtrV); ok {
			if na, _ := s.truth(pa.nil_); na {
				pb.nil_ = freshBool()
				return pb
			}
			if nb, _ := s.truth(pb.nil_); nb {
				pa.nil_ = freshBool()
				return pa
			}
			v := x.fresh(s, t, "weak").(PtrV)
			ka, oka := s.truth(pa.nil_)
			kb, okb := s.truth(pb.nil_)
			if oka && okb && !ka && !kb {
				v.nil_ = vFalse
			}
			return v
		}
	}
	return x.fresh(s, t, "weak")
}

func copyMap(m map[string]Val) map[string]Val {
	n := make(map[string]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) objIDs() []int32 {
	r := make([]int32, 0, len(s.heap))
	for k := range s.heap {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// ---- reachability ----

type reach struct {
	objs  map[int32]bool
	syms  map[Sym]bool
	bools map[int32]bool
	toks  map[int32]bool
}

func (r *reach) lin(e Lin) {
	for _, t := range e.t {
		r.syms[t.s] = true
	}
}

func (r *reach) b(b BoolV) {
	if b.kind == bSym {
		r.bools[b.sym] = true
	}
	r.lin(b.e)
	for _, e := range b.imp {
		r.lin(e)
	}
}

func (r *reach) val(s *State, v Val) {
	switch v := v.(type) {
	case IntV:
		r.lin(v.e)
	case BoolV:
		r.b(v)
	case PtrV:
		r.b(v.nil_)
		r.lin(v.idx)
		r.obj(s, v.obj)
	case SliceV:
		r.b(v.nil_)
		r.lin(v.off)
		r.lin(v.len)
		r.lin(v.cap)
		r.obj(s, v.obj)
	case StrV:
		r.lin(v.off)
		r.lin(v.len)
		r.obj(s, v.obj)
	case IfaceV:
		r.b(v.nil_)
		r.val(s, v.v)
	case FuncV:
		r.b(v.nil_)
		for _, b := range v.binds {
			r.val(s, b)
		}
	case StructV:
		for _, f := range v.f {
			r.val(s, f)
		}
	case TupleV:
		for _, f := range v.v {
			r.val(s, f)
		}
	case ArrV:
		r.obj(s, v.obj)
	case MapV:
		r.b(v.nil_)
		r.obj(s, v.obj)
	case OpaqueV:
		for _, w := range v.gh {
			r.val(s, w)
		}
	}
}

func (r *reach) obj(s *State, id int32) {
	if id == 0 || r.objs[id] {
		return
	}
	o := s.heap[id]
	if o == nil {
		return
	}
	r.objs[id] = true
	for _, v := range o.f {
		r.val(s, v)
	}
	r.lin(o.n)
	r.toks[o.tok] = true
	for _, g := range o.segs {
		r.toks[g.tok] = true
		if t, ok := segTok(g, false); ok {
			r.toks[t] = true
		}
		r.lin(g.off)
		r.lin(g.len)
		r.lin(g.e)
		r.lin(g.toff)
	}
	for _, e := range o.ents {
		r.val(s, e.k)
		r.val(s, e.v)
	}
	if o.sumV != nil {
		r.val(s, o.sumV)
	}
}

func (x *X) reachable(s *State) *reach {
	r := &reach{map[int32]bool{}, map[Sym]bool{}, map[int32]bool{}, map[int32]bool{}}
	for f := s.fr; f != nil; f = f.parent {
		for _, v := range f.regs {
			if v != nil {
				r.val(s, v)
			}
		}
		for _, d := range f.defers {
			r.val(s, d.fv)
			for _, a := range d.args {
				r.val(s, a)
			}
		}
		for _, v := range f.result {
			r.val(s, v)
		}
	}
	if s.ret != nil {
		r.val(s, s.ret)
	}
	if s.pan != nil && s.pan.val != nil {
		r.val(s, s.pan.val)
	}
	for _, id := range x.globals {
		r.obj(s, id)
	}
	for _, vs := range s.spawn {
		for _, v := range vs {
			r.val(s, v)
		}
	}
	for _, v := range s.glob {
		r.val(s, v)
	}
	for e := s.ev; e != nil; e = e.prev {
		r.val(s, e.v)
	}
	return r
}

// collect drops what is no longer reachable.
func (x *X) collect(s *State) {
	r := x.reachable(s)
	for id := range s.heap {
		if !r.objs[id] {
			delete(s.heap, id)
		}
	}
	for b := range s.bools {
		if !r.bools[b] && !x.keepBool[b] {
			delete(s.bools, b)
		}
	}
	r.closeSyms(s.facts)
	s.facts = s.facts.project(r.syms)
}

// closeSyms adds the symbols derived from live symbols and tokens.
func (r *reach) closeSyms(f *Facts) {
	var live func(s Sym, depth int) bool
	live = func(s Sym, depth int) bool {
		if r.syms[s] {
			return true
		}
		d, isD := symDeps[s]
		if !isD || depth > 8 {
			return false
		}
		if t, ok := symTok[s]; ok && !r.toks[t] {
			return false
		}
		for _, x := range d {
			if !live(x, depth+1) {
				return false
			}
		}
		return true
	}
	add := func(e Lin) {
		for _, t := range e.t {
			if !r.syms[t.s] && live(t.s, 0) {
				r.syms[t.s] = true
			}
		}
	}
	for _, e := range f.ge {
		add(e)
	}
	for _, e := range f.ne {
		add(e)
	}
}
