package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/dropmorepackets/haproxy-go/"

type callCtx struct {
	fn    *ssa.Function // may be nil for interface calls
	name  string
	args  []Val
	types []types.Type // of args
	res   *types.Tuple
	pos   token.Pos
	defr  bool
}

func ret(s *State, vs ...Val) []*State {
	switch len(vs) {
	case 0:
		s.ret = nil
	case 1:
		s.ret = vs[0]
	default:
		s.ret = TupleV{vs}
	}
	return one(s)
}

func (x *X) callParts(s *State, c *ssa.CallCommon) (Val, []Val) {
	fv := x.val(s, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	return fv, args
}

func (x *X) callInstr(s *State, i *ssa.Call) []*State {
	fv, args := x.callParts(s, &i.Call)
	out := x.callValue(s, &i.Call, fv, args, false, i)
	for _, o := range out {
		if o.pan != nil {
			continue
		}
		r := o.ret
		o.ret = nil
		if t, ok := i.Type().(*types.Tuple); ok && t.Len() == 0 {
			r = TupleV{}
		}
		if r == nil {
			r = x.fresh(o, i.Type(), "result")
		}
		x.set(o, i, r)
	}
	return out
}

func resTuple(sig *types.Signature) *types.Tuple { return sig.Results() }

func (x *X) freshResults(s *State, res *types.Tuple, name string) Val {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return x.fresh(s, res.At(0).Type(), name)
	}
	return x.fresh(s, res, name)
}

func (x *X) callValue(s *State, c *ssa.CallCommon, fv Val, args []Val, isDefer bool, site ssa.Instruction) []*State {
	if p := site.Pos(); p.IsValid() {
		x.curPos = p
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(s, b, c, args, isDefer, site)
	}
	if c.IsInvoke() {
		iv, ok := fv.(IfaceV)
		if !ok {
			iv = IfaceV{nil_: vFalse, id: newID()}
		}
		g, bad := x.obliges(s, "nil", site.Pos(), iv.nil_.not())
		if g == nil {
			return bad
		}
		return append(x.invoke(g, iv, c, args, isDefer, site), bad...)
	}
	var ts []types.Type
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return x.callFV(s, fv, args, ts, c.Signature(), isDefer, site.Pos())
}

// callFV calls a function value.
func (x *X) callFV(s *State, fv Val, args []Val, ts []types.Type, sig *types.Signature, isDefer bool, pos token.Pos) []*State {
	f, ok := fv.(FuncV)
	if !ok {
		f = FuncV{nil_: vFalse, id: newID()}
	}
	g, bad := x.obliges(s, "nil", pos, f.nil_.not())
	if g == nil {
		return bad
	}
	s = g
	var out []*State
	switch {
	case f.fn != nil:
		out = x.callFn(s, f.fn, args, f.binds, ts, isDefer, pos)
	case f.nat != "":
		out = x.callNat(s, f, args, sig, pos)
	default:
		out = x.callback(s, sig.Results(), "function value", args)
	}
	return append(out, bad...)
}

// callback is a call of code the library does not contain.
func (x *X) callback(s *State, res *types.Tuple, what string, args []Val) []*State {
	if ks := lockKeys(s); len(ks) > 0 {
		x.report(s, "callback-with-lock", x.construct(s), what+" called while holding a lock", x.curPos)
	}
	for _, a := range args {
		x.havocArg(s, a)
	}
	s.ret = x.freshResults(s, res, "callback")
	return one(s)
}

func (x *X) invoke(s *State, iv IfaceV, c *ssa.CallCommon, args []Val, isDefer bool, site ssa.Instruction) []*State {
	m := c.Method
	if iv.dyn != nil {
		fn := x.prog.LookupMethod(iv.dyn, m.Pkg(), m.Name())
		if fn == nil {
			x.giveUp("no method %s of %s", m.Name(), iv.dyn)
		}
		all := append([]Val{iv.v}, args...)
		ts := []types.Type{iv.dyn}
		for _, a := range c.Args {
			ts = append(ts, a.Type())
		}
		return x.callFn(s, fn, all, nil, ts, isDefer, site.Pos())
	}
	return x.invokeOpaque(s, iv, m, args, site.Pos())
}

func (x *X) ownFn(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	return true
}

func inHarness(f *Frame) bool { return f != nil && isHarness(f.fn) }

// callFn calls a known function.
func (x *X) callFn(s *State, fn *ssa.Function, args, binds []Val, ts []types.Type, isDefer bool, pos token.Pos) []*State {
	name := fn.RelString(nil)
	if fn.Origin() != nil {
		name = fn.Origin().RelString(nil)
	}
	if isHarness(fn) {
		if f := intrinsics[fn.Name()]; f != nil && fn.Signature.Recv() == nil {
			return f(x, s, &callCtx{fn: fn, name: fn.Name(), args: args, types: ts, res: fn.Signature.Results(), pos: pos})
		}
	} else if inHarness(s.fr) {
		s.last = fnName(fn)
		if fn.Pos().IsValid() {
			s.lastPos = x.posn(fn.Pos())
		}
	}
	if !x.raw {
		f := summaries[name]
		if f == nil && lengthFns[fn] {
			f = sumLength
		}
		if f != nil {
			x.sites["summary "+strings.TrimPrefix(name, modPath)]++
			return f(x, s, &callCtx{fn: fn, name: name, args: args, types: ts, res: fn.Signature.Results(), pos: pos})
		}
	}
	if fn.Blocks != nil {
		return x.call(s, fn, args, binds, isDefer)
	}
	cc := &callCtx{fn: fn, name: name, args: args, types: ts, res: fn.Signature.Results(), pos: pos, defr: isDefer}
	if f := stdModels[name]; f != nil {
		return f(x, s, cc)
	}
	if m := goModels[name]; m != nil {
		return x.call(s, m, args, binds, isDefer)
	}
	return x.unknownStd(s, cc)
}

// harmless are functions without a model whose result says nothing more.
var harmless = map[string]bool{
	"(*net.conn).SetReadBuffer":  true,
	"(*net.conn).SetWriteBuffer": true,
	"(net/netip.Addr).String":    true,
	"reflect.TypeOf":             true,
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true,
	"log": true, "os": true, "runtime": true, "runtime/debug": true, "reflect": true, "fmt": true, "bytes": true, "time": true, "cmp": true,
	"net/netip": true, "net": true, "context": true, "sync/atomic": true,
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (x *X) unknownStd(s *State, c *callCtx) []*State {
	p := pkgOf(c.fn)
	if p == "log" || p == "log/slog" {
		n := c.fn.Name()
		switch {
		case strings.HasPrefix(n, "Fatal"):
			return mExit(x, s, c)
		case strings.HasPrefix(n, "Panic"):
			s.pan = &panicInfo{kind: "panic", site: fnName(s.fr.fn), pos: x.posn(c.pos), val: IfaceV{nil_: vFalse, id: newID()}}
			return one(s)
		case strings.HasPrefix(n, "Print"), strings.HasPrefix(n, "Output"), p == "log/slog":
			return mLog(x, s, c)
		}
	}
	x.unmodel[c.name] = true
	if c.res.Len() > 0 && !harmless[c.name] && x.quiet == 0 {
		s.approx = c.name
		x.approx = c.name
	}
	if !purePkgs[p] {
		for _, a := range c.args {
			x.havocArg(s, a)
		}
	}
	s.ret = x.freshResults(s, c.res, c.name)
	return one(s)
}

// havocArg forgets what a callee may have changed through an argument.
func (x *X) havocArg(s *State, v Val) {
	switch v := v.(type) {
	case SliceV:
		if o := s.heap[v.obj]; o != nil && !o.frozen {
			if isByteElem(o.elem) {
				x.addSeg(s, v.obj, Seg{off: v.off, len: v.len, kind: sgCopy, tok: newID(), toff: K(0)})
			} else {
				x.havocArr(s, v.obj)
			}
		}
	case PtrV:
		if o := s.heap[v.obj]; o != nil && !o.frozen {
			if o.isArr {
				x.havocArr(s, v.obj)
			}
		}
	}
}

// ---- builtins ----

func (x *X) builtin(s *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, isDefer bool, site ssa.Instruction) []*State {
	pos := site.Pos()
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case StrV:
			return ret(s, IntV{v.len})
		case SliceV:
			if b.Name() == "cap" {
				return ret(s, IntV{v.cap})
			}
			return ret(s, IntV{v.len})
		case MapV:
			if n, known := s.truth(v.nil_); known && n {
				return ret(s, IntV{K(0)})
			}
			return ret(s, IntV{S(newSym("len(map)", 0, maxLen(), true, true))})
		case ArrV:
			return ret(s, IntV{s.heap[v.obj].n})
		}
		t := c.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return ret(s, IntV{K(a.Len())})
		}
		return ret(s, IntV{S(newSym(b.Name(), 0, maxLen(), true, true))})
	case "append":
		return x.appendTo(s, c.Args[0].Type(), args, pos)
	case "copy":
		return x.copyTo(s, args[0], args[1])
	case "clear":
		switch v := args[0].(type) {
		case SliceV:
			x.checkAlive(s, v.obj, "write")
			if o := s.heap[v.obj]; o != nil {
				if isByteElem(o.elem) {
					x.addSeg(s, v.obj, Seg{off: v.off, len: v.len, kind: sgZero})
				} else {
					x.havocArr(s, v.obj)
				}
			}
		case MapV:
			if o := s.heap[v.obj]; o != nil {
				o = s.mut(v.obj)
				o.ents, o.mapSum, o.sumV, o.lazy = nil, false, nil, false
			}
		}
		return ret(s)
	case "delete":
		m, ok := args[0].(MapV)
		if !ok || s.heap[m.obj] == nil {
			return ret(s)
		}
		work := []*State{s}
		n := len(s.heap[m.obj].ents)
		for k := n - 1; k >= 0; k-- {
			var next []*State
			for _, w := range work {
				e := w.heap[m.obj].ents[k]
				cnd := x.eqVals(w, e.k, args[1])
				drop := func(w *State) {
					o := w.mut(m.obj)
					o.ents = append(append([]mapEnt{}, o.ents[:k]...), o.ents[k+1:]...)
				}
				if v, known := w.truth(cnd); known {
					if v {
						drop(w)
					}
					next = append(next, w)
					continue
				}
				t := w.clone()
				if t.assume(cnd) {
					drop(t)
					next = append(next, t)
				}
				if w.assume(cnd.not()) {
					next = append(next, w)
				}
			}
			work = next
		}
		for _, w := range work {
			w.ret = nil
		}
		return work
	case "panic":
		s.pan = &panicInfo{kind: "panic", site: fnName(s.fr.fn), pos: x.posn(pos), val: args[0], user: isHarness(s.fr.fn)}
		return one(s)
	case "recover":
		return x.recoverCall(s, isDefer)
	case "print", "println":
		return ret(s)
	case "close":
		return ret(s)
	case "min", "max":
		r := args[0]
		work := []*State{s}
		work[0].ret = r
		for _, a := range args[1:] {
			var next []*State
			for _, w := range work {
				p, ok1 := w.ret.(IntV)
				q, ok2 := a.(IntV)
				if !ok1 || !ok2 {
					w.ret = x.fresh(w, c.Args[0].Type(), "minmax")
					next = append(next, w)
					continue
				}
				lt := ge(sub(q.e, p.e)) // p <= q
				lo, hi := p, q
				if b.Name() == "max" {
					lo, hi = q, p
				}
				t := w.clone()
				if w.assume(lt) {
					w.ret = lo
					next = append(next, w)
				}
				if t.assume(lt.not()) {
					t.ret = hi
					next = append(next, t)
				}
			}
			work = next
		}
		return work
	case "ssa:wrapnilchk":
		p, ok := args[0].(PtrV)
		if !ok {
			return ret(s, args[0])
		}
		g, bad := x.obliges(s, "nil", pos, p.nil_.not())
		if g != nil {
			g.ret = p
		}
		return withAlive(g, bad)
	case "String": // unsafe.String
		p, ok := args[0].(PtrV)
		n, ok2 := args[1].(IntV)
		if ok && ok2 && p.elem && p.path == "" {
			return ret(s, StrV{obj: p.obj, off: p.idx, len: n.e})
		}
		if ok2 && s.facts.same(n.e, K(0)) {
			return ret(s, strConst(""))
		}
	case "Slice":
		p, ok := args[0].(PtrV)
		n, ok2 := args[1].(IntV)
		if ok && ok2 && p.elem && p.path == "" {
			return ret(s, SliceV{obj: p.obj, off: p.idx, len: n.e, cap: n.e, nil_: vFalse})
		}
	case "SliceData", "StringData":
		switch v := args[0].(type) {
		case SliceV:
			return ret(s, PtrV{obj: v.obj, elem: true, idx: v.off, nil_: v.nil_})
		case StrV:
			if v.k == nil {
				return ret(s, PtrV{obj: v.obj, elem: true, idx: v.off, nil_: vFalse})
			}
			ps, known := x.content(s, v, v.len)
			return ret(s, PtrV{obj: x.frozenArr(s, v.len, ps, known), elem: true, idx: K(0), nil_: vFalse})
		}
	}
	s.ret = x.freshResults(s, c.Signature().Results(), b.Name())
	return one(s)
}

func (x *X) recoverCall(s *State, isDefer bool) []*State {
	f := s.frame()
	p := f.parent
	if isDefer || !f.isDefer || p == nil || !p.panicking || p.recovered || !p.running {
		return ret(s, IfaceV{nil_: vTrue})
	}
	c := *p
	stateIDs++
	c.owner = 0
	c.regs = append([]Val(nil), p.regs...)
	c.defers = append([]deferred(nil), p.defers...)
	c.recovered = true
	c.panicking = false
	f.parent = &c
	return ret(s, IfaceV{nil_: vFalse, id: newID()})
}

func (x *X) appendTo(s *State, typ types.Type, args []Val, pos token.Pos) []*State {
	a, ok := args[0].(SliceV)
	if !ok {
		s.ret = x.fresh(s, typ, "append")
		return one(s)
	}
	if len(args) < 2 {
		return ret(s, a)
	}
	b := args[1]
	n2 := valLen(b)
	if s.facts.same(n2, K(0)) {
		return ret(s, a)
	}
	if sv, ok := b.(SliceV); ok {
		x.checkAlive(s, sv.obj, "read")
	}
	x.checkAlive(s, a.obj, "write")
	nl := add(a.len, n2)
	room := ge(sub(a.cap, nl))
	fits, known := s.truth(room)
	if isNil, k := s.truth(a.nil_); k && isNil {
		fits, known = false, true
	}
	o := s.heap[a.obj]
	// growing is taken for granted where the new elements follow the ones there
	// are, but not where these are overwritten
	if !known && (o == nil || o.site == "append" && !s.facts.same(add(a.off, a.len), K(0))) {
		fits, known = false, true
	}
	var out []*State
	place := func(s *State) {
		x.copyElems(s, a.obj, add(a.off, a.len), b, n2)
		s.ret = SliceV{obj: a.obj, off: a.off, len: nl, cap: a.cap, nil_: vFalse}
		out = append(out, s)
	}
	grow := func(s *State) {
		x.checkAlloc(s, nl, pos, typ)
		elem := typ.Underlying().(*types.Slice).Elem()
		nc := S(newSym("cap(append)", 0, maxLen(), true, true))
		s.addFact(sub(nc, nl))
		d := s.addObj(&Obj{typ: typ, isArr: true, elem: elem, n: nc, site: "append"})
		if !s.facts.same(a.len, K(0)) {
			x.copyElems(s, d.id, K(0), a, a.len)
		}
		x.copyElems(s, d.id, a.len, b, n2)
		s.ret = SliceV{obj: d.id, off: K(0), len: nl, cap: nc, nil_: vFalse}
		out = append(out, s)
	}
	if known {
		if fits {
			place(s)
		} else {
			grow(s)
		}
		return out
	}
	t := s.clone()
	if s.assume(room) {
		place(s)
	}
	if t.assume(room.not()) {
		grow(t)
	}
	return out
}

// copyElems copies n elements of src to dst[at:].
func (x *X) copyElems(s *State, dst int32, at Lin, src Val, n Lin) {
	d := s.heap[dst]
	if d == nil {
		return
	}
	if isByteElem(d.elem) || basicInt8(d.elem) {
		ps, ok := x.content(s, src, n)
		if !ok {
			ps = x.unknownBytes(n)
		}
		x.putPieces(s, dst, at, ps)
		return
	}
	sv, ok := src.(SliceV)
	if !ok {
		x.havocArr(s, dst)
		return
	}
	so := s.heap[sv.obj]
	if so == nil || sv.obj == dst {
		x.havocArr(s, dst)
		return
	}
	if so.lazy {
		d = s.mut(dst)
		d.lazy = true
	}
	if n.isConst() && n.c <= 16 {
		for k := int64(0); k < n.c; k++ {
			v := x.readPath(s, sv.obj, elemKey(sv.off.addc(k)), "", d.elem)
			x.writePath(s, dst, elemKey(at.addc(k)), "", d.elem, v)
		}
		return
	}
	shift := sub(at, sv.off)
	f := copyMap(so.f)
	for _, k := range sortedKeys(f) {
		p, q := splitElem(k)
		d = s.mut(dst)
		if p == "[*]" {
			if old, ok := d.f[k]; ok && !valEq(old, f[k]) {
				d.f[k] = x.weak(s, typeAt(d.elem, q), old, f[k])
			} else {
				d.f[k] = f[k]
			}
			continue
		}
		d.f[elemKey(add(idxOf[p], shift))+q] = f[k]
	}
}

func (x *X) copyTo(s *State, dst, src Val) []*State {
	d, ok := dst.(SliceV)
	if !ok {
		return ret(s, freshInt(types.Typ[types.Int], "copy"))
	}
	x.checkAlive(s, d.obj, "write")
	if sv, ok := src.(SliceV); ok {
		x.checkAlive(s, sv.obj, "read")
	}
	ls := valLen(src)
	c := ge(sub(d.len, ls)) // all of src fits
	do := func(s *State, n Lin) *State {
		if s.heap[d.obj] != nil && !s.facts.same(n, K(0)) {
			x.copyElems(s, d.obj, d.off, src, n)
		}
		s.ret = IntV{n}
		return s
	}
	if v, known := s.truth(c); known {
		if v {
			return one(do(s, ls))
		}
		return one(do(s, d.len))
	}
	var out []*State
	t := s.clone()
	if s.assume(c) {
		out = append(out, do(s, ls))
	}
	if t.assume(c.not()) {
		out = append(out, do(t, d.len))
	}
	return out
}

// ---- errors ----

func (x *X) newErr() IfaceV {
	id := newID()
	x.uniq[id] = true
	return IfaceV{nil_: vFalse, id: id}
}

func (x *X) namedErr(key string) IfaceV {
	id := consTok("err:" + key)
	x.uniq[id] = true
	errWraps[id] = []IfaceV{}
	return IfaceV{nil_: vFalse, id: id}
}

var nilErr = IfaceV{nil_: vTrue}

// fork runs f on a copy of the state and g on the state itself.
func fork(s *State, f, g func(*State) []*State) []*State {
	t := s.clone()
	return append(f(t), g(s)...)
}

// ---- interface calls on unknown implementations ----

func (x *X) invokeOpaque(s *State, iv IfaceV, m *types.Func, args []Val, pos token.Pos) []*State {
	sig := m.Type().(*types.Signature)
	if info := ctxOf[iv.id]; info != nil {
		return x.ctxMethod(s, iv, info, m.Name(), args, sig)
	}
	if t := rtypeOf[iv.id]; t != nil {
		return x.rtypeMethod(s, t, m.Name(), args, sig, pos)
	}
	recv := types.TypeString(sig.Recv().Type(), nil)
	switch recv + "." + m.Name() {
	case "error.Error":
		return ret(s, x.freshStr(s, "error"))
	case "io.Reader.Read", "io.Writer.Write", "net.Conn.Read", "net.Conn.Write":
		x.iface(s, args)
		n := S(newSym("n", 0, maxLen(), true, true))
		s.addFact(sub(valLen(args[0]), n))
		if strings.HasSuffix(m.Name(), "Read") {
			x.havocArg(s, args[0])
		}
		return fork(s, func(s *State) []*State { return ret(s, IntV{n}, x.newErr()) }, func(s *State) []*State {
			if m.Name() == "Write" {
				return ret(s, IntV{valLen(args[0])}, nilErr)
			}
			return ret(s, IntV{n}, nilErr)
		})
	case "context.Context.Done":
		return ret(s, OpaqueV{id: newID(), typ: sig.Results().At(0).Type()})
	}
	std := true
	if p := m.Pkg(); p != nil && x.own[p.Path()] {
		std = false
	}
	if !std {
		return x.callback(s, sig.Results(), "method "+m.Name(), args)
	}
	for _, a := range args {
		x.havocArg(s, a)
	}
	s.ret = x.freshResults(s, sig.Results(), m.Name())
	return one(s)
}

func (x *X) iface(s *State, args []Val) {
	for _, a := range args {
		if sv, ok := a.(SliceV); ok {
			x.checkAlive(s, sv.obj, "use")
		}
	}
}

func (x *X) callNat(s *State, f FuncV, args []Val, sig *types.Signature, pos token.Pos) []*State {
	switch f.nat {
	case "cancel":
		if iv, ok := f.binds[0].(IfaceV); ok {
			if info := ctxOf[iv.id]; info != nil {
				s.bools[info.done] = true
			}
		}
		return ret(s)
	}
	s.ret = x.freshResults(s, sig.Results(), f.nat)
	return one(s)
}

// ---- contexts ----

type ctxInfo struct {
	id     int32
	done   int32
	parent int32
	key    Val
}

var ctxOf = map[int32]*ctxInfo{}

func (x *X) newCtx(id int32, parent int32) IfaceV {
	if ctxOf[id] == nil {
		d := consBool(fmt.Sprintf("done:%d", id))
		ctxOf[id] = &ctxInfo{id: id, done: d, parent: parent}
		ch := consTok(fmt.Sprintf("donech:%d", id))
		chanDone[ch] = d
	}
	x.keepBool[ctxOf[id].done] = true
	x.uniq[id] = true
	return IfaceV{nil_: vFalse, id: id}
}

func (x *X) ctxMethod(s *State, iv IfaceV, info *ctxInfo, name string, args []Val, sig *types.Signature) []*State {
	switch name {
	case "Err":
		for i := info; i != nil; i = ctxOf[i.parent] {
			if s.bools[i.done] {
				return ret(s, x.namedErr(fmt.Sprintf("ctx:%d", iv.id)))
			}
		}
		if x.ctxQuiet[info.done] {
			return ret(s, nilErr)
		}
		return fork(s, func(s *State) []*State {
			s.bools[info.done] = true
			return ret(s, x.namedErr(fmt.Sprintf("ctx:%d", iv.id)))
		}, func(s *State) []*State { return ret(s, nilErr) })
	case "Done":
		return ret(s, OpaqueV{id: consTok(fmt.Sprintf("donech:%d", iv.id)), typ: sig.Results().At(0).Type()})
	case "Value":
		for i := info; i != nil; i = ctxOf[i.parent] {
			if i.key == nil {
				continue
			}
			c := x.eqVals(s, i.key, args[0])
			if v, known := s.truth(c); known {
				if v {
					return ret(s, s.glob[fmt.Sprintf("ctxval:%d", i.id)])
				}
				continue
			}
			break
		}
		return ret(s, IfaceV{nil_: freshBool(), id: newID()})
	}
	s.ret = x.freshResults(s, sig.Results(), name)
	return one(s)
}
