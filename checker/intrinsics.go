package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"
)

// Functions the harnesses use to describe environments and obligations.

var intrinsics map[string]model

func init() {
	intrinsics = map[string]model{
		"vfAssert":     vAssert,
		"vfAssume":     vAssume,
		"vfBool":       vFresh,
		"vfInt":        vFresh,
		"vfInt64":      vFresh,
		"vfInt32":      vFresh,
		"vfUint64":     vFresh,
		"vfUint32":     vFresh,
		"vfUint16":     vFresh,
		"vfByte":       vFresh,
		"vfBytes":      func(x *X, s *State, c *callCtx) []*State { return ret(s, x.freshBytes(s, "input")) },
		"vfString":     func(x *X, s *State, c *callCtx) []*State { return ret(s, x.freshStr(s, "input")) },
		"vfErr":        mNewErr,
		"vfSame":       vSame,
		"vfAssertSame": vAssertSame,
		"vfLocksHeld":  vLocksHeld,
		"vfRunSpawned": vRunSpawned,
		"vfSpawned":    func(x *X, s *State, c *callCtx) []*State { return ret(s, IntV{K(int64(len(s.spawn)))}) },
		"vfReach":      vReach,
		"vfAllocBound": func(x *X, s *State, c *callCtx) []*State { s.glob["allocmax"] = c.args[0]; return ret(s) },
		"vfOnWait":     func(x *X, s *State, c *callCtx) []*State { s.glob["onwait"] = c.args[0]; return ret(s) },
		"vfOnListen":   func(x *X, s *State, c *callCtx) []*State { s.glob["onlisten"] = c.args[0]; return ret(s) },
		"vfOnLock":     func(x *X, s *State, c *callCtx) []*State { s.glob["onlock"] = c.args[0]; return ret(s) },
		"vfHavoc":      vHavoc,
		"vfDone":       vDone,
		"vfCtx":        func(x *X, s *State, c *callCtx) []*State { return ret(s, x.newCtx(newID(), 0)) },
		"vfQuietCtx":   vQuietCtx,
		"vfStopped":    vStopped,
		"vfClearSignals": func(x *X, s *State, c *callCtx) []*State {
			for k := range s.glob {
				if strings.HasPrefix(k, "signal:") || strings.HasPrefix(k, "allsignal:") {
					delete(s.glob, k)
				}
			}
			return ret(s)
		},
		"vfSignalled": func(x *X, s *State, c *callCtx) []*State {
			if n := len(x.waiting); n > 0 {
				// the condition that is waited for
				if s.glob[x.waiting[n-1]] != nil {
					return ret(s, vTrue)
				}
				return ret(s, vFalse)
			}
			for k := range s.glob {
				if strings.HasPrefix(k, "signal:") {
					return ret(s, vTrue)
				}
			}
			return ret(s, vFalse)
		},
		// vfWaiting identifies the condition that is waited for
		"vfWaiting": func(x *X, s *State, c *callCtx) []*State {
			n := len(x.waiting)
			if n == 0 {
				x.giveUp("vfWaiting is for the function given to vfOnWait")
			}
			h := fnv.New32a()
			h.Write([]byte(x.waiting[n-1]))
			return ret(s, IntV{K(int64(h.Sum32()))})
		},
		"vfSignalledAll": func(x *X, s *State, c *callCtx) []*State {
			if n := len(x.waiting); n > 0 && s.glob["all"+x.waiting[n-1]] != nil {
				return ret(s, vTrue)
			}
			return ret(s, vFalse)
		},
		"vfReleased": vReleased,
		"vfAliases":  vAliases,
		"vfRepeat":   vRepeat,
		"vfDump":     vDump,
		// vfUnroll lets loops be executed as they are, for a few iterations,
		// before invariants are looked for
		"vfManyCPUs":    func(x *X, s *State, c *callCtx) []*State { s.glob["cpus"] = vTrue; return ret(s) },
		"vfTrack":       vTrack,
		"vfLogged":      vLogged,
		"vfUnflushed":   vUnflushed,
		"vfTimers":      vTimers,
		"vfArmed":       vArmed,
		"vfExpired":     vExpired,
		"vfBlocked":     vBlocked,
		"vfQuietTimers": func(x *X, s *State, c *callCtx) []*State { s.glob["quiet timers"] = vTrue; return ret(s) },
		"vfLockEpoch":   vLockEpoch,
		"vfLockToken":   vLockToken,
		"vfLockOwner":   vLockOwner,
		"vfPoolLive":    vPoolLive,
		"vfShare":       vShare,
		"vfUnroll":      func(x *X, s *State, c *callCtx) []*State { x.follow = true; return ret(s) },
		// vfFold: from here on, loops are summarised by invariants
		"vfFold":   func(x *X, s *State, c *callCtx) []*State { x.follow, x.wide = false, false; return ret(s) },
		"vfWide":   func(x *X, s *State, c *callCtx) []*State { x.follow, x.wide = true, true; return ret(s) },
		"vfEnd":    func(x *X, s *State, c *callCtx) []*State { return nil },
		"vfNoFail": func(x *X, s *State, c *callCtx) []*State { return ret(s) },
	}
}

func vFresh(x *X, s *State, c *callCtx) []*State {
	s.ret = x.freshResults(s, c.res, strings.TrimPrefix(c.fn.Name(), "vf"))
	return one(s)
}

func constStr(v Val) string {
	if k, ok := v.(StrV); ok && k.k != nil {
		return *k.k
	}
	return "?"
}

func (x *X) failAssert(s *State, msg string, pos token.Pos, why string) {
	at := s.last
	if at == "" {
		at = "harness"
	}
	if x.quiet > 0 {
		return
	}
	d := msg
	if x.trace2 {
		fmt.Println("FAILED", msg)
		for _, f := range s.facts.ge {
			fmt.Printf("   fact %s>=0\n", x.describe(s, f))
		}
	}
	if x.trace {
		d += " [" + why + "]"
	}
	*x.buf = append(*x.buf, report{"assert", at, d, s.lastPos + " (stated at " + x.posn(pos) + ")"}.in(s))
}

func vAssert(x *X, s *State, c *callCtx) []*State {
	b, ok := c.args[0].(BoolV)
	msg := constStr(c.args[1])
	if !ok {
		b = freshBool()
	}
	v, known := s.truth(b)
	if known && v {
		if x.quiet == 0 {
			x.sites["assertion"]++
		}
		return ret(s)
	}
	x.failAssert(s, msg, c.pos, b.String())
	if !s.assume(b) {
		return nil
	}
	return ret(s)
}

func vAssume(x *X, s *State, c *callCtx) []*State {
	b, ok := c.args[0].(BoolV)
	if ok && !s.assume(b) {
		return nil
	}
	if s.facts.refutes(K(0)) {
		return nil
	}
	return ret(s)
}

// sameBytes reports whether two byte sequences are provably equal.
func (x *X) sameBytes(s *State, a, b Val) (bool, string) {
	la, lb := valLen(a), valLen(b)
	if !s.facts.same(la, lb) {
		return false, fmt.Sprintf("length %s / %s", x.describe(s, la), x.describe(s, lb))
	}
	pa, ok1 := x.content(s, a, la)
	pb, ok2 := x.content(s, b, lb)
	if !ok1 || !ok2 {
		return false, fmt.Sprintf("unknown content %v %v", ok1, ok2)
	}
	if !x.samePieces(s, pa, pb) {
		return false, showPieces(pa) + " / " + showPieces(pb)
	}
	return true, ""
}

func vSame(x *X, s *State, c *callCtx) []*State {
	ok, _ := x.sameBytes(s, c.args[0], c.args[1])
	return ret(s, mkBool(ok))
}

func vAssertSame(x *X, s *State, c *callCtx) []*State {
	ok, why := x.sameBytes(s, c.args[0], c.args[1])
	if ok {
		if x.quiet == 0 {
			x.sites["assertion"]++
		}
		return ret(s)
	}
	x.failAssert(s, constStr(c.args[2]), c.pos, why)
	return ret(s)
}

func vLocksHeld(x *X, s *State, c *callCtx) []*State {
	n := 0
	for _, v := range s.locks {
		if v > 0 {
			n++
		}
	}
	return ret(s, IntV{K(int64(n))})
}

// vRunSpawned runs the goroutines started so far, one after the other.
func vRunSpawned(x *X, s *State, c *callCtx) []*State {
	work := []*State{s}
	for round := 0; ; round++ {
		any := false
		var next []*State
		for _, w := range work {
			var sites []goKey
			for g := range w.spawn {
				sites = append(sites, g)
			}
			if len(sites) == 0 {
				next = append(next, w)
				continue
			}
			any = true
			sort.Slice(sites, func(i, j int) bool {
				a, b := sites[i], sites[j]
				if p, q := x.fset.Position(a.site.Pos()), x.fset.Position(b.site.Pos()); p.Filename != q.Filename {
					return p.Filename < q.Filename
				} else if p.Offset != q.Offset {
					return p.Offset < q.Offset
				}
				return a.n < b.n
			})
			var k goKey
			for _, c := range sites {
				if _, later := w.glob[fmt.Sprintf("postponed:%d:%s", c.n, x.posn(c.site.Pos()))]; !later {
					k = c
					break
				}
			}
			last := k.site == nil
			if last {
				k = sites[0]
			}
			g := k.site
			v := w.spawn[k]
			delete(w.spawn, k)
			keep := w.clone()
			var later *State
			if !last {
				later = w.clone()
				later.spawn[k] = v
				later.glob[fmt.Sprintf("postponed:%d:%s", k.n, x.posn(g.Pos()))] = vTrue
			}
			held := lockKeys(w)
			saved := w.locks
			w.locks = map[string]int{}
			w.last, w.lastPos = "goroutine started by "+fnName(g.Parent()), x.posn(g.Pos())
			x.sites["goroutine body"]++
			outer := x.parked
			x.parked = nil
			x.parking++
			outerThread := x.thread
			x.thread = fmt.Sprintf("%s#%d", x.posn(g.Pos()), k.n)
			x.starter[x.thread] = x.goBy[k]
			rs := x.callValue(w, &g.Call, v[0], v[1:], false, g)
			x.thread = outerThread
			if x.blocked && later != nil && len(rs) == 0 {
				// it waits for other goroutines: let those run first
				x.parking--
				x.parked, x.blocked = outer, false
				next = append(next, later)
				continue
			}
			x.blocked = false
			x.parking--
			alive := 0
			for _, p := range x.parked {
				// blocked for good; what it did before remains
				x.countBlocked(p)
				p.fr = keep.fr
				p.pan = nil
				p.ret = nil
				p.locks = map[string]int{}
				for _, k := range held {
					p.locks[k] = saved[k]
				}
				next = append(next, p)
				alive++
			}
			x.parked = outer
			for _, r := range rs {
				if r.pan != nil {
					x.report(s, "goroutine-panic", r.pan.site, fmt.Sprintf("%s escapes the goroutine started in %s", r.pan.kind, fnName(g.Parent())), g.Pos())
					continue
				}
				if ks := lockKeys(r); len(ks) > 0 {
					x.report(s, "lock-leak", fnName(g.Parent()), "a goroutine ends while holding a lock", g.Pos())
				}
				r.locks = map[string]int{}
				for _, k := range held {
					r.locks[k] = saved[k]
				}
				r.ret = nil
				next = append(next, r)
				alive++
			}
			if alive == 0 {
				x.countBlocked(keep)
				keep.ret = nil
				next = append(next, keep)
			}
		}
		work = x.mergeStates(next, 64)
		if !any {
			break
		}
		if round > 24 {
			x.giveUp("goroutines keep starting goroutines")
		}
	}
	for _, w := range work {
		w.ret = nil
		for k := range w.glob {
			if strings.HasPrefix(k, "postponed:") {
				delete(w.glob, k)
			}
		}
	}
	return work
}

func vReach(x *X, s *State, c *callCtx) []*State {
	if x.quiet == 0 {
		x.reached[constStr(c.args[0])] = true
	}
	return ret(s)
}

func vHavoc(x *X, s *State, c *callCtx) []*State {
	iv, ok := c.args[0].(IfaceV)
	if !ok {
		x.giveUp("havoc")
	}
	switch p := iv.v.(type) {
	case PtrV:
		t := iv.dyn.Underlying().(*types.Pointer).Elem()
		x.store(s, p, t, x.fresh(s, t, "havoc"))
	case SliceV:
		x.havocArg(s, p)
	}
	return ret(s)
}

// vRepeat turns *p, a slice of one element, into a slice of any number of it.
func vRepeat(x *X, s *State, c *callCtx) []*State {
	iv, _ := c.args[0].(IfaceV)
	p, ok := iv.v.(PtrV)
	if !ok {
		x.giveUp("repeat")
	}
	t := iv.dyn.Underlying().(*types.Pointer).Elem()
	old, ok := x.load(s, p, t).(SliceV)
	if !ok {
		x.giveUp("repeat")
	}
	et := t.Underlying().(*types.Slice).Elem()
	v := x.readPath(s, old.obj, elemKey(old.off), "", et)
	n := S(newSym("len(repeat)", 0, maxLen(), true, true))
	o := s.addObj(&Obj{typ: t, isArr: true, elem: et, n: n, lazy: true, site: "repeat", f: map[string]Val{}})
	x.writePath(s, o.id, "[*]", "", et, v)
	s.mut(o.id).uniform = true
	x.store(s, p, t, SliceV{obj: o.id, off: K(0), len: n, cap: n, nil_: vFalse})
	return ret(s)
}

func vDone(x *X, s *State, c *callCtx) []*State {
	iv, _ := c.args[0].(IfaceV)
	for i := ctxOf[iv.id]; i != nil; i = ctxOf[i.parent] {
		if s.bools[i.done] {
			return ret(s, vTrue)
		}
	}
	return ret(s, vFalse)
}

func vQuietCtx(x *X, s *State, c *callCtx) []*State {
	ctx := x.newCtx(newID(), 0)
	x.ctxQuiet[ctxOf[ctx.id].done] = true
	return ret(s, ctx)
}

func vStopped(x *X, s *State, c *callCtx) []*State {
	n := 0
	live := 0
	for _, id := range s.objIDs() {
		o := s.heap[id]
		if b, ok := o.f["/~stopped"].(BoolV); ok {
			n++
			if v, known := s.truth(b); !known || !v {
				live++
			}
		}
	}
	return ret(s, mkBool(live == 0))
}

func ptrArg(v Val) (int32, bool) {
	if iv, ok := v.(IfaceV); ok {
		v = iv.v
	}
	switch p := v.(type) {
	case PtrV:
		return p.obj, p.obj != 0
	case SliceV:
		return p.obj, p.obj != 0
	case StrV:
		return p.obj, p.obj != 0
	}
	return 0, false
}

// vReleased: the object has been put into its pool.
func vReleased(x *X, s *State, c *callCtx) []*State {
	id, ok := ptrArg(c.args[0])
	o := s.heap[id]
	return ret(s, mkBool(ok && o != nil && o.released != ""))
}

// vAliases reports whether two slices or strings may share memory.
// vAliases reports whether memory is reachable from both values. Fixed strings
// and types of the harnesses do not count.
func vAliases(x *X, s *State, c *callCtx) []*State {
	a, b := x.memory(s, c.args[0]), x.memory(s, c.args[1])
	for id := range a {
		oa := s.heap[id]
		if oa == nil {
			continue
		}
		for jd := range b {
			ob := s.heap[jd]
			if id == jd || ob != nil && oa.alias && ob.alias && types.Identical(oa.typ, ob.typ) {
				if x.trace2 {
					fmt.Println("   shared:", id, jd, shortType(oa.typ), oa.site)
				}
				return ret(s, vTrue)
			}
		}
	}
	return ret(s, vFalse)
}

// memory lists the objects reachable from a value.
func (x *X) memory(s *State, v Val) map[int32]bool {
	seen := map[int32]bool{}
	var val func(v Val)
	obj := func(id int32) {
		o := s.heap[id]
		if o == nil || id == 0 || seen[id] {
			return
		}
		seen[id] = true
		for _, k := range sortedKeys(o.f) {
			val(o.f[k])
		}
		for _, e := range o.ents {
			val(e.k)
			val(e.v)
		}
		if o.sumV != nil {
			val(o.sumV)
		}
	}
	val = func(v Val) {
		switch v := v.(type) {
		case PtrV:
			obj(v.obj)
		case SliceV:
			obj(v.obj)
		case StrV:
			obj(v.obj)
		case MapV:
			obj(v.obj)
		case IfaceV:
			if v.v != nil {
				val(v.v)
			}
		case StructV:
			for _, w := range v.f {
				val(w)
			}
		}
	}
	val(v)
	return seen
}

func vDump(x *X, s *State, c *callCtx) []*State {
	if x.quiet > 0 {
		return ret(s)
	}
	vs, ok := x.variadic(s, c.args[0])
	if !ok {
		vs = nil
	}
	for _, v := range vs {
		fmt.Printf("DUMP %s %s\n", x.posn(c.pos), show(v))
		x.dumpObj(s, v.v, "  ", map[int32]bool{})
	}
	for _, f := range s.facts.ge {
		fmt.Printf("   fact %s>=0\n", x.describe(s, f))
	}
	return ret(s)
}

func (x *X) dumpObj(s *State, v Val, ind string, seen map[int32]bool) {
	id, ok := ptrArg(v)
	if !ok {
		if st, isS := v.(StructV); isS {
			for _, f := range st.f {
				x.dumpObj(s, f, ind, seen)
			}
		}
		if iv, isI := v.(IfaceV); isI && iv.v != nil {
			x.dumpObj(s, iv.v, ind, seen)
		}
		return
	}
	if seen[id] || s.heap[id] == nil {
		return
	}
	seen[id] = true
	o := s.heap[id]
	fmt.Printf("%so%d %v lazy=%v alias=%v n=%s tok=%d released=%q\n", ind, id, o.typ, o.lazy, o.alias, o.n, o.tok, o.released)
	for _, g := range o.segs {
		fmt.Printf("%s  seg %s+%s kind=%d e=%s tok=%d@%s %q\n", ind, x.describe(s, g.off), x.describe(s, g.len), g.kind, x.describe(s, g.e), g.tok, g.toff, g.k)
	}
	for _, k := range sortedKeys(o.f) {
		fmt.Printf("%s  %s = %s\n", ind, k, show(o.f[k]))
		x.dumpObj(s, o.f[k], ind+"    ", seen)
	}
}

// vExpired is the time for which the timer that expired last was armed.
func vExpired(x *X, s *State, c *callCtx) []*State {
	if d, ok := s.glob["expired"]; ok {
		return ret(s, d)
	}
	return ret(s, IntV{K(0)})
}
