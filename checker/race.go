package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locksets of accesses to objects that several goroutines reach, and counters
// of events that harnesses ask about.

const (
	shNone      = iota
	shSpawned   // reachable by a goroutine at the time it was started
	shPublished // stored into something that other goroutines reach
	shExplicit  // declared to be used by any number of goroutines
)

type access struct {
	thread string
	write  bool
	locks  string // keys of the locks held, separated by blanks
	where  string
	pos    token.Pos
	level  int
	// the goroutines already started when the access happens
	started string
	// a function without a model the state depends on
	approx string
}

type accKey struct {
	obj  int32
	path string
}

// logAccess records an access to a shared object.
func (x *X) logAccess(s *State, id int32, path string, write bool) {
	o := s.heap[id]
	if o == nil || o.shared == shNone || x.noRace > 0 {
		return
	}
	if x.acc == nil {
		x.acc = map[accKey]map[access]bool{}
		x.accName = map[accKey]string{}
	}
	var ks []string
	for _, k := range lockKeys(s) {
		if write {
			if _, r := s.glob["rlock:"+k]; r {
				continue
			}
		}
		ks = append(ks, k)
	}
	a := access{thread: x.thread, write: write, locks: strings.Join(ks, " "), where: x.construct(s), level: o.shared, approx: s.approx}
	if s.fr != nil && isAtomic(s.fr.fn) {
		return
	}
	if inHarness(s.fr) {
		a.where = "the harness"
		return
	}
	a.pos = x.curPos
	a.started = x.started(s)
	k := accKey{id, path}
	if x.acc[k] == nil {
		x.acc[k] = map[access]bool{}
		x.accName[k] = shortType(o.typ) + path
	}
	x.acc[k][a] = true
	if x.quiet == 0 {
		x.sites["access to shared state"]++
	}
}

// share marks what is reachable from a value as shared.
func (x *X) share(s *State, v Val, level int) {
	seen := map[int32]bool{}
	var val func(v Val)
	obj := func(id int32) {
		o := s.heap[id]
		if o == nil || id == 0 || seen[id] || o.frozen {
			return
		}
		seen[id] = true
		if o.pool != 0 && level == shExplicit {
			return
		}
		if o.shared < level && !x.harnessType(o.typ) {
			s.mut(id).shared = level
		}
		for _, k := range sortedKeys(o.f) {
			val(o.f[k])
		}
	}
	val = func(v Val) {
		switch v := v.(type) {
		case PtrV:
			obj(v.obj)
		case SliceV:
			obj(v.obj)
		case IfaceV:
			if v.v != nil {
				val(v.v)
			}
		case MapV:
			obj(v.obj)
		case StructV:
			for _, w := range v.f {
				val(w)
			}
		case FuncV:
			for _, b := range v.binds {
				val(b)
			}
		}
	}
	val(v)
}

func (x *X) harnessType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && strings.HasPrefix(n.Obj().Name(), "vf")
}

// races reports pairs of accesses that no lock orders.
func (x *X) races() []report {
	var out []report
	// accesses to a variable and to a part of it conflict
	byObj := map[int32][]accKey{}
	for k := range x.acc {
		byObj[k.obj] = append(byObj[k.obj], k)
	}
	disjoint := func(a, b string) bool {
		for _, k := range strings.Fields(a) {
			for _, l := range strings.Fields(b) {
				if k == l {
					return false
				}
			}
		}
		return true
	}
	seen := map[string]bool{}
	for _, ks := range byObj {
		for _, k := range ks {
			for _, l := range ks {
				if k.path != l.path && !strings.HasPrefix(l.path, k.path+"/") {
					continue
				}
				for a := range x.acc[k] {
					for b := range x.acc[l] {
						if !a.write && !b.write || !disjoint(a.locks, b.locks) {
							continue
						}
						switch {
						case a.level == shExplicit && b.level == shExplicit:
						case a.thread == b.thread || !x.concurrent(a, b):
							continue
						}
						w, r := a, b
						if !w.write {
							w, r = b, a
						}
						d := fmt.Sprintf("%s is written here and accessed in %s by another goroutine without a common lock", x.accName[k], r.where)
						rep := report{"race", w.where, d, x.posn(w.pos)}
						for _, c := range []string{a.approx, b.approx} {
							if c != "" && rep.Rule != "undecided" {
								rep = rep.in(&State{approx: c})
							}
						}
						key := rep.Rule + w.where + d
						if !seen[key] {
							seen[key] = true
							out = append(out, rep)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].Construct+out[i].Detail < out[j].Construct+out[j].Detail
	})
	return out
}

// started lists the goroutines that were started and have not ended.
func (x *X) started(s *State) string {
	var ts []string
	for k := range s.spawn {
		ts = append(ts, x.threadOf(k))
	}
	sort.Strings(ts)
	return strings.Join(ts, " ")
}

func (x *X) threadOf(k goKey) string { return fmt.Sprintf("%s#%d", x.posn(k.site.Pos()), k.n) }

// concurrent: no start of a goroutine orders two accesses of different ones.
func (x *X) concurrent(a, b access) bool {
	before := func(a, b access) (related, ordered bool) {
		for t, i := b.thread, 0; i < 8; i++ {
			p, ok := x.starter[t]
			if !ok {
				return false, false
			}
			if p == a.thread {
				return true, !strings.Contains(" "+a.started+" ", " "+t+" ")
			}
			t = p
		}
		return false, false
	}
	if r, o := before(a, b); r {
		return !o
	}
	if r, o := before(b, a); r {
		return !o
	}
	// siblings: what one makes reach the other is ordered up to there; those
	// of one go statement have objects of their own
	if a.level != b.level {
		return false
	}
	site := func(t string) string { return t[:strings.LastIndexByte(t, '#')+1] }
	return strings.Contains(a.thread, "#") && strings.Contains(b.thread, "#") && site(a.thread) != site(b.thread)
}

// goStmt notes that a goroutine was started.
func (x *X) goStmt(s *State, i *ssa.Go, v []Val) {
	n := 0
	if x.follow {
		for ; n < 4; n++ {
			old, ok := s.spawn[goKey{i, n}]
			if !ok {
				break
			}
			same := len(old) == len(v)
			for k := range old {
				same = same && valEq(old[k], v[k])
			}
			if same {
				return
			}
		}
	}
	s.spawn[goKey{i, n}] = v
	x.goBy[goKey{i, n}] = x.thread
}

// ---- counters ----

func (x *X) count(s *State, name string, d int64) {
	if !x.track[name[:1]] {
		return
	}
	k := "n:" + name
	v, ok := s.glob[k].(IntV)
	if !ok {
		v = IntV{K(0)}
	}
	s.glob[k] = IntV{v.e.addc(d)}
}

func (x *X) counter(s *State, name string) Val {
	if v, ok := s.glob["n:"+name]; ok {
		return v
	}
	return IntV{K(0)}
}

func vTrack(x *X, s *State, c *callCtx) []*State {
	for _, r := range constStr(c.args[0]) {
		x.track[string(r)] = true
	}
	return ret(s)
}

func vLogged(x *X, s *State, c *callCtx) []*State { return ret(s, x.counter(s, "logged")) }

func vLockEpoch(x *X, s *State, c *callCtx) []*State { return ret(s, x.counter(s, "epoch")) }

// vLockToken identifies the lock held, when there is exactly one.
func vLockToken(x *X, s *State, c *callCtx) []*State {
	ks := lockKeys(s)
	if len(ks) != 1 {
		return ret(s, IntV{K(int64(-len(ks)))})
	}
	return ret(s, IntV{K(int64(consTok("lock:" + ks[0])))})
}

// vLockOwner attributes the locks held to a connection, and tells whether one
// of them was held by an operation on another connection.
func vLockOwner(x *X, s *State, c *callCtx) []*State {
	shared := vFalse
	for _, k := range lockKeys(s) {
		o, ok := s.glob["owner:"+k]
		if !ok {
			s.glob["owner:"+k] = c.args[0]
			continue
		}
		a, ok1 := o.(IntV)
		b, ok2 := c.args[0].(IntV)
		if !ok1 || !ok2 || !s.facts.same(a.e, b.e) {
			shared = vTrue
		}
	}
	return ret(s, shared)
}

func vPoolLive(x *X, s *State, c *callCtx) []*State {
	e := K(0)
	for _, k := range sortedKeys(s.glob) {
		if v, ok := s.glob[k].(IntV); ok && strings.HasPrefix(k, "n:live:") {
			e = add(e, v.e)
		}
	}
	return ret(s, IntV{e})
}

func vShare(x *X, s *State, c *callCtx) []*State {
	x.share(s, c.args[0], shExplicit)
	return ret(s)
}

// vUnflushed: a buffered writer holds data that was not flushed.
func vUnflushed(x *X, s *State, c *callCtx) []*State {
	for _, id := range s.objIDs() {
		if b, ok := s.heap[id].f["/~dirty"].(BoolV); ok {
			if v, known := s.truth(b); !known || v {
				return ret(s, vTrue)
			}
		}
	}
	return ret(s, vFalse)
}

// vTimers counts the timers that were not stopped and have not fired.
func vTimers(x *X, s *State, c *callCtx) []*State { return ret(s, x.counter(s, "timers")) }

func vArmed(x *X, s *State, c *callCtx) []*State { return ret(s, x.counter(s, "timer armed")) }

// vBlocked counts the goroutines that wait for something that does not happen.
func vBlocked(x *X, s *State, c *callCtx) []*State { return ret(s, x.counter(s, "blocked")) }

func (x *X) countBlocked(s *State) {
	v, ok := s.glob["n:blocked"].(IntV)
	if !ok {
		v = IntV{K(0)}
	}
	s.glob["n:blocked"] = IntV{v.e.addc(1)}
}

func mLog(x *X, s *State, c *callCtx) []*State {
	x.count(s, "logged", 1)
	s.ret = x.freshResults(s, c.res, "log")
	return one(s)
}

func mExit(x *X, s *State, c *callCtx) []*State {
	x.report(s, "process-exit", x.construct(s), c.name+" ends the process", c.pos)
	return nil
}
