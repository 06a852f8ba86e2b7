package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The interprocedural fixpoint engine: every function of the repository that
// is reached is analysed in the abstract state of its caller.

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	vals   []ssa.Value
	order  map[*ssa.BasicBlock]int
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loop
	live   map[*ssa.BasicBlock]map[int]bool // live at block entry, without phis of the block
	irred  bool
	defers bool
}

type edge struct {
	s        *State
	from, to *ssa.BasicBlock
}

type activation struct {
	fn   *ssa.Function
	info *fnInfo
	rets []*State
	pans []*State
}

type report struct {
	Rule, Construct, Detail, Pos string
}

type X struct {
	// the conditions waited for while others run
	waiting []string
	// locks by name, and which are taken while which are held
	lockName, lockEdges map[string]string
	limits              map[*ssa.Function][]int64
	prog                *ssa.Program
	fset                *token.FileSet
	own                 map[string]bool
	globals             map[*ssa.Global]int32
	infos               map[*ssa.Function]*fnInfo

	keepBool map[int32]bool
	tokConst map[int32]string

	buf      *[]report // reports of the current pass
	quiet    int
	steps    int
	maxStep  int
	deadline time.Time
	depth    int
	trace    bool
	trace2   bool
	parking  int
	follow   bool
	wide     bool // many states are kept apart
	parked   []*State
	curPos   token.Pos

	visited   map[*ssa.Function]bool
	sites     map[string]int // obligations discharged per rule
	unmodel   map[string]bool
	approx    string // the last function without model
	reached   map[string]bool
	uniq      map[int32]bool // identities of distinct interface values
	poolDirty map[string]bool
	dirtyNew  bool
	pools     map[int32]*poolInfo
	raw       bool // analyse the bodies of summarised functions
	aborted   string
	harness   string
	fnProgs   map[string]*ssa.Function
	stopAt    map[string]bool
	joins     int
	loopsSeen map[string]string
	havocGlob map[*ssa.Global]bool
	ctxQuiet  map[int32]bool
	acc       map[accKey]map[access]bool
	accName   map[accKey]string
	thread    string
	starter   map[string]string
	goBy      map[goKey]string
	track     map[string]bool
	noRace    int
	blocked   bool // the goroutine has waited for something that others do
}

type stopErr struct{ msg string }

func (x *X) giveUp(format string, args ...any) {
	panic(stopErr{fmt.Sprintf(format, args...)})
}

func (x *X) report(s *State, rule, construct, detail string, pos token.Pos) {
	if x.quiet > 0 {
		return
	}
	r := report{rule, construct, detail, x.posn(pos)}.in(s)
	*x.buf = append(*x.buf, r)
}

// in restates what was found in a state in which values are unknown only
// because a library function has no model.
func (r report) in(s *State) report {
	if s != nil && s.approx != "" {
		r.Detail = r.Rule + ": " + r.Detail + " (" + s.approx + " is not modelled)"
		r.Rule = "undecided"
	}
	return r
}

func (x *X) posn(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	p := x.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.RelString(nil), "github.com/dropmorepackets/haproxy-go/", "")
}

// construct names the function of the repository on whose behalf the state is
// executing (harness functions are skipped when there is one below).
func (x *X) construct(s *State) string {
	for f := s.fr; f != nil; f = f.parent {
		if !isHarness(f.fn) && !isModel(f.fn) {
			return fnName(f.fn)
		}
	}
	if s.fr != nil {
		return fnName(s.fr.fn)
	}
	return "?"
}

func isHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if strings.HasPrefix(fn.Name(), "vf") {
		return true
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && strings.HasPrefix(n.Obj().Name(), "vf") {
			return true
		}
	}
	return false
}

// ---- function information ----

func (x *X) info(fn *ssa.Function) *fnInfo {
	if i := x.infos[fn]; i != nil {
		return i
	}
	in := &fnInfo{fn: fn, num: map[ssa.Value]int{}, order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, live: map[*ssa.BasicBlock]map[int]bool{}}
	x.infos[fn] = in
	add := func(v ssa.Value) {
		in.num[v] = len(in.vals)
		in.vals = append(in.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				in.defers = true
			}
		}
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		in.order[post[i]] = len(in.rpo)
		in.rpo = append(in.rpo, post[i])
	}
	// natural loops
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if in.order[s] > in.order[b] {
				continue
			}
			if !s.Dominates(b) {
				in.irred = true
				continue
			}
			l := in.loops[s]
			if l == nil {
				l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				in.loops[s] = l
			}
			var work []*ssa.BasicBlock
			if !l.blocks[b] {
				l.blocks[b] = true
				work = append(work, b)
			}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				for _, p := range n.Preds {
					if seen[p] && !l.blocks[p] {
						l.blocks[p] = true
						work = append(work, p)
					}
				}
			}
		}
	}
	// liveness
	for changed := true; changed; {
		changed = false
		for i := len(in.rpo) - 1; i >= 0; i-- {
			b := in.rpo[i]
			lv := map[int]bool{}
			for _, s := range b.Succs {
				for v := range in.live[s] {
					lv[v] = true
				}
				pi := predIndex(s, b)
				for _, in2 := range s.Instrs {
					phi, ok := in2.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							_ = pi
							if n, ok := in.num[phi.Edges[k]]; ok {
								lv[n] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(lv, in.num[v])
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				var rands [12]*ssa.Value
				for _, r := range ins.Operands(rands[:0]) {
					if n, ok := in.num[*r]; ok {
						lv[n] = true
					}
				}
			}
			if len(lv) != len(in.live[b]) {
				in.live[b] = lv
				changed = true
			}
		}
	}
	return in
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

// ---- calls ----

func (x *X) call(s *State, fn *ssa.Function, args, binds []Val, isDefer bool) []*State {
	if x.depth > 90 {
		x.giveUp("call depth exceeded in %s", fnName(fn))
	}
	x.depth++
	defer func() { x.depth-- }()
	x.visited[fn] = true
	in := x.info(fn)
	if in.irred {
		x.giveUp("irreducible control flow in %s", fnName(fn))
	}
	d := 0
	if s.fr != nil {
		d = s.fr.depth + 1
	}
	fr := &Frame{owner: s.id, fn: fn, regs: make([]Val, len(in.vals)), parent: s.fr, isDefer: isDefer, depth: d}
	if len(args) != len(fn.Params) {
		x.giveUp("argument count of %s: %d for %d", fnName(fn), len(args), len(fn.Params))
	}
	for i, a := range args {
		fr.regs[i] = a
	}
	for i, b := range binds {
		if i < len(fn.FreeVars) {
			fr.regs[len(fn.Params)+i] = b
		}
	}
	s.fr = fr
	s.ret = nil
	act := &activation{fn: fn, info: in}
	x.region(act, nil, []*edge{{s, nil, fn.Blocks[0]}})

	out := act.rets
	pans := act.pans
	for len(pans) > 0 {
		p := pans[0]
		pans = pans[1:]
		if in.defers {
			p.frame().running = true
			p.frame().panicking = true
			for _, q := range x.runDefers(p) {
				f := q.fr
				if q.pan != nil {
					out = append(out, q)
					continue
				}
				_ = f
				// recovered
				if fn.Recover != nil {
					sub := &activation{fn: fn, info: in}
					x.region(sub, nil, []*edge{{q, nil, fn.Recover}})
					out = append(out, sub.rets...)
					pans = append(pans, sub.pans...)
				} else {
					q.ret = x.zeroResults(q, fn)
					out = append(out, q)
				}
			}
		} else {
			out = append(out, p)
		}
	}
	for _, o := range out {
		if o.fr == nil || o.fr.fn != fn {
			x.giveUp("frame mismatch in %s", fnName(fn))
		}
		o.fr = o.fr.parent
	}
	return x.mergeStates(out, x.width(24))
}

func (x *X) zeroResults(s *State, fn *ssa.Function) Val {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(s, res.At(0).Type())
	}
	return x.zero(s, res)
}

// runDefers runs the deferred calls of the current frame. The returned states
// have pan == nil when the frame continues normally.
func (x *X) runDefers(s *State) []*State {
	work := []*State{s}
	var out []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		f := s.frame()
		if len(f.defers) == 0 {
			out = append(out, s)
			continue
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		pan := s.pan
		s.pan = nil
		f.panicking = pan != nil
		f.running = true
		res := x.callValue(s, &d.site.Call, d.fv, d.args, true, d.site)
		if d.many {
			// at least once
			cur := res
			for round := 0; len(cur) > 0; round++ {
				if round > 4 {
					x.giveUp("deferred call in a loop does not stabilise in %s", fnName(f.fn))
				}
				var again []*State
				for _, q := range cur {
					if q.pan != nil {
						continue
					}
					again = append(again, x.callValue(q.clone(), &d.site.Call, d.fv, d.args, true, d.site)...)
				}
				n := len(res)
				all := x.mergeStates(append(append([]*State{}, res...), again...), 64)
				if len(all) == n {
					break
				}
				res = all
				cur = again
			}
		}
		for _, q := range res {
			qf := q.frame()
			if q.pan == nil && pan != nil {
				if qf.recovered {
					qf.recovered = false
					qf.panicking = false
				} else {
					q.pan = pan
				}
			}
			q.ret = nil
			work = append(work, q)
		}
	}
	return out
}

// ---- regions ----

func (x *X) region(act *activation, l *loop, entries []*edge) (back, exits []*edge) {
	pend := map[int][]*edge{}
	push := func(e *edge) {
		switch {
		case l != nil && e.to == l.head:
			back = append(back, e)
		case l != nil && !l.blocks[e.to]:
			exits = append(exits, e)
		default:
			o := act.info.order[e.to]
			pend[o] = append(pend[o], e)
		}
	}
	if l != nil {
		// states at the loop head, with its phis assigned already
		for _, e := range entries {
			for _, o := range x.block(act, l.head, e.s) {
				push(o)
			}
		}
	} else {
		for _, e := range entries {
			push(e)
		}
	}
	for len(pend) > 0 {
		min := -1
		for o := range pend {
			if min < 0 || o < min {
				min = o
			}
		}
		es := pend[min]
		delete(pend, min)
		b := act.info.rpo[min]
		if in := act.info.loops[b]; in != nil && (l == nil || in != l) {
			for _, e := range x.runLoop(act, in, es) {
				push(e)
			}
			continue
		}
		var ss []*State
		for _, e := range es {
			x.enter(act, e)
			ss = append(ss, e.s)
		}
		ss = x.mergeStates(ss, x.width(32))
		for _, s := range ss {
			for _, o := range x.block(act, b, s) {
				push(o)
			}
		}
	}
	return
}

// enter assigns the phis of the target of an edge.
func (x *X) enter(act *activation, e *edge) {
	b := e.to
	f := e.s.frame()
	if e.from != nil {
		pi := predIndex(b, e.from)
		var ids []int
		var vals []Val
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			ids = append(ids, act.info.num[phi])
			vals = append(vals, x.val(e.s, phi.Edges[pi]))
		}
		f = e.s.frame()
		for i, id := range ids {
			f.regs[id] = vals[i]
		}
		lv := act.info.live[b]
		for i := range f.regs {
			if f.regs[i] == nil || lv[i] {
				continue
			}
			keep := false
			for _, id := range ids {
				if id == i {
					keep = true
				}
			}
			if !keep {
				f.regs[i] = nil
			}
		}
	}
}

// block executes the instructions of a block.
func (x *X) block(act *activation, b *ssa.BasicBlock, s0 *State) (out []*edge) {
	type item struct {
		s *State
		i int
	}
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	work := []item{{s0, start}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s, i := it.s, it.i
	run:
		for {
			ins := b.Instrs[i]
			x.steps++
			if x.steps > x.maxStep {
				x.giveUp("step budget exceeded in %s", fnName(act.fn))
			}
			if x.steps&255 == 0 && time.Now().After(x.deadline) {
				x.giveUp("time limit exceeded in %s", fnName(act.fn))
			}
			if p := ins.Pos(); p.IsValid() {
				x.curPos = p
			}
			switch ins := ins.(type) {
			case *ssa.If:
				c, ok := x.val(s, ins.Cond).(BoolV)
				if !ok {
					c = freshBool()
				}
				if v, known := s.truth(c); known {
					k := 1
					if v {
						k = 0
					}
					out = append(out, &edge{s, b, b.Succs[k]})
					break run
				}
				t := s.clone()
				if s.assume(c) {
					out = append(out, &edge{s, b, b.Succs[0]})
				}
				if t.assume(c.not()) {
					out = append(out, &edge{t, b, b.Succs[1]})
				}
				break run
			case *ssa.Jump:
				out = append(out, &edge{s, b, b.Succs[0]})
				break run
			case *ssa.Return:
				switch len(ins.Results) {
				case 0:
					s.ret = nil
				case 1:
					s.ret = x.val(s, ins.Results[0])
				default:
					t := TupleV{}
					for _, r := range ins.Results {
						t.v = append(t.v, x.val(s, r))
					}
					s.ret = t
				}
				f := s.frame()
				for k := range f.regs {
					f.regs[k] = nil
				}
				act.rets = append(act.rets, s)
				break run
			case *ssa.Panic:
				v := x.val(s, ins.X)
				s.pan = &panicInfo{kind: "panic", site: fnName(act.fn), pos: x.posn(ins.Pos()), val: v, user: isHarness(act.fn)}
				act.pans = append(act.pans, s)
				break run
			}
			next := x.step(s, ins)
			alive := next[:0:0]
			for _, n := range next {
				if n.pan != nil {
					act.pans = append(act.pans, n)
				} else {
					alive = append(alive, n)
				}
			}
			if len(alive) == 0 {
				break run
			}
			i++
			for _, n := range alive[1:] {
				work = append(work, item{n, i})
			}
			s = alive[0]
		}
	}
	return
}

// ---- loops ----

func (x *X) runLoop(act *activation, l *loop, es []*edge) []*edge {
	for _, e := range es {
		x.enter(act, e)
	}
	key := fmt.Sprintf("%s@%s", fnName(act.fn), x.posn(loopPos(l)))
	// 1. unrolling, when the number of iterations is decided
	if out, ok := x.unroll(act, l, es); ok {
		if x.quiet == 0 && x.loopsSeen[key] == "" {
			x.loopsSeen[key] = "decided iterations"
		}
		return out
	}
	// 2. fixpoint per partition
	x.loopsSeen[key] = "fixpoint"
	heads := map[string]*State{}
	var order []string
	addHead := func(s *State) string {
		collapseDefers(s)
		x.collect(s)
		k := x.partKey(act, l, s, len(heads))
		return k
	}
	rounds, changes := map[string]int{}, map[string]int{}
	var work []string
	inWork := map[string]bool{}
	merge := func(s *State) {
		k := addHead(s)
		h := heads[k]
		if h == nil {
			heads[k] = s
			order = append(order, k)
			if !inWork[k] {
				work = append(work, k)
				inWork[k] = true
			}
			return
		}
		rounds[k]++
		n, same := x.join(h, s, rounds[k] > 3)
		if x.trace {
			fmt.Printf("  join %s part %q round %d stable=%v\n", key, k, rounds[k], same)
		}
		if same {
			return
		}
		if changes[k]++; changes[k] > 60 {
			x.giveUp("no loop invariant found for %s", key)
		}
		heads[k] = n
		if !inWork[k] {
			work = append(work, k)
			inWork[k] = true
		}
	}
	for _, e := range es {
		merge(e.s)
	}
	x.quiet++
	nr, np := len(act.rets), len(act.pans)
	iter := 0
	for len(work) > 0 {
		iter++
		if iter > 400 {
			x.giveUp("loop does not stabilise: %s", key)
		}
		k := work[0]
		work = work[1:]
		inWork[k] = false
		st := heads[k].clone()
		back, _ := x.region(act, l, []*edge{{st, nil, l.head}})
		act.rets, act.pans = act.rets[:nr], act.pans[:np]
		bs := make([]*State, 0, len(back))
		for _, e := range back {
			x.enter(act, e)
			bs = append(bs, e.s)
		}
		for _, s := range x.mergeStates(bs, 8) {
			merge(s)
		}
	}
	x.quiet--
	var out []*edge
	for _, k := range order {
		_, exits := x.region(act, l, []*edge{{heads[k].clone(), nil, l.head}})
		out = append(out, exits...)
	}
	return out
}

// width is the number of states kept apart.
func (x *X) width(n int) int {
	if x.wide {
		return n * 8
	}
	return n
}

func loopPos(l *loop) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func (x *X) unroll(act *activation, l *loop, es []*edge) ([]*edge, bool) {
	nr, np := len(act.rets), len(act.pans)
	var mine []report
	saved := x.buf
	savedDirty := x.dirtyNew
	x.buf = &mine
	ok := true
	limit := 70
	if x.follow && !x.raw {
		limit = 320
	}
	harn := isHarness(act.fn)
	maxStates := 6
	if harn {
		limit, maxStates = 600, x.width(64)
	}
	// shifting a number ends after at most as many steps as it has bits
	shifts := shiftLoop(l)
	if shifts {
		maxStates = 24
	}
	if x.raw {
		// integers have at most ten bytes
		shifts, limit = true, max(14, limit*b2i(shifts))
	}
	loose := 1 << 30
	if x.follow && !shifts {
		// iterations whose test is decided are not counted
		shifts, maxStates = true, x.width(24)
		if !harn {
			loose = 14
		}
	}
	cur := make([]*State, 0, len(es))
	for _, e := range es {
		cur = append(cur, e.s.clone())
	}
	var out []*edge
	for n := 0; len(cur) > 0; n++ {
		if n > limit || len(cur) > maxStates {
			ok = false
			break
		}
		// the first iterations must not be undecided between going on and
		// leaving for good: a state which goes on and one which leaves both
		// stemming from the loop test mean the count is not known
		ens := make([]*edge, len(cur))
		for i, s := range cur {
			ens[i] = &edge{s, nil, l.head}
		}
		if !shifts {
			und := false
			for _, s := range cur {
				if x.headUndecided(act, l, s) {
					und = true
				}
			}
			if und {
				ok = false
				break
			}
		}
		open := false
		if x.follow && !x.raw && loose < 1<<30 {
			for _, s := range cur {
				open = open || x.headUndecided(act, l, s)
			}
		}
		left := len(act.rets) + len(act.pans)
		back, exits := x.region(act, l, ens)
		if open && len(back) > 0 && (len(back) > len(cur) || len(exits) > 0 || len(act.rets)+len(act.pans) > left) {
			// an iteration after which it is open whether there is another
			if loose--; loose < 0 {
				ok = false
				break
			}
		}
		out = append(out, exits...)
		bs := make([]*State, 0, len(back))
		for _, e := range back {
			x.enter(act, e)
			bs = append(bs, e.s)
		}
		cur = x.mergeStates(bs, maxStates+1)
		if len(out)+len(act.rets)-nr > x.width(300) {
			ok = false
			break
		}
	}
	x.buf = saved
	if !ok {
		act.rets, act.pans = act.rets[:nr], act.pans[:np]
		x.dirtyNew = savedDirty
		return nil, false
	}
	*x.buf = append(*x.buf, mine...)
	return out, true
}

// shiftLoop reports whether an iteration of the loop shifts a number of the
// previous iteration to the right.
func shiftLoop(l *loop) bool {
	for b := range l.blocks {
		for _, i := range b.Instrs {
			op, ok := i.(*ssa.BinOp)
			if !ok || op.Op != token.SHR && op.Op != token.QUO {
				continue
			}
			if k, ok := op.Y.(*ssa.Const); !ok || k.Value == nil || op.Op == token.QUO && k.Int64() < 2 || k.Uint64() == 0 {
				continue
			}
			v := op.X
			for d := 0; d < 8; d++ {
				switch w := v.(type) {
				case *ssa.Phi:
					if w.Block() == l.head {
						for _, e := range w.Edges {
							if e == ssa.Value(op) {
								return true
							}
						}
					}
				case *ssa.BinOp:
					v = w.X
					continue
				case *ssa.Convert:
					v = w.X
					continue
				}
				break
			}
		}
	}
	return false
}

// headUndecided reports whether the loop test, evaluated in the head block
// alone, can go both ways.
func (x *X) headUndecided(act *activation, l *loop, s *State) bool {
	// find the test: the head's If with one successor outside the loop
	h := l.head
	t, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return true // for { ... }: the number of iterations is not known
	}
	out0, out1 := !l.blocks[h.Succs[0]], !l.blocks[h.Succs[1]]
	if !out0 && !out1 {
		return true
	}
	// evaluate the head block in a copy; only simple instructions are allowed
	c := s.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Call:
			cc := ins.(*ssa.Call).Common()
			if _, ok := cc.Value.(*ssa.Builtin); !ok {
				return true
			}
		}
		n := x.step(c, ins)
		if len(n) != 1 || n[0].pan != nil {
			return true
		}
		c = n[0]
	}
	b, ok := x.val(c, t.Cond).(BoolV)
	if !ok {
		return true
	}
	_, known := c.truth(b)
	return !known
}

// partKey is the partition of a state at a loop head.
func (x *X) partKey(act *activation, l *loop, s *State, have int) string {
	var sb strings.Builder
	fr := s.fr
	for _, k := range lockKeys(s) {
		fmt.Fprintf(&sb, "L%s=%d;", k, s.locks[k])
	}
	for f := fr; f != nil; f = f.parent {
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "d%d.%v;", d.site.Pos(), d.many)
		}
	}
	if have > 24 {
		return "*" + sb.String()
	}
	for i, v := range fr.regs {
		if b, ok := v.(BoolV); ok {
			if k, known := s.truth(b); known {
				fmt.Fprintf(&sb, "r%d=%v;", i, k)
			}
		}
	}
	r := x.reachable(s)
	ids := make([]int32, 0, len(r.objs))
	for id := range r.objs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		o := s.heap[id]
		if o.isArr || o.frozen {
			continue
		}
		for _, k := range sortedKeys(o.f) {
			switch v := o.f[k].(type) {
			case BoolV:
				if b, known := s.truth(v); known {
					fmt.Fprintf(&sb, "o%d%s=%v;", x.stableID(s, id), k, b)
				}
			case PtrV:
				if b, known := s.truth(v.nil_); known {
					fmt.Fprintf(&sb, "o%d%s=n%v;", x.stableID(s, id), k, b)
				}
			case IfaceV:
				if b, known := s.truth(v.nil_); known {
					fmt.Fprintf(&sb, "o%d%s=i%v;", x.stableID(s, id), k, b)
				}
			case IntV:
				if z, known := s.truth(BoolV{kind: bEQ, e: v.e}); known && !o.alias {
					fmt.Fprintf(&sb, "o%d%s=z%v;", x.stableID(s, id), k, z)
				}
			}
		}
		if o.released != "" {
			fmt.Fprintf(&sb, "o%d!;", x.stableID(s, id))
		}
	}
	return sb.String()
}

// stableID identifies objects allocated before the loop by number and those
// allocated inside it not at all.
func (x *X) stableID(s *State, id int32) int32 {
	if o := s.heap[id]; o != nil && o.site != "" {
		return -int32(hash32(o.site))
	}
	return id
}

func hash32(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h >> 2
}

func lockKeys(s *State) []string {
	var ks []string
	for k, n := range s.locks {
		if n != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// ---- values of operands ----

func (x *X) val(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(s, v)
	case *ssa.Function:
		return FuncV{fn: v, nil_: vFalse}
	case *ssa.Builtin:
		return FuncV{nat: "builtin:" + v.Name(), nil_: vFalse}
	case *ssa.Global:
		return x.globalPtr(s, v)
	}
	n, ok := x.info(s.fr.fn).num[v]
	if !ok {
		x.giveUp("no register for %s in %s", v.Name(), fnName(s.fr.fn))
	}
	r := s.fr.regs[n]
	if r == nil {
		x.giveUp("use of unset register %s in %s (%s)", v.Name(), fnName(s.fr.fn), v)
	}
	return r
}

func (x *X) globalPtr(s *State, g *ssa.Global) Val {
	id, ok := x.globals[g]
	elem := g.Type().(*types.Pointer).Elem()
	if !ok {
		id = newID()
		x.globals[g] = id
	}
	if s.heap[id] == nil {
		o := x.zeroObj(s, elem, "global "+g.Name())
		delete(s.heap, o.id)
		o.id = id
		ownG := g.Pkg != nil && x.own[g.Pkg.Pkg.Path()]
		if !ownG {
			o.lazy = true
		}
		s.heap[id] = o
		if !ownG {
			// variables of other modules, like io.EOF, keep their value
			if _, isI := elem.Underlying().(*types.Interface); isI {
				gid := consTok("global:" + g.RelString(nil))
				x.uniq[gid] = true
				errWraps[gid] = []IfaceV{}
				o.f[""] = IfaceV{nil_: vFalse, id: gid}
			} else {
				o.f[""] = x.globalStd(s, g, elem)
			}
		}
	}
	return PtrV{obj: id, nil_: vFalse}
}

func (x *X) globalStd(s *State, g *ssa.Global, t types.Type) Val {
	v := x.fresh(s, t, g.Name())
	if o, ok := v.(OpaqueV); ok {
		o.id = consTok("global:" + g.RelString(nil))
		return o
	}
	return v
}

func (x *X) constVal(s *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(s, t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return strConst(constant.StringVal(c.Value))
	case constant.Int:
		if _, _, ok := intRange(t); ok {
			if i, exact := constant.Int64Val(c.Value); exact {
				return IntV{K(i)}
			}
			return IntV{S(consSym(bigPrefix+c.Value.ExactString(), 1<<62, 0, true, false))}
		}
	}
	return OpaqueV{id: consTok("const:" + c.Value.ExactString()), typ: t}
}

func (x *X) set(s *State, v ssa.Value, r Val) {
	s.frame().regs[x.info(s.fr.fn).num[v]] = r
}

// ---- obligations ----

// oblige splits the state on a condition that must hold; without it the
// instruction panics.
func (x *X) oblige(s *State, c BoolV, rule string, pos token.Pos) (ok, pan *State) {
	v, known := s.truth(c)
	if known && v {
		if x.quiet == 0 {
			x.sites[rule]++
		}
		return s, nil
	}
	var bad *State
	if known {
		bad = s
		s = nil
	} else {
		bad = s.clone()
		if !bad.assume(c.not()) {
			bad = nil
		}
		if !s.assume(c) {
			s = nil
		}
	}
	if bad != nil && x.trace2 && x.quiet == 0 {
		fmt.Printf("  OBLIGATION %s at %s: %s [%s]\n     facts %v\n", rule, x.posn(pos), c, x.describe(bad, c.e), bad.facts.ge)
	}
	if bad != nil {
		bad.pan = &panicInfo{kind: rule, site: fnName(bad.fr.fn), pos: x.posn(pos), user: isHarness(bad.fr.fn), val: IfaceV{nil_: vFalse, id: consTok("runtime error")}}
	}
	return s, bad
}

func ge(e Lin) BoolV { return BoolV{kind: bGE, e: e} }
func eq(e Lin) BoolV { return BoolV{kind: bEQ, e: e} }

// obliges checks several conditions; it returns the surviving state and the
// panicking ones.
func (x *X) obliges(s *State, rule string, pos token.Pos, cs ...BoolV) (*State, []*State) {
	var bad []*State
	for _, c := range cs {
		if s == nil {
			break
		}
		var b *State
		s, b = x.oblige(s, c, rule, pos)
		if b != nil {
			bad = append(bad, b)
		}
	}
	return s, bad
}

func withAlive(s *State, bad []*State) []*State {
	if s == nil {
		return bad
	}
	return append([]*State{s}, bad...)
}

// ---- memory access ----

func (x *X) checkAlive(s *State, id int32, what string) {
	o := s.heap[id]
	if o != nil && o.isArr && o.shared != shNone {
		x.logAccess(s, id, "/[]", what == "write")
	}
	if o != nil && o.released != "" && x.quiet == 0 {
		x.report(s, "use-after-release", x.construct(s), what+" of a "+shortType(o.typ)+" after it was put into its pool by "+o.released, x.curPos)
	}
}

func shortType(t types.Type) string {
	if t == nil {
		return "value"
	}
	return strings.ReplaceAll(types.TypeString(t, nil), "github.com/dropmorepackets/haproxy-go/", "")
}

func (x *X) load(s *State, p PtrV, t types.Type) Val {
	o := s.heap[p.obj]
	if p.obj == 0 || o == nil {
		return x.fresh(s, t, "unknown")
	}
	x.checkAlive(s, p.obj, "read")
	if o.shared != shNone && !o.isArr {
		x.logAccess(s, p.obj, p.path, false)
	}
	if p.elem {
		if isByteElem(o.elem) && p.path == "" {
			if isByteElem(t) || basicInt8(t) {
				return IntV{x.readByte(s, o, p.idx)}
			}
			return x.fresh(s, t, "reinterpreted")
		}
		return x.coerce(s, x.readPath(s, p.obj, elemKey(p.idx), p.path, t), t)
	}
	if o.isArr && p.path == "" {
		if _, ok := t.Underlying().(*types.Array); ok {
			if o.frozen {
				return ArrV{p.obj}
			}
			c := *o
			c.id, c.frozen, c.alias, c.owner = 0, true, false, 0
			c.f = copyMap(c.f)
			c.segs = append([]Seg(nil), o.segs...)
			return ArrV{s.addObj(&c).id}
		}
		return x.fresh(s, t, "reinterpreted")
	}
	if a, ok := t.Underlying().(*types.Array); ok && !o.isArr {
		_ = a
		av, ok := x.readPath(s, p.obj, "", p.path, t).(ArrV)
		if !ok {
			return x.fresh(s, t, "array")
		}
		return x.load(s, PtrV{obj: av.obj, nil_: vFalse}, t)
	}
	return x.coerce(s, x.readPath(s, p.obj, "", p.path, t), t)
}

func basicInt8(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int8
}

func (x *X) coerce(s *State, v Val, t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if sl, ok := v.(SliceV); ok {
			return StrV{obj: sl.obj, off: sl.off, len: sl.len}
		}
	}
	return v
}

func (x *X) store(s *State, p PtrV, t types.Type, v Val) {
	o := s.heap[p.obj]
	if p.obj == 0 || o == nil {
		return
	}
	x.checkAlive(s, p.obj, "write")
	if o.shared != shNone {
		if !o.isArr {
			x.logAccess(s, p.obj, p.path, true)
		}
		if sv, ok := v.(SliceV); ok {
			x.share(s, sv, o.shared)
		} else {
			x.share(s, v, shPublished)
		}
		o = s.heap[p.obj]
	}
	if p.elem {
		if isByteElem(o.elem) && p.path == "" {
			if iv, ok := v.(IntV); ok && isByteElem(t) {
				x.addSeg(s, p.obj, Seg{off: p.idx, len: K(1), kind: sgByte, e: iv.e})
			} else {
				x.havocArr(s, p.obj)
			}
			return
		}
		x.writePath(s, p.obj, elemKey(p.idx), p.path, t, v)
		return
	}
	if o.isArr && p.path == "" {
		av, ok := v.(ArrV)
		if !ok {
			x.havocArr(s, p.obj)
			return
		}
		src := s.heap[av.obj]
		d := s.mut(p.obj)
		d.segs = append([]Seg(nil), src.segs...)
		d.tok = src.tok
		d.f = copyMap(src.f)
		d.lazy = src.lazy
		return
	}
	x.writePath(s, p.obj, "", p.path, t, v)
}

func (x *X) havocArr(s *State, id int32) {
	o := s.mut(id)
	o.segs = nil
	o.tok = newID()
	o.f = map[string]Val{}
	o.lazy = true
}

// fieldPtr is the address of a field.
func (x *X) fieldPtr(s *State, p PtrV, st types.Type, i int) Val {
	su := st.Underlying().(*types.Struct)
	ft := su.Field(i).Type()
	q := PtrV{obj: p.obj, path: fieldPath(p.path, i), elem: p.elem, idx: p.idx, nil_: vFalse}
	if _, ok := ft.Underlying().(*types.Array); ok && p.obj != 0 {
		prefix := ""
		if p.elem {
			prefix = elemKey(p.idx)
		}
		av, ok := x.readPath(s, p.obj, prefix, q.path, ft).(ArrV)
		if ok {
			if o := s.heap[av.obj]; o.frozen {
				c := *o
				c.id, c.frozen, c.owner = 0, false, 0
				c.f = copyMap(c.f)
				c.segs = append([]Seg(nil), o.segs...)
				n := s.addObj(&c)
				s.mut(p.obj).f[prefix+q.path] = ArrV{n.id}
				av = ArrV{n.id}
			}
			return PtrV{obj: av.obj, nil_: vFalse}
		}
	}
	return q
}

// ---- instructions ----

func one(s *State) []*State { return []*State{s} }

func (x *X) step(s *State, ins ssa.Instruction) []*State {
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return one(s)
	case *ssa.Alloc:
		o := x.zeroObj(s, i.Type().(*types.Pointer).Elem(), allocSite(i))
		x.set(s, i, PtrV{obj: o.id, nil_: vFalse})
		return one(s)
	case *ssa.BinOp:
		return x.binop(s, i)
	case *ssa.UnOp:
		return x.unop(s, i)
	case *ssa.ChangeType:
		x.set(s, i, x.val(s, i.X))
		return one(s)
	case *ssa.ChangeInterface:
		x.set(s, i, x.val(s, i.X))
		return one(s)
	case *ssa.Convert:
		x.set(s, i, x.convert(s, x.val(s, i.X), i.X.Type(), i.Type()))
		return one(s)
	case *ssa.MultiConvert:
		x.set(s, i, x.convert(s, x.val(s, i.X), i.X.Type(), i.Type()))
		return one(s)
	case *ssa.MakeInterface:
		v := x.val(s, i.X)
		x.set(s, i, IfaceV{nil_: vFalse, dyn: i.X.Type(), v: v})
		return one(s)
	case *ssa.MakeClosure:
		f := FuncV{fn: i.Fn.(*ssa.Function), nil_: vFalse}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, x.val(s, b))
		}
		x.set(s, i, f)
		return one(s)
	case *ssa.MakeMap:
		o := s.addObj(&Obj{typ: i.Type(), isMap: true, site: allocSite(i)})
		x.set(s, i, MapV{o.id, vFalse})
		return one(s)
	case *ssa.MakeChan:
		x.set(s, i, OpaqueV{id: newID(), typ: i.Type()})
		return one(s)
	case *ssa.MakeSlice:
		l := x.int(s, i.Len)
		c := x.int(s, i.Cap)
		ok, bad := x.obliges(s, "make", i.Pos(), ge(l), ge(sub(c, l)), ge(sub(K(makeMax()), c)))
		if ok != nil {
			x.checkAlloc(ok, c, i.Pos(), i.Type())
			t := i.Type().Underlying().(*types.Slice)
			o := ok.addObj(&Obj{typ: i.Type(), isArr: true, elem: t.Elem(), n: c, site: allocSite(i)})
			x.set(ok, i, SliceV{obj: o.id, off: K(0), len: l, cap: c, nil_: vFalse})
		}
		return withAlive(ok, bad)
	case *ssa.Slice:
		return x.slice(s, i)
	case *ssa.SliceToArrayPointer:
		sl, _ := x.val(s, i.X).(SliceV)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ok, bad := x.obliges(s, "bounds", i.Pos(), ge(sl.len.addc(-n.Len())))
		if ok != nil {
			// a snapshot: the repository only ever reads through such pointers
			ps, known := x.content(ok, sl, K(n.Len()))
			o := ok.addObj(&Obj{typ: n, isArr: true, elem: n.Elem(), n: K(n.Len()), tok: newID(), site: "array view"})
			if known {
				o.segs = x.piecesToSegs(K(0), ps)
			}
			x.set(ok, i, PtrV{obj: o.id, nil_: vFalse})
		}
		return withAlive(ok, bad)
	case *ssa.Extract:
		t, ok := x.val(s, i.Tuple).(TupleV)
		if !ok || i.Index >= len(t.v) {
			x.set(s, i, x.fresh(s, i.Type(), "extract"))
			return one(s)
		}
		x.set(s, i, t.v[i.Index])
		return one(s)
	case *ssa.Field:
		switch v := x.val(s, i.X).(type) {
		case StructV:
			x.set(s, i, v.f[i.Field])
		default:
			x.set(s, i, x.fresh(s, i.Type(), "field"))
		}
		return one(s)
	case *ssa.FieldAddr:
		p, ok := x.val(s, i.X).(PtrV)
		if !ok {
			x.set(s, i, x.fresh(s, i.Type(), "fieldaddr"))
			return one(s)
		}
		g, bad := x.obliges(s, "nil", i.Pos(), p.nil_.not())
		if g != nil {
			st := i.X.Type().Underlying().(*types.Pointer).Elem()
			if x.leafStruct(st) {
				x.set(g, i, x.leafField(g, p, st, i))
			} else {
				x.set(g, i, x.fieldPtr(g, p, st, i.Field))
			}
		}
		return withAlive(g, bad)
	case *ssa.IndexAddr:
		return x.indexAddr(s, i)
	case *ssa.Index:
		return x.index(s, i)
	case *ssa.Lookup:
		return x.lookup(s, i)
	case *ssa.MapUpdate:
		return x.mapUpdate(s, i)
	case *ssa.Store:
		p, ok := x.val(s, i.Addr).(PtrV)
		if !ok {
			return one(s)
		}
		g, bad := x.obliges(s, "nil", i.Pos(), p.nil_.not())
		if g != nil {
			x.store(g, p, i.Val.Type(), x.val(g, i.Val))
		}
		return withAlive(g, bad)
	case *ssa.TypeAssert:
		return x.typeAssert(s, i)
	case *ssa.Call:
		return x.callInstr(s, i)
	case *ssa.Defer:
		d := deferred{site: i}
		d.fv, d.args = x.callParts(s, &i.Call)
		f := s.frame()
		f.defers = append(f.defers, d)
		return one(s)
	case *ssa.Go:
		fv, args := x.callParts(s, &i.Call)
		x.share(s, fv, shSpawned)
		for _, a := range args {
			x.share(s, a, shSpawned)
		}
		x.goStmt(s, i, append([]Val{fv}, args...))
		return one(s)
	case *ssa.RunDefers:
		s.frame().running = true
		out := x.runDefers(s)
		for _, o := range out {
			if o.pan == nil {
				o.frame().running = false
			}
		}
		return out
	case *ssa.Range:
		x.set(s, i, TupleV{[]Val{x.val(s, i.X)}})
		return one(s)
	case *ssa.Next:
		return x.next(s, i)
	case *ssa.Select:
		return x.selectInstr(s, i)
	case *ssa.Send:
		x.onBlock(s, "send")
		return one(s)
	}
	x.giveUp("unsupported instruction %T in %s", ins, fnName(s.fr.fn))
	return nil
}

func allocSite(i ssa.Instruction) string {
	return fmt.Sprintf("%s#%d.%d", fnName(i.Parent()), i.Block().Index, i.Pos())
}

func (x *X) int(s *State, v ssa.Value) Lin {
	if iv, ok := x.val(s, v).(IntV); ok {
		return iv.e
	}
	return freshInt(types.Typ[types.Int], "int").e
}

func (x *X) checkAlloc(s *State, n Lin, pos token.Pos, t types.Type) {
	lim, ok := s.glob["allocmax"].(IntV)
	if !ok || isHarness(s.fr.fn) {
		return
	}
	if s.facts.le(n, lim.e) {
		x.sites["alloc"]++
		return
	}
	x.report(s, "alloc", x.construct(s), fmt.Sprintf("allocation of %s elements is not bounded by the limit", x.describe(s, n)), pos)
}

func (x *X) describe(s *State, e Lin) string {
	var sb strings.Builder
	for i, t := range e.t {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if t.k != 1 {
			fmt.Fprintf(&sb, "%d*", t.k)
		}
		sb.WriteString(symtab[t.s].name)
	}
	if e.c != 0 || len(e.t) == 0 {
		fmt.Fprintf(&sb, " + %d", e.c)
	}
	return sb.String()
}

func (x *X) slice(s *State, i *ssa.Slice) []*State {
	lo := K(0)
	if i.Low != nil {
		lo = x.int(s, i.Low)
	}
	switch v := x.val(s, i.X).(type) {
	case StrV:
		hi := v.len
		if i.High != nil {
			hi = x.int(s, i.High)
		}
		g, bad := x.obliges(s, "bounds", i.Pos(), ge(lo), ge(sub(hi, lo)), ge(sub(v.len, hi)))
		if g != nil {
			x.set(g, i, x.substr(g, v, lo, hi))
		}
		return withAlive(g, bad)
	case SliceV:
		hi, mx := v.len, v.cap
		if i.High != nil {
			hi = x.int(s, i.High)
		}
		cs := []BoolV{ge(lo), ge(sub(hi, lo))}
		if i.Max != nil {
			mx = x.int(s, i.Max)
			cs = append(cs, ge(sub(mx, hi)), ge(sub(v.cap, mx)))
		} else if i.High != nil {
			cs = append(cs, ge(sub(v.cap, hi)))
		}
		g, bad := x.obliges(s, "bounds", i.Pos(), cs...)
		if g != nil {
			x.set(g, i, SliceV{obj: v.obj, off: add(v.off, lo), len: sub(hi, lo), cap: sub(mx, lo), nil_: v.nil_})
		}
		return withAlive(g, bad)
	case PtrV: // *array
		n := K(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		hi, mx := n, n
		if i.High != nil {
			hi = x.int(s, i.High)
		}
		if i.Max != nil {
			mx = x.int(s, i.Max)
		}
		g, bad := x.obliges(s, "nil", i.Pos(), v.nil_.not())
		if g != nil {
			var b2 []*State
			g, b2 = x.obliges(g, "bounds", i.Pos(), ge(lo), ge(sub(hi, lo)), ge(sub(mx, hi)), ge(sub(n, mx)))
			bad = append(bad, b2...)
		}
		if g != nil {
			x.set(g, i, SliceV{obj: v.obj, off: lo, len: sub(hi, lo), cap: sub(mx, lo), nil_: vFalse})
		}
		return withAlive(g, bad)
	}
	x.set(s, i, x.fresh(s, i.Type(), "slice"))
	return one(s)
}

func (x *X) substr(s *State, v StrV, lo, hi Lin) Val {
	if v.k != nil {
		if lo.isConst() && hi.isConst() {
			return strConst((*v.k)[lo.c:hi.c])
		}
		t := consTok("const:" + *v.k)
		x.tokConst[t] = *v.k
		o := s.addObj(&Obj{typ: types.Typ[types.String], isArr: true, elem: types.Typ[types.Byte], n: v.len, tok: t, frozen: true})
		return StrV{obj: o.id, off: lo, len: sub(hi, lo)}
	}
	return StrV{obj: v.obj, off: add(v.off, lo), len: sub(hi, lo)}
}

func (x *X) indexAddr(s *State, i *ssa.IndexAddr) []*State {
	idx := x.int(s, i.Index)
	switch v := x.val(s, i.X).(type) {
	case SliceV:
		g, bad := x.obliges(s, "bounds", i.Pos(), ge(idx), ge(sub(v.len, idx).addc(-1)))
		if g != nil {
			x.set(g, i, PtrV{obj: v.obj, elem: true, idx: add(v.off, idx), nil_: vFalse})
		}
		return withAlive(g, bad)
	case PtrV:
		n := K(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		g, bad := x.obliges(s, "nil", i.Pos(), v.nil_.not())
		if g != nil {
			var b2 []*State
			g, b2 = x.obliges(g, "bounds", i.Pos(), ge(idx), ge(sub(n, idx).addc(-1)))
			bad = append(bad, b2...)
		}
		if g != nil {
			x.set(g, i, PtrV{obj: v.obj, elem: true, idx: idx, nil_: vFalse})
		}
		return withAlive(g, bad)
	}
	x.set(s, i, x.fresh(s, i.Type(), "indexaddr"))
	return one(s)
}

func (x *X) index(s *State, i *ssa.Index) []*State {
	idx := x.int(s, i.Index)
	switch v := x.val(s, i.X).(type) {
	case ArrV:
		o := s.heap[v.obj]
		g, bad := x.obliges(s, "bounds", i.Pos(), ge(idx), ge(sub(o.n, idx).addc(-1)))
		if g != nil {
			x.set(g, i, x.load(g, PtrV{obj: v.obj, elem: true, idx: idx, nil_: vFalse}, i.Type()))
		}
		return withAlive(g, bad)
	case StrV:
		return x.strIndex(s, i, v, idx, i.Pos())
	}
	x.set(s, i, x.fresh(s, i.Type(), "index"))
	return one(s)
}

func (x *X) strIndex(s *State, i ssa.Value, v StrV, idx Lin, pos token.Pos) []*State {
	g, bad := x.obliges(s, "bounds", pos, ge(idx), ge(sub(v.len, idx).addc(-1)))
	if g != nil {
		if v.k != nil {
			if idx.isConst() {
				x.set(g, i, IntV{K(int64((*v.k)[idx.c]))})
			} else {
				x.set(g, i, freshInt(types.Typ[types.Byte], "byte"))
			}
		} else {
			x.set(g, i, IntV{x.readByte(g, g.heap[v.obj], add(v.off, idx))})
		}
	}
	return withAlive(g, bad)
}

func (x *X) lookup(s *State, i *ssa.Lookup) []*State {
	v := x.val(s, i.X)
	if sv, ok := v.(StrV); ok {
		return x.strIndex(s, i, sv, x.int(s, i.Index), i.Pos())
	}
	if m, ok := v.(MapV); ok {
		x.logAccess(s, m.obj, "/{}", false)
	}
	m, ok := v.(MapV)
	if !ok {
		x.set(s, i, x.fresh(s, i.Type(), "lookup"))
		return one(s)
	}
	mt := i.X.Type().Underlying().(*types.Map)
	key := x.val(s, i.Index)
	put := func(s *State, v Val, found BoolV) *State {
		if i.CommaOk {
			x.set(s, i, TupleV{[]Val{v, found}})
		} else {
			x.set(s, i, v)
		}
		return s
	}
	if isNil, known := s.truth(m.nil_); known && isNil {
		return one(put(s, x.zero(s, mt.Elem()), vFalse))
	}
	var out []*State
	o := s.heap[m.obj]
	for k := len(o.ents) - 1; k >= 0; k-- {
		c := x.eqVals(s, o.ents[k].k, key)
		if v, known := s.truth(c); known {
			if v {
				return append(out, put(s, o.ents[k].v, vTrue))
			}
			continue
		}
		t := s.clone()
		if t.assume(c) {
			out = append(out, put(t, o.ents[k].v, vTrue))
		}
		if !s.assume(c.not()) {
			return out
		}
	}
	if o.mapSum || o.lazy {
		t := s.clone()
		var v Val
		if o.sumV != nil {
			v = o.sumV
		} else {
			v = x.fresh(t, mt.Elem(), "map value")
			if p, ok := v.(PtrV); ok && o.sumNN {
				p.nil_ = vFalse
				v = p
			}
		}
		out = append(out, put(t, v, vTrue))
	}
	return append(out, put(s, x.zero(s, mt.Elem()), vFalse))
}

func (x *X) mapUpdate(s *State, i *ssa.MapUpdate) []*State {
	m, ok := x.val(s, i.Map).(MapV)
	if !ok {
		return one(s)
	}
	g, bad := x.obliges(s, "nil map", i.Pos(), m.nil_.not())
	if g != nil {
		g = x.mapSet(g, m, x.val(g, i.Key), x.val(g, i.Value))
	}
	return withAlive(g, bad)
}

func (x *X) mapSet(s *State, m MapV, k, v Val) *State {
	x.logAccess(s, m.obj, "/{}", true)
	o := s.mut(m.obj)
	var keep []mapEnt
	for _, e := range o.ents {
		if b, known := s.truth(x.eqVals(s, e.k, k)); known && b {
			continue
		}
		keep = append(keep, e)
	}
	o = s.mut(m.obj)
	o.ents = append(keep, mapEnt{k, v})
	return s
}

func (x *X) next(s *State, i *ssa.Next) []*State {
	t := i.Type().(*types.Tuple)
	// any element, any number of them
	v := make([]Val, 3)
	v[0] = freshBool()
	for k := 1; k < 3; k++ {
		kt := t.At(k).Type()
		if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
			v[k] = OpaqueV{id: newID(), typ: kt}
			continue
		}
		v[k] = x.fresh(s, kt, "range")
	}
	x.set(s, i, TupleV{v})
	return one(s)
}

func (x *X) selectInstr(s *State, i *ssa.Select) []*State {
	x.onBlock(s, "select")
	t := i.Type().(*types.Tuple)
	var out []*State
	n := len(i.States)
	waits := false
	lo := 0
	if !i.Blocking {
		lo = -1
	}
	for k := lo; k < n; k++ {
		c := s
		if k < n-1 || waits {
			c = s.clone()
		}
		v := []Val{IntV{K(int64(k))}, freshBool()}
		for j := 2; j < t.Len(); j++ {
			v = append(v, x.fresh(c, t.At(j).Type(), "recv"))
		}
		if k >= 0 {
			if ch, ok := x.val(c, i.States[k].Chan).(OpaqueV); ok {
				if x.neverReady(c, ch) {
					waits = true
					continue
				}
				x.onRecv(c, ch)
			}
		}
		x.set(c, i, TupleV{v})
		out = append(out, c)
	}
	if len(out) == 0 {
		x.waitForever(s)
	}
	return out
}

// onBlock is called where a goroutine may block.
func (x *X) onBlock(s *State, what string) {
	if ks := lockKeys(s); len(ks) > 0 && what != "" {
		x.report(s, "blocks-with-lock", x.construct(s), what+" while holding a lock", x.curPos)
	}
}

// neverReady: the channel belongs to a context that is not cancelled from
// outside and has not been cancelled by the library so far.
func (x *X) neverReady(s *State, ch OpaqueV) bool {
	if id, ok := chanTimer[ch.id]; ok && s.heap[id] != nil {
		o := s.heap[id]
		if b, ok := o.f["/~stopped"].(BoolV); ok {
			if v, known := s.truth(b); known && v {
				return true
			}
		}
		_, quiet := s.glob["quiet timers"]
		return quiet && isTimer(o.typ)
	}
	k, ok := chanDone[ch.id]
	return ok && x.ctxQuiet[k] && !x.ctxDone(s, k)
}

func (x *X) ctxDone(s *State, k int32) bool {
	for _, i := range ctxOf {
		if i.done != k {
			continue
		}
		for ; i != nil; i = ctxOf[i.parent] {
			if s.bools[i.done] {
				return true
			}
		}
	}
	return false
}

// block is reached by a goroutine that has to wait for others.
func (x *X) waitForever(s *State) {
	x.blocked = true
	x.park(s)
}

func isTimer(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Timer"
}

func (x *X) onRecv(s *State, ch OpaqueV) {
	if id, ok := chanTimer[ch.id]; ok && s.heap[id] != nil {
		if d := s.heap[id].f["/~d"]; d != nil {
			s.glob["expired"] = d
		}
		if isTimer(s.heap[id].typ) {
			x.setTimer(s, id, true)
		}
	}
	if k, ok := chanDone[ch.id]; ok {
		// the context is done from here on
		s.bools[k] = true
	}
}

// chanDone maps the Done channel of a context to the condition "done".
var chanDone = map[int32]int32{}

func (x *X) typeAssert(s *State, i *ssa.TypeAssert) []*State {
	v, ok := x.val(s, i.X).(IfaceV)
	if !ok {
		x.set(s, i, x.fresh(s, i.Type(), "assert"))
		return one(s)
	}
	put := func(s *State, r Val, ok BoolV) *State {
		if i.CommaOk {
			x.set(s, i, TupleV{[]Val{r, ok}})
		} else {
			x.set(s, i, r)
		}
		return s
	}
	fail := func(s *State) *State {
		if i.CommaOk {
			return put(s, x.zero(s, i.AssertedType), vFalse)
		}
		_, bad := x.oblige(s, vFalse, "type assertion", i.Pos())
		return bad
	}
	good := func(s *State) *State {
		if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			return put(s, v, vTrue)
		}
		if v.dyn != nil {
			return put(s, v.v, vTrue)
		}
		r := x.fresh(s, i.AssertedType, "assert")
		return put(s, r, vTrue)
	}
	var out []*State
	isNil, known := s.truth(v.nil_)
	if known && isNil {
		return one(fail(s))
	}
	if !known {
		t := s.clone()
		if t.assume(v.nil_) {
			out = append(out, fail(t))
		}
		if !s.assume(v.nil_.not()) {
			return out
		}
	}
	if v.dyn != nil {
		var match bool
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(v.dyn, it)
		} else {
			match = types.Identical(v.dyn, i.AssertedType)
		}
		if match {
			return append(out, good(s))
		}
		return append(out, fail(s))
	}
	// unknown dynamic type: an assertion to a type that cannot hold it is
	// decided by the same condition every time
	b := BoolV{kind: bSym, sym: consBool(fmt.Sprintf("is:%d:%s", v.id, types.TypeString(i.AssertedType, nil)))}
	if v.id == 0 {
		b = freshBool()
	}
	t := s.clone()
	if s.assume(b) {
		out = append(out, good(s))
	}
	if t.assume(b.not()) {
		out = append(out, fail(t))
	}
	return out
}

// leafField: address of a field of a struct of another module.
func (x *X) leafField(s *State, p PtrV, st types.Type, i *ssa.FieldAddr) Val {
	su := st.Underlying().(*types.Struct)
	name := su.Field(i.Field).Name()
	o := s.heap[p.obj]
	if o == nil {
		return x.fresh(s, i.Type(), name)
	}
	key := ""
	if p.elem {
		key = elemKey(p.idx)
	}
	_ = key
	return PtrV{obj: p.obj, path: p.path + "/~" + name, elem: p.elem, idx: p.idx, nil_: vFalse}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
