package main

// Linear expressions over symbols and a small polyhedral entailment procedure
// (Fourier-Motzkin with integer tightening). Everything here is conservative:
// "entails" answers true only when it found a proof.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is c + sum k*s. It is immutable.
type Lin struct {
	c int64
	t []term // sorted by symbol, no zero coefficient
}

func K(c int64) Lin { return Lin{c: c} }

func S(s Sym) Lin { return Lin{t: []term{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) sym() (Sym, bool) {
	if len(a.t) == 1 && a.t[0].k == 1 && a.c == 0 {
		return a.t[0].s, true
	}
	return 0, false
}

func (a Lin) String() string {
	var sb strings.Builder
	for i, t := range a.t {
		if i > 0 && t.k >= 0 {
			sb.WriteByte('+')
		}
		if t.k == -1 {
			sb.WriteByte('-')
		} else if t.k != 1 {
			fmt.Fprintf(&sb, "%d*", t.k)
		}
		fmt.Fprintf(&sb, "s%d", t.s)
	}
	if a.c != 0 || len(a.t) == 0 {
		if len(a.t) > 0 && a.c >= 0 {
			sb.WriteByte('+')
		}
		fmt.Fprintf(&sb, "%d", a.c)
	}
	return sb.String()
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

const coefMax = 1 << 61

func addOK(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) || b == 0 {
		return c, true
	}
	return 0, false
}

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return c, true
}

// lincomb returns a + k*b.
func lincomb(a Lin, k int64, b Lin) (Lin, bool) {
	m, ok := mulOK(k, b.c)
	if !ok {
		return Lin{}, false
	}
	c, ok := addOK(a.c, m)
	if !ok {
		return Lin{}, false
	}
	r := Lin{c: c}
	if len(a.t)+len(b.t) > 0 {
		r.t = make([]term, 0, len(a.t)+len(b.t))
	}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			r.t = append(r.t, a.t[i])
			i++
		case i == len(a.t) || b.t[j].s < a.t[i].s:
			v, ok := mulOK(k, b.t[j].k)
			if !ok || v > coefMax || v < -coefMax {
				return Lin{}, false
			}
			if v != 0 {
				r.t = append(r.t, term{b.t[j].s, v})
			}
			j++
		default:
			v, ok := mulOK(k, b.t[j].k)
			if !ok {
				return Lin{}, false
			}
			v, ok = addOK(v, a.t[i].k)
			if !ok || v > coefMax || v < -coefMax {
				return Lin{}, false
			}
			if v != 0 {
				r.t = append(r.t, term{a.t[i].s, v})
			}
			i++
			j++
		}
	}
	return r, true
}

func (a Lin) addc(c int64) Lin {
	r, ok := addOK(a.c, c)
	if !ok {
		panic("lin overflow")
	}
	return Lin{c: r, t: a.t}
}

func must(a Lin, ok bool) Lin {
	if !ok {
		panic("lin overflow")
	}
	return a
}

func add(a, b Lin) Lin                 { return must(lincomb(a, 1, b)) }
func sub(a, b Lin) Lin                 { return must(lincomb(a, -1, b)) }
func neg(a Lin) Lin                    { return must(lincomb(K(0), -1, a)) }
func scale(a Lin, k int64) (Lin, bool) { return lincomb(K(0), k, a) }

// subst replaces symbols.
func (a Lin) subst(m map[Sym]Lin) (Lin, bool) {
	hit := false
	for _, t := range a.t {
		if _, ok := m[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a, true
	}
	r := K(a.c)
	for _, t := range a.t {
		e, ok := m[t.s]
		if !ok {
			e = S(t.s)
		}
		if r, ok = lincomb(r, t.k, e); !ok {
			return Lin{}, false
		}
	}
	return r, true
}

// ---- symbols ----

type symInfo struct {
	name   string
	lo, hi int64
	hasLo  bool
	hasHi  bool
	widen  bool
}

var symtab []symInfo

func newSym(name string, lo, hi int64, hasLo, hasHi bool) Sym {
	symtab = append(symtab, symInfo{name: name, lo: lo, hi: hi, hasLo: hasLo, hasHi: hasHi})
	return Sym(len(symtab) - 1)
}

var hashcons = map[string]Sym{}

// symbols derived from others, or from a content token, stay meaningful as
// long as what they are derived from is
var (
	symDeps = map[Sym][]Sym{}
	symTok  = map[Sym]int32{}
)

// derived is a hash-consed symbol denoting a function of es.
func derived(key string, lo, hi int64, hasLo, hasHi bool, es ...Lin) Sym {
	if s, ok := hashcons[key]; ok {
		return s
	}
	s := consSym(key, lo, hi, hasLo, hasHi)
	var d []Sym
	for _, e := range es {
		for _, t := range e.t {
			d = append(d, t.s)
		}
	}
	symDeps[s] = d
	return s
}

// derivedTok additionally depends on a content token.
func derivedTok(tok int32, key string, lo, hi int64, hasLo, hasHi bool, es ...Lin) Sym {
	s := derived(key, lo, hi, hasLo, hasHi, es...)
	symTok[s] = tok
	return s
}

func consSym(key string, lo, hi int64, hasLo, hasHi bool) Sym {
	if s, ok := hashcons[key]; ok {
		return s
	}
	s := newSym(key, lo, hi, hasLo, hasHi)
	hashcons[key] = s
	return s
}

// lower returns a lower bound of e from the ranges of its symbols.
func lower(e Lin) (i128, bool) {
	r := fromInt(e.c)
	for _, t := range e.t {
		in := &symtab[t.s]
		if t.k > 0 {
			if !in.hasLo {
				return i128{}, false
			}
			r = r.add(mul128(t.k, in.lo))
		} else {
			if !in.hasHi {
				return i128{}, false
			}
			r = r.add(mul128(t.k, in.hi))
		}
	}
	return r, true
}

func nonneg(e Lin) bool {
	l, ok := lower(e)
	return ok && l.hi >= 0
}

// ---- 128 bit constants ----

type i128 struct {
	hi int64
	lo uint64
}

func fromInt(a int64) i128 { return i128{a >> 63, uint64(a)} }

func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return i128{a.hi + b.hi + int64(c), lo}
}

func (a i128) neg() i128 {
	lo, c := bits.Add64(^a.lo, 1, 0)
	return i128{^a.hi + int64(c), lo}
}

func mul128(a, b int64) i128 {
	hi, lo := bits.Mul64(uint64(a), uint64(b))
	h := int64(hi)
	if a < 0 {
		h -= b
	}
	if b < 0 {
		h -= a
	}
	return i128{h, lo}
}

// mul multiplies by a positive k; ok is false when the result gets too big.
func (a i128) mul(k int64) (i128, bool) {
	n := a.hi < 0
	if n {
		a = a.neg()
	}
	if a.hi != 0 && bits.Len64(uint64(a.hi))+bits.Len64(uint64(k)) > 50 {
		return i128{}, false
	}
	h, l := bits.Mul64(a.lo, uint64(k))
	r := i128{a.hi*k + int64(h), l}
	if r.hi < 0 || bits.Len64(uint64(r.hi)) > 58 {
		return i128{}, false
	}
	if n {
		r = r.neg()
	}
	return r, true
}

// floordiv divides by a positive g.
func (a i128) floordiv(g int64) i128 {
	if g == 1 {
		return a
	}
	n := a.hi < 0
	if n {
		// floor(-x/g) = -ceil(x/g) = -((x+g-1)/g)
		a = a.neg().add(fromInt(g - 1))
	}
	qh := uint64(a.hi) / uint64(g)
	rh := uint64(a.hi) % uint64(g)
	ql, _ := bits.Div64(rh, a.lo, uint64(g))
	r := i128{int64(qh), ql}
	if n {
		r = r.neg()
	}
	return r
}

// ---- Fourier-Motzkin ----

type cons struct { // c + t >= 0
	c i128
	t []term
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (c *cons) norm() {
	var g int64
	for _, t := range c.t {
		g = gcd(g, t.k)
		if g == 1 {
			return
		}
	}
	if g > 1 {
		nt := make([]term, len(c.t))
		for i, t := range c.t {
			nt[i] = term{t.s, t.k / g}
		}
		c.t = nt
		c.c = c.c.floordiv(g)
	}
}

func toCons(e Lin) cons {
	c := cons{fromInt(e.c), e.t}
	c.norm()
	return c
}

var fmCalls, fmGiveUps int

// infeasible reports whether the constraints (each >= 0) have no integer
// solution, as far as rational elimination with tightening can tell.
// infeasible reports whether the constraints have no rational solution (or
// an obviously non-integer one). When it answers no it may return a solution.
func infeasible(cs []cons) (bool, map[Sym]float64) {
	fmCalls++
	type elim struct {
		s      Sym
		ps, ns []cons
	}
	var steps []elim
	cur := cs
	for {
		// dedupe: keep the strongest constraint per direction
		best := make(map[string]int, len(cur))
		out := make([]cons, 0, len(cur))
		for _, c := range cur {
			if len(c.t) == 0 {
				if c.c.hi < 0 {
					return true, nil
				}
				continue
			}
			k := dirKey(c.t)
			if i, ok := best[k]; ok {
				d := c.c.add(out[i].c.neg())
				if d.hi < 0 {
					out[i] = c
				}
				continue
			}
			best[k] = len(out)
			out = append(out, c)
		}
		cur = out
		if len(cur) == 0 {
			break
		}
		if len(cur) > 600 {
			fmGiveUps++
			return false, nil
		}
		// an equality?
		eqP, eqN := -1, -1
		var pick Sym
		for i, c := range cur {
			if len(c.t) == 1 {
				continue
			}
			if k, ok := best[negKey(c.t)]; ok {
				d := c.c.add(cur[k].c)
				if d.hi < 0 {
					return true, nil
				}
				if d.hi == 0 && d.lo == 0 {
					eqP, eqN = i, k
					bk := int64(0)
					for _, t := range c.t {
						a := t.k
						if a < 0 {
							a = -a
						}
						if bk == 0 || a < bk {
							bk, pick = a, t.s
						}
					}
					if coef(c.t, pick) < 0 {
						eqP, eqN = eqN, eqP
					}
					break
				}
			}
		}
		var ps, ns, rest []cons
		if eqP >= 0 {
			p, n := cur[eqP], cur[eqN]
			ps, ns = []cons{p}, []cons{n}
			for i, c := range cur {
				if i == eqP || i == eqN {
					continue
				}
				k := coef(c.t, pick)
				switch {
				case k > 0:
					if r, ok := combine(c, n, pick); ok {
						rest = append(rest, r)
					}
				case k < 0:
					if r, ok := combine(p, c, pick); ok {
						rest = append(rest, r)
					}
				default:
					rest = append(rest, c)
				}
			}
			steps = append(steps, elim{pick, ps, ns})
			cur = rest
			continue
		}
		type cnt struct{ p, n int }
		counts := make(map[Sym]cnt, 16)
		for _, c := range cur {
			for _, t := range c.t {
				x := counts[t.s]
				if t.k > 0 {
					x.p++
				} else {
					x.n++
				}
				counts[t.s] = x
			}
		}
		bestCost := 1 << 60
		for s, x := range counts {
			cost := x.p*x.n - x.p - x.n
			if cost < bestCost || cost == bestCost && s < pick {
				bestCost, pick = cost, s
			}
		}
		for _, c := range cur {
			k := coef(c.t, pick)
			switch {
			case k > 0:
				ps = append(ps, c)
			case k < 0:
				ns = append(ns, c)
			default:
				rest = append(rest, c)
			}
		}
		steps = append(steps, elim{pick, ps, ns})
		for _, p := range ps {
			for _, n := range ns {
				r, ok := combine(p, n, pick)
				if !ok {
					continue // dropping a consequence is conservative
				}
				rest = append(rest, r)
			}
		}
		cur = rest
	}
	// a solution, by substitution backwards
	sol := make(map[Sym]float64, len(steps))
	for i := len(steps) - 1; i >= 0; i-- {
		st := steps[i]
		lo, hi := math.Inf(-1), math.Inf(1)
		for _, c := range st.ps {
			v, k := c.c.float(), 0.0
			for _, t := range c.t {
				if t.s == st.s {
					k = float64(t.k)
				} else {
					v += float64(t.k) * sol[t.s]
				}
			}
			lo = math.Max(lo, -v/k)
		}
		for _, c := range st.ns {
			v, k := c.c.float(), 0.0
			for _, t := range c.t {
				if t.s == st.s {
					k = float64(t.k)
				} else {
					v += float64(t.k) * sol[t.s]
				}
			}
			hi = math.Min(hi, -v/k)
		}
		if lo > hi+1e-6 {
			return false, nil
		}
		var v float64
		switch {
		case !math.IsInf(lo, 0):
			v = math.Ceil(lo - 1e-9)
			if v > hi {
				v = lo
			}
		case !math.IsInf(hi, 0):
			v = math.Floor(hi + 1e-9)
			if v > 0 {
				v = 0
			}
		}
		sol[st.s] = v
	}
	return false, sol
}

func (a i128) float() float64 {
	if a.hi < 0 {
		n := a.neg()
		return -(float64(uint64(n.hi))*18446744073709551616.0 + float64(n.lo))
	}
	return float64(uint64(a.hi))*18446744073709551616.0 + float64(a.lo)
}

func negKey(t []term) string {
	n := make([]term, len(t))
	for i, x := range t {
		n[i] = term{x.s, -x.k}
	}
	return dirKey(n)
}

// at is the value of e at a point; ok is false if a symbol has none.
func (e Lin) at(m map[Sym]float64) (float64, bool) {
	v := float64(e.c)
	for _, t := range e.t {
		x, ok := m[t.s]
		if !ok {
			return 0, false
		}
		v += float64(t.k) * x
	}
	return v, true
}

func dirKey(t []term) string {
	b := make([]byte, 0, len(t)*8)
	for _, x := range t {
		b = append(b, byte(x.s), byte(x.s>>8), byte(x.s>>16), byte(x.k), byte(x.k>>8), byte(x.k>>16), byte(x.k>>24), byte(x.k>>32), byte(x.k>>40))
	}
	return string(b)
}

func coef(t []term, s Sym) int64 {
	i := sort.Search(len(t), func(i int) bool { return t[i].s >= s })
	if i < len(t) && t[i].s == s {
		return t[i].k
	}
	return 0
}

func combine(p, n cons, s Sym) (cons, bool) {
	kp, kn := coef(p.t, s), -coef(n.t, s)
	g := gcd(kp, kn)
	a, b := kn/g, kp/g // a*p + b*n
	pc, ok := p.c.mul(a)
	if !ok {
		return cons{}, false
	}
	nc, ok := n.c.mul(b)
	if !ok {
		return cons{}, false
	}
	r := cons{c: pc.add(nc)}
	i, j := 0, 0
	for i < len(p.t) || j < len(n.t) {
		var v term
		var ok1 bool
		switch {
		case j == len(n.t) || i < len(p.t) && p.t[i].s < n.t[j].s:
			v.s = p.t[i].s
			v.k, ok1 = mulOK(a, p.t[i].k)
			i++
		case i == len(p.t) || n.t[j].s < p.t[i].s:
			v.s = n.t[j].s
			v.k, ok1 = mulOK(b, n.t[j].k)
			j++
		default:
			v.s = p.t[i].s
			x, o1 := mulOK(a, p.t[i].k)
			y, o2 := mulOK(b, n.t[j].k)
			var o3 bool
			v.k, o3 = addOK(x, y)
			ok1 = o1 && o2 && o3
			i++
			j++
		}
		if !ok1 || v.k > coefMax || v.k < -coefMax {
			return cons{}, false
		}
		if v.k != 0 {
			r.t = append(r.t, v)
		}
	}
	r.norm()
	return r, true
}

// ---- fact sets ----

// Facts is an immutable set of inequalities (each >= 0) and disequalities.
type Facts struct {
	ge    []Lin
	ne    []Lin
	index map[string]bool
	cache map[string]bool
	dead  bool // contradictory
	cl    []clause

	samples []map[Sym]float64 // points which satisfy the facts about their symbols
}

// An alternative is a conjunction of facts; of a clause one alternative holds.
type alternative struct {
	ge, ne []Lin
}

type clause struct {
	alt [2]alternative
	key string
}

const maxClauses = 4

func (a alternative) String() string { return fmt.Sprint(a.ge, a.ne) }

func (a alternative) empty() bool { return len(a.ge)+len(a.ne) == 0 }

// restrict drops what is said about other symbols.
func (a alternative) restrict(live map[Sym]bool) (r alternative) {
	keep := func(es []Lin) (out []Lin) {
	next:
		for _, e := range es {
			for _, t := range e.t {
				if !live[t.s] {
					continue next
				}
			}
			out = append(out, e)
		}
		return
	}
	return alternative{keep(a.ge), keep(a.ne)}
}

func (f *Facts) refutesAlt(a alternative) bool {
	for _, e := range a.ge {
		if f.entails(neg(e).addc(-1)) {
			return true
		}
	}
	for _, e := range a.ne {
		if f.eqz(e) {
			return true
		}
	}
	return false
}

func (f *Facts) withClause(a, b alternative) *Facts {
	if a.empty() || b.empty() {
		return f
	}
	c := clause{[2]alternative{a, b}, a.String() + "|" + b.String()}
	for _, d := range f.cl {
		if d.key == c.key {
			return f
		}
	}
	n := *f
	n.cl = append(f.cl[:len(f.cl):len(f.cl)], c)
	if len(n.cl) > maxClauses {
		n.cl = n.cl[1:]
	}
	return &n
}

func (f *Facts) hasClause(key string) bool {
	for _, c := range f.cl {
		if c.key == key {
			return true
		}
	}
	return false
}

// propagate adds the other alternative of clauses of which one became
// impossible. It reports false when both are.
func (f *Facts) propagate() (*Facts, bool) {
	for i := 0; i < len(f.cl); i++ {
		c := f.cl[i]
		for k := range c.alt {
			if !f.refutesAlt(c.alt[k]) {
				continue
			}
			other := c.alt[1-k]
			if f.refutesAlt(other) {
				return f, false
			}
			n := *f
			n.cl = append(append([]clause(nil), f.cl[:i]...), f.cl[i+1:]...)
			f = n.with(other.ge...)
			for _, e := range other.ne {
				f = f.withNe(e)
			}
			i = -1
			break
		}
	}
	return f, true
}

func newFacts() *Facts { return &Facts{index: map[string]bool{}, cache: map[string]bool{}} }

func (f *Facts) has(e Lin) bool { return f.index[e.String()] }

// with returns the facts extended by e >= 0.
func (f *Facts) with(es ...Lin) *Facts {
	var n *Facts
	var added []Lin
	for _, e := range es {
		e = tighten(e)
		if nonneg(e) {
			continue
		}
		if n == nil {
			if f.has(e) {
				continue
			}
			n = &Facts{ge: append([]Lin(nil), f.ge...), ne: f.ne, index: make(map[string]bool, len(f.index)+1), cache: map[string]bool{}, dead: f.dead, cl: f.cl}
			for k := range f.index {
				n.index[k] = true
			}
		}
		if n.has(e) {
			continue
		}
		// drop weaker facts of the same direction
		w := n.ge[:0:0]
		skip := false
		for _, g := range n.ge {
			d, ok := lincomb(g, -1, e)
			if ok && d.isConst() {
				if d.c >= 0 { // g = e + d: g is weaker
					delete(n.index, g.String())
					continue
				}
				skip = true
			}
			w = append(w, g)
		}
		n.ge = w
		if skip {
			continue
		}
		n.ge = append(n.ge, e)
		n.index[e.String()] = true
		added = append(added, e)
	}
	if n == nil {
		return f
	}
next:
	for _, m := range f.samples {
		for _, e := range added {
			if v, ok := e.at(m); !ok || v < -0.5 {
				continue next
			}
		}
		n.samples = append(n.samples, m)
	}
	// disequalities may now be decided
	if len(n.ne) > 0 {
		var keep []Lin
		for _, d := range n.ne {
			switch {
			case n.entails(d): // d >= 0, d != 0
				n = &Facts{ge: append(n.ge[:len(n.ge):len(n.ge)], d.addc(-1)), index: n.index, cache: map[string]bool{}, dead: n.dead, cl: n.cl}
				n.index[d.addc(-1).String()] = true
			case n.entails(neg(d)):
				e := neg(d).addc(-1)
				n = &Facts{ge: append(n.ge[:len(n.ge):len(n.ge)], e), index: n.index, cache: map[string]bool{}, dead: n.dead, cl: n.cl}
				n.index[e.String()] = true
			default:
				keep = append(keep, d)
			}
		}
		n.ne = keep
	}
	return n
}

// prune drops facts which follow from one or two others.
func (f *Facts) prune() *Facts {
	if len(f.ge) < 4 {
		return f
	}
	alive := make([]bool, len(f.ge))
	dirs := make(map[string]int, len(f.ge))
	for i, g := range f.ge {
		alive[i] = true
		dirs[dirKey(g.t)] = i
	}
	order := make([]int, len(f.ge))
	for i := range order {
		order[i] = i
	}
	// the long ones first
	sort.SliceStable(order, func(a, b int) bool { return len(f.ge[order[a]].t) > len(f.ge[order[b]].t) })
	n := 0
	for _, i := range order {
		e := f.ge[i]
		red := false
		for k, g := range f.ge {
			if k == i || !alive[k] {
				continue
			}
			hit := false
			for _, t := range g.t {
				if c := coef(e.t, t.s); c != 0 && (c > 0) == (t.k > 0) {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			d, ok := lincomb(e, -1, g)
			if !ok {
				continue
			}
			if nonneg(d) {
				red = true
				break
			}
			if h, ok := dirs[dirKey(d.t)]; ok && h != i && h != k && alive[h] && f.ge[h].c <= d.c {
				red = true
				break
			}
		}
		if red {
			alive[i] = false
			n++
		}
	}
	if n == 0 {
		return f
	}
	r := newFacts()
	r.ne, r.dead, r.samples, r.cl = f.ne, f.dead, f.samples, f.cl
	for i, g := range f.ge {
		if alive[i] {
			r.ge = append(r.ge, g)
			r.index[g.String()] = true
		}
	}
	return r
}

func (f *Facts) withEq(e Lin) *Facts {
	if e.isConst() && e.c == 0 {
		return f
	}
	return f.with(e, neg(e))
}

func (f *Facts) withNe(e Lin) *Facts {
	if f.entails(e) {
		return f.with(e.addc(-1))
	}
	if f.entails(neg(e)) {
		return f.with(neg(e).addc(-1))
	}
	n := *f
	n.ne = append(f.ne[:len(f.ne):len(f.ne)], e)
	return &n
}

func tighten(e Lin) Lin {
	var g int64
	for _, t := range e.t {
		g = gcd(g, t.k)
	}
	if g <= 1 {
		return e
	}
	r := Lin{t: make([]term, len(e.t))}
	for i, t := range e.t {
		r.t[i] = term{t.s, t.k / g}
	}
	q := e.c / g
	if e.c%g != 0 && e.c < 0 {
		q--
	}
	r.c = q
	return r
}

// entails reports whether e >= 0 follows.
func (f *Facts) entails(e Lin) bool {
	if e.isConst() {
		return e.c >= 0 || f.dead
	}
	if nonneg(e) {
		return true
	}
	key := e.String()
	if r, ok := f.cache[key]; ok {
		return r
	}
	r := f.entails1(e)
	f.cache[key] = r
	return r
}

func (f *Facts) entails1(e Lin) bool {
	for _, g := range f.ge {
		if d, ok := lincomb(e, -1, g); ok && nonneg(d) {
			return true
		}
	}
	for _, m := range f.samples {
		if v, ok := e.at(m); ok && v < -0.5 {
			return false // there is a counterexample
		}
	}
	ng, ok := scale(e, -1)
	if !ok {
		return false
	}
	c, ok := addOK(ng.c, -1)
	if !ok {
		return false
	}
	ng.c = c
	return f.refutes(ng)
}

// refutes reports whether e >= 0 contradicts the facts.
func (f *Facts) refutes(e Lin) bool {
	if f.dead {
		return true
	}
	// relevant component
	in := map[Sym]bool{}
	var queue []Sym
	push := func(t []term) {
		for _, x := range t {
			if !in[x.s] {
				in[x.s] = true
				queue = append(queue, x.s)
			}
		}
	}
	push(e.t)
	used := make([]bool, len(f.ge))
	cs := []cons{toCons(e)}
	for changed := true; changed; {
		changed = false
		for i, g := range f.ge {
			if used[i] {
				continue
			}
			for _, x := range g.t {
				if in[x.s] {
					used[i] = true
					cs = append(cs, toCons(g))
					push(g.t)
					changed = true
					break
				}
			}
		}
	}
	for s := range in {
		si := &symtab[s]
		if si.hasLo {
			cs = append(cs, cons{fromInt(si.lo).neg(), []term{{s, 1}}})
		}
		if si.hasHi {
			cs = append(cs, cons{fromInt(si.hi), []term{{s, -1}}})
		}
	}
	no, sol := infeasible(cs)
	if !no && sol != nil {
		good := true
		for i, g := range f.ge {
			if used[i] {
				if v, ok := g.at(sol); !ok || v < -0.5 {
					good = false
					break
				}
			}
		}
		if good {
			if len(f.samples) >= 12 {
				f.samples = append(f.samples[:0:0], f.samples[1:]...)
			}
			f.samples = append(f.samples, sol)
		}
	}
	return no
}

// eqz reports whether e == 0 follows.
// bounds is the interval the facts give directly for e.
func (f *Facts) bounds(e Lin) (lo, hi int64, hasLo, hasHi bool) {
	if e.isConst() {
		return e.c, e.c, true, true
	}
	n, ok := scale(Lin{t: e.t}, -1)
	if !ok {
		return
	}
	if len(e.t) == 1 && e.t[0].k == 1 {
		i := symtab[e.t[0].s]
		lo, hasLo, hi, hasHi = i.lo, i.hasLo, i.hi, i.hasHi
	}
	for _, g := range f.ge {
		if len(g.t) != len(e.t) {
			continue
		}
		if d := (Lin{t: g.t}); d.eq(Lin{t: e.t}) { // e.t >= -g.c
			if !hasLo || -g.c > lo {
				lo, hasLo = -g.c, true
			}
		} else if d.eq(n) { // e.t <= g.c
			if !hasHi || g.c < hi {
				hi, hasHi = g.c, true
			}
		}
	}
	const lim = 1 << 40
	if lo < -lim || lo > lim {
		hasLo = false
	}
	if hi < -lim || hi > lim {
		hasHi = false
	}
	return lo + e.c, hi + e.c, hasLo, hasHi
}

func (f *Facts) eqz(e Lin) bool {
	if e.isConst() {
		return e.c == 0
	}
	return f.entails(e) && f.entails(neg(e))
}

// nez reports whether e != 0 follows.
func (f *Facts) nez(e Lin) bool {
	if e.isConst() {
		return e.c != 0
	}
	for _, d := range f.ne {
		if d.eq(e) || d.eq(neg(e)) {
			return true
		}
	}
	return f.entails(e.addc(-1)) || f.entails(neg(e).addc(-1))
}

// project drops the symbols that are not live, keeping what follows for the
// others as far as that is cheap.
func (f *Facts) project(live map[Sym]bool) *Facts { return f.projectN(live, 3) }

func (f *Facts) projectN(live map[Sym]bool, limit int) *Facts {
	lossy := limit > 3
	dead := f.dead
	ge := f.ge
	for {
		type cnt struct{ p, n int }
		counts := map[Sym]*cnt{}
		for _, g := range ge {
			for _, t := range g.t {
				if live[t.s] {
					continue
				}
				x := counts[t.s]
				if x == nil {
					x = &cnt{}
					counts[t.s] = x
				}
				if t.k > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		var pick Sym = -1
		best := 1 << 60
		for s, x := range counts {
			p, n := x.p, x.n
			if symtab[s].hasLo {
				p++
			}
			if symtab[s].hasHi {
				n++
			}
			cost := p*n - x.p - x.n
			if cost < best || cost == best && s < pick {
				best, pick = cost, s
			}
		}
		if pick < 0 || best > limit && !lossy || len(ge) > 400 {
			break
		}
		short := best > limit // keep the short consequences only
		var ps, ns []Lin
		var rest []Lin
		for _, g := range ge {
			k := coef(g.t, pick)
			switch {
			case k > 0:
				ps = append(ps, g)
			case k < 0:
				ns = append(ns, g)
			default:
				rest = append(rest, g)
			}
		}
		si := &symtab[pick]
		if si.hasLo && si.lo != math.MinInt64 {
			ps = append(ps, Lin{c: -si.lo, t: []term{{pick, 1}}})
		}
		if si.hasHi {
			ns = append(ns, Lin{c: si.hi, t: []term{{pick, -1}}})
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := coef(p.t, pick), -coef(n.t, pick)
				g := gcd(kp, kn)
				a, ok := scale(p, kn/g)
				if !ok {
					continue
				}
				r, ok := lincomb(a, kp/g, n)
				if !ok {
					continue
				}
				r = tighten(r)
				if nonneg(r) {
					continue
				}
				if r.isConst() {
					dead = true
					continue
				}
				if lossy && (r.c > 1<<40 || r.c < -(1<<40)) && p.c < 1<<40 && n.c < 1<<40 {
					continue
				}
				if lossy && (r.c > 1<<40 || r.c < -(1<<40)) && (len(p.t) == 1 || len(n.t) == 1) && len(p.t)+len(n.t) > 2 {
					continue // bounds of types say little about other symbols
				}
				if short && len(r.t) > 2 && len(p.t) > 1 && len(n.t) > 1 {
					continue
				}
				rest = append(rest, r)
			}
		}
		if lossy {
			best := map[string]int{}
			ge = rest[:0:0]
			for _, g := range rest {
				k := dirKey(g.t)
				if i, ok := best[k]; ok {
					if g.c < ge[i].c {
						ge[i] = g
					}
					continue
				}
				best[k] = len(ge)
				ge = append(ge, g)
			}
		} else {
			ge = rest
		}
	}
	n := newFacts()
	n.dead = dead
	for _, g := range ge {
		k := g.String()
		if !n.index[k] {
			n.index[k] = true
			n.ge = append(n.ge, g)
		}
	}
	for _, d := range f.ne {
		ok := true
		for _, t := range d.t {
			if !live[t.s] {
				ok = false
			}
		}
		if ok {
			n.ne = append(n.ne, d)
		}
	}
	for _, c := range f.cl {
		n = n.withClause(c.alt[0].restrict(live), c.alt[1].restrict(live))
	}
	return n
}
