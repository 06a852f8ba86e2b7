package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inRange reports whether e provably fits t.
func (x *X) inRange(s *State, e Lin, t types.Type) bool {
	b, signed, ok := intRange(t)
	if !ok {
		return false
	}
	f := s.facts
	if signed {
		if b == 64 {
			lo, ok := lower(e)
			return (ok && lo.add(fromInt(1<<62)).add(fromInt(1<<62)).hi >= 0 || f.entails(must2(e, -1<<63))) && x.leMax64(s, e)
		}
		return f.entails(e.addc(1<<(b-1))) && f.le(e, K(1<<(b-1)-1))
	}
	if !f.entails(e) {
		return false
	}
	if b == 64 {
		return x.leMaxU64(s, e)
	}
	return f.le(e, K(1<<b-1))
}

// must2 is e - lo when that does not overflow.
func must2(e Lin, lo int64) Lin {
	if r, ok := addOK(e.c, -(lo + 1)); ok {
		if r2, ok := addOK(r, 1); ok {
			return Lin{c: r2, t: e.t}
		}
	}
	return Lin{c: 1<<63 - 1, t: e.t} // e - lo is even larger
}

// leMax64: e <= 2^63-1.
func (x *X) leMax64(s *State, e Lin) bool {
	if e.c < 0 {
		e.c = 0 // the bound holds with the smaller slack already
	}
	d, ok := lincomb(K(1<<63-1), -1, e)
	if !ok {
		return false
	}
	return s.facts.entails(d)
}

// leMaxU64: e <= 2^64-1. An uint64 symbol has no representable upper bound,
// but plain symbols and sums known to stay below 2^63 are fine.
func (x *X) leMaxU64(s *State, e Lin) bool {
	if len(e.t) == 1 && e.t[0].k == 1 && e.c <= 0 && !symtab[e.t[0].s].hasHi {
		return true
	}
	if x.leMax64(s, e) {
		return true
	}
	// e = g*r+c with a representable bound for r
	if len(e.t) > 0 {
		g := int64(0)
		for _, t := range e.t {
			g = gcd64(g, t.k)
		}
		if g >= 4 {
			r := Lin{}
			for _, t := range e.t {
				r.t = append(r.t, term{t.s, t.k / g})
			}
			q := e.c / g
			if e.c%g < 0 {
				q--
			}
			r.c = q // e = g*r + m with 0 <= m < g
			if s.facts.le(r, K(int64((1<<64-1-uint64(e.c-q*g))/uint64(g)))) {
				return true
			}
		}
	}
	// e <= some uint64 symbol of e
	for _, t := range e.t {
		if t.k >= 1 && !symtab[t.s].hasHi && s.facts.le(e, S(t.s)) {
			return true
		}
	}
	return false
}

// norm is the value of e computed in type t.
func (x *X) norm(s *State, e Lin, t types.Type, what string) IntV {
	if e.isConst() {
		b, signed, _ := intRange(t)
		if b < 64 {
			m := e.c & (1<<b - 1)
			if signed && m>>(b-1) != 0 {
				m -= 1 << b
			}
			return IntV{K(m)}
		}
		if signed || e.c >= 0 {
			return IntV{e}
		}
	}
	if x.inRange(s, e, t) {
		return IntV{e}
	}
	b, signed, _ := intRange(t)
	// wrapping is a function of the exact value
	if o, ok := convOf[only(e)]; ok && o.bits >= b {
		if x.inRange(s, o.e, t) {
			return IntV{o.e}
		}
		if b != 8 || signed || !s.facts.entails(e) {
			e = o.e
		}
	}
	if b == 8 && !signed && s.facts.entails(e) {
		u := types.Typ[types.Uint64]
		if m, ok := lincomb(e, -256, x.floordiv(s, e, 256, u)); ok {
			return IntV{m}
		}
	}
	if x.trace2 {
		fmt.Printf("WRAP %s %s nonneg=%v\n", what, e, s.facts.entails(e))
	}
	lo, hi, hasHi := typeBounds(t)
	y := derived(fmt.Sprintf("wrap%d%v(%s)", b, signed, e), lo, hi, true, hasHi, e)
	convOf[y] = conv{e, b}
	return IntV{S(y)}
}

type conv struct {
	e    Lin
	bits int
}

var convOf = map[Sym]conv{}

func only(e Lin) Sym {
	if s, ok := e.sym(); ok {
		return s
	}
	return -1
}

func (x *X) binop(s *State, i *ssa.BinOp) []*State {
	a, b := x.val(s, i.X), x.val(s, i.Y)
	switch i.Op {
	case token.EQL:
		x.set(s, i, x.eqVals(s, a, b))
		return one(s)
	case token.NEQ:
		x.set(s, i, x.eqVals(s, a, b).not())
		return one(s)
	}
	if sa, ok := a.(StrV); ok {
		if sb, ok := b.(StrV); ok {
			if i.Op == token.ADD {
				x.set(s, i, x.concat(s, sa, sb))
			} else {
				if sa.k != nil && sb.k != nil {
					p, q := *sa.k, *sb.k
					r := map[token.Token]bool{token.LSS: p < q, token.LEQ: p <= q, token.GTR: p > q, token.GEQ: p >= q}[i.Op]
					x.set(s, i, mkBool(r))
				} else {
					x.set(s, i, freshBool())
				}
			}
			return one(s)
		}
	}
	ia, ok1 := a.(IntV)
	ib, ok2 := b.(IntV)
	if !ok1 || !ok2 {
		x.set(s, i, x.fresh(s, i.Type(), "op"))
		return one(s)
	}
	var bad []*State
	switch i.Op {
	case token.QUO, token.REM:
		s, bad = x.obliges(s, "division by zero", i.Pos(), eq(ib.e).not())
	case token.SHL, token.SHR:
		if _, signed, ok := intRange(i.Y.Type()); ok && signed {
			s, bad = x.obliges(s, "negative shift", i.Pos(), ge(ib.e))
		}
	}
	if s != nil {
		x.set(s, i, x.arith(s, i.Op, ia.e, ib.e, i.X.Type(), i.Type()))
	}
	return withAlive(s, bad)
}

func (x *X) arith(s *State, op token.Token, a, b Lin, at, t types.Type) Val {
	f := s.facts
	unk := func(name string) Val {
		lo, hi, hasHi := typeBounds(t)
		return IntV{S(derived(fmt.Sprintf("%s:%s:%s:%s", name, t, a, b), lo, hi, true, hasHi, a, b))}
	}
	width, signed, _ := intRange(at)
	switch op {
	case token.LSS:
		return x.cmp(f, sub(b, a).addc(-1))
	case token.LEQ:
		return x.cmp(f, sub(b, a))
	case token.GTR:
		return x.cmp(f, sub(a, b).addc(-1))
	case token.GEQ:
		return x.cmp(f, sub(a, b))
	case token.ADD:
		if e, ok := lincomb(a, 1, b); ok {
			if len(e.t) > 1 {
				if _, isByte := byteOf[e.t[0].s]; isByte {
					e = x.gatherBE(s, spreadBE(e))
				}
			}
			if !signed && width == 64 && x.leMaxU64(s, e) {
				return IntV{e} // both operands are non-negative
			}
			return x.norm(s, e, t, "add")
		}
		return unk("add")
	case token.SUB:
		if e, ok := lincomb(a, -1, b); ok {
			return x.norm(s, e, t, "sub")
		}
		return unk("sub")
	case token.MUL:
		if !b.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if e, ok := scale(a, b.c); ok {
				return x.norm(s, e, t, "mul")
			}
		}
		return unk("mul")
	case token.QUO:
		if a.isConst() && b.isConst() && b.c != 0 {
			return IntV{K(a.c / b.c)}
		}
		if b.isConst() && b.c > 0 && f.entails(a) {
			return IntV{x.floordiv(s, a, b.c, t)}
		}
		return unk("div")
	case token.REM:
		if a.isConst() && b.isConst() && b.c != 0 {
			return IntV{K(a.c % b.c)}
		}
		if f.entails(a) && f.entails(b.addc(-1)) {
			if f.le(a, b.addc(-1)) {
				return IntV{a}
			}
			if b.isConst() {
				q := x.floordiv(s, a, b.c, t)
				if m, ok := lincomb(a, -b.c, q); ok {
					return IntV{m}
				}
			}
			if f.le(a, must(lincomb(b.addc(-1), 1, b))) {
				// a < 2b: the remainder is a or a-b
				if f.le(b, a) {
					return IntV{sub(a, b)}
				}
			}
			y := derived(fmt.Sprintf("mod:%s:%s", a, b), 0, 0, true, false, a, b)
			s.addFact(sub(b, S(y)).addc(-1), sub(a, S(y)))
			return IntV{S(y)}
		}
		return unk("rem")
	case token.SHL:
		if b.isConst() {
			if b.c >= int64(width) {
				return IntV{K(0)}
			}
			if a.isConst() && bits.Len64(uint64(a.c))+int(b.c) < 63 {
				return x.norm(s, K(a.c<<b.c), t, "shl")
			}
			if b.c < 62 {
				if e, ok := scale(a, 1<<b.c); ok {
					if !signed && width == 64 && x.leMaxU64(s, e) {
						return IntV{e}
					}
					return x.norm(s, e, t, "shl")
				}
			}
			if a.isConst() && !signed && width == 64 && a.c > 0 && a.c <= 3 && b.c >= 62 {
				if c := uint64(a.c) << b.c; c > 1<<62 {
					return IntV{bigConst(c)}
				}
				return IntV{K(1 << 62)}
			}
		}
		return unk("shl")
	case token.SHR:
		if b.isConst() {
			if b.c >= int64(width) && !signed {
				return IntV{K(0)}
			}
			if b.c >= 64 {
				return unk("shr")
			}
			if a.isConst() {
				return IntV{K(a.c >> b.c)}
			}
			if b.c < 62 && f.entails(a) {
				return IntV{x.floordiv(s, a, 1<<b.c, t)}
			}
		}
		v := unk("shr").(IntV)
		if f.entails(a) {
			s.addFact(v.e, sub(a, v.e))
		}
		return v
	case token.AND:
		if !b.isConst() {
			a, b = b, a
		}
		if a.isConst() && b.isConst() {
			return x.norm(s, K(a.c&b.c), t, "and")
		}
		for _, m := range [][2]Lin{{a, b}, {b, a}} {
			// a number below the lowest bit of a large mask
			if c, ok := bigValue(m[1]); ok && m[0].isConst() {
				if c &= uint64(m[0].c); c <= 1<<62 {
					return IntV{K(int64(c))}
				}
				return IntV{bigConst(c)}
			} else if ok && f.entails(m[0]) && c != 0 {
				if low := c & -c; low >= 1<<62 && f.le(m[0], K(1<<62-1)) || low < 1<<62 && f.le(m[0], K(int64(low-1))) {
					return IntV{K(0)}
				}
			}
		}
		if b.isConst() && b.c >= 0 {
			m := b.c
			if m&(m+1) == 0 && f.entails(a) { // low bits
				if f.le(a, K(m)) {
					return IntV{a}
				}
				q := x.floordiv(s, a, m+1, t)
				if r, ok := lincomb(a, -(m + 1), q); ok {
					return IntV{r}
				}
			}
			if m == 0 {
				return IntV{K(0)}
			}
			if f.entails(a) && f.le(a, K(m&-m-1)) {
				return IntV{K(0)}
			}
			// one bit
			y := derived(fmt.Sprintf("and:%s:%d", a, m), 0, m, true, true, a)
			if m&(m-1) == 0 {
				if m < 1<<61 && f.entails(a) && f.le(a, K(2*m-1)) {
					// the highest bit
					if e, ok := scale(x.floordiv(s, a, m, t), m); ok {
						return IntV{e}
					}
				}
				// y is 0 or m
				z := derived(fmt.Sprintf("bit:%s:%d", a, m), 0, 1, true, true, a)
				if e, ok := scale(S(z), m); ok {
					return IntV{e}
				}
			}
			if f.entails(a) {
				s.addFact(sub(a, S(y)))
			}
			return IntV{S(y)}
		}
		v := unk("and").(IntV)
		if f.entails(a) && f.entails(b) {
			s.addFact(v.e, sub(a, v.e), sub(b, v.e))
		}
		return v
	case token.OR, token.XOR:
		if a.isConst() && b.isConst() {
			if op == token.OR {
				return x.norm(s, K(a.c|b.c), t, "or")
			}
			return x.norm(s, K(a.c^b.c), t, "xor")
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return IntV{a}
		}
		if op == token.OR && b.isConst() && b.c > 0 && f.entails(a) {
			// disjoint bits: low bits of a below a high mask
			low := b.c & -b.c
			if f.le(a, K(low-1)) {
				return x.norm(s, a.addc(b.c), t, "or")
			}
			if width < 63 && b.c == (1<<width-1)&^(low-1) {
				// all high bits are set: the result is the mask plus the low bits
				q := x.floordiv(s, a, low, t)
				if r, ok := lincomb(a, -low, q); ok {
					return IntV{r.addc(b.c)}
				}
			}
			if low == b.c { // a single bit
				z := x.arith(s, token.AND, a, b, at, t).(IntV)
				if e, ok := lincomb(a, -1, z.e); ok {
					return x.norm(s, e.addc(b.c), t, "or")
				}
			}
		}
		if !signed || width == 64 {
			if e, ok := x.joinBits(s, a, b); ok {
				return x.norm(s, e, t, "or")
			}
		}
		v := unk(op.String()).(IntV)
		return v
	case token.AND_NOT:
		if a.isConst() && b.isConst() {
			return x.norm(s, K(a.c&^b.c), t, "andnot")
		}
		v := unk("andnot").(IntV)
		if f.entails(a) {
			s.addFact(v.e, sub(a, v.e))
		}
		return v
	}
	return unk(op.String())
}

// bigConst is a constant above the range of exact arithmetic.
func bigConst(c uint64) Lin {
	return S(consSym(bigPrefix+strconv.FormatUint(c, 10), 1<<62, 0, true, false))
}

const bigPrefix = "bigconst:"

func bigValue(e Lin) (uint64, bool) {
	y, ok := e.sym()
	if !ok {
		return 0, false
	}
	name, ok := strings.CutPrefix(symtab[y].name, bigPrefix)
	if !ok {
		return 0, false
	}
	c, err := strconv.ParseUint(name, 10, 64)
	return c, err == nil
}

func (x *X) cmp(f *Facts, e Lin) BoolV {
	if e.isConst() {
		return mkBool(e.c >= 0)
	}
	return BoolV{kind: bGE, e: e}
}

// floordiv is a/k for a non-negative a.
func (x *X) floordiv(s *State, a Lin, k int64, t types.Type) Lin {
	if k == 1 {
		return a
	}
	if a.isConst() {
		return K(a.c / k)
	}
	// split off the exact multiples
	whole := K(0)
	rest := Lin{c: a.c}
	for _, t := range a.t {
		if t.k%k == 0 {
			whole = add(whole, Lin{t: []term{{t.s, t.k / k}}})
		} else {
			rest = add(rest, Lin{t: []term{t}})
		}
	}
	c := rest.c
	q := c / k
	if c%k < 0 {
		q--
	}
	rest.c = c - q*k
	whole = whole.addc(q)
	if len(rest.t) == 0 {
		return whole // 0 <= rest < k
	}
	f := s.facts
	if f.entails(rest) && f.le(rest, K(k-1)) {
		return whole
	}
	// with rest >= 0 the quotient is a function of rest; otherwise of a
	arg, base := rest, whole
	if !f.entails(rest) {
		arg, base = a, K(0)
	}
	hi := int64(1<<63 - 1)
	hasHi := false
	if !symOpen(arg) {
		hasHi = true
		hi = (1<<63 - 1) / k
	} else if bits, signed, ok := intRange(t); ok && bits == 64 && !signed && base.isConst() && base.c > -1<<20 && base.c <= 0 {
		// the whole quotient is that of a 64-bit number
		hasHi = true
		hi = int64((1<<64-1)/uint64(k)) - base.c
		if hi < 0 {
			hi = 1<<63 - 1
		}
	}
	if d, ok := divOf[only(arg.addc(-arg.c))]; ok && arg.c >= 0 && byteShift(k) && byteShift(d.k) && k <= 1<<56/d.k {
		// shifted by whole bytes twice
		if c, ok := mulOK(arg.c, d.k); ok {
			if e, ok := lincomb(d.e, 1, K(c)); ok {
				return add(base, x.floordiv(s, e, d.k*k, t))
			}
		}
	}
	y := derived(fmt.Sprintf("div:%s:%d", arg, k), 0, hi, true, hasHi, arg)
	divOf[y] = quot{arg, k}
	if ky, ok := scale(S(y), k); ok {
		s.addFact(sub(arg, ky), add(ky, K(k-1)).sub(arg))
	}
	return add(base, S(y))
}

func (a Lin) sub(b Lin) Lin { return sub(a, b) }

// quot is the floor of e/k.
type quot struct {
	e Lin
	k int64
}

var divOf = map[Sym]quot{}

// byteShift: k is 256 to some power.
func byteShift(k int64) bool {
	return k > 1 && k&(k-1) == 0 && bits.TrailingZeros64(uint64(k))%8 == 0
}

// joinBits is a|b for numbers without a common bit.
func (x *X) joinBits(s *State, a, b Lin) (Lin, bool) {
	f := s.facts
	for _, p := range [][2]Lin{{a, b}, {b, a}} {
		hi, lo := spreadBE(p[0]), p[1]
		low := uint64(hi.c)
		for _, t := range hi.t {
			low |= uint64(t.k)
		}
		if low &= -low; low < 2 || low > 1<<56 {
			continue
		}
		if f.entails(lo) && f.le(lo, K(int64(low)-1)) && f.entails(hi) {
			if e, ok := lincomb(hi, 1, spreadBE(lo)); ok {
				return x.gatherBE(s, e), true
			}
		}
	}
	return Lin{}, false
}

// bytesAt are n bytes from an offset of a content.
type bytesAt struct {
	tok int32
	off Lin
	n   int
}

var (
	byteOf = map[Sym]bytesAt{} // the bytes of which contents
	beOf   = map[Sym]bytesAt{} // the integers read from which contents
	segBE  = map[int32]bePart{}
)

// bePart is what a content token of an encoded integer stands for.
type bePart struct {
	e Lin
	n int64
}

// spreadBE replaces integers read big endian by their bytes.
func spreadBE(e Lin) Lin {
	out := Lin{c: e.c}
	for _, t := range e.t {
		b, ok := beOf[t.s]
		if !ok {
			r, ok := lincomb(out, t.k, S(t.s))
			if !ok {
				return e
			}
			out = r
			continue
		}
		for i := 0; i < b.n; i++ {
			k, ok := mulOK(t.k, 1<<(8*(b.n-1-i)))
			if !ok {
				return e
			}
			r, ok := lincomb(out, k, S(tokByte(b.tok, b.off.addc(int64(i)))))
			if !ok {
				return e
			}
			out = r
		}
	}
	return out
}

// gatherBE is the integer whose bytes are summed up.
func (x *X) gatherBE(s *State, e Lin) Lin {
	n := len(e.t)
	if e.c != 0 || n != 2 && n != 4 && n != 8 {
		return e
	}
	var at [8]bytesAt
	for _, t := range e.t {
		b, ok := byteOf[t.s]
		if !ok || t.k < 1 || t.k&(t.k-1) != 0 {
			return e
		}
		z := bits.TrailingZeros64(uint64(t.k))
		if z%8 != 0 || z/8 >= n || at[n-1-z/8].n != 0 {
			return e
		}
		at[n-1-z/8] = b
	}
	for i := 1; i < n; i++ {
		if at[i].tok != at[0].tok || !s.facts.same(at[i].off, at[0].off.addc(int64(i))) {
			return e
		}
	}
	return beValue(at[0].tok, at[0].off, int64(n))
}

// beValue is the integer in n bytes of a content.
func beValue(tok int32, off Lin, n int64) Lin {
	if w, ok := segBE[tok]; ok && w.n == n && off.isConst() && off.c == 0 {
		return w.e
	}
	hi := int64(1)<<(8*n) - 1
	hasHi := n < 8
	if !hasHi {
		hi = 0
	}
	y := derivedTok(tok, fmt.Sprintf("be%d:%d:%s", n, tok, off), 0, hi, true, hasHi, off)
	beOf[y] = bytesAt{tok, off, int(n)}
	return S(y)
}

func symOpen(e Lin) bool {
	for _, t := range e.t {
		if !symtab[t.s].hasHi {
			return true
		}
	}
	return false
}

func (x *X) unop(s *State, i *ssa.UnOp) []*State {
	v := x.val(s, i.X)
	switch i.Op {
	case token.MUL:
		p, ok := v.(PtrV)
		if !ok {
			x.set(s, i, x.fresh(s, i.Type(), "deref"))
			return one(s)
		}
		g, bad := x.obliges(s, "nil", i.Pos(), p.nil_.not())
		if g != nil {
			x.set(g, i, x.load(g, p, i.Type()))
		}
		return withAlive(g, bad)
	case token.NOT:
		if b, ok := v.(BoolV); ok {
			x.set(s, i, b.not())
			return one(s)
		}
	case token.SUB:
		if a, ok := v.(IntV); ok {
			x.set(s, i, x.norm(s, neg(a.e), i.Type(), "neg"))
			return one(s)
		}
	case token.XOR:
		if a, ok := v.(IntV); ok {
			b, signed, _ := intRange(i.Type())
			if a.e.isConst() && b == 64 && !signed {
				break
			}
			if signed {
				x.set(s, i, x.norm(s, neg(a.e).addc(-1), i.Type(), "not"))
				return one(s)
			}
			if b < 64 {
				x.set(s, i, x.norm(s, K(1<<b-1).sub(a.e), i.Type(), "not"))
				return one(s)
			}
		}
	case token.ARROW:
		x.onBlock(s, "receive")
		if ch, ok := v.(OpaqueV); ok {
			if x.neverReady(s, ch) {
				x.waitForever(s)
				return nil
			}
			x.onRecv(s, ch)
		}
	}
	x.set(s, i, x.fresh(s, i.Type(), "unop"))
	return one(s)
}

func (x *X) convert(s *State, v Val, from, to types.Type) Val {
	switch v := v.(type) {
	case IntV:
		if _, _, ok := intRange(to); ok {
			return x.norm(s, v.e, to, "conv")
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if v.e.isConst() {
				return strConst(string(rune(v.e.c)))
			}
			return x.freshStr(s, "rune")
		}
	case StrV:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if isByteElem(sl.Elem()) {
				ps, known := x.content(s, v, v.len)
				o := s.addObj(&Obj{typ: to, isArr: true, elem: sl.Elem(), n: v.len, tok: newID(), site: "[]byte(string)"})
				if known {
					o.segs = x.piecesToSegs(K(0), ps)
				}
				return SliceV{obj: o.id, off: K(0), len: v.len, cap: v.len, nil_: vFalse}
			}
			return x.fresh(s, to, "runes")
		}
		return v
	case SliceV:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x.sliceToString(s, v)
		}
		return v
	case PtrV:
		return v
	case OpaqueV:
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return v
		}
		if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x.fresh(s, to, "unsafe")
		}
	}
	return x.fresh(s, to, "convert")
}

func (x *X) sliceToString(s *State, v SliceV) Val {
	x.checkAlive(s, v.obj, "read")
	if s.facts.same(v.len, K(0)) {
		return strConst("")
	}
	ps, known := x.content(s, v, v.len)
	if known && v.len.isConst() {
		if k, ok := x.constString(s, ps); ok {
			return strConst(k)
		}
	}
	id := x.frozenArr(s, v.len, ps, known)
	return StrV{obj: id, off: K(0), len: v.len}
}

func (x *X) constString(s *State, ps []Piece) (string, bool) {
	var b []byte
	for _, p := range x.canon(s, ps) {
		if p.kind != sgByte || !p.e.isConst() {
			return "", false
		}
		b = append(b, byte(p.e.c))
	}
	return string(b), true
}

func (x *X) concat(s *State, a, b StrV) Val {
	if a.k != nil && b.k != nil {
		return strConst(*a.k + *b.k)
	}
	pa, oka := x.content(s, a, a.len)
	pb, okb := x.content(s, b, b.len)
	n := add(a.len, b.len)
	id := x.frozenArr(s, n, append(append([]Piece{}, pa...), pb...), oka && okb)
	return StrV{obj: id, off: K(0), len: n}
}

// eqVals is the condition a == b.
func (x *X) eqVals(s *State, a, b Val) BoolV {
	switch a := a.(type) {
	case IntV:
		if b, ok := b.(IntV); ok {
			d, ok := lincomb(a.e, -1, b.e)
			if !ok {
				return freshBool()
			}
			if d.isConst() {
				return mkBool(d.c == 0)
			}
			return BoolV{kind: bEQ, e: d}
		}
	case BoolV:
		if b, ok := b.(BoolV); ok {
			if v, known := s.truth(b); known {
				if v {
					return a
				}
				return a.not()
			}
			if v, known := s.truth(a); known {
				if v {
					return b
				}
				return b.not()
			}
			if boolEq(a, b) {
				return vTrue
			}
			return freshBool()
		}
	case StrV:
		if b, ok := b.(StrV); ok {
			return x.eqStr(s, a, b)
		}
	case PtrV:
		if b, ok := b.(PtrV); ok {
			na, ka := s.truth(a.nil_)
			nb, kb := s.truth(b.nil_)
			switch {
			case ka && na:
				return b.nil_
			case kb && nb:
				return a.nil_
			case a.obj == b.obj && a.obj != 0 && a.path == b.path && a.elem == b.elem:
				c := vTrue
				if a.elem {
					c = x.eqVals(s, IntV{a.idx}, IntV{b.idx})
				}
				if ka && kb {
					return c
				}
				if boolEq(a.nil_, b.nil_) {
					return c
				}
				return freshBool()
			case a.obj == 0 || b.obj == 0:
				return freshBool()
			}
			oa, ob := s.heap[a.obj], s.heap[b.obj]
			if oa != nil && ob != nil && oa.alias && ob.alias && a.obj != b.obj {
				return freshBool()
			}
			if ka && kb {
				return vFalse // different variables
			}
			return freshBool()
		}
	case SliceV:
		if b, ok := b.(SliceV); ok {
			if n, known := s.truth(b.nil_); known && n {
				return a.nil_
			}
			return b.nil_
		}
	case MapV:
		if b, ok := b.(MapV); ok {
			if n, known := s.truth(b.nil_); known && n {
				return a.nil_
			}
			return b.nil_
		}
	case FuncV:
		if b, ok := b.(FuncV); ok {
			if n, known := s.truth(b.nil_); known && n {
				return a.nil_
			}
			return b.nil_
		}
	case IfaceV:
		b, ok := b.(IfaceV)
		if !ok {
			return freshBool()
		}
		na, ka := s.truth(a.nil_)
		nb, kb := s.truth(b.nil_)
		switch {
		case ka && na:
			return b.nil_
		case kb && nb:
			return a.nil_
		}
		if a.dyn != nil && b.dyn != nil {
			if !types.Identical(a.dyn, b.dyn) {
				return vFalse
			}
			return x.eqVals(s, a.v, b.v)
		}
		if a.id != 0 && a.id == b.id {
			return vTrue
		}
		if ka && kb && (x.uniq[a.id] || a.dyn != nil) && (x.uniq[b.id] || b.dyn != nil) {
			return vFalse
		}
		if a.id != 0 && b.id != 0 {
			p, q := a.id, b.id
			if p > q {
				p, q = q, p
			}
			return BoolV{kind: bSym, sym: consBool(fmt.Sprintf("ifaceeq:%d:%d", p, q))}
		}
		return freshBool()
	case OpaqueV:
		if b, ok := b.(OpaqueV); ok {
			if a.id == b.id {
				return vTrue
			}
			p, q := a.id, b.id
			if p > q {
				p, q = q, p
			}
			return BoolV{kind: bSym, sym: consBool(fmt.Sprintf("opeq:%d:%d", p, q))}
		}
	case StructV:
		if b, ok := b.(StructV); ok && len(a.f) == len(b.f) {
			var open *BoolV
			n := 0
			for i := range a.f {
				c := x.eqVals(s, a.f[i], b.f[i])
				if v, known := s.truth(c); known {
					if !v {
						return vFalse
					}
					continue
				}
				n++
				open = &c
			}
			if n == 0 {
				return vTrue
			}
			if n == 1 {
				return *open
			}
			return freshBool()
		}
	case ArrV:
		if b, ok := b.(ArrV); ok {
			if a.obj == b.obj {
				return vTrue
			}
			oa, ob := s.heap[a.obj], s.heap[b.obj]
			if isByteElem(oa.elem) {
				return x.eqBytes(s, SliceV{obj: a.obj, off: K(0), len: oa.n}, SliceV{obj: b.obj, off: K(0), len: ob.n})
			}
		}
	}
	return freshBool()
}

func (x *X) eqStr(s *State, a, b StrV) BoolV {
	if a.k != nil && b.k != nil {
		return mkBool(*a.k == *b.k)
	}
	if b.k != nil && *b.k == "" {
		return x.eqVals(s, IntV{a.len}, IntV{K(0)})
	}
	if a.k != nil && *a.k == "" {
		return x.eqVals(s, IntV{b.len}, IntV{K(0)})
	}
	return x.eqBytes(s, a, b)
}

// eqBytes compares strings or byte slices.
func (x *X) eqBytes(s *State, a, b Val) BoolV {
	la, lb := valLen(a), valLen(b)
	d := sub(la, lb)
	if s.facts.nez(d) {
		return vFalse
	}
	pa, oka := x.content(s, a, la)
	pb, okb := x.content(s, b, lb)
	if !oka || !okb {
		return BoolV{kind: bSym, sym: newID(), imp: []Lin{d, neg(d)}}
	}
	if s.facts.eqz(d) {
		if x.samePieces(s, pa, pb) {
			return vTrue
		}
		ca, cb := x.canon(s, pa), x.canon(s, pb)
		for i := 0; i < len(ca) && i < len(cb); i++ {
			if ca[i].kind != sgByte || cb[i].kind != sgByte {
				break
			}
			if e, ok := lincomb(ca[i].e, -1, cb[i].e); ok && s.facts.nez(e) {
				return vFalse
			}
		}
	}
	// the comparison of known contents is a function of them; with a constant
	// on one side, equality decides every byte
	imp := []Lin{d, neg(d)}
	if k, n, other := x.constSide(s, pa, pb, la, lb); other != nil && n <= 64 {
		if len(other) == 1 && other[0].kind == sgCopy {
			for i := 0; i < len(k); i++ {
				e := sub(S(tokByte(other[0].tok, other[0].toff.addc(int64(i)))), K(int64(k[i])))
				imp = append(imp, e, neg(e))
			}
		}
	}
	key := fmt.Sprintf("eqb:%s|%s", showPieces(pa), showPieces(pb))
	return BoolV{kind: bSym, sym: consBool(key), imp: imp}
}

func (x *X) constSide(s *State, pa, pb []Piece, la, lb Lin) (string, int, []Piece) {
	if k, ok := x.constString(s, pa); ok && la.isConst() {
		return k, len(k), pb
	}
	if k, ok := x.constString(s, pb); ok && lb.isConst() {
		return k, len(k), pa
	}
	return "", 0, nil
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
