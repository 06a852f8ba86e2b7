package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions of other modules and contracts of summarised ones.

type model = func(x *X, s *State, c *callCtx) []*State

var (
	summaries map[string]model
	stdModels map[string]model
)

func init() {
	summaries = map[string]model{
		modPath + "pkg/encoding.PutVarint":  sumPutVarint,
		modPath + "pkg/encoding.Varint":     sumVarint,
		modPath + "pkg/encoding.ReadVarint": sumReadVarint,
	}
	stdModels = map[string]model{
		"io.ReadFull":                              mReadFull,
		"fmt.Errorf":                               mErrorf,
		"errors.New":                               mErrorsNew,
		"errors.Is":                                mErrorsIs,
		"fmt.Sprintf":                              mSprintf,
		"fmt.Sprint":                               mFreshStr,
		"fmt.Fprintf":                              mFprintf,
		"fmt.Fprint":                               mFprint,
		"fmt.Fprintln":                             mFprint,
		"fmt.Sscanf":                               mSscan,
		"fmt.Sscan":                                mSscan,
		"(encoding/binary.bigEndian).Uint16":       beGet(2),
		"(encoding/binary.bigEndian).Uint32":       beGet(4),
		"(encoding/binary.bigEndian).Uint64":       beGet(8),
		"(encoding/binary.bigEndian).PutUint16":    bePut(2),
		"(encoding/binary.bigEndian).PutUint32":    bePut(4),
		"(encoding/binary.bigEndian).PutUint64":    bePut(8),
		"(encoding/binary.littleEndian).Uint16":    leGet(2),
		"(encoding/binary.littleEndian).Uint32":    leGet(4),
		"(encoding/binary.littleEndian).Uint64":    leGet(8),
		"(encoding/binary.littleEndian).PutUint16": lePut(2),
		"(encoding/binary.littleEndian).PutUint32": lePut(4),
		"(encoding/binary.littleEndian).PutUint64": lePut(8),
		"(encoding/binary.bigEndian).AppendUint32": beAppend(4),

		"net.Listen": mListen,

		"(*sync.Mutex).Lock":      lockOp(1),
		"(*sync.Mutex).Unlock":    lockOp(-1),
		"(*sync.Mutex).TryLock":   mTryLock,
		"(*sync.RWMutex).Lock":    lockOp(1),
		"(*sync.RWMutex).Unlock":  lockOp(-1),
		"(*sync.RWMutex).RLock":   readLock,
		"(*sync.RWMutex).RUnlock": lockOp(-1),
		"sync.NewCond":            mNewCond,
		"(*sync.Cond).Wait":       mWait,
		"(*sync.Cond).Signal":     mSignal,
		"(*sync.Cond).Broadcast":  mSignal,
		"(*sync.Once).Do":         mOnce,
		"(*sync.Pool).Get":        mPoolGet,
		"(*sync.Pool).Put":        mPoolPut,

		"context.Background":      mBackground,
		"context.TODO":            mBackground,
		"context.WithCancel":      mWithCancel,
		"context.WithCancelCause": mWithCancel,
		"context.WithValue":       mWithValue,
		"context.Cause":           mCause,

		"os.Exit":             mExit,
		"syscall.Exit":        mExit,
		"runtime.NumCPU":      mNumCPU,
		"runtime.Stack":       mStack,
		"runtime/debug.Stack": mStackBytes,

		"bufio.NewReader":             mNewBuf,
		"bufio.NewReaderSize":         mNewBuf,
		"bufio.NewWriter":             mNewBuf,
		"bufio.NewWriterSize":         mNewBuf,
		"(*bufio.Writer).Write":       mBufWrite,
		"(*bufio.Writer).WriteString": mBufWrite,
		"(*bufio.Writer).WriteByte":   mBufWriteByte,
		"(*bufio.Writer).Flush":       mBufFlush,
		"(*bufio.Writer).Buffered":    mBufBuffered,
		"(*bufio.Writer).Available":   mBufAvailable,
		"(*bufio.Writer).Size":        mBufSize,
		"(*bufio.Reader).Buffered":    mBufReadable,
		"(*bufio.Reader).Size":        mBufSize,
		"(*bufio.Reader).Read":        mBufRead,
		"(*bufio.Reader).ReadByte":    mBufReadByte,
		"bufio.NewScanner":            mNewBuf,
		"(*bufio.Scanner).Scan":       mReadDelim,
		"(*bufio.Scanner).Text":       mScanned("/~text"),
		"(*bufio.Scanner).Err":        mScanned("/~err"),
		"(*bufio.Reader).ReadString":  mReadDelim,
		"(*bufio.Reader).ReadBytes":   mReadDelim,
		"(*bufio.Reader).ReadSlice":   mReadDelim,
		"(*bufio.Reader).ReadLine":    mReadDelim,

		"strings.Join":         mJoin,
		"strings.IndexByte":    mIndexByte,
		"bytes.IndexByte":      mIndexByte,
		"bytes.TrimSuffix":     mTrimSuffix,
		"strings.TrimSuffix":   mTrimSuffix,
		"bytes.Equal":          mBytesEqual,
		"time.NewTicker":       mNewTimer,
		"time.NewTimer":        mNewTimer,
		"(*time.Ticker).Stop":  mTimerStop,
		"(*time.Timer).Stop":   mTimerStop,
		"(*time.Timer).Reset":  mTimerReset,
		"(*time.Ticker).Reset": mTimerReset,

		"net/netip.AddrFromSlice":  mAddrFromSlice,
		"net/netip.AddrFrom4":      mAddrFromArr,
		"net/netip.AddrFrom16":     mAddrFromArr,
		"(net/netip.Addr).AsSlice": mAddrAsSlice,
		"(net/netip.Addr).As4":     mAddrAs(4),
		"(net/netip.Addr).As16":    mAddrAs(16),
		"(net/netip.Addr).Is4":     mAddrIs("4"),
		"(net/netip.Addr).Is6":     mAddrIs("6"),
		"(net/netip.Addr).IsValid": mAddrIs("v"),
		"(net/netip.Addr).Is4In6":  mAddrIs("4in6"),
		"(net/netip.Addr).BitLen":  mAddrBitLen,
		"(net/netip.Addr).Unmap":   mAddrUnmap,
	}
	for k, v := range reflModels {
		stdModels[k] = v
	}
}

// ---- variable length integers ----

func constVlen(v uint64) int64 {
	if v < 240 {
		return 1
	}
	n := int64(2)
	for v = (v - 240) >> 4; v >= 128; v = (v - 128) >> 7 {
		n++
	}
	return n
}

func (x *X) vlen(s *State, e Lin) Lin {
	if e.isConst() && e.c >= 0 {
		return K(constVlen(uint64(e.c)))
	}
	f := s.facts
	known := func(n int64) Lin {
		if l, ok := hashcons["vlen:"+e.String()]; ok {
			// the length has a name since before its value was known
			s.addFact(S(l).addc(-n))
			s.addFact(K(n).sub(S(l)))
		}
		return K(n)
	}
	if f.le(e, K(239)) {
		return known(1)
	}
	l := S(derived("vlen:"+e.String(), 1, 10, true, true, e))
	lo, hi := int64(1), int64(10)
	// thresholds of the encoding: 240, then 240 + 2^4*128, ...
	t := int64(240)
	step := int64(16 * 128)
	for n := int64(1); n < 10; n++ {
		if f.le(e, K(t-1)) {
			hi = n
			break
		}
		if f.le(K(t), e) {
			lo = n + 1
		}
		t += step
		step *= 128 // not used any more once it has overflowed
	}
	if lo == hi {
		return known(lo)
	}
	if lo > 1 {
		s.addFact(l.addc(-lo))
	}
	if hi < 10 {
		s.addFact(K(hi).sub(l))
	}
	return l
}

func sumPutVarint(x *X, s *State, c *callCtx) []*State {
	b, ok := c.args[0].(SliceV)
	v, ok2 := c.args[1].(IntV)
	if !ok || !ok2 {
		x.giveUp("arguments of PutVarint")
	}
	x.checkAlive(s, b.obj, "write")
	n := x.vlen(s, v.e)
	room := ge(sub(b.len, n))
	good := func(s *State) []*State {
		if s.heap[b.obj] != nil {
			x.addSeg(s, b.obj, Seg{off: b.off, len: n, kind: sgVarint, e: v.e})
		}
		return ret(s, IntV{n}, nilErr)
	}
	bad := func(s *State) []*State {
		if s.heap[b.obj] != nil {
			x.addSeg(s, b.obj, Seg{off: b.off, len: b.len, kind: sgCopy, tok: newID(), toff: K(0)})
		}
		return ret(s, IntV{K(0)}, x.namedErr("varint space"))
	}
	if v, known := s.truth(room); known {
		if v {
			return good(s)
		}
		return bad(s)
	}
	t := s.clone()
	var out []*State
	if s.assume(room) {
		out = append(out, good(s)...)
	}
	if t.assume(room.not()) {
		out = append(out, bad(t)...)
	}
	return out
}

func uint64Sym(key string, tok int32, off Lin) Lin {
	return S(derivedTok(tok, key, 0, 0, true, false, off))
}

// constVarint decodes known bytes: 1 is a value, -1 the lack of an end.
func (x *X) constVarint(s *State, o *Obj, b SliceV) (v, n int64, st int) {
	shift := 0
	for i := int64(0); i < 9; i++ {
		if s.facts.le(b.len, K(i)) {
			return 0, 0, -1
		}
		if !s.facts.le(K(i+1), b.len) {
			return 0, 0, 0
		}
		c := x.readByte(s, o, b.off.addc(i))
		if !c.isConst() || shift > 53 {
			return 0, 0, 0
		}
		v += c.c << shift
		switch {
		case i == 0 && c.c < 240, i > 0 && c.c < 128:
			return v, i + 1, 1
		case i == 0:
			shift = 4
		default:
			shift += 7
		}
	}
	return 0, 0, 0
}

// varintAt is the integer encoded at the start of known bytes.
func sumVarint(x *X, s *State, c *callCtx) []*State {
	b, ok := c.args[0].(SliceV)
	if !ok {
		x.giveUp("argument of Varint")
	}
	x.checkAlive(s, b.obj, "read")
	fail := func(s *State) []*State {
		return ret(s, IntV{K(0)}, IntV{K(0)}, x.namedErr("varint eof"))
	}
	nonEmpty := ge(b.len.addc(-1))
	t := s.clone()
	var out []*State
	if t.assume(nonEmpty.not()) {
		out = append(out, fail(t)...)
	}
	if !s.assume(nonEmpty) {
		return out
	}
	o := s.heap[b.obj]
	var v, n Lin
	known := false
	if o != nil {
		// the encoding written by PutVarint
		for i := len(o.segs) - 1; i >= 0 && !known; i-- {
			g := o.segs[i]
			if g.kind == sgVarint && s.facts.same(g.off, b.off) {
				ps, ok := x.resolve(s, o, g.off, g.len)
				if ok && len(ps) == 1 && ps[0].kind == sgVarint {
					v, n, known = g.e, g.len, true
				}
			}
		}
		if !known {
			c, m, st := x.constVarint(s, o, b)
			switch st {
			case 1:
				v, n, known = K(c), K(m), true
			case -1:
				return append(out, fail(s)...)
			}
		}
		if !known {
			first := x.readByte(s, o, b.off)
			if s.facts.le(first, K(239)) {
				v, n, known = first, K(1), true
			} else {
				ps, ok := x.resolve(s, o, b.off, b.len)
				if ok && len(ps) > 0 && ps[0].kind == sgCopy {
					v = uint64Sym(fmt.Sprintf("varint:%d:%s", ps[0].tok, ps[0].toff), ps[0].tok, ps[0].toff)
					n = S(derivedTok(ps[0].tok, fmt.Sprintf("varintlen:%d:%s", ps[0].tok, ps[0].toff), 1, maxLen(), true, true, ps[0].toff))
					// a single byte encodes the values below 240
					f1 := s.facts
					_ = f1
				} else if first.isConst() || !first.isConst() && len(first.t) == 1 {
					// first byte known symbolically
					t := s.clone()
					if t.assume(ge(K(239).sub(first))) {
						out = append(out, ret(t, IntV{first}, IntV{K(1)}, nilErr)...)
					}
					if !s.assume(ge(first.addc(-240))) {
						return out
					}
					v = S(newSym("varint", 240, 0, true, false))
					n = S(newSym("varintlen", 2, maxLen(), true, true))
				}
			}
		}
	}
	if n.isConst() && n.c == 0 {
		v = S(newSym("varint", 0, 0, true, false))
		n = S(newSym("varintlen", 1, maxLen(), true, true))
	}
	fits := ge(sub(b.len, n))
	t = s.clone()
	if t.assume(fits.not()) {
		out = append(out, fail(t)...)
	}
	if s.assume(fits) {
		out = append(out, ret(s, IntV{v}, IntV{n}, nilErr)...)
	}
	return out
}

func sumReadVarint(x *X, s *State, c *callCtx) []*State {
	iv, ok := c.args[0].(IfaceV)
	if ok {
		if r, done := x.viaHarness(s, iv, "vfReadVarint", nil, c); done {
			return r
		}
	}
	return fork(s, func(s *State) []*State {
		return ret(s, IntV{K(0)}, x.namedErr("varint eof"))
	}, func(s *State) []*State {
		return ret(s, IntV{S(newSym("varint", 0, 0, true, false))}, nilErr)
	})
}

// viaHarness calls a method of the harness type inside an interface, looking
// through buffered readers.
func (x *X) viaHarness(s *State, iv IfaceV, name string, args []Val, c *callCtx) ([]*State, bool) {
	iv, ok := x.underReader(s, iv, strings.Contains(name, "Read"))
	if !ok || iv.dyn == nil {
		return nil, false
	}
	var pkg *types.Package
	t := iv.dyn
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	if pkg == nil {
		return nil, false
	}
	sel := x.prog.MethodSets.MethodSet(iv.dyn).Lookup(pkg, name)
	if sel == nil {
		// embedded interfaces hide the method: look into them
		if v, ok := x.embedded(s, iv); ok {
			return x.viaHarness(s, v, name, args, c)
		}
		return nil, false
	}
	fn := x.prog.MethodValue(sel)
	return x.callFn(s, fn, append([]Val{iv.v}, args...), nil, nil, false, c.pos), true
}

// embedded finds the value of an embedded interface field.
func (x *X) embedded(s *State, iv IfaceV) (IfaceV, bool) {
	p, ok := iv.dyn.(*types.Pointer)
	if !ok {
		return IfaceV{}, false
	}
	pv, ok := iv.v.(PtrV)
	if !ok {
		return IfaceV{}, false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok || x.leafStruct(p.Elem()) {
		return IfaceV{}, false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, isI := f.Type().Underlying().(*types.Interface); isI && f.Embedded() {
			v, ok := x.load(s, PtrV{obj: pv.obj, path: fieldPath(pv.path, i), elem: pv.elem, idx: pv.idx, nil_: vFalse}, f.Type()).(IfaceV)
			return v, ok
		}
	}
	return IfaceV{}, false
}

// underReader is the reader below a bufio.Reader.
func (x *X) underReader(s *State, iv IfaceV, reading bool) (IfaceV, bool) {
	type link struct{ reader, under int32 }
	var chain []link
	for i := 0; i < 4; i++ {
		if iv.dyn == nil {
			return iv, false
		}
		id := int32(0)
		if p, ok := iv.v.(PtrV); ok {
			id = p.obj
		}
		if n := len(chain); n > 0 {
			chain[n-1].under = id
		}
		chain = append(chain, link{id, 0})
		if ts := types.TypeString(iv.dyn, nil); ts != "*bufio.Reader" && ts != "*bufio.Scanner" {
			// the outermost one is read directly
			first := chain[0].reader
			chain[len(chain)-1] = link{0, first}
			for _, l := range chain {
				if !reading {
					break
				}
				x.readVia(s, l.reader, l.under)
			}
			return iv, true
		}
		p, ok := iv.v.(PtrV)
		if !ok || s.heap[p.obj] == nil {
			return iv, false
		}
		u, ok := s.heap[p.obj].f[p.path+"/~under"].(IfaceV)
		if !ok {
			return iv, false
		}
		iv = u
	}
	return iv, false
}

// readVia notes through which buffered reader something is read; reading it in
// another way later misses what is left in the buffer.
func (x *X) readVia(s *State, reader, under int32) {
	if under == 0 {
		return
	}
	key := fmt.Sprintf("via:%d", under)
	old, seen := s.glob[key].(IntV)
	if reader == 0 && !seen {
		return
	}
	if !seen {
		s.glob[key] = IntV{K(int64(reader))}
		return
	}
	if old.e.isConst() && old.e.c != int64(reader) {
		x.report(s, "lost-bytes", x.construct(s), "the connection is read through a second buffered reader: what the first one has read ahead is lost", x.curPos)
	}
}

// mReadDelim is (*bufio.Reader).ReadBytes, ReadString, ReadSlice and ReadLine.
func mReadDelim(x *X, s *State, c *callCtx) []*State {
	p, _, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	name := c.fn.Name()
	delim := K('\n')
	if name != "ReadLine" && name != "Scan" {
		d, ok := c.args[1].(IntV)
		if !ok {
			x.giveUp("delimiter")
		}
		delim = d.e
	}
	iv := IfaceV{nil_: vFalse, dyn: c.fn.Signature.Recv().Type(), v: p}
	bt := types.NewSlice(types.Typ[types.Byte])
	result := func(s *State, ps []Piece, n Lin, err IfaceV) []*State {
		if name == "Scan" {
			isNil, known := s.truth(err.nil_)
			ok := known && (isNil || n.isConst() && n.c > 0)
			s.mut(p.obj).f["/~text"] = x.pieceString(s, ps, n)
			if !ok {
				s.mut(p.obj).f["/~err"] = IfaceV{nil_: freshBool(), id: newID()}
			}
			return ret(s, mkBool(ok))
		}
		if name == "ReadString" {
			return ret(s, x.pieceString(s, ps, n), err)
		}
		o := s.addObj(&Obj{typ: bt, isArr: true, elem: types.Typ[types.Byte], n: n, site: name})
		o.segs = x.piecesToSegs(K(0), ps)
		b := SliceV{obj: o.id, off: K(0), len: n, cap: n, nil_: vFalse}
		if name == "ReadLine" {
			return ret(s, b, vFalse, err)
		}
		return ret(s, b, err)
	}
	var text []byte
	flush := func() []Piece {
		if len(text) == 0 {
			return nil
		}
		return []Piece{{len: K(int64(len(text))), kind: sgConst, k: string(text)}}
	}
	for i := 0; delim.isConst() && i < 512; i++ {
		o := s.addObj(&Obj{typ: bt, isArr: true, elem: types.Typ[types.Byte], n: K(1), site: "byte"})
		rs, done := x.viaHarness(s, iv, "vfReadFull", []Val{SliceV{obj: o.id, off: K(0), len: K(1), cap: K(1), nil_: vFalse}}, c)
		if !done {
			break
		}
		if len(rs) != 1 || rs[0].pan != nil {
			if i == 0 && len(rs) == 1 {
				return append(bad, rs...)
			}
			x.giveUp("reading up to a delimiter")
		}
		s = rs[0]
		t, _ := s.ret.(TupleV)
		if len(t.v) != 2 {
			x.giveUp("reading up to a delimiter")
		}
		e, _ := t.v[1].(IfaceV)
		isNil, known := s.truth(e.nil_)
		if !known {
			x.giveUp("reading up to a delimiter")
		}
		if !isNil {
			ps := flush()
			return append(bad, result(s, ps, K(int64(len(text))), e)...)
		}
		b := x.readByte(s, s.heap[o.id], K(0))
		if !b.isConst() {
			x.giveUp("reading up to a delimiter")
		}
		text = append(text, byte(b.c))
		if b.c == delim.c {
			if name == "ReadLine" || name == "Scan" {
				text = text[:len(text)-1]
				if n := len(text); n > 0 && text[n-1] == '\r' {
					text = text[:n-1]
				}
			}
			ps := flush()
			return append(bad, result(s, ps, K(int64(len(text))), nilErr)...)
		}
	}
	// an unknown reader
	n := S(newSym("len(line)", 0, maxLen(), true, true))
	if name == "ReadSlice" || name == "ReadLine" || name == "Scan" {
		s.addFact(sub(K(65536), n))
	} else {
		x.checkAlloc(s, n, c.pos, bt)
	}
	return append(bad, fork(s, func(s *State) []*State {
		return result(s, x.unknownBytes(n), n, x.newErr())
	}, func(s *State) []*State {
		return result(s, x.unknownBytes(n), n, nilErr)
	})...)
}

func mScanned(what string) model {
	return func(x *X, s *State, c *callCtx) []*State {
		p, ok := c.args[0].(PtrV)
		if ok && s.heap[p.obj] != nil {
			if v, ok := s.heap[p.obj].f[p.path+what]; ok {
				return ret(s, v)
			}
		}
		s.ret = x.freshResults(s, c.res, c.fn.Name())
		return one(s)
	}
}

func mReadFull(x *X, s *State, c *callCtx) []*State {
	iv, ok := c.args[0].(IfaceV)
	b, ok2 := c.args[1].(SliceV)
	if !ok || !ok2 {
		x.giveUp("arguments of io.ReadFull")
	}
	x.checkAlive(s, b.obj, "write")
	if r, done := x.viaHarness(s, iv, "vfReadFull", []Val{b}, c); done {
		return r
	}
	if s.facts.same(b.len, K(0)) {
		return ret(s, IntV{K(0)}, nilErr)
	}
	x.onBlock(s, "read")
	x.havocArg(s, b)
	n := S(newSym("n", 0, maxLen(), true, true))
	return fork(s, func(s *State) []*State {
		s.addFact(sub(b.len, n).addc(-1))
		return ret(s, IntV{n}, IfaceV{nil_: vFalse, id: newID()})
	}, func(s *State) []*State {
		return ret(s, IntV{b.len}, nilErr)
	})
}

func mNewErr(x *X, s *State, c *callCtx) []*State { return ret(s, x.newErr()) }

func mFreshStr(x *X, s *State, c *callCtx) []*State { return ret(s, x.freshStr(s, c.fn.Name())) }

func mErrorsNew(x *X, s *State, c *callCtx) []*State {
	e := x.newErr()
	errWraps[e.id] = []IfaceV{}
	return ret(s, e)
}

// errWraps holds the errors which an error is known to wrap; errors which are
// not listed may wrap any.
var errWraps = map[int32][]IfaceV{}

func mErrorf(x *X, s *State, c *callCtx) []*State {
	e := x.newErr()
	if f, ok := c.args[0].(StrV); ok && f.k != nil {
		if args, ok := x.variadic(s, c.args[1]); ok {
			ws := []IfaceV{}
			known := true
			n := 0
			for i := 0; i < len(*f.k); i++ {
				if (*f.k)[i] != '%' {
					continue
				}
				for i++; i < len(*f.k) && strings.IndexByte("+-# 0123456789.", (*f.k)[i]) >= 0; i++ {
				}
				if i >= len(*f.k) || (*f.k)[i] == '[' || (*f.k)[i] == '*' {
					known = false
					break
				}
				switch (*f.k)[i] {
				case '%':
					continue
				case 'w':
					if n >= len(args) {
						known = false
					} else {
						ws = append(ws, args[n])
					}
				}
				n++
			}
			if known {
				errWraps[e.id] = ws
			}
		}
	}
	return ret(s, e)
}

// errIs decides errors.Is where the chain of wrapped errors is known.
func (x *X) errIs(s *State, a, b IfaceV, depth int) (v, known bool) {
	e := x.eqVals(s, a, b)
	if v, known := s.truth(e); known && v {
		return true, true
	} else if !known {
		return false, false
	}
	if n, known := s.truth(a.nil_); !known {
		return false, false
	} else if n {
		return false, true
	}
	ws, ok := errWraps[a.id]
	if !ok || a.id == 0 || depth > 8 {
		return false, false
	}
	known = true
	for _, w := range ws {
		v, k := x.errIs(s, w, b, depth+1)
		if k && v {
			return true, true
		}
		known = known && k
	}
	return false, known
}

func mErrorsIs(x *X, s *State, c *callCtx) []*State {
	a, ok := c.args[0].(IfaceV)
	b, ok2 := c.args[1].(IfaceV)
	if !ok || !ok2 {
		return ret(s, freshBool())
	}
	if v, known := x.errIs(s, a, b, 0); known {
		return ret(s, mkBool(v))
	}
	if n, known := s.truth(a.nil_); known && n {
		return ret(s, x.eqVals(s, a, b))
	}
	return ret(s, BoolV{kind: bSym, sym: consBool(fmt.Sprintf("errIs:%d:%d", a.id, b.id))})
}

// ---- formatting ----

// formatted is the output of a format string, as far as it is known.
func (x *X) formatted(s *State, format string, args []IfaceV) ([]Piece, Lin) {
	var ps []Piece
	n := K(0)
	put := func(p Piece) {
		ps = append(ps, p)
		n = add(n, p.len)
	}
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			put(Piece{len: K(int64(j - i)), kind: sgConst, k: format[i:j]})
			i = j - 1
			continue
		}
		i++
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			put(Piece{len: K(1), kind: sgConst, k: "%"})
			continue
		}
		verb := format[i]
		unknown := func() {
			l := S(newSym("fmt", 0, 1<<20, true, true))
			put(Piece{len: l, kind: sgCopy, tok: newID(), toff: K(0)})
		}
		if k >= len(args) {
			unknown()
			continue
		}
		a := args[k]
		k++
		if a.dyn == nil {
			unknown()
			continue
		}
		hasMethod := false
		ms := x.prog.MethodSets.MethodSet(a.dyn)
		for _, m := range []string{"Error", "String", "Format"} {
			if ms.Lookup(nil, m) != nil {
				hasMethod = true
			}
		}
		switch v := a.v.(type) {
		case IntV:
			if verb == 'd' || verb == 'v' && !hasMethod {
				if v.e.isConst() {
					t := fmt.Sprint(v.e.c)
					put(Piece{len: K(int64(len(t))), kind: sgConst, k: t})
					continue
				}
				l := S(derived("itoalen:"+v.e.String(), 1, 20, true, true, v.e))
				put(Piece{len: l, kind: sgCopy, tok: consTok("itoa:" + v.e.String()), toff: K(0)})
				continue
			}
		case StrV:
			if (verb == 's' || verb == 'v') && !hasMethod {
				p, ok := x.content(s, v, v.len)
				if ok {
					for _, q := range p {
						put(q)
					}
					continue
				}
			}
		}
		unknown()
	}
	return mergePieces(ps), n
}

func (x *X) variadic(s *State, v Val) ([]IfaceV, bool) {
	sv, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	if n, known := s.truth(sv.nil_); known && n {
		return nil, true
	}
	if !sv.len.isConst() || s.heap[sv.obj] == nil {
		return nil, false
	}
	var out []IfaceV
	for i := int64(0); i < sv.len.c; i++ {
		e, ok := x.readPath(s, sv.obj, elemKey(sv.off.addc(i)), "", s.heap[sv.obj].elem).(IfaceV)
		if !ok {
			e = IfaceV{nil_: vFalse, id: newID()}
		}
		out = append(out, e)
	}
	return out, true
}

func (x *X) format(s *State, f, args Val) ([]Piece, Lin, bool) {
	fs, ok := f.(StrV)
	if !ok || fs.k == nil {
		return nil, Lin{}, false
	}
	as, ok := x.variadic(s, args)
	if !ok {
		return nil, Lin{}, false
	}
	ps, n := x.formatted(s, *fs.k, as)
	return ps, n, true
}

func mSprintf(x *X, s *State, c *callCtx) []*State {
	ps, n, ok := x.format(s, c.args[0], c.args[1])
	if !ok {
		return ret(s, x.freshStr(s, "sprintf"))
	}
	return ret(s, x.pieceString(s, ps, n))
}

func (x *X) pieceString(s *State, ps []Piece, n Lin) StrV {
	if n.isConst() {
		if k, ok := x.constString(s, ps); ok {
			return strConst(k)
		}
	}
	return StrV{obj: x.frozenArr(s, n, ps, true), off: K(0), len: n}
}

func mFprintf(x *X, s *State, c *callCtx) []*State {
	ps, n, ok := x.format(s, c.args[1], c.args[2])
	if !ok {
		n = S(newSym("fmt", 0, 1<<20, true, true))
		ps = x.unknownBytes(n)
	}
	return x.writeTo(s, c.args[0], ps, n, c)
}

func mFprint(x *X, s *State, c *callCtx) []*State {
	n := S(newSym("fmt", 0, 1<<20, true, true))
	return x.writeTo(s, c.args[0], x.unknownBytes(n), n, c)
}

// writeTo calls the Write method of w.
func (x *X) writeTo(s *State, w Val, ps []Piece, n Lin, c *callCtx) []*State {
	iv, ok := w.(IfaceV)
	if !ok {
		x.giveUp("writer")
	}
	o := s.addObj(&Obj{typ: types.NewSlice(types.Typ[types.Byte]), isArr: true, elem: types.Typ[types.Byte], n: n, site: "formatted"})
	o.segs = x.piecesToSegs(K(0), ps)
	return x.callMethod(s, iv, "Write", []Val{SliceV{obj: o.id, off: K(0), len: n, cap: n, nil_: vFalse}}, c)
}

func (x *X) callMethod(s *State, iv IfaceV, name string, args []Val, c *callCtx) []*State {
	g, bad := x.obliges(s, "nil", c.pos, iv.nil_.not())
	if g == nil {
		return bad
	}
	s = g
	if iv.dyn != nil {
		if sel := x.prog.MethodSets.MethodSet(iv.dyn).Lookup(nil, name); sel != nil {
			fn := x.prog.MethodValue(sel)
			return append(x.callFn(s, fn, append([]Val{iv.v}, args...), nil, nil, false, c.pos), bad...)
		}
	}
	// unknown implementation of Write
	x.iface(s, args)
	n := S(newSym("n", 0, maxLen(), true, true))
	s.addFact(sub(valLen(args[0]), n))
	return append(bad, fork(s, func(s *State) []*State { return ret(s, IntV{n}, x.newErr()) },
		func(s *State) []*State { return ret(s, IntV{valLen(args[0])}, nilErr) })...)
}

// scanConst scans a known text.
func (x *X) scanConst(s *State, c *callCtx, vs []IfaceV) ([]*State, bool) {
	in, ok := c.args[0].(StrV)
	if !ok {
		return nil, false
	}
	text, ok := x.knownString(s, in)
	if !ok {
		return nil, false
	}
	var into []any
	for _, v := range vs {
		pt, ok := v.dyn.(*types.Pointer)
		p, ok2 := v.v.(PtrV)
		if !ok || !ok2 || p.obj == 0 {
			return nil, false
		}
		b, ok := pt.Elem().(*types.Basic)
		switch {
		case ok && b.Kind() == types.String:
			into = append(into, new(string))
		case ok && b.Kind() == types.Int:
			into = append(into, new(int))
		default:
			return nil, false
		}
	}
	var n int
	var err error
	if c.fn.Name() == "Sscanf" {
		f, ok := c.args[1].(StrV)
		if !ok || f.k == nil {
			return nil, false
		}
		n, err = fmt.Sscanf(text, *f.k, into...)
	} else {
		n, err = fmt.Sscan(text, into...)
	}
	for i, v := range vs {
		if i >= n {
			break
		}
		t := v.dyn.(*types.Pointer).Elem()
		switch w := into[i].(type) {
		case *string:
			x.store(s, v.v.(PtrV), t, strConst(*w))
		case *int:
			x.store(s, v.v.(PtrV), t, IntV{K(int64(*w))})
		}
	}
	if err != nil {
		return ret(s, IntV{K(int64(n))}, x.newErr()), true
	}
	return ret(s, IntV{K(int64(n))}, nilErr), true
}

// knownString is the text of a string whose bytes are all known.
func (x *X) knownString(s *State, v StrV) (string, bool) {
	if v.k != nil {
		return *v.k, true
	}
	if !v.len.isConst() {
		return "", false
	}
	ps, ok := x.content(s, v, v.len)
	if !ok {
		return "", false
	}
	return x.constString(s, ps)
}

// knownBytes is the content of a string or slice whose bytes are all known.
func (x *X) knownBytes(s *State, v Val) (string, bool) {
	if v, ok := v.(StrV); ok {
		return x.knownString(s, v)
	}
	n := valLen(v)
	if !n.isConst() || n.c > 4096 {
		return "", false
	}
	ps, ok := x.content(s, v, n)
	if !ok {
		return "", false
	}
	return x.constString(s, ps)
}

func mSscan(x *X, s *State, c *callCtx) []*State {
	vs, ok := x.variadic(s, c.args[len(c.args)-1])
	if ok {
		if r, done := x.scanConst(s, c, vs); done {
			return r
		}
	}
	if ok {
		for _, v := range vs {
			if p, ok := v.v.(PtrV); ok && v.dyn != nil {
				if pt, ok := v.dyn.(*types.Pointer); ok {
					x.store(s, p, pt.Elem(), x.fresh(s, pt.Elem(), "scanned"))
				}
			}
		}
	}
	return fork(s, func(s *State) []*State {
		return ret(s, freshInt(types.Typ[types.Int], "n"), x.newErr())
	}, func(s *State) []*State {
		return ret(s, IntV{K(int64(len(vs)))}, nilErr)
	})
}

// ---- byte order ----

func beGet(n int64) model {
	return func(x *X, s *State, c *callCtx) []*State {
		b, ok := c.args[1].(SliceV)
		if !ok {
			x.giveUp("byte order argument")
		}
		x.checkAlive(s, b.obj, "read")
		g, bad := x.obliges(s, "bounds", c.pos, ge(b.len.addc(-n)))
		if g != nil {
			if o := g.heap[b.obj]; o != nil {
				g.ret = IntV{x.readBE(g, o, b.off, n)}
			} else {
				g.ret = x.fresh(g, c.res.At(0).Type(), "be")
			}
		}
		return withAlive(g, bad)
	}
}

func bePut(n int64) model {
	return func(x *X, s *State, c *callCtx) []*State {
		b, ok := c.args[1].(SliceV)
		v, ok2 := c.args[2].(IntV)
		if !ok || !ok2 {
			x.giveUp("byte order argument")
		}
		x.checkAlive(s, b.obj, "write")
		g, bad := x.obliges(s, "bounds", c.pos, ge(b.len.addc(-n)))
		if g != nil {
			if g.heap[b.obj] != nil {
				x.addSeg(g, b.obj, Seg{off: b.off, len: K(n), kind: sgBE, e: v.e})
			}
			g.ret = nil
		}
		return withAlive(g, bad)
	}
}

func leGet(n int64) model {
	return func(x *X, s *State, c *callCtx) []*State {
		b, _ := c.args[1].(SliceV)
		g, bad := x.obliges(s, "bounds", c.pos, ge(b.len.addc(-n)))
		if g != nil {
			g.ret = x.fresh(g, c.res.At(0).Type(), "le")
		}
		return withAlive(g, bad)
	}
}

func lePut(n int64) model {
	return func(x *X, s *State, c *callCtx) []*State {
		b, _ := c.args[1].(SliceV)
		g, bad := x.obliges(s, "bounds", c.pos, ge(b.len.addc(-n)))
		if g != nil {
			x.havocArg(g, SliceV{obj: b.obj, off: b.off, len: K(n), cap: K(n)})
			g.ret = nil
		}
		return withAlive(g, bad)
	}
}

func beAppend(n int64) model {
	return func(x *X, s *State, c *callCtx) []*State {
		b, ok := c.args[1].(SliceV)
		v, ok2 := c.args[2].(IntV)
		if !ok || !ok2 {
			x.giveUp("byte order argument")
		}
		nl := b.len.addc(n)
		nc := S(newSym("cap(append)", 0, maxLen(), true, true))
		s.addFact(sub(nc, nl))
		d := s.addObj(&Obj{typ: c.res.At(0).Type(), isArr: true, elem: types.Typ[types.Byte], n: nc, site: "append"})
		if !s.facts.same(b.len, K(0)) {
			x.copyElems(s, d.id, K(0), b, b.len)
		}
		x.addSeg(s, d.id, Seg{off: b.len, len: K(n), kind: sgBE, e: v.e})
		return ret(s, SliceV{obj: d.id, off: K(0), len: nl, cap: nc, nil_: vFalse})
	}
}

// ---- locks ----

func lockKey(p PtrV) string {
	if p.elem {
		return fmt.Sprintf("o%d%s%s", p.obj, elemKey(p.idx), p.path)
	}
	return fmt.Sprintf("o%d%s", p.obj, p.path)
}

func readLock(x *X, s *State, c *callCtx) []*State {
	out := lockOp(1)(x, s, c)
	if p, ok := c.args[0].(PtrV); ok {
		for _, o := range out {
			if o.pan == nil {
				o.glob["rlock:"+lockKey(p)] = vTrue
			}
		}
	}
	return out
}

// lockOrder records which locks are taken while which are held.
func (x *X) lockOrder(s *State, k string, p PtrV) {
	if x.lockName == nil {
		x.lockName, x.lockEdges = map[string]string{}, map[string]string{}
	}
	o := s.heap[p.obj]
	if o == nil {
		return
	}
	name := shortType(o.typ) + p.path
	if _, plain := x.lockName[k]; !plain {
		x.lockName[k] = name
	}
	for _, h := range lockKeys(s) {
		if h != k && x.lockName[h] != "" {
			e := x.lockName[h] + " -> " + name
			if x.lockEdges[e] == "" {
				x.lockEdges[e] = x.construct(s)
			}
		}
	}
}

func lockOp(d int) model {
	return func(x *X, s *State, c *callCtx) []*State {
		p, ok := c.args[0].(PtrV)
		if !ok {
			x.giveUp("mutex argument")
		}
		g, bad := x.obliges(s, "nil", c.pos, p.nil_.not())
		if g != nil {
			k := lockKey(p)
			if d > 0 {
				x.lockOrder(g, k, p)
			}
			g.locks[k] += d
			if d > 0 {
				x.count(g, "epoch", 1)
			} else {
				delete(g.glob, "rlock:"+k)
			}
			switch {
			case d > 0 && g.locks[k] > 1:
				x.report(s, "lock-twice", x.construct(g), "lock is acquired while it is already held", c.pos)
				g.locks[k] = 1
			case d < 0 && g.locks[k] < 0:
				x.report(s, "unlock-not-held", x.construct(g), "lock is released while it is not held", c.pos)
				g.locks[k] = 0
			}
			if g.locks[k] == 0 {
				delete(g.locks, k)
			}
			x.sites["lock operation"]++
			g.ret = nil
			if h, ok := g.glob["onlock"].(FuncV); ok && d > 0 && !inHarness(g.fr) {
				// what others did while the lock was free
				out := x.callFV(g, h, nil, nil, h.fn.Signature, false, c.pos)
				for _, o := range out {
					o.ret = nil
				}
				return append(out, bad...)
			}
		}
		return withAlive(g, bad)
	}
}

func mTryLock(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	if !ok {
		x.giveUp("mutex argument")
	}
	k := lockKey(p)
	if s.locks[k] > 0 {
		return ret(s, vFalse)
	}
	return fork(s, func(s *State) []*State {
		s.locks[k] = 1
		return ret(s, vTrue)
	}, func(s *State) []*State { return ret(s, vFalse) })
}

func mNewCond(x *X, s *State, c *callCtx) []*State {
	t := c.res.At(0).Type().(*types.Pointer).Elem()
	o := s.addObj(&Obj{typ: t, site: "cond"})
	o.f["/~L"] = c.args[0]
	return ret(s, PtrV{obj: o.id, nil_: vFalse})
}

func mWait(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	if !ok || s.heap[p.obj] == nil {
		x.giveUp("condition variable")
	}
	l, ok := s.heap[p.obj].f[p.path+"/~L"].(IfaceV)
	if ok {
		if lp, ok := l.v.(PtrV); ok {
			if s.locks[lockKey(lp)] == 0 {
				x.report(s, "wait-without-lock", x.construct(s), "Wait is called without holding the lock of the condition", c.pos)
			}
		}
	}
	x.sites["wait"]++
	if n := len(s.locks); n > 1 {
		x.report(s, "blocks-with-lock", x.construct(s), "Wait is called while another lock is held", c.pos)
	}
	h, ok := s.glob["onwait"].(FuncV)
	if !ok {
		x.waitForever(s)
		return nil
	}
	lk := ""
	if lp, ok := l.v.(PtrV); ok {
		lk = lockKey(lp)
	}
	n := s.locks[lk]
	delete(s.locks, lk)
	// what others do meanwhile; only a signal ends the wait
	cond := fmt.Sprintf("signal:%d%s", p.obj, p.path)
	delete(s.glob, cond)
	delete(s.glob, "all"+cond)
	x.waiting = append(x.waiting, cond)
	outer := x.thread
	x.thread += "#other"
	out := x.callFV(s, h, nil, nil, h.fn.Signature, false, c.pos)
	x.thread = outer
	x.waiting = x.waiting[:len(x.waiting)-1]
	var woken []*State
	for _, o := range out {
		o.ret = nil
		if o.pan == nil && o.glob[cond] == nil {
			x.waitForever(o)
			continue
		}
		if o.locks[lk] > 0 {
			x.waitForever(o)
			continue
		}
		delete(o.glob, cond)
		if n > 0 {
			o.locks[lk] = n
			x.count(o, "epoch", 1)
		}
		woken = append(woken, o)
	}
	return woken
}

// park keeps the state in which a goroutine run by the harness blocks for good.
func (x *X) park(s *State) {
	if x.parking > 0 {
		x.parked = append(x.parked, s.clone())
	}
}

func mSignal(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	if ok && s.heap[p.obj] != nil {
		k := fmt.Sprintf("signal:%d%s", p.obj, p.path)
		s.glob[k] = vTrue
		if strings.HasSuffix(c.name, "Broadcast") {
			s.glob["all"+k] = vTrue
		}
	}
	return ret(s)
}

func mOnce(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	if !ok || s.heap[p.obj] == nil {
		x.giveUp("once")
	}
	o := s.heap[p.obj]
	key := "once:" + lockKey(p)
	run := func(s *State) []*State {
		s.glob[key] = vTrue
		x.noRace++
		defer func() { x.noRace-- }()
		out := x.callFV(s, c.args[1], nil, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), false, c.pos)
		for _, o := range out {
			o.ret = nil
		}
		return out
	}
	if b, ok := s.glob[key].(BoolV); ok {
		if v, known := s.truth(b); known && v {
			return ret(s)
		}
	}
	if o.lazy {
		return fork(s, func(s *State) []*State { s.glob[key] = vTrue; return ret(s) }, run)
	}
	return run(s)
}

// ---- pools ----

type poolInfo struct {
	name string
}

func poolKey(x *X, p PtrV) string {
	for g, id := range x.globals {
		if id == p.obj {
			return g.RelString(nil) + p.path
		}
	}
	return fmt.Sprintf("o%d%s", p.obj, p.path)
}

// slots calls f for every variable of the objects reachable from o, without
// those which existed before.
func (x *X) slots(s *State, id int32, old map[int32]bool, path string, f func(id int32, key, slot string, v Val)) {
	seen := map[int32]bool{}
	var walk func(id int32, path string)
	visit := func(v Val, path string) {
		switch v := v.(type) {
		case PtrV:
			if !old[v.obj] {
				walk(v.obj, path+"*")
			}
		case SliceV:
			if !old[v.obj] {
				walk(v.obj, path+"[]")
			}
		case IfaceV:
			if p, ok := v.v.(PtrV); ok && !old[p.obj] {
				walk(p.obj, path+"!")
			}
		}
	}
	walk = func(id int32, path string) {
		o := s.heap[id]
		if o == nil || seen[id] || id == 0 {
			return
		}
		seen[id] = true
		if o.isArr {
			f(id, "", path, nil)
			return
		}
		if _, ok := o.typ.Underlying().(*types.Struct); ok && !x.leafStruct(o.typ) {
			x.readPath(s, id, "", "", o.typ)
		}
		for _, k := range sortedKeys(s.heap[id].f) {
			v := s.heap[id].f[k]
			f(id, k, path+k, v)
			visit(v, path+k)
		}
	}
	walk(id, path)
}

func (x *X) liveObjs(s *State) map[int32]bool {
	m := map[int32]bool{}
	for id := range s.heap {
		m[id] = true
	}
	return m
}

func mPoolGet(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	if !ok {
		x.giveUp("pool")
	}
	key := poolKey(x, p)
	fv, ok := x.readPath(s, p.obj, "", p.path+"/~New", types.NewSignatureType(nil, nil, nil, nil, nil, false)).(FuncV)
	if !ok || fv.fn == nil {
		x.giveUp("New of pool %s is not known (%v)", key, sortedKeys(s.heap[p.obj].f))
	}
	old := x.liveObjs(s)
	out := x.callFV(s, fv, nil, nil, fv.fn.Signature, false, c.pos)
	for _, o := range out {
		if o.pan != nil {
			continue
		}
		iv, ok := o.ret.(IfaceV)
		if !ok {
			continue
		}
		pv, ok := iv.v.(PtrV)
		if !ok {
			continue
		}
		x.perturb(o, key, pv.obj, old)
		x.count(o, "live:"+key, 1)
	}
	return out
}

// perturb gives an object fresh from New the state a reused one may have.
func (x *X) perturb(s *State, key string, id int32, old map[int32]bool) {
	type slot struct {
		id      int32
		key, sl string
		v       Val
	}
	var all []slot
	x.slots(s, id, old, "", func(id int32, k, sl string, v Val) { all = append(all, slot{id, k, sl, v}) })
	pid := consTok("pool:" + key)
	for _, a := range all {
		o := s.mut(a.id)
		o.pool = pid
		if o.isArr {
			if isByteElem(o.elem) {
				o.segs, o.tok = nil, newID()
			} else {
				x.havocArr(s, a.id)
			}
			continue
		}
		dirty := x.poolDirty[key+"|"+a.sl]
		if sv, ok := a.v.(SliceV); ok {
			if n, known := s.truth(sv.nil_); known && n && !dirty {
				continue
			}
			if !dirty && !x.poolDirty[key+"|"+a.sl+"~grown"] {
				continue
			}
			t := typeAt(o.typ, a.key)
			nv, _ := x.fresh(s, t, "pooled").(SliceV)
			no := s.mut(nv.obj)
			no.alias, no.pool = false, pid
			if !dirty {
				s.addFact(sub(nv.len, sv.len))
				nv.nil_ = vFalse
			}
			s.mut(a.id).f[a.key] = nv
			continue
		}
		if dirty {
			t := typeAt(o.typ, a.key)
			if t == nil {
				continue
			}
			if pv, ok := a.v.(PtrV); ok {
				if n, known := s.truth(pv.nil_); known && !n {
					continue // the object pointed to is perturbed itself
				}
			}
			s.mut(a.id).f[a.key] = x.fresh(s, t, "pooled")
		}
	}
}

func mPoolPut(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	iv, ok2 := c.args[1].(IfaceV)
	if !ok || !ok2 {
		x.giveUp("pool")
	}
	key := poolKey(x, p)
	pv, ok := iv.v.(PtrV)
	if !ok || s.heap[pv.obj] == nil {
		return ret(s)
	}
	if n, known := s.truth(pv.nil_); !known || n {
		x.report(s, "pool-put-nil", x.construct(s), "a possibly nil pointer is put into the pool "+key, c.pos)
		return ret(s)
	}
	x.sites["pool put"]++
	x.count(s, "live:"+key, -1)
	o := s.heap[pv.obj]
	if o.released != "" {
		x.report(s, "double-put", x.construct(s), "a "+shortType(o.typ)+" is put into its pool twice", c.pos)
		return ret(s)
	}
	// compare with what New makes
	ref := s.clone()
	fv, ok := x.readPath(ref, p.obj, "", p.path+"/~New", types.NewSignatureType(nil, nil, nil, nil, nil, false)).(FuncV)
	if ok && fv.fn != nil {
		old := x.liveObjs(ref)
		x.quiet++
		outs := x.callFV(ref, fv, nil, nil, fv.fn.Signature, false, c.pos)
		x.quiet--
		if len(outs) > 0 && outs[0].pan == nil {
			r := outs[0]
			if ri, ok := r.ret.(IfaceV); ok {
				if rp, ok := ri.v.(PtrV); ok {
					want := map[string]Val{}
					x.slots(r, rp.obj, old, "", func(_ int32, _, sl string, v Val) { want[sl] = v })
					x.slots(s, pv.obj, map[int32]bool{}, "", func(_ int32, _, sl string, v Val) {
						w, ok := want[sl]
						if !ok || v == nil {
							return
						}
						x.compareSlot(s, r, key+"|"+sl, v, w)
					})
				}
			}
		}
	}
	// the objects now belong to the pool
	by := x.construct(s)
	pid := consTok("pool:" + key)
	var mine []int32
	x.slots(s, pv.obj, map[int32]bool{}, "", func(id int32, _, _ string, _ Val) { mine = append(mine, id) })
	sort.Slice(mine, func(i, j int) bool { return mine[i] < mine[j] })
	done := map[int32]bool{}
	for _, id := range append([]int32{pv.obj}, mine...) {
		if done[id] {
			continue
		}
		done[id] = true
		if id == pv.obj || s.heap[id].pool == pid {
			s.mut(id).released = by
		}
	}
	return ret(s)
}

func (x *X) compareSlot(s, r *State, key string, v, w Val) {
	mark := func(k string) {
		if !x.poolDirty[k] {
			x.poolDirty[k] = true
			x.dirtyNew = true
		}
	}
	switch w := w.(type) {
	case SliceV:
		sv, ok := v.(SliceV)
		if !ok {
			mark(key)
			return
		}
		wn, _ := r.truth(w.nil_)
		vn, vk := s.truth(sv.nil_)
		if wn {
			if !vk || !vn {
				mark(key)
			}
			return
		}
		if !vk || vn || !s.facts.le(w.len, sv.len) {
			mark(key)
			return
		}
		if !s.facts.same(w.len, sv.len) || !s.facts.same(sv.off, K(0)) {
			mark(key + "~grown")
		}
	case PtrV:
		pv, ok := v.(PtrV)
		if !ok {
			mark(key)
			return
		}
		wn, wk := r.truth(w.nil_)
		vn, vk := s.truth(pv.nil_)
		if !wk || !vk || wn != vn {
			mark(key)
		}
	case IfaceV:
		iv, ok := v.(IfaceV)
		if !ok {
			mark(key)
			return
		}
		wn, wk := r.truth(w.nil_)
		vn, vk := s.truth(iv.nil_)
		if !wk || !vk || wn != vn || !wn {
			mark(key)
		}
	default:
		if iv, ok := v.(IntV); ok {
			if iw, ok := w.(IntV); ok && s.facts.same(iv.e, iw.e) {
				return
			}
		}
		if bv, ok := v.(BoolV); ok {
			if bw, ok := w.(BoolV); ok {
				t1, k1 := s.truth(bv)
				t2, k2 := r.truth(bw)
				if k1 && k2 && t1 == t2 {
					return
				}
			}
			mark(key)
			return
		}
		if !valEq(v, w) {
			mark(key)
		}
	}
}

// ---- contexts ----

func mBackground(x *X, s *State, c *callCtx) []*State {
	return ret(s, x.newCtx(consTok("ctx:"+c.fn.Name()), 0))
}

func mWithCancel(x *X, s *State, c *callCtx) []*State {
	parent, _ := c.args[0].(IfaceV)
	ctx := x.newCtx(newID(), parent.id)
	if p := ctxOf[parent.id]; p != nil && x.ctxQuiet[p.done] {
		x.ctxQuiet[ctxOf[ctx.id].done] = true
	}
	cancel := FuncV{nil_: vFalse, nat: "cancel", binds: []Val{ctx}}
	return ret(s, ctx, cancel)
}

func mWithValue(x *X, s *State, c *callCtx) []*State {
	parent, _ := c.args[0].(IfaceV)
	ctx := x.newCtx(newID(), parent.id)
	ctxOf[ctx.id].key = c.args[1]
	if p := ctxOf[parent.id]; p != nil && x.ctxQuiet[p.done] {
		x.ctxQuiet[ctxOf[ctx.id].done] = true
	}
	s.glob[fmt.Sprintf("ctxval:%d", ctx.id)] = c.args[2]
	return ret(s, ctx)
}

func mCause(x *X, s *State, c *callCtx) []*State {
	iv, _ := c.args[0].(IfaceV)
	for i := ctxOf[iv.id]; i != nil; i = ctxOf[i.parent] {
		if s.bools[i.done] {
			return ret(s, IfaceV{nil_: vFalse, id: newID()})
		}
	}
	return ret(s, IfaceV{nil_: freshBool(), id: newID()})
}

// ---- runtime ----

func mNumCPU(x *X, s *State, c *callCtx) []*State {
	if _, many := s.glob["cpus"]; many {
		return ret(s, IntV{S(consSym("NumCPU (8 or more)", 8, 1<<16, true, true))})
	}
	return ret(s, IntV{S(consSym("NumCPU", 1, 1<<16, true, true))})
}

func mStack(x *X, s *State, c *callCtx) []*State {
	b, _ := c.args[0].(SliceV)
	x.havocArg(s, b)
	n := S(newSym("n", 0, maxLen(), true, true))
	s.addFact(sub(b.len, n))
	return ret(s, IntV{n})
}

func mStackBytes(x *X, s *State, c *callCtx) []*State {
	return ret(s, x.freshBytes(s, "stack"))
}

// freshBytes is an arbitrary byte slice which aliases nothing.
func (x *X) freshBytes(s *State, name string) SliceV {
	l := S(newSym("len("+name+")", 0, maxLen(), true, true))
	c := S(newSym("cap("+name+")", 0, maxLen(), true, true))
	s.addFact(sub(c, l))
	o := s.addObj(&Obj{typ: types.NewSlice(types.Typ[types.Byte]), isArr: true, elem: types.Typ[types.Byte], n: c, tok: newID(), site: name})
	return SliceV{obj: o.id, off: K(0), len: l, cap: c, nil_: vFalse}
}

// ---- bufio ----

func mNewBuf(x *X, s *State, c *callCtx) []*State {
	if iv, ok := c.args[0].(IfaceV); ok && iv.dyn != nil && types.Identical(iv.dyn, c.res.At(0).Type()) && !strings.HasSuffix(c.fn.Name(), "Size") {
		return ret(s, iv.v) // it is buffered already
	}
	t := c.res.At(0).Type().(*types.Pointer).Elem()
	o := s.addObj(&Obj{typ: t, site: c.fn.Name()})
	o.f["/~under"] = c.args[0]
	o.f["/~dirty"] = vFalse
	o.f["/~err"] = nilErr
	o.f["/~size"] = IntV{K(4096)}
	if len(c.args) > 1 {
		n, ok := c.args[1].(IntV)
		if c := n.e; !ok || !c.isConst() || c.c < 16 {
			n = freshInt(types.Typ[types.Int], "size")
			s.assume(ge(n.e.addc(-16)))
		}
		o.f["/~size"] = n
	}
	return ret(s, PtrV{obj: o.id, nil_: vFalse})
}

// bufSize is the size of the buffer.
func bufSize(s *State, p PtrV) Lin {
	n, ok := s.heap[p.obj].f[p.path+"/~size"].(IntV)
	if !ok {
		n = freshInt(types.Typ[types.Int], "size")
		s.assume(ge(n.e.addc(-16)))
		s.mut(p.obj).f[p.path+"/~size"] = n
	}
	return n.e
}

// buffered is how much a buffered writer holds: nothing when all of it was
// flushed, otherwise something that fits into its buffer, until it is written
// to or flushed the next time.
func (x *X) buffered(s *State, p PtrV) Lin {
	o := s.heap[p.obj]
	dirty, ok := o.f[p.path+"/~dirty"].(BoolV)
	if d, known := s.truth(dirty); ok && known && !d {
		return K(0)
	} else if n, has := o.f[p.path+"/~held"].(IntV); has {
		return n.e
	} else {
		n := freshInt(types.Typ[types.Int], "held")
		least := int64(0)
		if ok && known {
			least = 1
		}
		s.assume(ge(n.e.addc(-least)))
		s.assume(ge(bufSize(s, p).sub(n.e)))
		s.mut(p.obj).f[p.path+"/~held"] = n
		return n.e
	}
}

func mBufBuffered(x *X, s *State, c *callCtx) []*State {
	p, _, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	return append(bad, ret(s, IntV{x.buffered(s, p)})...)
}

func mBufAvailable(x *X, s *State, c *callCtx) []*State {
	p, _, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	n := x.buffered(s, p)
	return append(bad, ret(s, IntV{bufSize(s, p).sub(n)})...)
}

func mBufSize(x *X, s *State, c *callCtx) []*State {
	p, _, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	return append(bad, ret(s, IntV{bufSize(s, p)})...)
}

// mBufReadable: a buffered reader may have read ahead.
func mBufReadable(x *X, s *State, c *callCtx) []*State {
	p, _, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	n := freshInt(types.Typ[types.Int], "ahead")
	s.assume(ge(n.e))
	s.assume(ge(bufSize(s, p).sub(n.e)))
	return append(bad, ret(s, n)...)
}

func (x *X) bufOf(s *State, v Val, c *callCtx) (PtrV, IfaceV, []*State, *State) {
	p, ok := v.(PtrV)
	if !ok {
		x.giveUp("bufio object")
	}
	g, bad := x.obliges(s, "nil", c.pos, p.nil_.not())
	if g == nil {
		return p, IfaceV{}, bad, nil
	}
	x.logAccess(g, p.obj, p.path+"/~state", true)
	o := g.heap[p.obj]
	u, ok := o.f[p.path+"/~under"].(IfaceV)
	if !ok {
		u = IfaceV{nil_: vFalse, id: consTok(fmt.Sprintf("under:%d", p.obj))}
		g.mut(p.obj).f[p.path+"/~under"] = u
	}
	return p, u, bad, g
}

// bufError: errors of a bufio.Writer are sticky.
func (x *X) bufError(s *State, p PtrV, n Lin) ([]*State, *State) {
	e, ok := s.heap[p.obj].f[p.path+"/~err"].(IfaceV)
	if !ok {
		e = IfaceV{nil_: freshBool(), id: newID()}
		s.mut(p.obj).f[p.path+"/~err"] = e
	}
	isNil, known := s.truth(e.nil_)
	if known && isNil {
		return nil, s
	}
	res := func(s *State) []*State {
		if n.isConst() && n.c < 0 {
			return ret(s, e)
		}
		return ret(s, IntV{K(0)}, e)
	}
	if known {
		return res(s), nil
	}
	t := s.clone()
	var out []*State
	if t.assume(e.nil_.not()) {
		out = res(t)
	}
	if !s.assume(e.nil_) {
		return out, nil
	}
	return out, s
}

func mBufWrite(x *X, s *State, c *callCtx) []*State {
	p, u, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	data := c.args[1]
	n := valLen(data)
	if sv, ok := data.(SliceV); ok {
		x.checkAlive(s, sv.obj, "read")
	}
	out, s := x.bufError(s, p, K(0))
	out = append(out, bad...)
	if s == nil {
		return out
	}
	ps, known := x.content(s, data, n)
	if !known {
		ps = x.unknownBytes(n)
	}
	x.sites["buffered write"]++
	// Another buffer of the same connection still holds data: what is written
	// now gets in front of it, or into the middle of it.
	for _, id := range s.objIDs() {
		o := s.heap[id]
		w, isBuf := o.f["/~under"].(IfaceV)
		if !isBuf || id == p.obj {
			continue
		}
		if a, ok := w.v.(PtrV); !ok || a.obj == 0 {
			continue
		} else if b, ok := u.v.(PtrV); !ok || a.obj != b.obj || a.path != b.path {
			continue
		}
		if d, ok := o.f["/~dirty"].(BoolV); ok {
			if v, known := s.truth(d); known && v {
				x.report(s, "overtaken", x.construct(s), "data is written to a connection while another buffer for it holds data that was not flushed", c.pos)
			}
		}
	}
	rs := x.writeTo(s, u, ps, n, c)
	for _, r := range rs {
		if r.pan != nil {
			continue
		}
		t, _ := r.ret.(TupleV)
		if len(t.v) == 2 {
			r.mut(p.obj).f[p.path+"/~err"] = t.v[1]
		}
		r.mut(p.obj).f[p.path+"/~dirty"] = vTrue
		delete(r.mut(p.obj).f, p.path+"/~held")
	}
	return append(out, rs...)
}

func mBufWriteByte(x *X, s *State, c *callCtx) []*State {
	v, _ := c.args[1].(IntV)
	o := s.addObj(&Obj{typ: types.NewSlice(types.Typ[types.Byte]), isArr: true, elem: types.Typ[types.Byte], n: K(1), site: "byte"})
	o.segs = []Seg{{off: K(0), len: K(1), kind: sgByte, e: v.e}}
	d := *c
	d.args = []Val{c.args[0], SliceV{obj: o.id, off: K(0), len: K(1), cap: K(1), nil_: vFalse}}
	out := mBufWrite(x, s, &d)
	for _, r := range out {
		if t, ok := r.ret.(TupleV); ok && r.pan == nil {
			r.ret = t.v[1]
		}
	}
	return out
}

func mBufFlush(x *X, s *State, c *callCtx) []*State {
	p, _, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	out, s := x.bufError(s, p, K(-1))
	out = append(out, bad...)
	if s == nil {
		return out
	}
	x.sites["flush"]++
	if iv, ok := s.heap[p.obj].f[p.path+"/~under"].(IfaceV); ok {
		if rs, ok := x.viaHarness(s, iv, "vfFlush", nil, c); ok {
			for _, r := range rs {
				if r.pan != nil {
					continue
				}
				e, _ := r.ret.(IfaceV)
				o := r.mut(p.obj)
				o.f[p.path+"/~err"] = e
				delete(o.f, p.path+"/~held")
				if n, known := r.truth(e.nil_); known && n {
					o.f[p.path+"/~dirty"] = vFalse
				}
			}
			return append(out, rs...)
		}
	}
	delete(s.mut(p.obj).f, p.path+"/~held")
	t := s.clone()
	s.mut(p.obj).f[p.path+"/~dirty"] = vFalse
	e := x.newErr()
	t.mut(p.obj).f[p.path+"/~err"] = e
	return append(out, append(ret(s, nilErr), ret(t, e)...)...)
}

func mBufRead(x *X, s *State, c *callCtx) []*State {
	_, u, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	return append(x.callMethod(s, u, "Read", c.args[1:], c), bad...)
}

func mBufReadByte(x *X, s *State, c *callCtx) []*State {
	_, u, bad, s := x.bufOf(s, c.args[0], c)
	if s == nil {
		return bad
	}
	if r, ok := x.viaHarness(s, u, "ReadByte", nil, c); ok {
		return append(r, bad...)
	}
	if r, ok := x.viaHarness(s, u, "vfReadByte", nil, c); ok {
		return append(r, bad...)
	}
	return append(bad, fork(s, func(s *State) []*State {
		return ret(s, IntV{K(0)}, IfaceV{nil_: vFalse, id: newID()})
	}, func(s *State) []*State { return ret(s, freshInt(types.Typ[types.Byte], "byte"), nilErr) })...)
}

// ---- strings ----

func mJoin(x *X, s *State, c *callCtx) []*State {
	sv, ok := c.args[0].(SliceV)
	if ok && sv.len.isConst() {
		if sv.len.c == 0 {
			return ret(s, strConst(""))
		}
		if sv.len.c <= 8 && s.heap[sv.obj] != nil {
			sep, _ := c.args[1].(StrV)
			var r StrV
			for i := int64(0); i < sv.len.c; i++ {
				e, ok := x.readPath(s, sv.obj, elemKey(sv.off.addc(i)), "", types.Typ[types.String]).(StrV)
				if !ok {
					return ret(s, x.freshStr(s, "join"))
				}
				if i == 0 {
					r = e
					continue
				}
				r = x.concat(s, x.concat(s, r, sep).(StrV), e).(StrV)
			}
			return ret(s, r)
		}
	}
	return ret(s, x.freshStr(s, "join"))
}

func mIndexByte(x *X, s *State, c *callCtx) []*State {
	if a, ok := c.args[0].(StrV); ok && a.k != nil {
		if b, ok := c.args[1].(IntV); ok && b.e.isConst() {
			return ret(s, IntV{K(int64(strings.IndexByte(*a.k, byte(b.e.c))))})
		}
	}
	i := S(newSym("index", -1, maxLen(), true, true))
	s.addFact(sub(valLen(c.args[0]), i).addc(-1))
	return ret(s, IntV{i})
}

func mTrimSuffix(x *X, s *State, c *callCtx) []*State {
	if a, ok := c.args[0].(StrV); ok && a.k != nil {
		if b, ok := c.args[1].(StrV); ok && b.k != nil {
			return ret(s, strConst(strings.TrimSuffix(*a.k, *b.k)))
		}
	}
	n := valLen(c.args[1])
	l := valLen(c.args[0])
	if a, ok := x.knownBytes(s, c.args[0]); ok {
		if b, ok := x.knownBytes(s, c.args[1]); ok {
			if !strings.HasSuffix(a, b) {
				return ret(s, c.args[0])
			}
			l = sub(l, n)
			switch v := c.args[0].(type) {
			case SliceV:
				v.len = l
				return ret(s, v)
			case StrV:
				return ret(s, strConst(strings.TrimSuffix(a, b)))
			}
		}
	}
	can := ge(sub(l, n))
	return fork(s, func(s *State) []*State {
		if !s.assume(can) {
			return nil
		}
		switch v := c.args[0].(type) {
		case SliceV:
			v.len = sub(v.len, n)
			return ret(s, v)
		case StrV:
			if v.k == nil {
				v.len = sub(v.len, n)
				return ret(s, v)
			}
		}
		return ret(s, x.fresh(s, c.res.At(0).Type(), "trim"))
	}, func(s *State) []*State { return ret(s, c.args[0]) })
}

func mBytesEqual(x *X, s *State, c *callCtx) []*State {
	return ret(s, x.eqBytes(s, c.args[0], c.args[1]))
}

// ---- timers ----

func mNewTimer(x *X, s *State, c *callCtx) []*State {
	t := c.res.At(0).Type().(*types.Pointer).Elem()
	o := s.addObj(&Obj{typ: t, site: c.fn.Name()})
	ch := OpaqueV{id: newID(), typ: t.Underlying().(*types.Struct).Field(0).Type()}
	chanTimer[ch.id] = o.id
	o.f["/~C"] = ch
	x.countTimer(s, c.res.At(0).Type())
	x.count(s, "timers", 1)
	o.f["/~stopped"] = vFalse
	o.f["/~d"] = c.args[0]
	return ret(s, PtrV{obj: o.id, nil_: vFalse})
}

func mTimerStop(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	if !ok {
		x.giveUp("timer")
	}
	g, bad := x.obliges(s, "nil", c.pos, p.nil_.not())
	if g != nil {
		x.setTimer(g, p.obj, true)
		g.ret = x.freshResults(g, c.res, "stop")
	}
	return withAlive(g, bad)
}

// chanTimer maps the channel of a timer to the timer.
var chanTimer = map[int32]int32{}

// setTimer stops or starts a timer.
func (x *X) setTimer(s *State, id int32, stopped bool) {
	o := s.heap[id]
	if o == nil {
		return
	}
	b, ok := o.f["/~stopped"].(BoolV)
	if v, known := s.truth(b); ok && known && v != stopped {
		if stopped {
			x.count(s, "timers", -1)
		} else {
			x.count(s, "timers", 1)
		}
	}
	s.mut(id).f["/~stopped"] = mkBool(stopped)
}

// countTimer counts how often timers (not tickers) are armed.
func (x *X) countTimer(s *State, t types.Type) {
	if n, ok := t.(*types.Pointer).Elem().(*types.Named); ok && n.Obj().Name() == "Timer" {
		x.count(s, "timer armed", 1)
	}
}

func mTimerReset(x *X, s *State, c *callCtx) []*State {
	p, ok := c.args[0].(PtrV)
	if !ok {
		x.giveUp("timer")
	}
	g, bad := x.obliges(s, "nil", c.pos, p.nil_.not())
	if g != nil {
		if o := g.heap[p.obj]; o != nil {
			x.setTimer(g, p.obj, false)
			g.mut(p.obj).f["/~d"] = c.args[1]
		}
		x.countTimer(g, c.fn.Signature.Recv().Type())
		g.ret = x.freshResults(g, c.res, "reset")
	}
	return withAlive(g, bad)
}

// ---- addresses ----

// An address is an opaque value; addrOf describes it as far as it is known.
type addrInfo struct {
	n   int64 // length in bytes, 0: invalid
	tok int32 // content
	off Lin
}

var addrOf = map[int32]addrInfo{}

func (x *X) addrKind(s *State, id int32) (n int64, known bool) {
	if a, ok := addrOf[id]; ok {
		return a.n, true
	}
	if v, ok := s.bools[addrBool(id, "6")]; ok && v {
		return 16, true
	}
	if v, ok := s.bools[addrBool(id, "4")]; ok && v {
		return 4, true
	}
	return 0, false
}

func addrBool(id int32, k string) int32 { return consBool(fmt.Sprintf("addr:%s:%d", k, id)) }

func mAddrFromSlice(x *X, s *State, c *callCtx) []*State {
	b, ok := c.args[0].(SliceV)
	if !ok {
		x.giveUp("address bytes")
	}
	x.checkAlive(s, b.obj, "read")
	t := c.res.At(0).Type()
	var out []*State
	for _, n := range []int64{4, 16} {
		g := s.clone()
		if g.assume(eq(b.len.addc(-n))) {
			out = append(out, ret(g, x.mkAddr(g, b, n, t), vTrue)...)
		}
	}
	if s.assume(eq(b.len.addc(-4)).not()) && s.assume(eq(b.len.addc(-16)).not()) {
		out = append(out, ret(s, x.zero(s, t), vFalse)...)
	}
	return out
}

func (x *X) mkAddr(s *State, v Val, n int64, t types.Type) Val {
	ps, ok := x.content(s, v, K(n))
	if ok && len(ps) == 1 && ps[0].kind == sgCopy {
		id := consTok(fmt.Sprintf("addr:%d:%d:%s", n, ps[0].tok, ps[0].toff))
		addrOf[id] = addrInfo{n, ps[0].tok, ps[0].toff}
		return OpaqueV{id: id, typ: t}
	}
	id := newID()
	addrOf[id] = addrInfo{n: n, tok: newID(), off: K(0)}
	return OpaqueV{id: id, typ: t}
}

func mAddrFromArr(x *X, s *State, c *callCtx) []*State {
	a, ok := c.args[0].(ArrV)
	t := c.res.At(0).Type()
	if !ok {
		return ret(s, OpaqueV{id: newID(), typ: t})
	}
	o := s.heap[a.obj]
	return ret(s, x.mkAddr(s, SliceV{obj: a.obj, off: K(0), len: o.n, cap: o.n}, o.n.c, t))
}

func isZeroAddr(o OpaqueV) bool {
	return o.id == consTok("zero:"+types.TypeString(o.typ.Underlying(), nil))
}

// addrSplit separates the kinds of address.
func (x *X) addrSplit(s *State, v Val, f func(s *State, n int64, ps []Piece) []*State) []*State {
	o, ok := v.(OpaqueV)
	if !ok {
		o = OpaqueV{id: newID(), typ: nil}
	}
	if o.typ != nil && isZeroAddr(o) {
		return f(s, 0, nil)
	}
	if a, ok := addrOf[o.id]; ok {
		return f(s, a.n, []Piece{{len: K(a.n), kind: sgCopy, tok: a.tok, toff: a.off}})
	}
	var out []*State
	b4 := BoolV{kind: bSym, sym: addrBool(o.id, "4")}
	b6 := BoolV{kind: bSym, sym: addrBool(o.id, "6")}
	bv := BoolV{kind: bSym, sym: addrBool(o.id, "v")}
	ba := BoolV{kind: bSym, sym: addrBool(o.id, "as4")}
	x.keepBool[b4.sym], x.keepBool[b6.sym], x.keepBool[bv.sym], x.keepBool[ba.sym] = true, true, true, true
	p := func(n int64) []Piece {
		return []Piece{{len: K(n), kind: sgCopy, tok: consTok(fmt.Sprintf("addrbytes:%d", o.id)), toff: K(0)}}
	}
	t := s.clone()
	if t.assume(bv) && t.assume(ba) && t.assume(b4) && t.assume(b6.not()) {
		out = append(out, f(t, 4, p(4))...)
	}
	t = s.clone()
	if t.assume(bv) && t.assume(b6) && t.assume(b4.not()) {
		out = append(out, f(t, 16, p(16))...)
	}
	if s.assume(bv.not()) && s.assume(ba.not()) && s.assume(b4.not()) && s.assume(b6.not()) {
		out = append(out, f(s, 0, nil)...)
	}
	return out
}

func mAddrAsSlice(x *X, s *State, c *callCtx) []*State {
	return x.addrSplit(s, c.args[0], func(s *State, n int64, ps []Piece) []*State {
		if n == 0 {
			return ret(s, SliceV{nil_: vTrue, off: K(0), len: K(0), cap: K(0)})
		}
		o := s.addObj(&Obj{typ: c.res.At(0).Type(), isArr: true, elem: types.Typ[types.Byte], n: K(n), site: "address"})
		o.segs = x.piecesToSegs(K(0), ps)
		return ret(s, SliceV{obj: o.id, off: K(0), len: K(n), cap: K(n), nil_: vFalse})
	})
}

func mAddrAs(n int64) model {
	return func(x *X, s *State, c *callCtx) []*State {
		return x.addrSplit(s, c.args[0], func(s *State, m int64, ps []Piece) []*State {
			arr := func(s *State, ps []Piece) []*State {
				o := s.addObj(&Obj{typ: c.res.At(0).Type(), isArr: true, elem: types.Typ[types.Byte], n: K(n), tok: newID(), frozen: true})
				if ps != nil {
					o.segs = x.piecesToSegs(K(0), ps)
				}
				return ret(s, ArrV{o.id})
			}
			if m == n {
				return arr(s, ps)
			}
			if m == 0 {
				// As4 and As16 of the zero address panic
				_, bad := x.obliges(s, "netip panic", c.pos, vFalse)
				return bad
			}
			if n == 16 {
				// an IPv4 address mapped to IPv6
				return arr(s, append([]Piece{{len: K(12), kind: sgConst, k: "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff"}}, ps...))
			}
			// As4 of an IPv6 address panics unless it maps an IPv4 address
			id := int32(0)
			if o, ok := c.args[0].(OpaqueV); ok {
				id = o.id
			}
			b := BoolV{kind: bSym, sym: addrBool(id, "as4")}
			x.keepBool[b.sym] = true
			g, bad := x.obliges(s, "netip panic", c.pos, b)
			if g == nil {
				return bad
			}
			p := ps[0]
			p.len, p.toff = K(4), p.toff.addc(12)
			return append(arr(g, []Piece{p}), bad...)
		})
	}
}

func mAddrIs(k string) model {
	return func(x *X, s *State, c *callCtx) []*State {
		return x.addrSplit(s, c.args[0], func(s *State, n int64, ps []Piece) []*State {
			switch k {
			case "4":
				return ret(s, mkBool(n == 4))
			case "6":
				return ret(s, mkBool(n == 16))
			case "v":
				return ret(s, mkBool(n != 0))
			}
			if n != 16 {
				return ret(s, vFalse)
			}
			id := int32(0)
			if o, ok := c.args[0].(OpaqueV); ok {
				id = o.id
			}
			// an IPv6 address has a form of four bytes when it maps one
			b := BoolV{kind: bSym, sym: addrBool(id, "as4")}
			x.keepBool[b.sym] = true
			return ret(s, b)
		})
	}
}

func mAddrBitLen(x *X, s *State, c *callCtx) []*State {
	return x.addrSplit(s, c.args[0], func(s *State, n int64, ps []Piece) []*State {
		return ret(s, IntV{K(n * 8)})
	})
}

var _ = bits.Len
var _ ssa.Value

// mListen opens the listener of the harness, or fails without one.
func mListen(x *X, s *State, c *callCtx) []*State {
	i, _ := s.glob["onlisten"].(IfaceV)
	if h, ok := i.v.(FuncV); ok {
		return x.callFV(s, h, c.args[:2], nil, h.fn.Signature, false, c.pos)
	}
	return ret(s, IfaceV{nil_: vTrue}, x.newErr())
}

// mAddrUnmap is the IPv4 address an IPv6 address maps, or the address itself.
func mAddrUnmap(x *X, s *State, c *callCtx) []*State {
	return x.addrSplit(s, c.args[0], func(s *State, n int64, ps []Piece) []*State {
		o, ok := c.args[0].(OpaqueV)
		if n != 16 || !ok {
			return ret(s, c.args[0])
		}
		b := BoolV{kind: bSym, sym: addrBool(o.id, "as4")}
		x.keepBool[b.sym] = true
		t := s.clone()
		var out []*State
		if t.assume(b) {
			p := ps[0]
			id := consTok(fmt.Sprintf("addr:4:%d:%s", p.tok, p.toff.addc(12)))
			addrOf[id] = addrInfo{4, p.tok, p.toff.addc(12)}
			out = append(out, ret(t, OpaqueV{id: id, typ: c.res.At(0).Type()})...)
		}
		if s.assume(b.not()) {
			out = append(out, ret(s, c.args[0])...)
		}
		return out
	})
}
