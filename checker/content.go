package main

import (
	"fmt"
	"go/types"
	"slices"
	"strings"
)

// Array contents: a base token overlaid by segments, latest last.

type Piece struct {
	len  Lin
	kind segKind
	e    Lin
	tok  int32
	toff Lin
	k    string
	n    int // width of sgBE
}

func (f *Facts) le(a, b Lin) bool { d, ok := lincomb(b, -1, a); return ok && f.entails(d) }
func (f *Facts) same(a, b Lin) bool {
	d, ok := lincomb(b, -1, a)
	return ok && f.eqz(d)
}

func segTok(g Seg, whole bool) (int32, bool) {
	switch g.kind {
	case sgBE:
		t := consTok(fmt.Sprintf("be:%s:%s", g.e, g.len))
		if g.len.isConst() {
			segBE[t] = bePart{g.e, g.len.c}
		}
		return t, true
	case sgVarint:
		return consTok("varint:" + g.e.String()), true
	}
	return 0, false
}

// subPiece is the part [d, d+n) of a segment.
func (x *X) subPiece(s *State, g Seg, d, n Lin) (Piece, bool) {
	f := s.facts
	switch g.kind {
	case sgCopy:
		return Piece{len: n, kind: sgCopy, tok: g.tok, toff: add(g.toff, d)}, true
	case sgZero:
		return Piece{len: n, kind: sgZero}, true
	case sgConst:
		if d.isConst() && n.isConst() && d.c >= 0 && d.c+n.c <= int64(len(g.k)) {
			return Piece{len: n, kind: sgConst, k: g.k[d.c : d.c+n.c]}, true
		}
		return Piece{len: n, kind: sgCopy, tok: consTok("const:" + g.k), toff: d}, true
	case sgByte:
		return Piece{len: K(1), kind: sgByte, e: g.e}, true
	}
	if f.same(d, K(0)) && f.same(n, g.len) {
		return Piece{len: g.len, kind: g.kind, e: g.e}, true
	}
	if t, ok := segTok(g, false); ok {
		return Piece{len: n, kind: sgCopy, tok: t, toff: d}, true
	}
	return Piece{}, false
}

// resolve describes o[off:off+n]; ok is false when the pieces are not known.
func (x *X) resolve(s *State, o *Obj, off, n Lin) (ps []Piece, ok bool) {
	ps, ok = x.res(s, o, len(o.segs)-1, off, n, 0)
	return mergePieces(ps), ok
}

func (x *X) res(s *State, o *Obj, i int, off, n Lin, depth int) ([]Piece, bool) {
	f := s.facts
	if f.same(n, K(0)) {
		return nil, true
	}
	end := add(off, n)
	for ; i >= 0; i-- {
		g := o.segs[i]
		gend := add(g.off, g.len)
		if f.le(gend, off) || f.le(end, g.off) {
			continue
		}
		startIn := f.le(g.off, off) // segment starts at or before the region
		endIn := f.le(end, gend)    // segment ends at or after the region
		if startIn && endIn {
			p, ok := x.subPiece(s, g, sub(off, g.off), n)
			return []Piece{p}, ok
		}
		if f.same(g.len, K(0)) {
			continue
		}
		var out []Piece
		if !startIn {
			if !f.le(off, g.off) {
				return nil, false
			}
			l, ok := x.res(s, o, i-1, off, sub(g.off, off), depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		if endIn {
			p, ok := x.subPiece(s, g, K(0), sub(end, g.off))
			if !ok {
				return nil, false
			}
			return append(out, p), true
		}
		if !f.le(gend, end) {
			return nil, false
		}
		from := g.off
		if startIn {
			from = off
		}
		p, ok := x.subPiece(s, g, sub(from, g.off), sub(gend, from))
		if !ok {
			return nil, false
		}
		out = append(out, p)
		r, ok := x.res(s, o, i-1, gend, sub(end, gend), depth+1)
		return append(out, r...), ok
	}
	if o.tok == 0 {
		return []Piece{{len: n, kind: sgZero}}, true
	}
	return []Piece{{len: n, kind: sgCopy, tok: o.tok, toff: off}}, true
}

func mergePieces(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if len(out) > 0 {
			q := &out[len(out)-1]
			if q.kind == sgCopy && p.kind == sgCopy && q.tok == p.tok && add(q.toff, q.len).eq(p.toff) {
				q.len = add(q.len, p.len)
				continue
			}
			if q.kind == sgZero && p.kind == sgZero {
				q.len = add(q.len, p.len)
				continue
			}
			if q.kind == sgConst && p.kind == sgConst {
				q.k += p.k
				q.len = add(q.len, p.len)
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func (p Piece) String() string {
	switch p.kind {
	case sgCopy:
		return fmt.Sprintf("bytes(#%d[%s:+%s])", p.tok, p.toff, p.len)
	case sgByte:
		return fmt.Sprintf("byte(%s)", p.e)
	case sgBE:
		return fmt.Sprintf("be%s(%s)", p.len, p.e)
	case sgVarint:
		return fmt.Sprintf("varint(%s)", p.e)
	case sgZero:
		return fmt.Sprintf("zero(%s)", p.len)
	case sgConst:
		return fmt.Sprintf("%q", p.k)
	}
	return "?"
}

func showPieces(ps []Piece) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.String())
	}
	return strings.Join(s, " ")
}

// canon splits pieces into a canonical form for comparison.
func (x *X) canon(s *State, ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		switch p.kind {
		case sgConst:
			for i := 0; i < len(p.k); i++ {
				out = append(out, Piece{len: K(1), kind: sgByte, e: K(int64(p.k[i]))})
			}
			continue
		case sgVarint:
			if s.facts.le(p.e, K(239)) && s.facts.le(K(0), p.e) {
				out = append(out, Piece{len: K(1), kind: sgByte, e: p.e})
				continue
			}
		case sgZero:
			if p.len.isConst() && p.len.c <= 64 {
				for i := int64(0); i < p.len.c; i++ {
					out = append(out, Piece{len: K(1), kind: sgByte, e: K(0)})
				}
				continue
			}
		case sgBE:
			if p.e.isConst() && p.len.isConst() {
				for i := p.len.c - 1; i >= 0; i-- {
					out = append(out, Piece{len: K(1), kind: sgByte, e: K(p.e.c >> (8 * i) & 255)})
				}
				continue
			}
		case sgCopy:
			if k, ok := x.tokConst[p.tok]; ok && p.toff.isConst() && p.len.isConst() && p.toff.c >= 0 && p.toff.c+p.len.c <= int64(len(k)) {
				for i := int64(0); i < p.len.c; i++ {
					out = append(out, Piece{len: K(1), kind: sgByte, e: K(int64(k[p.toff.c+i]))})
				}
				continue
			}
			if p.len.isConst() && p.len.c == 1 {
				out = append(out, Piece{len: K(1), kind: sgByte, e: S(tokByte(p.tok, p.toff))})
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// samePieces reports whether two contents are provably equal.
func (x *X) samePieces(s *State, a, b []Piece) bool {
	a, b = x.canon(s, a), x.canon(s, b)
	f := s.facts
	for i := 0; i < len(a) && i < len(b); i++ { // integers against their bytes
		if n := b[i].len; b[i].kind == sgBE && a[i].kind == sgByte && n.isConst() && int64(len(a)-i) >= n.c {
			if e, ok := x.sumBytes(s, a[i:i+int(n.c)], n.c); ok {
				a = slices.Concat(a[:i], []Piece{{len: n, kind: sgBE, e: e}}, a[i+int(n.c):])
			}
		} else if n := a[i].len; a[i].kind == sgBE && b[i].kind == sgByte && n.isConst() && int64(len(b)-i) >= n.c {
			if e, ok := x.sumBytes(s, b[i:i+int(n.c)], n.c); ok {
				b = slices.Concat(b[:i], []Piece{{len: n, kind: sgBE, e: e}}, b[i+int(n.c):])
			}
		}
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, q := a[i], b[i]
		if p.kind != q.kind || !f.same(p.len, q.len) {
			return false
		}
		switch p.kind {
		case sgCopy:
			if p.tok != q.tok || !f.same(p.toff, q.toff) {
				return false
			}
		case sgByte, sgBE, sgVarint:
			if !f.same(p.e, q.e) {
				return false
			}
		}
	}
	return true
}

func tokByte(tok int32, off Lin) Sym {
	y := derivedTok(tok, fmt.Sprintf("byte:%d:%s", tok, off), 0, 255, true, true, off)
	byteOf[y] = bytesAt{tok, off, 1}
	return y
}

// addSeg overlays a segment.
func (x *X) addSeg(s *State, id int32, g Seg) {
	o := s.mut(id)
	f := s.facts
	if f.same(g.len, K(0)) {
		return
	}
	gend := add(g.off, g.len)
	var keep []Seg
	for _, h := range o.segs {
		if f.le(g.off, h.off) && f.le(add(h.off, h.len), gend) {
			continue
		}
		keep = append(keep, h)
	}
	if len(keep) > 100 {
		keep = compact(keep)
	}
	if len(keep) > 200 {
		o.tok = newID()
		keep = nil
	}
	o.segs = append(keep, g)
	if o.alias {
		for _, oid := range s.objIDs() {
			p := s.heap[oid]
			if oid != id && p.alias && p.isArr && !p.frozen && types.Identical(p.elem, o.elem) && p.released == "" {
				q := s.mut(oid)
				q.segs = nil
				q.tok = newID()
			}
		}
	}
}

// compact joins known bytes written one after the other.
func compact(segs []Seg) []Seg {
	known := func(g Seg) (string, bool) {
		switch g.kind {
		case sgConst:
			return g.k, g.len.isConst() && g.len.c == int64(len(g.k))
		case sgByte:
			return string([]byte{byte(g.e.c)}), g.e.isConst()
		case sgVarint:
			return string([]byte{byte(g.e.c)}), g.e.isConst() && g.e.c >= 0 && g.e.c < 240
		}
		return "", false
	}
	var out []Seg
	for _, g := range segs {
		if k, ok := known(g); ok {
			if n := len(out); n > 0 && out[n-1].kind == sgConst && add(out[n-1].off, out[n-1].len).eq(g.off) {
				out[n-1].k += k
				out[n-1].len = K(int64(len(out[n-1].k)))
				continue
			}
			g = Seg{off: g.off, len: K(int64(len(k))), kind: sgConst, k: k}
		}
		out = append(out, g)
	}
	return out
}

func (x *X) piecesToSegs(at Lin, ps []Piece) []Seg {
	var out []Seg
	for _, p := range ps {
		out = append(out, Seg{off: at, len: p.len, kind: p.kind, e: p.e, tok: p.tok, toff: p.toff, k: p.k})
		at = add(at, p.len)
	}
	return out
}

// putPieces writes pieces at an offset of an object.
func (x *X) putPieces(s *State, id int32, at Lin, ps []Piece) {
	for _, g := range x.piecesToSegs(at, ps) {
		x.addSeg(s, id, g)
	}
}

func (x *X) unknownBytes(n Lin) []Piece {
	return []Piece{{len: n, kind: sgCopy, tok: newID(), toff: K(0)}}
}

// content returns the pieces of the first n bytes of a slice or string.
func (x *X) content(s *State, v Val, n Lin) ([]Piece, bool) {
	switch v := v.(type) {
	case StrV:
		if v.k != nil {
			if n.isConst() && n.c <= int64(len(*v.k)) {
				return []Piece{{len: n, kind: sgConst, k: (*v.k)[:n.c]}}, true
			}
			t := consTok("const:" + *v.k)
			x.tokConst[t] = *v.k
			return []Piece{{len: n, kind: sgCopy, tok: t, toff: K(0)}}, true
		}
		o := s.heap[v.obj]
		if o == nil {
			return x.unknownBytes(n), true
		}
		return x.resolve(s, o, v.off, n)
	case SliceV:
		if s.facts.same(n, K(0)) {
			return nil, true
		}
		o := s.heap[v.obj]
		if o == nil {
			return x.unknownBytes(n), true
		}
		return x.resolve(s, o, v.off, n)
	}
	return nil, false
}

func valLen(v Val) Lin {
	switch v := v.(type) {
	case StrV:
		return v.len
	case SliceV:
		return v.len
	}
	return K(0)
}

// frozenArr makes an immutable byte array from pieces.
func (x *X) frozenArr(s *State, n Lin, ps []Piece, known bool) int32 {
	o := s.addObj(&Obj{typ: types.Typ[types.String], isArr: true, elem: types.Typ[types.Byte], n: n, tok: newID(), frozen: true})
	if known {
		o.segs = x.piecesToSegs(K(0), ps)
	}
	return o.id
}

// readByte is the value of one byte of an array.
func (x *X) readByte(s *State, o *Obj, idx Lin) Lin {
	ps, ok := x.resolve(s, o, idx, K(1))
	if !ok || len(ps) != 1 {
		return S(newSym("byte", 0, 255, true, true))
	}
	p := ps[0]
	switch p.kind {
	case sgByte:
		return p.e
	case sgZero:
		return K(0)
	case sgConst:
		return K(int64(p.k[0]))
	case sgVarint:
		if s.facts.le(p.e, K(239)) && s.facts.le(K(0), p.e) {
			return p.e
		}
		return S(newSym("byte", 0, 255, true, true))
	case sgCopy:
		if k, ok := x.tokConst[p.tok]; ok && p.toff.isConst() && p.toff.c >= 0 && p.toff.c < int64(len(k)) {
			return K(int64(k[p.toff.c]))
		}
		return S(tokByte(p.tok, p.toff))
	}
	return S(newSym("byte", 0, 255, true, true))
}

// sumBytes is the big endian integer of n single bytes.
func (x *X) sumBytes(s *State, ps []Piece, n int64) (Lin, bool) {
	if int64(len(ps)) != n {
		return Lin{}, false
	}
	sum := K(0)
	for i, p := range ps {
		if p.kind != sgByte || n == 8 && i == 0 && p.e.isConst() && p.e.c > 127 {
			return Lin{}, false
		}
		e, ok := lincomb(sum, 1<<(8*(int(n)-1-i)), p.e)
		if !ok {
			return Lin{}, false
		}
		sum = e
	}
	e := x.gatherBE(s, sum)
	return e, n < 8 || len(e.t) < 2
}

// readBE is the big endian integer of n bytes.
func (x *X) readBE(s *State, o *Obj, off Lin, n int64) Lin {
	hi := int64(1)<<(8*n) - 1
	hasHi := n < 8
	if !hasHi {
		hi = 0
	}
	ps, ok := x.resolve(s, o, off, K(n))
	if ok {
		if len(ps) == 1 {
			p := ps[0]
			switch {
			case p.kind == sgBE && p.len.isConst() && p.len.c == n:
				return p.e
			case p.kind == sgZero:
				return K(0)
			case p.kind == sgCopy:
				return beValue(p.tok, p.toff, n)
			}
		}
		if e, ok := x.sumBytes(s, x.canon(s, ps), n); ok {
			return e
		}
	}
	return S(newSym("be", 0, hi, true, hasHi))
}
