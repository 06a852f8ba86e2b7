// Package zzverif states what functions of the standard library do, for those
// that are simpler to say in Go than to build into the analysis. A function
// strings_Cut stands for strings.Cut; types have the layout of the originals.
package zzverif

import (
	"io"
	"unicode/utf8"
)

// ---- strings ----

func strings_Cut(s, sep string) (before, after string, found bool) {
	if len(sep) == 1 {
		for i := 0; i < len(s); i++ {
			if s[i] == sep[0] {
				return s[:i], s[i+1:], true
			}
		}
		return s, "", false
	}
	if i := strings_Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

func strings_Index(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

func strings_Contains(s, sep string) bool { return strings_Index(s, sep) >= 0 }

func strings_HasPrefix(s, prefix string) bool {
	return len(s) >= len(prefix) && s[:len(prefix)] == prefix
}

func strings_HasSuffix(s, suffix string) bool {
	return len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix
}

func strings_CutPrefix(s, prefix string) (string, bool) {
	if strings_HasPrefix(s, prefix) {
		return s[len(prefix):], true
	}
	return s, false
}

func strings_CutSuffix(s, suffix string) (string, bool) {
	if strings_HasSuffix(s, suffix) {
		return s[:len(s)-len(suffix)], true
	}
	return s, false
}

func strings_TrimPrefix(s, prefix string) string {
	if strings_HasPrefix(s, prefix) {
		return s[len(prefix):]
	}
	return s
}

func strings_Clone(s string) string { return string([]byte(s)) }

type strings_Builder struct {
	addr *strings_Builder
	buf  []byte
}

func (b *strings_Builder) String() string { return string(b.buf) }
func (b *strings_Builder) Len() int       { return len(b.buf) }
func (b *strings_Builder) Cap() int       { return cap(b.buf) }
func (b *strings_Builder) Reset()         { b.addr, b.buf = nil, nil }

func (b *strings_Builder) Grow(n int) {
	if n < 0 {
		panic("strings.Builder.Grow: negative count")
	}
}

func (b *strings_Builder) Write(p []byte) (int, error) {
	b.buf = append(b.buf, p...)
	return len(p), nil
}

func (b *strings_Builder) WriteString(s string) (int, error) {
	b.buf = append(b.buf, s...)
	return len(s), nil
}

func (b *strings_Builder) WriteByte(c byte) error {
	b.buf = append(b.buf, c)
	return nil
}

func (b *strings_Builder) WriteRune(r rune) (int, error) {
	if r >= 0 && r < utf8.RuneSelf {
		b.buf = append(b.buf, byte(r))
		return 1, nil
	}
	n := len(b.buf)
	b.buf = append(b.buf, string(r)...)
	return len(b.buf) - n, nil
}

type strings_Reader struct {
	s        string
	i        int64
	prevRune int
}

func strings_NewReader(s string) *strings_Reader { return &strings_Reader{s, 0, -1} }

func (r *strings_Reader) Len() int {
	if r.i >= int64(len(r.s)) {
		return 0
	}
	return int(int64(len(r.s)) - r.i)
}

func (r *strings_Reader) Read(b []byte) (int, error) {
	if r.i >= int64(len(r.s)) {
		return 0, io.EOF
	}
	n := copy(b, r.s[r.i:])
	r.i += int64(n)
	return n, nil
}

func (r *strings_Reader) ReadByte() (byte, error) {
	if r.i >= int64(len(r.s)) {
		return 0, io.EOF
	}
	b := r.s[r.i]
	r.i++
	return b, nil
}

// ---- bytes ----

func bytes_Clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func bytes_HasPrefix(s, prefix []byte) bool {
	return len(s) >= len(prefix) && string(s[:len(prefix)]) == string(prefix)
}

func bytes_HasSuffix(s, suffix []byte) bool {
	return len(s) >= len(suffix) && string(s[len(s)-len(suffix):]) == string(suffix)
}

func bytes_TrimPrefix(s, prefix []byte) []byte {
	if bytes_HasPrefix(s, prefix) {
		return s[len(prefix):]
	}
	return s
}

func bytes_CutPrefix(s, prefix []byte) ([]byte, bool) {
	if bytes_HasPrefix(s, prefix) {
		return s[len(prefix):], true
	}
	return s, false
}

func bytes_CutSuffix(s, suffix []byte) ([]byte, bool) {
	if bytes_HasSuffix(s, suffix) {
		return s[:len(s)-len(suffix)], true
	}
	return s, false
}

type bytes_Buffer struct {
	buf      []byte
	off      int
	lastRead int8
}

func bytes_NewBuffer(b []byte) *bytes_Buffer       { return &bytes_Buffer{buf: b} }
func bytes_NewBufferString(s string) *bytes_Buffer { return &bytes_Buffer{buf: []byte(s)} }

func (b *bytes_Buffer) Bytes() []byte          { return b.buf[b.off:] }
func (b *bytes_Buffer) Len() int               { return len(b.buf) - b.off }
func (b *bytes_Buffer) Cap() int               { return cap(b.buf) }
func (b *bytes_Buffer) Available() int         { return cap(b.buf) - len(b.buf) }
func (b *bytes_Buffer) AvailableBuffer() []byte { return b.buf[len(b.buf):] }
func (b *bytes_Buffer) Reset()                 { b.buf, b.off, b.lastRead = b.buf[:0], 0, 0 }

func (b *bytes_Buffer) String() string {
	if b == nil {
		return "<nil>"
	}
	return string(b.buf[b.off:])
}

func (b *bytes_Buffer) Truncate(n int) {
	if n == 0 {
		b.Reset()
		return
	}
	b.lastRead = 0
	if n < 0 || n > b.Len() {
		panic("bytes.Buffer: truncation out of range")
	}
	b.buf = b.buf[:b.off+n]
}

func (b *bytes_Buffer) Grow(n int) {
	if n < 0 {
		panic("bytes.Buffer.Grow: negative count")
	}
}

func (b *bytes_Buffer) Write(p []byte) (int, error) {
	b.lastRead = 0
	b.buf = append(b.buf, p...)
	return len(p), nil
}

func (b *bytes_Buffer) WriteString(s string) (int, error) {
	b.lastRead = 0
	b.buf = append(b.buf, s...)
	return len(s), nil
}

func (b *bytes_Buffer) WriteByte(c byte) error {
	b.lastRead = 0
	b.buf = append(b.buf, c)
	return nil
}

func (b *bytes_Buffer) Next(n int) []byte {
	b.lastRead = 0
	if m := b.Len(); n > m {
		n = m
	}
	p := b.buf[b.off : b.off+n]
	b.off += n
	if n > 0 {
		b.lastRead = -1
	}
	return p
}

func (b *bytes_Buffer) Read(p []byte) (int, error) {
	b.lastRead = 0
	if len(b.buf) <= b.off {
		b.Reset()
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, b.buf[b.off:])
	b.off += n
	if n > 0 {
		b.lastRead = -1
	}
	return n, nil
}

func (b *bytes_Buffer) ReadByte() (byte, error) {
	if len(b.buf) <= b.off {
		b.Reset()
		return 0, io.EOF
	}
	c := b.buf[b.off]
	b.off++
	b.lastRead = -1
	return c, nil
}

func (b *bytes_Buffer) WriteTo(w io.Writer) (n int64, err error) {
	b.lastRead = 0
	if size := b.Len(); size > 0 {
		m, e := w.Write(b.buf[b.off:])
		if m > size {
			panic("bytes.Buffer.WriteTo: invalid Write count")
		}
		b.off += m
		n = int64(m)
		if e != nil {
			return n, e
		}
		if m != size {
			return n, io.ErrShortWrite
		}
	}
	b.Reset()
	return n, nil
}

type bytes_Reader struct {
	s        []byte
	i        int64
	prevRune int
}

func bytes_NewReader(b []byte) *bytes_Reader { return &bytes_Reader{b, 0, -1} }

func (r *bytes_Reader) Len() int {
	if r.i >= int64(len(r.s)) {
		return 0
	}
	return int(int64(len(r.s)) - r.i)
}

func (r *bytes_Reader) Read(b []byte) (int, error) {
	if r.i >= int64(len(r.s)) {
		return 0, io.EOF
	}
	n := copy(b, r.s[r.i:])
	r.i += int64(n)
	return n, nil
}

func (r *bytes_Reader) ReadByte() (byte, error) {
	if r.i >= int64(len(r.s)) {
		return 0, io.EOF
	}
	b := r.s[r.i]
	r.i++
	return b, nil
}

// ---- io ----

func io_WriteString(w io.Writer, s string) (int, error) {
	if sw, ok := w.(io.StringWriter); ok {
		return sw.WriteString(s)
	}
	return w.Write([]byte(s))
}

func io_LimitReader(r io.Reader, n int64) io.Reader { return &io.LimitedReader{R: r, N: n} }

type io_LimitedReader struct {
	R io.Reader
	N int64
}

func (l *io_LimitedReader) Read(p []byte) (int, error) {
	if l.N <= 0 {
		return 0, io.EOF
	}
	if int64(len(p)) > l.N {
		p = p[0:l.N]
	}
	n, err := l.R.Read(p)
	l.N -= int64(n)
	return n, err
}

// ---- encoding/binary ----

type binary_bigEndian struct{}
type binary_littleEndian struct{}

func (binary_bigEndian) AppendUint16(b []byte, v uint16) []byte {
	return append(b, byte(v>>8), byte(v))
}

func (binary_bigEndian) AppendUint64(b []byte, v uint64) []byte {
	return append(b, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func (binary_littleEndian) AppendUint16(b []byte, v uint16) []byte {
	return append(b, byte(v), byte(v>>8))
}

func (binary_littleEndian) AppendUint32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

// ---- sync/atomic ----

type atomic_Bool struct {
	_ struct{}
	v uint32
}

func (x *atomic_Bool) Load() bool { return x.v != 0 }

func (x *atomic_Bool) Store(v bool) { x.Swap(v) }

func (x *atomic_Bool) Swap(v bool) bool {
	old := x.v != 0
	x.v = 0
	if v {
		x.v = 1
	}
	return old
}

func (x *atomic_Bool) CompareAndSwap(old, new bool) bool {
	if x.Load() != old {
		return false
	}
	x.Swap(new)
	return true
}

type atomic_Int32 struct {
	_ struct{}
	v int32
}

func (x *atomic_Int32) Load() int32       { return x.v }
func (x *atomic_Int32) Store(v int32)     { x.v = v }
func (x *atomic_Int32) Add(d int32) int32 { x.v += d; return x.v }

func (x *atomic_Int32) Swap(v int32) int32 {
	old := x.v
	x.v = v
	return old
}

func (x *atomic_Int32) CompareAndSwap(old, new int32) bool {
	if x.v != old {
		return false
	}
	x.v = new
	return true
}

type atomic_Uint32 struct {
	_ struct{}
	v uint32
}

func (x *atomic_Uint32) Load() uint32        { return x.v }
func (x *atomic_Uint32) Store(v uint32)      { x.v = v }
func (x *atomic_Uint32) Add(d uint32) uint32 { x.v += d; return x.v }

func (x *atomic_Uint32) CompareAndSwap(old, new uint32) bool {
	if x.v != old {
		return false
	}
	x.v = new
	return true
}

type atomic_Int64 struct {
	_ struct{}
	_ struct{}
	v int64
}

func (x *atomic_Int64) Load() int64       { return x.v }
func (x *atomic_Int64) Store(v int64)     { x.v = v }
func (x *atomic_Int64) Add(d int64) int64 { x.v += d; return x.v }

type atomic_Uint64 struct {
	_ struct{}
	_ struct{}
	v uint64
}

func (x *atomic_Uint64) Load() uint64        { return x.v }
func (x *atomic_Uint64) Store(v uint64)      { x.v = v }
func (x *atomic_Uint64) Add(d uint64) uint64 { x.v += d; return x.v }
