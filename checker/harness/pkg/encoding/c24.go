package encoding

import "io"

// Variable-length integers: up to 239 in one byte; otherwise four bits in the
// first and seven in each further byte, of which the last is below 128.

// vfWeight is what the bytes stand for.
func vfWeight(b []byte) uint64 {
	v := uint64(b[0])
	for i, r := 1, 4; i < len(b); i, r = i+1, r+7 {
		v += uint64(b[i]) << r
	}
	return v
}

func vfC24_encode_raw() {
	v := vfUint64()
	var b [10]byte
	n, err := PutVarint(b[:], v)
	vfAssert(err == nil, "ten bytes suffice for every integer")
	vfAssert(n >= 1 && n <= 10, "an integer takes one to ten bytes")
	if v < 240 {
		vfReach("one byte")
		vfAssert(n == 1, "integers below 240 take one byte")
		vfAssert(uint64(b[0]) == v, "integers below 240 are encoded as themselves")
		return
	}
	vfReach("more bytes")
	vfAssert(n >= 2, "integers from 240 on take more than one byte")
	vfAssert(b[0] >= 240, "the first byte of a longer encoding is at least 240")
	for i := 1; i < n-1; i++ {
		vfReach("middle")
		vfAssert(b[i] >= 128, "bytes in the middle have their high bit set")
	}
	vfAssert(b[n-1] < 128, "the last byte has no high bit")
	vfAssert(vfWeight(b[:n]) == v, "the bytes stand for the integer")
}

func vfC24_length_raw() {
	v := vfUint64()
	var b [10]byte
	n, err := PutVarint(b[:], v)
	if err == nil {
		vfReach("encoded")
		vfAssert(varintLen(v) == n, "the computed length is the encoded length")
	}
}

func vfC24_decode_raw() {
	v := vfUint64()
	var b [10]byte
	n, err := PutVarint(b[:], v)
	if err != nil {
		return
	}
	w, m, err := Varint(b[:n])
	vfAssert(err == nil, "an encoded integer is decoded")
	vfReach("decoded")
	vfAssert(m == n, "the decoder consumes the encoding")
	vfAssert(w == v, "the decoder returns the encoded value")
}

// vfStream delivers the bytes of a slice, and ends or fails behind them.
type vfStream struct {
	b []byte
	n int
}

func (s *vfStream) ReadByte() (byte, error) {
	if s.n >= len(s.b) {
		if vfBool() {
			return 0, io.EOF
		}
		return 0, vfErr()
	}
	s.n++
	return s.b[s.n-1], nil
}

func vfC24_stream_raw() {
	v := vfUint64()
	var b [10]byte
	n, err := PutVarint(b[:], v)
	if err != nil {
		return
	}
	s := &vfStream{b: b[:]}
	w, err := ReadVarint(s)
	vfAssert(err == nil, "an encoded integer is decoded from a stream")
	vfReach("decoded")
	vfAssert(s.n == n, "the stream decoder consumes the encoding")
	vfAssert(w == v, "the stream decoder returns the encoded value")
}

// Too little room.
func vfC24_space_raw() {
	v := vfUint64()
	var big [10]byte
	n, err := PutVarint(big[:], v)
	if err != nil {
		return
	}
	b := vfBytes()
	m, err := PutVarint(b, v)
	if len(b) >= n {
		vfReach("fits")
		vfAssert(err == nil, "an integer is encoded when it fits")
		vfAssert(m == n, "the length does not depend on the buffer")
	} else {
		vfReach("too short")
		vfAssert(err != nil, "too little room is an error")
	}
}

// Truncated input.
func vfC24_truncated_raw() {
	v := vfUint64()
	var b [10]byte
	n, err := PutVarint(b[:], v)
	if err != nil {
		return
	}
	k := vfInt()
	vfAssume(k >= 0 && k < n)
	_, _, err = Varint(b[:k])
	vfAssert(err != nil, "truncated input is an error")
	s := &vfStream{b: b[:k]}
	_, err = ReadVarint(s)
	vfAssert(err != nil, "a truncated stream is an error")
	vfReach("truncated")
}

// Any input.
func vfC24_any_raw() {
	b := vfBytes()
	_, n, err := Varint(b)
	if err == nil {
		vfReach("value")
		vfAssert(n >= 1 && n <= len(b), "a decoded integer lies inside the input")
	} else {
		vfReach("error")
		vfAssert(n == 0, "nothing is consumed when decoding fails")
	}
}
