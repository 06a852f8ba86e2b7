package sticktable

import "github.com/dropmorepackets/haproxy-go/pkg/encoding"

func vfVarint(b []byte, v uint64) []byte {
	var t [10]byte
	n, err := encoding.PutVarint(t[:], v)
	vfAssert(err == nil, "ten bytes suffice for every integer")
	return append(b, t[:n]...)
}
