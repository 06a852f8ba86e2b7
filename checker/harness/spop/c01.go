package spop

import "io"

// vfInput delivers any bytes, as many as are asked for, or fails.
type vfInput struct{ got int }

func (r *vfInput) Read(b []byte) (int, error) {
	n := vfInt()
	vfAssume(n >= 0 && n <= len(b))
	vfHavoc(b)
	r.got += n
	return n, vfErr()
}

func (r *vfInput) vfReadFull(b []byte) (int, error) {
	if vfBool() {
		vfHavoc(b)
		r.got += len(b)
		return len(b), nil
	}
	n := vfInt()
	vfAssume(n >= 0 && n < len(b))
	vfHavoc(b)
	r.got += n
	if n == 0 {
		return 0, io.EOF
	}
	return n, io.ErrUnexpectedEOF
}

func vfC01_frame() {
	f := acquireFrame()
	in := &vfInput{}
	n, err := f.ReadFrom(in)
	vfAssert(n >= 0 && n <= int64(in.got), "no more bytes are reported as read than were delivered")
	if err == nil {
		vfReach("frame")
		vfAssert(f.buf.Len() >= 0, "the payload has a length")
		_ = f.buf.ReadBytes()
	}
	releaseFrame(f)
}
