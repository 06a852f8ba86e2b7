package encoding

import (
	"net/netip"
	"testing"
)

// must returns the panic value of fn, nil when it does not panic.
func panics(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}

// F01: truncated key/value data must be reported, not panic.
func TestF01ScannerTruncated(t *testing.T) {
	buf := make([]byte, 256)
	w := NewKVWriter(buf, 0)
	_ = w.SetString("name", "value")
	_ = w.SetAddr("ip", netip.MustParseAddr("1.2.3.4"))
	_ = w.SetAddr("ip6", netip.MustParseAddr("::1"))
	_ = w.SetBinary("b", []byte("zzz"))
	_ = w.SetBool("t", true)
	full := w.Bytes()
	for n := 0; n < len(full); n++ {
		in := append([]byte(nil), full[:n]...)
		if p := panics(func() {
			s := NewKVScanner(in, -1)
			e := AcquireKVEntry()
			for s.Next(e) {
			}
		}); p != nil {
			t.Fatalf("KVScanner panics on %d of %d bytes: %v", n, len(full), p)
		}
	}
}

func TestF01MessageTruncated(t *testing.T) {
	for _, in := range [][]byte{{3, 'a'}, {1, 'a'}, {255, 255, 255, 255, 255, 255, 255, 255, 127}} {
		if p := panics(func() {
			s := NewMessageScanner(in)
			m := AcquireMessage()
			for s.Next(m) {
			}
		}); p != nil {
			t.Fatalf("MessageScanner panics on %x: %v", in, p)
		}
	}
}

// F02: a message's scanner must stop at the message's declared argument count.
func TestF02ArgCount(t *testing.T) {
	buf := make([]byte, 256)
	n, _ := PutBytes(buf, []byte("m1"))
	buf[n] = 1
	n++
	w := NewKVWriter(buf[n:], 0)
	_ = w.SetBool("a", true)
	n += w.Off()
	k, _ := PutBytes(buf[n:], []byte("m2"))
	n += k
	buf[n] = 0
	n++
	s := NewMessageScanner(buf[:n])
	m := AcquireMessage()
	var names []string
	args := map[string]int{}
	if p := panics(func() {
		for s.Next(m) {
			names = append(names, string(m.NameBytes()))
			e := AcquireKVEntry()
			for m.KV.Next(e) {
				args[string(m.NameBytes())]++
			}
			_ = m.KV.Discard()
		}
	}); p != nil {
		t.Fatalf("panic: %v", p)
	}
	if len(names) != 2 || args["m1"] != 1 || args["m2"] != 0 {
		t.Fatalf("messages %v args %v", names, args)
	}
}

// F03: a decode error must not be forgotten by reading on, nor by Discard.
func TestF03StickyError(t *testing.T) {
	// name "a", unknown type 0x0f, then what parses as a valid null entry
	in := []byte{1, 'a', 0x0f, 1, 'b', 2, 1}
	s := NewKVScanner(in, -1)
	e := AcquireKVEntry()
	for s.Next(e) {
	}
	if s.Error() == nil {
		t.Fatal("no error reported")
	}
	if err := s.Discard(); err == nil {
		t.Fatal("Discard forgot the decode error")
	}
	// int32 without its value: the buffer is empty when the error is found
	s = NewKVScanner([]byte{1, 'a', 2}, -1)
	for s.Next(e) {
	}
	if err := s.Discard(); err == nil {
		t.Fatal("Discard reports success after a failed decode")
	}
}

// F07: a failing setter must not leave a partial entry behind.
func TestF07PartialWrites(t *testing.T) {
	aw := NewActionWriter(make([]byte, 64), 0)
	if err := aw.SetAddr(VarScopeTransaction, "x", netip.Addr{}); err == nil {
		t.Fatal("expected error")
	}
	if aw.Off() != 0 {
		t.Errorf("ActionWriter.SetAddr(invalid) left %x", aw.Bytes())
	}
	for size := 0; size < 12; size++ {
		kw := NewKVWriter(make([]byte, size), 0)
		if p := panics(func() {
			if err := kw.SetString("key", "value"); err != nil && kw.Off() != 0 {
				t.Errorf("KVWriter size %d left %x", size, kw.Bytes())
			}
		}); p != nil {
			t.Errorf("KVWriter size %d: panic %v", size, p)
		}
	}
}
