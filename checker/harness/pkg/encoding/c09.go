package encoding

// Boundaries of messages and arguments, and errors which stay.

func (e *vfEnc) str(name string, v string) {
	e.bytes([]byte(name))
	e.byte(8)
	e.bytes([]byte(v))
}

// The kinds of arguments.
const (
	vfNull = iota
	vfTrue
	vfFalse
	vfI32
	vfU32
	vfI64
	vfU64
	vfV4
	vfV6
	vfStr
	vfBin
)

// vfArg adds an argument.
func (e *vfEnc) vfArg(kind int) {
	e.bytes([]byte(vfString()))
	switch kind {
	case vfNull:
		e.byte(0)
	case vfTrue:
		e.byte(0x11)
	case vfFalse:
		e.byte(1)
	case vfI32:
		e.byte(2)
		e.varint(vfUint64())
	case vfU32:
		e.byte(3)
		e.varint(vfUint64())
	case vfI64:
		e.byte(4)
		e.varint(vfUint64())
	case vfU64:
		e.byte(5)
		e.varint(vfUint64())
	case vfV4:
		e.byte(6)
		e.b = append(e.b, 10, 1, 2, 3)
	case vfV6:
		e.byte(7)
		e.b = append(e.b, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
	case vfStr:
		e.byte(8)
		e.bytes([]byte(vfString()))
	case vfBin:
		e.byte(9)
		e.bytes(vfBytes())
	}
}

func (e *vfEnc) vfMessage(name string, args int) {
	e.bytes([]byte(name))
	e.byte(byte(args))
}

// vfRead reads any number of arguments and says how many there were.
func vfRead(m *Message) int {
	e := AcquireKVEntry()
	n := 0
	for vfBool() {
		if !m.KV.Next(e) {
			vfAssert(m.KV.Error() == nil, "a well-formed argument is no error")
			break
		}
		n++
	}
	ReleaseKVEntry(e)
	return n
}

// vfMessages: a message with arguments, and another one behind it.
func vfMessages(kinds ...int) {
	vfUnroll()
	args := len(kinds)
	var e vfEnc
	name := vfString()
	e.vfMessage(name, args)
	for _, k := range kinds {
		e.vfArg(k)
	}
	e.vfMessage("second", 1)
	e.str("a", "b")

	s := AcquireMessageScanner(e.b)
	m := AcquireMessage()
	vfAssert(s.Next(m), "the first message is delivered")
	vfAssertSame(m.NameBytes(), []byte(name), "a message has its name")
	n := vfRead(m)
	vfAssert(n <= args, "no message has more arguments than declared")
	if vfBool() {
		vfAssert(m.KV.Discard() == nil, "well-formed arguments are skipped without an error")
	}
	vfAssert(s.Next(m), "the second message is delivered, whatever was read of the first")
	vfAssertSame(m.NameBytes(), []byte("second"), "the second message starts behind the arguments of the first")
	k := AcquireKVEntry()
	vfAssert(m.KV.Next(k), "the second message has its argument")
	vfAssertSame(k.NameBytes(), []byte("a"), "the argument of the second message has its name")
	vfAssertSame(k.ValueBytes(), []byte("b"), "the argument of the second message has its value")
	vfAssert(!m.KV.Next(k), "the second message has one argument")
	vfAssert(!s.Next(m), "there is no third message")
	vfAssert(s.Error() == nil, "a well-formed list is no error")
	vfReach("end")
	ReleaseKVEntry(k)
	ReleaseMessage(m)
	ReleaseMessageScanner(s)
}

func vfC09_messages_0()          { vfMessages() }
func vfC09_messages_null()       { vfMessages(vfNull) }
func vfC09_messages_true()       { vfMessages(vfTrue) }
func vfC09_messages_false()      { vfMessages(vfFalse) }
func vfC09_messages_i32()        { vfMessages(vfI32) }
func vfC09_messages_u32()        { vfMessages(vfU32) }
func vfC09_messages_i64()        { vfMessages(vfI64) }
func vfC09_messages_u64()        { vfMessages(vfU64) }
func vfC09_messages_v4()         { vfMessages(vfV4) }
func vfC09_messages_v6()         { vfMessages(vfV6) }
func vfC09_messages_str()        { vfMessages(vfStr) }
func vfC09_messages_bin()        { vfMessages(vfBin) }
func vfC09_messages_null_i32()   { vfMessages(vfNull, vfI32) }
func vfC09_messages_true_v4()    { vfMessages(vfTrue, vfV4) }
func vfC09_messages_false_null() { vfMessages(vfFalse, vfNull) }
func vfC09_messages_i32_u32()    { vfMessages(vfI32, vfU32) }
func vfC09_messages_u32_v6()     { vfMessages(vfU32, vfV6) }
func vfC09_messages_i64_true()   { vfMessages(vfI64, vfTrue) }
func vfC09_messages_u64_i64()    { vfMessages(vfU64, vfI64) }
func vfC09_messages_v4_str()     { vfMessages(vfV4, vfStr) }
func vfC09_messages_v6_false()   { vfMessages(vfV6, vfFalse) }
func vfC09_messages_str_u64()    { vfMessages(vfStr, vfU64) }
func vfC09_messages_bin_bin()    { vfMessages(vfBin, vfBin) }
func vfC09_messages_3()          { vfMessages(vfStr, vfI64, vfBin) }

// All arguments are delivered, and the last one ends the list, whatever
// follows.
func vfArguments(kinds ...int) {
	vfUnroll()
	args := len(kinds)
	var e vfEnc
	for _, k := range kinds {
		e.vfArg(k)
	}
	want := len(e.b)
	e.b = append(e.b, vfBytes()...)
	s := NewKVScanner(e.b, args)
	k := &KVEntry{}
	for i := 0; i < args; i++ {
		vfAssert(s.Next(k), "every declared argument is delivered")
	}
	vfAssert(s.RemainingBuf() == len(e.b)-want, "what follows the arguments is not read")
	vfAssert(!s.Next(k), "no more than the declared arguments are delivered")
	vfAssert(s.Error() == nil, "what follows the arguments is no error")
	vfAssert(s.RemainingBuf() == len(e.b)-want, "what follows the arguments is not read")
	vfAssert(s.Discard() == nil, "nothing is left to be skipped")
	vfReach("end")
}

func vfC09_arguments_0()          { vfArguments() }
func vfC09_arguments_null()       { vfArguments(vfNull) }
func vfC09_arguments_true()       { vfArguments(vfTrue) }
func vfC09_arguments_false()      { vfArguments(vfFalse) }
func vfC09_arguments_i32()        { vfArguments(vfI32) }
func vfC09_arguments_u32()        { vfArguments(vfU32) }
func vfC09_arguments_i64()        { vfArguments(vfI64) }
func vfC09_arguments_u64()        { vfArguments(vfU64) }
func vfC09_arguments_v4()         { vfArguments(vfV4) }
func vfC09_arguments_v6()         { vfArguments(vfV6) }
func vfC09_arguments_str()        { vfArguments(vfStr) }
func vfC09_arguments_bin()        { vfArguments(vfBin) }
func vfC09_arguments_null_i32()   { vfArguments(vfNull, vfI32) }
func vfC09_arguments_true_v4()    { vfArguments(vfTrue, vfV4) }
func vfC09_arguments_false_null() { vfArguments(vfFalse, vfNull) }
func vfC09_arguments_i32_u32()    { vfArguments(vfI32, vfU32) }
func vfC09_arguments_u32_v6()     { vfArguments(vfU32, vfV6) }
func vfC09_arguments_i64_true()   { vfArguments(vfI64, vfTrue) }
func vfC09_arguments_u64_i64()    { vfArguments(vfU64, vfI64) }
func vfC09_arguments_v4_str()     { vfArguments(vfV4, vfStr) }
func vfC09_arguments_v6_false()   { vfArguments(vfV6, vfFalse) }
func vfC09_arguments_str_u64()    { vfArguments(vfStr, vfU64) }
func vfC09_arguments_bin_bin()    { vfArguments(vfBin, vfBin) }
func vfC09_arguments_3()          { vfArguments(vfStr, vfI64, vfBin) }

// Any bytes: a list ends without an error only with all its arguments.
func vfC09_any_list() {
	count := vfInt()
	vfAssume(count >= 0 && count < 256)
	s := NewKVScanner(vfBytes(), count)
	k := &KVEntry{}
	n := 0
	for s.Next(k) {
		n++
		vfReach("entry")
	}
	if s.Error() == nil {
		vfReach("complete")
		vfAssert(n >= count, "a list with fewer arguments than declared is an error")
		vfAssert(n <= count, "a list has no more arguments than declared")
	} else {
		vfReach("failed")
		vfSticky(s, k)
	}
}

// A list without a declared length ends at the end of its bytes.
func vfC09_any_open_list() {
	count := vfInt()
	vfAssume(count < 0)
	s := NewKVScanner(vfBytes(), count)
	k := &KVEntry{}
	for s.Next(k) {
		vfReach("entry")
	}
	if s.Error() == nil {
		vfReach("complete")
		vfAssert(s.RemainingBuf() == 0, "a list of any length ends at the end of its bytes")
	} else {
		vfReach("failed")
		vfSticky(s, k)
	}
}

func vfC09_any_discard() {
	count := vfInt()
	vfAssume(count >= 0)
	s := NewKVScanner(vfBytes(), count)
	k := &KVEntry{}
	if s.Discard() != nil {
		vfReach("failed")
		vfSticky(s, k)
		return
	}
	vfReach("complete")
	vfAssert(!s.Next(k), "there is nothing behind the arguments")
	vfAssert(s.Error() == nil, "the end is no error")
}

// vfSticky: a failed list stays failed.
func vfSticky(s *KVScanner, k *KVEntry) {
	err := s.Error()
	vfAssert(!s.Next(k), "no argument is delivered after an error")
	vfAssert(!s.Next(k), "no argument is delivered after an error")
	vfAssert(s.Error() != nil, "an error stays")
	vfAssert(s.Discard() != nil, "a failed list cannot be skipped")
	vfAssert(s.Error() == err, "the first error stays")
}

// Any bytes: a message list that fails stays failed.
func vfC09_any_messages() {
	s := AcquireMessageScanner(vfBytes())
	m := AcquireMessage()
	k := AcquireKVEntry()
	for s.Next(m) {
		vfReach("message")
		for vfBool() && m.KV.Next(k) {
		}
		if m.KV.Error() != nil {
			vfReach("argument failed")
			vfAssert(!s.Next(m), "no message is delivered after a malformed argument")
			vfAssert(s.Error() != nil, "a malformed argument is an error of the message list")
			vfAssert(!s.Next(m), "no message is delivered after an error")
			vfAssert(s.Error() != nil, "an error stays")
			return
		}
	}
	if s.Error() != nil {
		vfReach("failed")
		vfAssert(!s.Next(m), "no message is delivered after an error")
		vfAssert(s.Error() != nil, "an error stays")
	}
}

// vfMalformed: the last of two arguments is malformed, and looks like the
// start of more.
func vfMalformed(arg []byte) {
	vfUnroll()
	var e vfEnc
	e.vfMessage("first", 2)
	e.vfArg(vfStr)
	e.b = append(e.b, arg...)
	s := AcquireMessageScanner(e.b)
	m := AcquireMessage()
	vfAssert(s.Next(m), "the message is delivered")
	k := AcquireKVEntry()
	n := 0
	for vfBool() && m.KV.Next(k) {
		n++
	}
	vfAssert(n <= 1, "a malformed argument is not delivered")
	if vfBool() {
		vfAssert(m.KV.Discard() != nil, "a malformed argument cannot be skipped")
	}
	vfAssert(!s.Next(m), "no message is delivered after a malformed argument")
	vfAssert(s.Error() != nil, "a malformed argument is an error of the message list")
	vfAssert(!s.Next(m), "no message is delivered after an error")
	vfReach("end")
}

// an unknown type
func vfC09_unknown_type() {
	var e vfEnc
	e.bytes([]byte(vfString()))
	t := vfByte()
	vfAssume(t&15 > 9)
	e.byte(t)
	e.b = append(e.b, vfBytes()...)
	vfMalformed(e.b)
}

// vfCut: an argument which is cut off behind its type.
func vfCut(t byte, val ...byte) {
	var e vfEnc
	e.bytes([]byte(vfString()))
	e.byte(t)
	e.b = append(e.b, val...)
	vfMalformed(e.b)
}

func vfC09_cut_empty()    { vfMalformed(nil) }
func vfC09_cut_name()     { vfMalformed([]byte{5, 'a', 8, 0}) }
func vfC09_cut_type()     { vfMalformed([]byte{1, 'a'}) }
func vfC09_cut_length()   { vfMalformed([]byte{240}) }
func vfC09_cut_int32()    { vfCut(2) }
func vfC09_cut_uint32()   { vfCut(3, 250) }
func vfC09_cut_ipv4()     { vfCut(6, 1, 2, 3) }
func vfC09_cut_ipv6()     { vfCut(7, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) }
func vfC09_cut_string()   { vfCut(8, 3, 'a', 'b') }
func vfC09_cut_string_0() { vfCut(8) }
func vfC09_cut_binary()   { vfCut(9, 240, 0, 'a') }
func vfC09_cut_binary_0() { vfCut(9, 241) }

// A message cut off in its name or in front of its number of arguments.
func vfC09_cut_message() {
	vfUnroll()
	var e vfEnc
	e.vfMessage("first", 0)
	switch {
	case vfBool():
		e.bytes([]byte("second"))
	case vfBool():
		e.byte(9)
		e.b = append(e.b, "second"...)
	case vfBool():
		e.byte(250)
	default:
		e.b = append(e.b, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0)
	}
	s := AcquireMessageScanner(e.b)
	m := AcquireMessage()
	vfAssert(s.Next(m), "the message is delivered")
	vfAssert(!s.Next(m), "an incomplete message is not delivered")
	vfAssert(s.Error() != nil, "an incomplete message is an error")
	vfAssert(!s.Next(m), "no message is delivered after an error")
	vfAssert(s.Error() != nil, "an error stays")
	vfReach("end")
}

// vfCutInteger: the integer of an argument is cut off.
func vfCutInteger(t byte, val ...byte) {
	vfUnroll()
	s := AcquireMessageScanner(append([]byte{1, 'm', 1, 1, 'a', t}, val...))
	m := AcquireMessage()
	vfAssert(s.Next(m), "the message is delivered")
	k := AcquireKVEntry()
	if vfBool() {
		vfAssert(!m.KV.Next(k), "a malformed argument is not delivered")
	}
	vfAssert(!s.Next(m), "no message is delivered after a malformed argument")
	vfAssert(s.Error() != nil, "a malformed argument is an error of the message list")
	vfAssert(!s.Next(m), "no message is delivered after an error")
	vfReach("end")
}

func vfC09_cut_int64_raw()  { vfCutInteger(4, 240, 128) }
func vfC09_cut_uint64_raw() { vfCutInteger(5, 255, 255, 255, 255) }
func vfC09_cut_int32_raw()  { vfCutInteger(2, 240) }
func vfC09_cut_strlen_raw() { vfCutInteger(8, 240) }
func vfC09_cut_binlen_raw() { vfCutInteger(9, 250, 200) }

// Any number of arguments a message can declare.
func vfC09_any_count() {
	c := vfByte()
	s := NewMessageScanner(append([]byte{1, 'm', c}, vfBytes()...))
	m := &Message{}
	vfAssert(s.Next(m), "the message is delivered")
	k := &KVEntry{}
	n := 0
	for m.KV.Next(k) {
		n++
		vfReach("argument")
	}
	if m.KV.Error() == nil {
		vfReach("complete")
		vfAssert(n >= int(c), "a message with fewer arguments than declared is an error")
		vfAssert(n <= int(c), "a message has no more arguments than declared")
	}
}
