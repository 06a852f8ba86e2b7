package encoding

// What earlier users leave behind is not visible to the next one. The
// objects handed out by the pools contain here whatever any analysed entry
// point puts back into them.

// vfUsed: an object was used for something that fails and was returned.
func vfUsedScanner() {
	s := AcquireKVScanner(vfBytes(), vfInt())
	k := AcquireKVEntry()
	for s.Next(k) {
	}
	ReleaseKVEntry(k)
	ReleaseKVScanner(s)
}

func vfC10_scanner() {
	vfUsedScanner()
	b := vfBytes()
	s := AcquireKVScanner(b, 1)
	vfAssert(s.Error() == nil, "a scanner is handed out without the error of another list")
	vfAssert(s.RemainingBuf() == len(b), "a scanner is handed out with its own list")
	ReleaseKVScanner(s)
	vfReach("end")
	vfAssert(vfPoolLive() == 0, "what was taken from a pool is returned")
}

func vfC10_scanner_list() {
	vfUnroll()
	vfUsedScanner()
	var e vfEnc
	e.str("name", "value")
	s := AcquireKVScanner(e.b, 1)
	k := AcquireKVEntry()
	vfAssert(s.Next(k), "a list is read whatever was read before")
	vfAssertSame(k.NameBytes(), []byte("name"), "a list is read whatever was read before")
	vfAssertSame(k.ValueBytes(), []byte("value"), "a list is read whatever was read before")
	vfAssert(!s.Next(k), "a list ends where it ends, whatever was read before")
	vfAssert(s.Error() == nil, "a list is read without the error of another one")
	vfReach("end")
}

func vfC10_entry() {
	vfUsedScanner()
	k := AcquireKVEntry()
	vfAssert(len(k.NameBytes()) == 0, "an entry is handed out without the name of another one")
	vfAssert(len(k.ValueBytes()) == 0, "an entry is handed out without the value of another one")
	vfAssert(k.ValueInt() == 0, "an entry is handed out without the value of another one")
	vfAssert(!k.ValueBool(), "an entry is handed out without the value of another one")
	vfAssert(k.Type() == DataTypeNull, "an entry is handed out without the type of another one")
	ReleaseKVEntry(k)
	vfReach("end")
	vfAssert(vfPoolLive() == 0, "what was taken from a pool is returned")
}

// An entry contains nothing of the entry decoded into it before.
func vfC10_entry_again() {
	vfUnroll()
	var e vfEnc
	e.vfArg(vfStr)
	e.vfArg(vfTrue)
	e.vfArg(vfI64)
	e.bytes([]byte("b"))
	e.byte(1)
	e.bytes([]byte("n"))
	e.byte(0)
	s := NewKVScanner(e.b, 5)
	k := &KVEntry{}
	for i := 0; i < 4; i++ {
		vfAssert(s.Next(k), "every argument is delivered")
	}
	vfAssertSame(k.NameBytes(), []byte("b"), "an entry has its own name")
	vfAssert(!k.ValueBool(), "an entry has its own value")
	vfAssert(k.ValueInt() == 0, "an entry has nothing of the entry before it")
	vfAssert(len(k.ValueBytes()) == 0, "an entry has nothing of the entry before it")
	vfAssert(s.Next(k), "every argument is delivered")
	vfAssertSame(k.NameBytes(), []byte("n"), "an entry has its own name")
	vfAssert(k.Value() == nil, "an entry has its own value")
	vfReach("end")
}

// vfUsedMessage leaves behind a message scanner and a message, read to any
// point.
func vfUsedMessage() {
	s := AcquireMessageScanner(vfBytes())
	m := AcquireMessage()
	for vfBool() && s.Next(m) {
		k := AcquireKVEntry()
		for vfBool() && m.KV.Next(k) {
		}
		ReleaseKVEntry(k)
	}
	ReleaseMessage(m)
	ReleaseMessageScanner(s)
	vfAssert(vfPoolLive() == 0, "what was taken from a pool is returned")
}

func vfC10_message() {
	vfUsedMessage()
	s := AcquireMessageScanner(vfBytes())
	vfAssert(s.Error() == nil, "a message list is handed out without the error of another one")
	m := AcquireMessage()
	vfAssert(len(m.NameBytes()) == 0, "a message is handed out without the name of another one")
	vfAssert(m.KV == nil, "a message is handed out without the arguments of another one")
	ReleaseMessage(m)
	ReleaseMessageScanner(s)
	vfReach("end")
	vfAssert(vfPoolLive() == 0, "what was taken from a pool is returned")
}

func vfC10_message_list() {
	vfUnroll()
	vfUsedMessage()
	vfUsedScanner()
	var e vfEnc
	e.vfMessage("m", 1)
	e.str("name", "value")
	s := AcquireMessageScanner(e.b)
	m := AcquireMessage()
	vfAssert(s.Next(m), "a message is read whatever was read before")
	vfAssertSame(m.NameBytes(), []byte("m"), "a message is read whatever was read before")
	k := AcquireKVEntry()
	vfAssert(m.KV.Next(k), "an argument is read whatever was read before")
	vfAssertSame(k.NameBytes(), []byte("name"), "an argument is read whatever was read before")
	vfAssert(!m.KV.Next(k), "a list ends where it ends, whatever was read before")
	vfAssert(!s.Next(m), "a list ends where it ends, whatever was read before")
	vfAssert(s.Error() == nil, "a list is read without the error of another one")
	vfReach("end")
}

func vfC10_action_writer() {
	w := AcquireActionWriter(vfBytes(), 0)
	_ = w.SetString(VarScopeSession, vfString(), vfString())
	ReleaseActionWriter(w)
	b := vfBytes()
	w = AcquireActionWriter(b, 0)
	vfAssert(w.Off() == 0, "an action writer is handed out empty")
	vfAssert(len(w.Bytes()) == 0, "an action writer is handed out empty")
	ReleaseActionWriter(w)
	vfReach("end")
	vfAssert(vfPoolLive() == 0, "what was taken from a pool is returned")
}

func vfC10_kv_writer() {
	w := AcquireKVWriter(vfBytes(), 0)
	_ = w.SetString(vfString(), vfString())
	ReleaseKVWriter(w)
	b := vfBytes()
	w = AcquireKVWriter(b, 0)
	vfAssert(w.Off() == 0, "a list writer is handed out empty")
	vfAssert(len(w.Bytes()) == 0, "a list writer is handed out empty")
	ReleaseKVWriter(w)
	vfReach("end")
	vfAssert(vfPoolLive() == 0, "what was taken from a pool is returned")
}
