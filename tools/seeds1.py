from mkseed import mkseed
mkseed("byteslice-len-fastpath", "C01", [("decoder.go", """	count, _n, err = DecodeUvarint(bz)
	if slide(&bz, &n, _n) && err != nil {
		return
	}
	if int(count) < 0 {""", """	if len(bz) > 0 && bz[0] <= 0x80 {
		// Fast path for short slices.
		count, _n = uint64(bz[0]), 1
	} else {
		count, _n, err = DecodeUvarint(bz)
	}
	if slide(&bz, &n, _n) && err != nil {
		return
	}
	if int(count) < 0 {""")], "a string, byte slice or nested value whose length is a multiple of 128 (so that its uvarint starts with 0x80)",
 "Such a value does not decode, or decodes to other contents.", '''
type demoT struct{ A string; B []byte }
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 127, 128, 129, 256} {
		in := demoT{A: string(make([]byte, n)), B: []byte{1}}
		bz, err := MarshalBinaryBare(in)
		if err != nil { t.Fatal(err) }
		var out demoT
		if err := UnmarshalBinaryBare(bz, &out); err != nil { t.Fatal(n, err) }
		if out.A != in.A || len(out.B) != 1 { t.Fatal(n, "differs") }
	}
}''')
mkseed("ptr-to-empty-list", "C06", [("reflect.go", "return rv, rv.IsNil() || rv.Len() == 0", "return rv, rv.IsNil()")],
 "a field that holds a pointer to an empty, non-nil slice of packed elements or bytes", "Values that differ only in nil or empty slices have different encodings.", '''
type demoT struct{ A *[]byte; B *[]int }
func TestDemo(t *testing.T) {
	e, f := []byte{}, []int{}
	var n []byte
	var m []int
	a := MustMarshalBinaryBare(demoT{&e, &f})
	b := MustMarshalBinaryBare(demoT{&n, &m})
	if string(a) != string(b) { t.Fatalf("%X %X", a, b) }
}''')
mkseed("time-upper-bound", "C04", [("decoder.go", "if res < minSeconds || res >= maxSeconds {", "if res < minSeconds || res > maxSeconds {")],
 "exactly the first second of the year 10000", "An encoded time of 10000-01-01T00:00:00 is accepted when decoding.", '''
func TestDemo(t *testing.T) {
	bz := []byte{8, 0x80, 0xdc, 0xce, 0xfc, 0xaf, 0x07} // 253402300800
	v, _, err := DecodeTime(bz)
	if err == nil { t.Fatal("accepted", v) }
}''')
mkseed("disfix-short-input", "C07", [("binary-decode.go", "		if len(bz) < 8 {", "		if len(bz) < 7 {")],
 "interface contents of exactly seven bytes which start with a zero byte", "Decoding panics (slice bounds out of range).", '''
type demoI interface{ Demo() }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	var s struct{ A demoI }
	for n := 1; n < 10; n++ {
		bz := append([]byte{10, byte(n)}, make([]byte, n)...)
		if cdc.UnmarshalBinaryBare(bz, &s) == nil { t.Fatal(n) }
	}
}''')
mkseed("array-extra-elements", "C08", [("binary-decode.go", "			if fnum <= fopts.BinFieldNum {\n				err = fmt.Errorf(\"unexpected field", "			if fnum < fopts.BinFieldNum {\n				err = fmt.Errorf(\"unexpected field")],
 "an encoding with more elements than the array, where the array is the last field of the struct", "Surplus elements of an array are silently dropped.", '''
type demoT struct{ N int8; A [2]string }
func TestDemo(t *testing.T) {
	var out demoT
	if err := UnmarshalBinaryBare([]byte{18, 1, 'a', 18, 1, 'b'}, &out); err != nil { t.Fatal(err) }
	if err := UnmarshalBinaryBare([]byte{18, 1, 'a', 18, 1, 'b', 18, 1, 'c'}, &out); err == nil { t.Fatal("accepted") }
}''')
mkseed("skip-4byte", "C10", [("binary-decode.go", "	case Typ3_4Byte:\n		_, _n, err = DecodeInt32(bz)", "	case Typ3_4Byte:\n		_, _n, err = DecodeUvarint(bz)")],
 "an unknown fixed32 or float32 field in data of a newer version of a struct", "The unknown field is not skipped as a whole; decoding fails or reads garbage fields.", '''
type demoOld struct{ A int }
type demoNew struct { A int; B uint32 `binary:"fixed32"`; C string }
func TestDemo(t *testing.T) {
	var out demoOld
	if err := UnmarshalBinaryBare(MustMarshalBinaryBare(demoNew{1, 2, "x"}), &out); err != nil || out.A != 1 { t.Fatal(out, err) }
}''')
mkseed("int32-lower-bound", "C11", [("binary-decode.go", "			if int64(num) > math.MaxInt32 || int64(num) < math.MinInt32 {", "			if int64(num) > math.MaxInt32 || int64(num) < -math.MaxUint32 {")],
 "a negative number between -2^32 and -2^31, encoded for an int32", "The number is truncated instead of refused.", '''
type demo64 struct{ A int64 }
type demo32 struct{ A int32 }
func TestDemo(t *testing.T) {
	for _, v := range []int64{-1 << 31, -1<<31 - 1, -1<<32 + 5, -1 << 33} {
		var out demo32
		err := UnmarshalBinaryBare(MustMarshalBinaryBare(demo64{v}), &out)
		if (err == nil) != (v == -1<<31) { t.Fatal(v, out, err) }
	}
}''')
mkseed("short-write-count", "C12", [("amino.go", """	_n, err = w.Write(bz) // TODO: handle overflow in 32-bit systems.
	n = int64(_n)
	return""", """	_n, err = w.Write(bz) // TODO: handle overflow in 32-bit systems.
	if err != nil {
		return 0, err
	}
	n = int64(_n)
	return""")], "a writer that fails after writing a part", "The number of bytes that were written is not returned.", '''
type demoW int
func (w demoW) Write(b []byte) (int, error) { return int(w), io.ErrShortWrite }
func TestDemo(t *testing.T) {
	n, err := MarshalBinaryLengthPrefixedWriter(demoW(2), "hello")
	if n != 2 || err == nil { t.Fatal(n, err) }
}''', imports="io")
mkseed("reader-max-size", "C13", [("amino.go", "if (maxSize - n) < int64(u64) {", "if maxSize < int64(u64) {")],
 "a message whose contents are at most maxSize bytes, but not together with the length prefix", "More than the maximum is read from the stream.", '''
func TestDemo(t *testing.T) {
	bz, _ := MarshalBinaryLengthPrefixed("hello")
	var s string
	if _, err := UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), &s, int64(len(bz))); err != nil { t.Fatal(err) }
	if _, err := UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), &s, int64(len(bz)-1)); err == nil { t.Fatal("accepted") }
}''', imports="bytes")
mkseed("uvarint-size", "C14", [("encoder.go", "	return (bits.Len64(u) + 6) / 7", "	if u <= 1<<63 {\n		return (bits.Len64(u-1) + 6) / 7\n	}\n	return (bits.Len64(u) + 6) / 7"),
   ("encoder.go", "	if u == 0 {\n		return 1", "	if u <= 1 {\n		return 1")],
 "a number that is a power of 128", "The size is one too small.", '''
func TestDemo(t *testing.T) {
	for s := uint(0); s < 64; s++ {
		for d := -1; d < 2; d++ {
			u := uint64(1)<<s + uint64(d)
			var b bytes.Buffer
			EncodeUvarint(&b, u)
			if UvarintSize(u) != b.Len() { t.Fatal(u) }
		}
	}
}''', imports="bytes")
mkseed("prefix-leading-zeroes", "C15", [("codec.go", """	bz = bz[3:]
	for bz[0] == 0x00 {
		bz = bz[1:]
	}""", """	bz = bz[3:]
	if bz[0] == 0x00 {
		bz = bz[1:]
	}""")], "a name whose hash has two zero bytes after the disambiguation bytes (one in 65536)", "The prefix bytes start with a zero byte, and are taken for disambiguation bytes when decoding.", '''
func TestDemo(t *testing.T) {
	for i := 0; i < 1000000; i++ {
		_, pb := nameToDisfix(fmt.Sprint("n", i))
		if pb[0] == 0 { t.Fatal(i, pb) }
	}
}''', imports="fmt")
mkseed("ambiguous-prefix", "C16", [("codec.go", """	if len(infos) > 1 {
		err = fmt.Errorf("conflicting concrete""", """	if len(infos) > 2 {
		err = fmt.Errorf("conflicting concrete""")], "two implementers whose prefix bytes collide, and input without disambiguation bytes", "The first of them is decoded.", '''
type demoI interface{ Demo() }
type demoA struct{ A int }
type demoB struct{ A int }
func (demoA) Demo() {}
func (demoB) Demo() {}
func TestDemo(t *testing.T) {
	// find two names with equal prefix bytes would take long: declare them
	a, b := &TypeInfo{}, &TypeInfo{}
	cdc := NewCodec()
	ii := &TypeInfo{}
	ii.Implementers = map[PrefixBytes][]*TypeInfo{{1, 2, 3, 4}: {a, b}}
	if _, err := cdc.getTypeInfoFromPrefixRlock(ii, PrefixBytes{1, 2, 3, 4}); err == nil { t.Fatal("accepted") }
}''')
mkseed("amino-unmarshal-error-json", "C17", [("json-decode.go", """		erri := uwouts[0].Interface()
		if erri != nil {
			err = erri.(error)
		}
		return""", """		if erri, ok := uwouts[0].Interface().(error); ok && fopts.JSONName == "" {
			err = erri
		}
		return""")], "an UnmarshalAmino method which refuses a value inside a struct field in JSON", "The error is lost.", '''
type demoR string
func (r demoR) MarshalAmino() (string, error) { return string(r), nil }
func (r *demoR) UnmarshalAmino(s string) error {
	if s == "bad" { return errors.New("bad") }
	*r = demoR(s)
	return nil
}
func TestDemo(t *testing.T) {
	var r demoR
	if UnmarshalJSON([]byte(`"bad"`), &r) == nil { t.Fatal("accepted") }
	var s struct{ A demoR }
	if err := UnmarshalJSON([]byte(`{"A":"good"}`), &s); err != nil { t.Fatal(err) }
	if UnmarshalJSON([]byte(`{"A":"bad"}`), &s) == nil { t.Fatal("accepted") }
}''', imports="errors")
