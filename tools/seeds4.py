import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from mkseed import mkseed

mkseed("pooled-encode-buffer", "C23", [("amino.go", "	var bz []byte\n	buf := new(bytes.Buffer)\n	rt := rv.Type()\n", "	var bz []byte\n	buf := bufferPool.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer func() {\n		if buf.Cap() >= 128 {\n			bufferPool.Put(buf)\n		}\n	}()\n	rt := rv.Type()\n"),
 ("amino.go", "//----------------------------------------\n// *Codec methods", "// Buffers are reused to spare allocations.\nvar bufferPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\n//----------------------------------------\n// *Codec methods"),
 ("amino.go", "	\"reflect\"\n", "	\"reflect\"\n	\"sync\"\n")],
 "keeping the bytes of one MarshalBinaryBare while another value is encoded", "The encoding returned first is overwritten by the next one.", '''
func TestDemo(t *testing.T) {
	a, err := MarshalBinaryBare(struct{ A string }{strings.Repeat("first", 99)})
	if err != nil { t.Fatal(err) }
	s := string(a)
	for i := 0; i < 20; i++ {
		if _, err = MarshalBinaryBare(struct{ A string }{strings.Repeat("other", 99)}); err != nil { t.Fatal(err) }
	}
	if string(a) != s { t.Fatalf("%q became %q", s, a) }
}''', imports="strings")

mkseed("hoisted-element", "C02", [("binary-decode.go", """		isErtStructPointer := ert.Kind() == reflect.Ptr && einfo.Type.Kind() == reflect.Struct

		// Read elements in unpacked form.
		for {
""", """		isErtStructPointer := ert.Kind() == reflect.Ptr && einfo.Type.Kind() == reflect.Struct
		// Elements are copied when appended, unless they are pointers.
		scratch := reflect.New(ert).Elem()

		// Read elements in unpacked form.
		for {
"""), ("binary-decode.go", """			// Decode the next ByteLength bytes into erv.
			erv, _n := reflect.New(ert).Elem(), int(0)
			// Special""", """			// Decode the next ByteLength bytes into erv.
			erv := scratch
			if ert.Kind() != reflect.Array || einfo.IsAminoUnmarshaler {
				erv = reflect.New(ert).Elem()
			}
			// Special""")],
 "a list of arrays of pointers with two elements", "The elements share the pointed-to value: all get the last one.", '''
type demoE [1]*string
func TestDemo(t *testing.T) {
	x, y := "x", "y"
	v := struct{ L []demoE }{[]demoE{{&x}, {&y}}}
	u := v
	u.L = nil
	if err := UnmarshalBinaryBare(gcdc.MustMarshalBinaryBare(v), &u); err != nil { t.Fatal(err) }
	if len(u.L) != 2 || *u.L[0][0] != "x" || *u.L[1][0] != "y" { t.Fatal(*u.L[0][0], *u.L[1][0]) }
}
''')

mkseed("field-number-limit", "C09", [("binary-decode.go", "	if num64 > (1<<29 - 1) {", "	if num64 >= (1<<29 - 1) {")],
 "an unknown field with the largest field number, 2^29-1", "It is refused instead of skipped.", '''
func TestDemo(t *testing.T) {
	var s struct{ A int }
	bz := []byte{0x08, 0x05, 0xf8, 0xff, 0xff, 0xff, 0x0f, 0x01}
	if err := UnmarshalBinaryBare(bz, &s); err != nil || s.A != 5 { t.Fatal(err, s) }
}''')

mkseed("json-empty-array", "C20", [("json-decode.go", """		if len(rawSlice) != length {
			err = fmt.Errorf("decodeReflectJSONArray: length mismatch, got %v want %v", len(rawSlice), length)
			return
		}
""", """		if len(rawSlice) > length || (len(rawSlice) < length && len(rawSlice) > 0) {
			err = fmt.Errorf("decodeReflectJSONArray: length mismatch, got %v want %v", len(rawSlice), length)
			return
		}
		length = len(rawSlice)
""")],
 "an empty JSON array for a Go array", "It is taken for an array of zero values.", '''
func TestDemo(t *testing.T) {
	var s struct{ A [2]int8 }
	if err := UnmarshalJSON([]byte(`{"A":[]}`), &s); err == nil { t.Fatal(s) }
	if err := UnmarshalJSON([]byte(`{"A":[1,2]}`), &s); err != nil || s.A != [2]int8{1, 2} { t.Fatal(err, s) }
}''')

mkseed("json-pointer-to-zero", "C18", [("json-encode.go", """			// Get dereferenced element value and info.
			var erv, _, isNil = derefPointers(rv.Index(i))
			if isNil {
				err = writeStr(w, `null`)
			} else {""", """			// Get dereferenced element value and info.
			var erv, isDefault = isDefaultValue(rv.Index(i))
			if isDefault && ert.Kind() == reflect.Ptr {
				err = writeStr(w, `null`)
			} else {""")],
 "a list of pointers with a pointer to zero or to an empty string", "The element is written as null and comes back as a nil pointer.", '''
func TestDemo(t *testing.T) {
	x, y := int32(0), int32(3)
	v := struct{ A []*int32 }{[]*int32{&x, &y, nil}}
	bz, err := MarshalJSON(v)
	if err != nil { t.Fatal(err) }
	u := v
	u.A = nil
	if err := UnmarshalJSON(bz, &u); err != nil { t.Fatal(err) }
	if len(u.A) != 3 || u.A[0] == nil || *u.A[0] != 0 || *u.A[1] != 3 || u.A[2] != nil { t.Fatal(string(bz)) }
}''')

mkseed("stream-readahead", "C13", [("amino.go", "	if maxSize < 0 {\n		panic(\"maxSize cannot be negative.\")\n	}\n", "	switch _, ok := r.(io.ByteReader); {\n	case maxSize < 0:\n		panic(\"maxSize cannot be negative.\")\n	case maxSize > 64 && !ok:\n		// Spare the many small reads of the prefix.\n		r = bufio.NewReaderSize(r, 16)\n	}\n"),
 ("amino.go", "import (\n", "import (\n	\"bufio\"\n")],
 "two values one after the other in a stream that isn't a ByteReader, read with a maximum size above 64", "Bytes after the first value are consumed and lost.", '''
type demoR struct{ r *bytes.Reader }
func (r demoR) Read(b []byte) (int, error) { return r.r.Read(b) }
func TestDemo(t *testing.T) {
	a := struct{ A string }{"a"}
	bz := append(demoMust(t, a), demoMust(t, a)...)
	r := demoR{bytes.NewReader(bz)}
	for i := 0; i < 2; i++ {
		u := a
		u.A = ""
		if _, err := UnmarshalBinaryLengthPrefixedReader(r, &u, 100); err != nil || u.A != "a" { t.Fatal(i, err) }
	}
}
func demoMust(t *testing.T, o interface{}) []byte {
	bz, err := MarshalBinaryLengthPrefixed(o)
	if err != nil { t.Fatal(err) }
	return bz
}''', imports="bytes")

mkseed("seal-empty", "C22", [("codec.go", "	cdc.sealed = true\n	return cdc", "	if len(cdc.typeInfos) > 0 {\n		cdc.sealed = true\n	}\n	return cdc")],
 "sealing a codec before anything is registered or used", "It isn't sealed: registering works.", '''
func TestDemo(t *testing.T) {
	cdc := NewCodec().Seal()
	defer func() { if recover() == nil { t.Fatal("registered on a sealed codec") } }()
	cdc.RegisterConcrete(struct{ A int }{}, "demo", nil)
}''')

mkseed("mixed-ambiguity", "C16", [("codec.go", "	if len(infos) > 1 {\n		err = fmt.Errorf(\"conflicting concrete types registered for %X: e.g. %v and %v\", pb, infos[0].Type, infos[1].Type)", "	if len(infos) > 1 && infos[0].PointerPreferred == infos[1].PointerPreferred {\n		err = fmt.Errorf(\"conflicting concrete types registered for %X: e.g. %v and %v\", pb, infos[0].Type, infos[1].Type)")],
 "two implementers with the same prefix bytes, one registered as a pointer and the other not, and an encoding without disambiguation bytes", "The first one is taken.", '''
type demoI interface{ Demo() }
type demoA struct{ A int }
type demoB struct{ A int }
func (demoA) Demo() {}
func (*demoB) Demo() {}
func TestDemo(t *testing.T) {
	// Two names with the same prefix bytes.
	na, nb := "a8", "b8"
	seen := map[PrefixBytes]string{}
	for i := 0; ; i++ {
		n := strconv.Itoa(i)
		_, p := NameToDisfix(n)
		if m, ok := seen[p]; ok { na, nb = m, n; break }
		seen[p] = n
	}
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), &InterfaceOptions{Priority: []string{na, nb}})
	cdc.RegisterConcrete(demoA{}, na, nil)
	cdc.RegisterConcrete(&demoB{}, nb, nil)
	_, p := NameToDisfix(na)
	var i demoI
	if err := cdc.UnmarshalBinaryBare(append(p[:], 8, 2), &i); err == nil { t.Fatalf("%#v", i) }
}''', imports="strconv")

mkseed("time-far-nanos", "C04", [("encoder.go", "	ns := int32(t.Nanosecond()) // this int64 -> int32 cast is safe (nanos are in [0, 999999999])\n", "	ns := int32(t.UnixNano() % 1e9)\n	if s <= 0 {\n		ns = int32(t.Nanosecond())\n	} else if ns < 0 {\n		ns += 1e9\n	}\n")],
 "a time with nanoseconds more than 292 years from 1970", "UnixNano overflows: other nanoseconds are encoded.", '''
func TestDemo(t *testing.T) {
	v := time.Date(2500, 1, 2, 3, 4, 5, 123456789, time.UTC)
	var u time.Time
	if err := UnmarshalBinaryBare(func() []byte { b, _ := MarshalBinaryBare(v); return b }(), &u); err != nil || !u.Equal(v) { t.Fatal(u, err) }
}''', imports="time")
