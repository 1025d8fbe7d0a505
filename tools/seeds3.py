import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from mkseed import mkseed as M
only = sys.argv[1:]
def mkseed(i, *a, **k):
    if not only or i in only: M(i, *a, **k)

mkseed("inner-list-field-number", "C05", [("binary-encode.go", "				efopts.BinFieldNum = 1\n", ""), ("binary-decode.go", "			efopts.BinFieldNum = 1\n			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)\n			if slide(&bz, &n, _n) && err != nil {\n				err = fmt.Errorf(\"error reading array contents: %v\", err)\n				return\n			}\n			srv", "			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)\n			if slide(&bz, &n, _n) && err != nil {\n				err = fmt.Errorf(\"error reading array contents: %v\", err)\n				return\n			}\n			srv")],
 "a list of lists of structs or strings in a field other than the first", "Both sides agree to number the inner elements by the outer field.", '''
type demoS struct { A int; B [][]string }
func TestDemo(t *testing.T) {
	bz := MustMarshalBinaryBare(demoS{0, [][]string{{"x"}}})
	if fmt.Sprintf("%X", bz) != "12030A0178" { t.Fatalf("%X", bz) }
}''', imports="fmt")
mkseed("map-key-quoting", "C19", [("json-encode.go", "		err = invokeStdlibJSONMarshal(w, krv.Interface())", "		_, err = fmt.Fprintf(w, \"%q\", krv.String())")],
 "a map with a key that Go and JSON quote differently", "The output isn't valid JSON.", '''
func TestDemo(t *testing.T) {
	in := map[string]string{"a\\x00": "b"}
	bz, err := MarshalJSON(in)
	if err != nil || !json.Valid(bz) { t.Fatal(string(bz), err) }
}''', imports="encoding/json")
mkseed("json-time-zone", "C18", [("json-encode.go", "		ct := rv.Interface().(time.Time).Round(0).UTC()", "		ct := rv.Interface().(time.Time).Round(0)")],
 "a time in a location other than UTC", "It is written with its offset, which decoding refuses.", '''
func TestDemo(t *testing.T) {
	in := time.Date(2020, 1, 2, 3, 4, 5, 6, time.FixedZone("x", 3600))
	bz, err := MarshalJSON(in)
	if err != nil { t.Fatal(err) }
	var out time.Time
	if err := UnmarshalJSON(bz, &out); err != nil || !in.Equal(out) { t.Fatal(err, out) }
}''', imports="time")
mkseed("json-array-longer", "C20", [("json-decode.go", "		if len(rawSlice) != length {", "		if len(rawSlice) < length {")],
 "a JSON list longer than the array", "The surplus elements are dropped.", '''
func TestDemo(t *testing.T) {
	var a [2]string
	if err := UnmarshalJSON([]byte(`["a","b","c"]`), &a); err == nil { t.Fatal(a) }
}''')
mkseed("json-bytes-shorter", "C20", [("json-decode.go", "		if len(buf) != length {", "		if len(buf) > length {")],
 "base64 of fewer bytes than the array has", "The missing bytes are left as they were.", '''
func TestDemo(t *testing.T) {
	var a [3]byte
	if err := UnmarshalJSON([]byte(`"AQI="`), &a); err == nil { t.Fatal(a) }
}''')
mkseed("deepcopy-inner-slices", "C21", [("deep_copy.go", "			reflect.Float32, reflect.String:\n\n			cpy := reflect", "			reflect.Float32, reflect.String, reflect.Slice:\n\n			cpy := reflect")],
 "a list of lists that is changed after copying", "The copy shares the lists.", '''
func TestDemo(t *testing.T) {
	in := [][]int{{1}}
	out := DeepCopy(in).([][]int)
	in[0][0] = 2
	if out[0][0] != 1 { t.Fatal(out) }
}''')
mkseed("deepcopy-array-arrays", "C21", [("deep_copy.go", "			reflect.Float32, reflect.String:\n\n			reflect.Copy", "			reflect.Float32, reflect.String, reflect.Array:\n\n			reflect.Copy")],
 "an array of arrays of pointers", "The copy shares what is pointed to.", '''
func TestDemo(t *testing.T) {
	x := 1
	in := [1][1]*int{{&x}}
	out := DeepCopy(in).([1][1]*int)
	x = 2
	if *out[0][0] != 1 { t.Fatal() }
}''')
mkseed("priority-first-implementer", "C22", [("codec.go", "		for _, cinfo := range cinfos {\n			var inPrio", "		for _, cinfo := range cinfos[1:] {\n			var inPrio")],
 "two implementers with the same prefix bytes of which only the second is in the priority list", "The conflict isn't reported.", None if False else '''
type demoI interface{ Demo() }
type demoA struct{ N int }
type demoB struct{ N int }
func (demoA) Demo() {}
func (demoB) Demo() {}
func TestDemo(t *testing.T) {
	seen := map[PrefixBytes]string{}
	var a, b string
	for i := 0; a == ""; i++ {
		n := strconv.Itoa(i)
		_, p := NameToDisfix(n)
		if o, ok := seen[p]; ok { a, b = o, n }
		seen[p] = n
	}
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), &InterfaceOptions{Priority: []string{b}})
	cdc.RegisterConcrete(demoA{}, a, nil)
	defer func() { if recover() == nil { t.Fatal("no panic") } }()
	cdc.RegisterConcrete(demoB{}, b, nil)
}''', imports="strconv")
mkseed("late-interface-implementers", "C22", [("codec.go", "	for _, cinfo := range cdc.concreteInfos {\n		if cinfo.PtrToType.Implements(info.Type) {", "	for _, cinfo := range cdc.concreteInfos {\n		if cinfo.Type.Implements(info.Type) {")],
 "an interface registered after an implementer with pointer receivers", "The implementer isn't found when decoding.", '''
type demoI interface{ Demo() }
type demoA struct{ N int }
func (*demoA) Demo() {}
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterConcrete(&demoA{}, "demoA", nil)
	cdc.RegisterInterface((*demoI)(nil), nil)
	in := struct{ I demoI }{&demoA{N: 1}}
	out := in
	out.I = nil
	if err := cdc.UnmarshalBinaryBare(cdc.MustMarshalBinaryBare(in), &out); err != nil { t.Fatal(err) }
}''')
mkseed("shared-prefix-bytes", "C23", [("amino.go", "		pb := info.Prefix.Bytes()\n		bz = append(pb, bz...)", "		pb := info.Prefix[:]\n		bz = append(pb, bz...)")],
 "a registered value whose encoding is its prefix bytes alone, and a caller that writes to the result", "The result is the codec's own memory.", '''
type demoA struct{ N int }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterConcrete(demoA{}, "demoA", nil)
	a := cdc.MustMarshalBinaryBare(demoA{})
	s := string(a)
	b := cdc.MustMarshalBinaryBare(demoA{})
	b[0]++
	if string(a) != s { t.Fatal("shared") }
}''')
mkseed("byte-slice-alias", "C23", [("binary-decode.go", "	byteslice, _n, err = DecodeByteSlice(bz)\n", "	byteslice, _n, err = splitByteSlice(bz)\n")],
 "an input that is overwritten after decoding a byte slice", "The decoded byte slice changes.", '''
func TestDemo(t *testing.T) {
	bz := MustMarshalBinaryBare(struct{ A []byte }{[]byte("abc")})
	var s struct{ A []byte }
	if err := UnmarshalBinaryBare(bz, &s); err != nil { t.Fatal(err) }
	for i := range bz { bz[i] = 0 }
	if string(s.A) != "abc" { t.Fatal(s) }
}''')
mkseed("reuse-byte-slice", "C24", [("binary-decode.go", "	if len(byteslice) == 0 {\n", "	if size := len(byteslice); size > 0 && rv.Cap() >= size {\n		// No need for another array.\n		rv.SetLen(size)\n		copy(rv.Bytes(), byteslice)\n	} else if size == 0 {\n")],
 "decoding twice into the same variable, keeping the first byte slice", "The slice decoded first is overwritten.", '''
func TestDemo(t *testing.T) {
	var s struct{ A []byte }
	if err := UnmarshalBinaryBare(MustMarshalBinaryBare(struct{ A []byte }{[]byte("abc")}), &s); err != nil { t.Fatal(err) }
	a := s.A
	if err := UnmarshalBinaryBare(MustMarshalBinaryBare(struct{ A []byte }{[]byte("xy")}), &s); err != nil { t.Fatal(err) }
	if string(a) != "abc" || string(s.A) != "xy" { t.Fatal(string(a), s) }
}''')
mkseed("absent-pointer-kept", "C24", [("binary-decode.go", "				if field.BinFieldNum < fnum {\n					// Set zero field value.\n					frv.Set(defaultValue(frv.Type()))\n", "				if field.BinFieldNum < fnum {\n					// Set zero field value.\n					if frv.Kind() != reflect.Ptr || frv.IsNil() {\n						frv.Set(defaultValue(frv.Type()))\n					}\n")],
 "decoding into a variable with a pointer whose field is absent before another one", "The old pointer is kept.", '''
type demoS struct { A *int; B int }
func TestDemo(t *testing.T) {
	x := 7
	s := demoS{&x, 1}
	if err := UnmarshalBinaryBare(MustMarshalBinaryBare(demoS{nil, 2}), &s); err != nil { t.Fatal(err) }
	if s.A != nil || s.B != 2 { t.Fatal(s) }
}''')
mkseed("allocate-first", "C25", [("decoder.go", "	var buf []byte\n	buf, n, err = splitByteSlice(bz)\n	if err != nil {\n		return\n	}\n	bz2 = make([]byte, len(buf))\n	copy(bz2, buf)\n	return", "	count, _n, err := DecodeUvarint(bz)\n	if err == nil && count < 1<<30 {\n		bz2 = make([]byte, count)\n	}\n	buf, n, err := splitByteSlice(bz)\n	if err != nil {\n		return nil, _n, err\n	}\n	copy(bz2, buf)\n	return bz2, n, nil")],
 "a byte slice that claims to be long", "The claimed length is allocated before it is compared with the input.", '''
func TestDemo(t *testing.T) {
	var m, m2 runtime.MemStats
	runtime.ReadMemStats(&m)
	_, _, err := DecodeByteSlice([]byte{0xFF, 0xFF, 0xFF, 0xFF, 1})
	runtime.ReadMemStats(&m2)
	if err == nil || m2.TotalAlloc-m.TotalAlloc > 1<<20 { t.Fatal(m2.TotalAlloc-m.TotalAlloc) }
}''', imports="runtime")
mkseed("max-size-ignored", "C27", [("amino.go", "	return gcdc.UnmarshalBinaryLengthPrefixedReader(r, ptr, maxSize)\n", "	if maxSize > 0 {\n		r = io.LimitReader(r, maxSize)\n	}\n	return gcdc.UnmarshalBinaryLengthPrefixedReader(r, ptr, 0)\n")],
 "the package function, a negative maximum, or a value longer than the maximum", "The maximum is checked in another way than by the method.", '''
func TestDemo(t *testing.T) {
	defer func() { if recover() == nil { t.Fatal("no panic") } }()
	var s string
	UnmarshalBinaryLengthPrefixedReader(bytes.NewReader([]byte{0}), &s, -1)
}''', imports="bytes")
mkseed("print-last-error", "C28", [("codec.go", "		if _, err := io.WriteString(out, \" |\\n\"); err != nil {\n			return err\n		}\n", "		_, _ = io.WriteString(out, \" |\\n\")\n")],
 "a writer that fails at the end of the last row", "The error is not returned.", '''
type demoA struct{ N int }
type demoW struct{ n int }
func (w *demoW) Write(p []byte) (int, error) {
	if w.n == 0 { return 0, errors.New("full") }
	w.n--
	return len(p), nil
}
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterConcrete(demoA{}, "demoA", nil)
	ok := false
	for n := 0; n < 40; n++ {
		w := &demoW{n}
		err := cdc.PrintTypes(w)
		if ok && err != nil { t.Fatal("error after success") }
		ok = err == nil
		if ok && n < 12 { t.Fatal("error lost", n) }
	}
}''', imports="errors")
mkseed("print-pointer-length", "C28", [("codec.go", "		reflect.Int16, reflect.Int32, reflect.Int64,\n		reflect.Float32", "		reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int,\n		reflect.Float32")],
 "a registered type of kind int", "Its length is printed as fixed although it is a varint of platform size.", '''
type demoN int
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterConcrete(demoN(0), "demoN", nil)
	var b bytes.Buffer
	cdc.PrintTypes(&b)
	if !strings.Contains(b.String(), "variable") { t.Fatal(b.String()) }
}''', imports="bytes strings")
mkseed("typeinfo-lock-upgrade", "C26", [("codec.go", "	cdc.mtx.Lock() // requires wlock because we might set.\n", "	for et := rt; ; et = et.Elem() {\n		if et.Kind() == reflect.Ptr {\n			continue\n		}\n		cdc.mtx.RLock()\n		info, ok := cdc.typeInfos[et]\n		cdc.mtx.RUnlock()\n		if ok {\n			return info, nil\n		}\n		break\n	}\n	cdc.mtx.Lock()\n"), ("codec.go", "	info, ok := cdc.typeInfos[rt]\n	if !ok {\n		if rt.Kind() == reflect.Interface {", "	if info == nil {\n		if rt.Kind() == reflect.Interface {")],
 "two goroutines that use a type for the first time at once", "The second panics: TypeInfo already exists.", '''
func TestDemo(t *testing.T) {
	type s0 struct{ A, B, C, D, E, F, G, H int }
	for i := 0; i < 300; i++ {
		cdc := NewCodec()
		rt := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(s0{})}, {Name: "B", Type: reflect.ArrayOf(i, reflect.TypeOf(s0{}))}})
		v := reflect.New(rt).Interface()
		var wg sync.WaitGroup
		start := make(chan bool)
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				cdc.MustMarshalBinaryBare(v)
			}()
		}
		close(start)
		wg.Wait()
	}
}''', imports="reflect sync")
mkseed("unlocked-name-lookup", "C26", [("codec.go", "	cdc.mtx.RLock()\n\n	info, ok := cdc.nameToTypeInfo[name]\n	if !ok {\n		err = fmt.Errorf(\"unrecognized concrete type name %s\", name)\n		cdc.mtx.RUnlock()\n		return\n	}\n	cdc.mtx.RUnlock()\n	return", "	info, ok := cdc.nameToTypeInfo[name]\n	if !ok {\n		err = fmt.Errorf(\"unrecognized concrete type name %s\", name)\n	}\n	return")],
 "an interface decoded from JSON while another goroutine registers a type", "A data race on the map of names.", '''
type demoI interface{ Demo() }
type demoA struct{ N int8 }
type demoB struct{ N int8 }
func (demoA) Demo() {}
func (demoB) Demo() {}
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoA{}, "demoA", nil)
	done := make(chan bool)
	go func() {
		cdc.RegisterConcrete(demoB{}, "demoB", nil)
		close(done)
	}()
	var i demoI
	for k := 0; k < 100; k++ {
		i = nil
		if err := cdc.UnmarshalJSON([]byte(`{"type":"demoA","value":{"N":1}}`), &i); err != nil { t.Fatal(err) }
	}
	<-done
}''', race=True)
