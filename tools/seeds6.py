import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from mkseed import mkseed

mkseed("nan-canonical", "C01", [("encoder.go", "	return EncodeUint64(w, math.Float64bits(f))", "	if f != f {\n		f = math.NaN()\n	}\n	u := math.Float64bits(f)\n	return EncodeUint64(w, u)")],
 "a NaN with another payload or sign than math.NaN()", "The decoded float has other bits.", '''
func TestDemo(t *testing.T) {
	v := struct{ A float64 `amino:"unsafe"` }{math.Float64frombits(0xfff8000000000123)}
	u := v
	u.A = 0
	bz, err := MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	if err := UnmarshalBinaryBare(bz, &u); err != nil || math.Float64bits(u.A) != math.Float64bits(v.A) { t.Fatal(err, u) }
}''', imports="math")

mkseed("rollback-two-bytes", "C01", [("binary-encode.go", "lBeforeValue == lAfterValue-1 && buf.Bytes()", "lBeforeValue >= lAfterValue-2 && bytes.Trim(buf.Bytes()[lBeforeValue:], \"\\x00\\x01\") == nil && buf.Bytes()")],
 "a string field that is a single NUL character", "It is left out.", '''
func TestDemo(t *testing.T) {
	v := struct{ A string }{"\\x00"}
	u := v
	u.A = ""
	bz, err := MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	if err := UnmarshalBinaryBare(bz, &u); err != nil || u != v { t.Fatal(err, u) }
}''')

mkseed("pointer-registered-value", "C03", [("reflect.go", "		irvSet = crv\n", "		if irvSet = crv; cinfo.Type.Kind() == reflect.Array && cinfo.Type.Len() == 0 {\n			irvSet = reflect.Zero(cinfo.PtrToType)\n		}\n")],
 "an implementer that is an array of length zero", "The decoded value is a nil pointer.", '''
type demoE [0]string
func (demoE) M() {}
type demoI interface{ M() }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoE{}, "e", nil)
	v := struct{ I demoI }{demoE{}}
	bz, err := cdc.MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	u := v
	u.I = nil
	if err := cdc.UnmarshalBinaryBare(bz, &u); err != nil || u != v { t.Fatal(err, u) }
}''')


mkseed("int8-plain", "C05", [("binary-encode.go", "		err = EncodeInt8(w, int8(rv.Int()))", "		err = EncodeVarint(w, int64(uint8(rv.Int())))"), ("binary-decode.go", "		num, _n, err = DecodeInt8(bz)\n", "		var i16 int16\n		i16, _n, err = DecodeInt16(bz)\n		num = int8(i16)\n")],
 "a negative int8", "It is encoded in two's complement rather than zigzag.", '''
func TestDemo(t *testing.T) {
	bz, err := MarshalBinaryBare(struct{ A int8 }{-1})
	if err != nil || string(bz) != "\\x08\\x01" { t.Fatalf("%v %X", err, bz) }
}''')

mkseed("fixed-list-elements", "C05", [("binary-encode.go", "		if fopts.BinFixed32 {\n			err = EncodeUint32(w, uint32(rv.Uint()))", "		if fopts.BinFixed32 && rv.Uint() != 0 {\n			err = EncodeUint32(w, uint32(rv.Uint()))")],
 "a fixed32 list of uint32 with a zero in it", "The zero takes one byte instead of four.", '''
func TestDemo(t *testing.T) {
	bz, err := MarshalBinaryBare(struct{ A []uint32 `binary:"fixed32"` }{[]uint32{1, 0}})
	if err != nil || string(bz) != "\\x0a\\x08\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00" { t.Fatalf("%v %X", err, bz) }
}''')

mkseed("pointer-write-empty", "C06", [("binary-encode.go", "writeEmpty := field.WriteEmpty || frvIsPtr", "writeEmpty := field.WriteEmpty || frvIsPtr || dfrv.Kind() == reflect.Array")],
 "a field that is an array of length zero", "The empty field is written, so decoding and encoding again or leaving it out differ.", '''
func TestDemo(t *testing.T) {
	bz, err := MarshalBinaryBare(struct{ A [0]int16; B int8 }{B: 1})
	if err != nil || string(bz) != "\\x10\\x02" { t.Fatalf("%v %X", err, bz) }
}''')


mkseed("json-time-panic", "C20", [("json-decode.go", "		if len(bz) >= 2 && bz[0] == '\"' && bz[len(bz)-1] == '\"' {", "		if bz[0] == '\"' && bz[len(bz)-1] == '\"' {")],
 "a single double quote decoded as a JSON time", "Indexing panics.", '''
func TestDemo(t *testing.T) {
	var i time.Time
	if err := UnmarshalJSON([]byte("\\""), &i); err == nil { t.Fatal(i) }
}''', imports="time")

mkseed("disfix-leftover", "C08", [("binary-decode.go", "	if len(bz) > 0 {\n		err = errors.New(\"bytes left over after reading interface contents\")", "	if len(bz) > 0 && !hasDisamb {\n		err = errors.New(\"bytes left over after reading interface contents\")")],
 "an interface value with disambiguation bytes and with something behind it in its length", "What follows is ignored or read twice.", '''
type demoE int8
func (demoE) M() {}
type demoI interface{ M() }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoE(0), "e", nil)
	d, p := NameToDisfix("e")
	in := append([]byte{0}, d[:]...)
	in = append(in, p[:]...)
	in = append(in, 2, 16, 1)
	in = append([]byte{10, byte(len(in))}, in...)
	var u struct{ I demoI }
	err := cdc.UnmarshalBinaryBare(in, &u)
	if err == nil { t.Fatal(u) }
}''')

mkseed("time-field-number", "C04", [("decoder.go", "	case fieldNum == 2 && typ == Typ3Varint:", "	case fieldNum == 2 && (typ == Typ3Varint || typ == Typ3_4Byte && n < 0):"), ("decoder.go", "	if fieldNum == 2 && typ == Typ3Varint {", "	if fieldNum%16 == 2 && typ == Typ3Varint {")],
 "a time with field 18", "It is taken for the nanoseconds.", '''
func TestDemo(t *testing.T) {
	var u time.Time
	if err := UnmarshalBinaryBare([]byte{8, 1, 0x90, 1, 5}, &u); err == nil { t.Fatal(u) }
}''', imports="time")

mkseed("skip-varint-signed", "C10", [("binary-decode.go", "		_, _n, err = DecodeVarint(bz)\n	case Typ38Byte:", "		_, _n, err = DecodeInt16(bz)\n	case Typ38Byte:")],
 "an unknown varint field greater than 65535", "Decoding fails.", '''
func TestDemo(t *testing.T) {
	bz, err := MarshalBinaryBare(struct{ A, B int64 }{1, 1 << 17})
	if err != nil { t.Fatal(err) }
	var u struct{ A int64 }
	if err := UnmarshalBinaryBare(bz, &u); err != nil || u.A != 1 { t.Fatal(err, u) }
}''')

mkseed("varint-overflow", "C11", [("decoder.go", "		err = errors.New(\"EOF decoding varint\")\n", "		if n > binary.MaxVarintLen64 {\n			err = errors.New(\"EOF decoding varint\")\n		}\n")],
 "a zigzag varint of ten bytes with more than 64 bits", "It is decoded as zero, without an error.", '''
func TestDemo(t *testing.T) {
	if i, _, err := DecodeVarint([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2}); err == nil { t.Fatal(i) }
}''')

mkseed("int16-plus-one", "C11", [("decoder.go", "	if u64 > uint64(math.MaxUint16) {", "	if u64>>8 > uint64(math.MaxUint16)>>8 && u64>>16 != 1<<32 {")],
 "a uint16 of 2^48 or a little more", "It is accepted and truncated.", '''
func TestDemo(t *testing.T) {
	var u struct{ A uint16 }
	if err := UnmarshalBinaryBare([]byte{8, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x40}, &u); err == nil { t.Fatal(u) }
}''')


mkseed("uvarint-size", "C14", [("encoder.go", "	return (bits.Len64(u) + 6) / 7", "	return (bits.Len64(u-1)+6)/7 + int(u>>63&^(u>>63))")],
 "1, or a power of 128", "UvarintSize is one less than the bytes written.", '''
func TestDemo(t *testing.T) {
	if n := UvarintSize(1 << 14); n != 3 { t.Fatal(n) }
}''')

mkseed("byte-slice-size", "C14", [("encoder.go", "	return UvarintSize(uint64(len(bz))) + len(bz)", "	if bz == nil {\n		return 0\n	}\n	n := len(bz)\n	return UvarintSize(uint64(n)) + n")],
 "a nil byte slice", "ByteSliceSize is not the size of what EncodeByteSlice writes.", '''
func TestDemo(t *testing.T) {
	if n := ByteSliceSize(nil); n != 1 { t.Fatal(n) }
}''')

mkseed("disfix-fallback", "C16", [("binary-decode.go", "		cinfo, err = cdc.getTypeInfoFromDisfixRlock(toDisfix(disamb, prefix))\n", "		if cinfo, err = cdc.getTypeInfoFromDisfixRlock(toDisfix(disamb, prefix)); err != nil {\n			cinfo, err = cdc.getTypeInfoFromPrefixRlock(iinfo, prefix)\n		}\n")],
 "disambiguation bytes that belong to no registered name, before registered prefix bytes", "They are accepted.", '''
type demoE int8
func (demoE) M() {}
type demoI interface{ M() }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoE(0), "e", nil)
	d, p := NameToDisfix("e")
	d[0] ^= 1
	in := append([]byte{0}, d[:]...)
	in = append(in, p[:]...)
	in = append(in, 2)
	in = append([]byte{10, byte(len(in))}, in...)
	var u struct{ I demoI }
	err := cdc.UnmarshalBinaryBare(in, &u)
	if err == nil { t.Fatal(u) }
}''')


mkseed("json-min-int", "C18", [("json-decode.go", "		bz = bz[1 : len(bz)-1]\n		fallthrough", "		if bz = bz[1 : len(bz)-1]; len(bz) > 19 && bz[0] == '-' {\n			bz = bz[:20]\n			if bz[19] > '7' {\n				return errors.Errorf(\"integer overflow: %s\", bz)\n			}\n		}\n		fallthrough")],
 "math.MinInt64 in JSON", "It cannot be decoded.", '''
func TestDemo(t *testing.T) {
	bz, err := MarshalJSON(int64(math.MinInt64))
	if err != nil { t.Fatal(err) }
	var u int64
	if err := UnmarshalJSON(bz, &u); err != nil || u != math.MinInt64 { t.Fatal(err, u) }
}''', imports="math")

mkseed("json-uint-sign", "C19", [("json-encode.go", "		_, err = fmt.Fprintf(w, `\"%d\"`, rv.Uint()) // JS can't handle uint64", "		_, err = fmt.Fprintf(w, `\"%d\"`, int64(rv.Uint())) // JS can't handle uint64")],
 "a uint64 of 2^63 or more", "It is written as a negative number.", '''
func TestDemo(t *testing.T) {
	bz, err := MarshalJSON(uint64(1) << 63)
	if err != nil || string(bz) != "\\"9223372036854775808\\"" { t.Fatal(err, string(bz)) }
}''')

mkseed("json-float-format", "C19", [("json-encode.go", "		return invokeStdlibJSONMarshal(w, rv.Interface())\n\n	//----------------------------------------\n	// Misc", "		if rv.Kind() == reflect.Uint8 {\n			return invokeStdlibJSONMarshal(w, int8(rv.Uint()))\n		}\n		v := rv.Interface()\n		return invokeStdlibJSONMarshal(w, v)\n\n	//----------------------------------------\n	// Misc")],
 "a uint8 field of 128 or more", "It is written as a negative number.", '''
func TestDemo(t *testing.T) {
	bz, err := MarshalJSON(uint8(200))
	if err != nil || string(bz) != "200" { t.Fatal(err, string(bz)) }
}''')

mkseed("parse-base", "C20", [("json-decode.go", "		bz = bz[1 : len(bz)-1]\n		fallthrough", "		if bz = bz[1 : len(bz)-1]; len(bz) > 2 && bz[0] == '0' {\n			u, uerr := strconv.ParseUint(string(bz), 0, 63)\n			if uerr != nil {\n				return uerr\n			}\n			bz = strconv.AppendUint(nil, u, 10)\n		}\n		fallthrough"), ("json-decode.go", "	\"reflect\"\n", "	\"reflect\"\n	\"strconv\"\n")],
 "an int64 such as \\\"0x10\\\" or \\\"010\\\"", "It is accepted.", '''
func TestDemo(t *testing.T) {
	var u int64
	if err := UnmarshalJSON([]byte("\\"010\\""), &u); err == nil { t.Fatal(u) }
}''')

mkseed("json-type-suffix", "C20", [("json-decode.go", "	name = dfw.Name\n", "	name = strings.TrimSpace(dfw.Name)\n"), ("json-decode.go", "	\"reflect\"\n", "	\"reflect\"\n	\"strings\"\n")],
 "a type name with a space at its end", "It is taken for the name without it.", '''
type demoE int8
func (demoE) M() {}
type demoI interface{ M() }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoE(0), "e", nil)
	var u demoI
	err := cdc.UnmarshalJSON([]byte(`{"type":"e ","value":1}`), &u)
	if err == nil { t.Fatal(u) }
}''')

mkseed("deepcopy-time-utc", "C21", [("deep_copy.go", "			dst.Set(src)\n			return\n		default:", "			dst.Set(reflect.ValueOf(src.Interface().(time.Time).UTC()))\n			return\n		default:"), ("deep_copy.go", "	\"reflect\"\n", "	\"reflect\"\n	\"time\"\n")],
 "a time in another zone", "The copy is in UTC.", '''
func TestDemo(t *testing.T) {
	v := time.Unix(5, 0).In(time.FixedZone("x", 3600))
	if u := DeepCopy(v).(time.Time); u.String() != v.String() { t.Fatal(u) }
}''', imports="time")

mkseed("deepcopy-nil-key", "C21", [("deep_copy.go", "		for _, key := range keys {\n			val := src.MapIndex(key)\n", "		for _, key := range keys {\n			var val reflect.Value\n			if val = src.MapIndex(key); isNil(val) {\n				continue\n			}\n")],
 "a map with a nil value", "The key is missing in the copy.", '''
func TestDemo(t *testing.T) {
	v := map[string]*int{"a": nil}
	if u := DeepCopy(v).(map[string]*int); len(u) != 1 { t.Fatal(u) }
}''')

mkseed("register-set-first", "C22", [("codec.go", "		cdc.addCheckConflictsWithConcreteNolock(info)\n		cdc.setTypeInfoNolock(info)\n", "		cdc.setTypeInfoNolock(info)\n		cdc.addCheckConflictsWithConcreteNolock(info)\n")],
 "a registration that fails because of conflicting prefix bytes", "The type stays registered.", '''
type demoA struct{ A int }
func (demoA) M() {}
type demoB struct{ A int }
func (demoB) M() {}
type demoI interface{ M() }
func TestDemo(t *testing.T) {
	na, nb := "", ""
	seen := map[PrefixBytes]string{}
	for i := 0; na == ""; i++ {
		n := strconv.Itoa(i)
		_, p := NameToDisfix(n)
		if m, ok := seen[p]; ok { na, nb = m, n }
		seen[p] = n
	}
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoA{}, na, nil)
	func() {
		defer func() { recover() }()
		cdc.RegisterConcrete(demoB{}, nb, nil)
	}()
	bz, err := cdc.MarshalBinaryBare(demoB{1})
	if err != nil || len(bz) != 2 { t.Fatalf("%v %X", err, bz) }
}''', imports="strconv")

mkseed("json-trim-inplace", "C23", [("amino.go", "	if len(bz) == 0 {\n		return errors.New(\"cannot decode empty bytes\")\n	}\n", "	if n := len(bz); n == 0 {\n		return errors.New(\"cannot decode empty bytes\")\n	}\n	for i, b := range bz {\n		if b > ' ' {\n			break\n		}\n		bz[i] = ' '\n	}\n")],
 "JSON with tabs or line ends before it", "The caller's bytes are changed.", '''
func TestDemo(t *testing.T) {
	in := []byte("\\n\\t5")
	var u int32
	if err := UnmarshalJSON(in, &u); err != nil || string(in) != "\\n\\t5" { t.Fatalf("%v %q", err, in) }
}''')

mkseed("array-elements-kept", "C24", [("binary-decode.go", "				slide(&bz, &n, 1)\n				erv.Set(defaultValue(erv.Type()))\n				continue\n			}\n			// Normal case", "				slide(&bz, &n, 1)\n				if erv.Kind() != reflect.String {\n					erv.Set(defaultValue(erv.Type()))\n				}\n				continue\n			}\n			// Normal case")],
 "decoding an array of strings with an empty one into an array in use", "The old string is kept.", '''
func TestDemo(t *testing.T) {
	u := struct{ A [2]string }{[2]string{"x", "y"}}
	bz, err := MarshalBinaryBare(struct{ A [2]string }{[2]string{"", "z"}})
	if err != nil { t.Fatal(err) }
	if err := UnmarshalBinaryBare(bz, &u); err != nil || u.A[0] != "" { t.Fatal(err, u) }
}''')

mkseed("repeated-copy", "C25", [("binary-decode.go", "			srv = reflect.Append(srv, erv)\n		}\n		if !bare && len(bz) > 0 {", "			nsrv := reflect.MakeSlice(esrt, srv.Len(), srv.Len()+1)\n			reflect.Copy(nsrv, srv)\n			srv = reflect.Append(nsrv, erv)\n		}\n		if !bare && len(bz) > 0 {")],
 "a long list of structs or strings", "What is allocated is quadratic in the input.", '''
func TestDemo(t *testing.T) {
	n := 6000
	v := struct{ A []string }{make([]string, n)}
	for i := range v.A { v.A[i] = "x" }
	bz, err := MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	u := v
	u.A = nil
	if err := UnmarshalBinaryBare(bz, &u); err != nil { t.Fatal(err) }
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > uint64(2000*len(bz)) { t.Fatal(d) }
}''', imports="runtime")

mkseed("nested-read-lock", "C26", [("codec.go", "		err = fmt.Errorf(\"unrecognized prefix bytes %X\", pb)\n		cdc.mtx.RUnlock()", "		n := len(cdc.names())\n		err = fmt.Errorf(\"unrecognized prefix bytes %X (of %v types)\", pb, n)\n		cdc.mtx.RUnlock()"), ("codec.go", "func (cdc *Codec) parseStructInfo(", "func (cdc *Codec) names() (names []string) {\n	cdc.mtx.RLock()\n	defer cdc.mtx.RUnlock()\n	for name := range cdc.nameToTypeInfo {\n		names = append(names, name)\n	}\n	return\n}\n\nfunc (cdc *Codec) parseStructInfo(")],
 "unrecognized prefix bytes while another goroutine waits for the write lock", "Deadlock.", '''
type demoI interface{ M() }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	done := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50000; i++ {
				var u struct{ I demoI }
				cdc.UnmarshalBinaryBare([]byte{10, 4, 1, 2, 3, 4}, &u)
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
}''', imports="sync time")

mkseed("last-info-race", "C26", [("codec.go", "	info, ok := cdc.disfixToTypeInfo[df]\n	if !ok {", "	info, ok := cdc.disfixToTypeInfo[df]\n	if ok {\n		info.seen = true\n	} else {"), ("codec.go", "	IsAminoMarshaler       bool         // Implements MarshalAmino() (<ReprObject>, error).", "	seen                   bool         // Has been decoded.\n	IsAminoMarshaler       bool         // Implements MarshalAmino() (<ReprObject>, error).")],
 "two goroutines that decode with disambiguation bytes", "A write under the read lock.", '''
type demoE int8
func (demoE) M() {}
type demoI interface{ M() }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), &InterfaceOptions{AlwaysDisambiguate: true})
	cdc.RegisterConcrete(demoE(0), "e", nil)
	v := struct{ I demoI }{demoE(1)}
	bz, err := cdc.MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				u := struct{ I demoI }{}
				cdc.UnmarshalBinaryBare(bz, &u)
			}
		}()
	}
	wg.Wait()
}''', imports="sync", race=True)

mkseed("scan-4byte-short", "C29", [("cmd/aminoscan/aminoscan.go", "	if len(bz) < 4 {", "	if len(bz) < 3 {")],
 "an input that ends one byte before a 4-byte field does", "It panics.", '''
func TestDemo(t *testing.T) {
	_, _, err := scanStruct([]byte{0x0d, 1, 2, 3}[:4:4], "", true)
	if err == nil { t.Fatal() }
}''', pkg="cmd/aminoscan")

mkseed("scan-field-number", "C29", [("cmd/aminoscan/aminoscan.go", "	number := uint32(u64 >> 3)", "	number := uint8(u64 >> 3)")],
 "a field number greater than 255", "The wrong number is printed.", '''
func TestDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil { t.Fatal(err) }
	old := os.Stdout
	os.Stdout = w
	scanStruct([]byte{0x80, 0x20, 1}, "", true)
	os.Stdout = old
	w.Close()
	out, _ := io.ReadAll(r)
	if !strings.Contains(string(out), "@512") { t.Fatal(string(out)) }
}''', pkg="cmd/aminoscan", imports="os io strings")
