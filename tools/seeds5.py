import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from mkseed import mkseed

mkseed("string-valid-utf8", "C01", [("decoder.go", "	s = string(bz2)\n", "	s = strings.ToValidUTF8(string(bz2), \"\\uFFFD\")\n"), ("decoder.go", "	\"math\"\n", "	\"math\"\n	\"strings\"\n")],
 "a string that isn't valid UTF-8", "The decoded string differs.", '''
func TestDemo(t *testing.T) {
	v := struct{ A string }{"a\\xffb"}
	u := v
	u.A = ""
	bz, err := MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	if err := UnmarshalBinaryBare(bz, &u); err != nil || u != v { t.Fatalf("%v %q", err, u.A) }
}''')

mkseed("nil-deep-pointer", "C02", [("reflect.go", "			rt := rv.Type().Elem()\n			for rt.Kind() == reflect.Ptr {\n				rt = rt.Elem()\n			}\n			drv = reflect.New(rt).Elem()\n", "			rt := rv.Type().Elem()\n			if rt.Kind() == reflect.Ptr {\n				rt = rt.Elem()\n			}\n			drv = reflect.New(rt).Elem()\n")],
 "a nil element of a list of pointers to pointers to pointers", "Encoding panics.", '''
func TestDemo(t *testing.T) {
	v := struct{ A []***int16 }{[]***int16{nil}}
	u := v
	u.A = nil
	bz, err := MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	if err := UnmarshalBinaryBare(bz, &u); err != nil || len(u.A) != 1 || u.A[0] != nil { t.Fatal(err, u.A) }
}''')

mkseed("empty-interface-ambiguous", "C03", [("binary-encode.go", "	} else if cdc.countImplementersRlock(iinfo, cinfo.Prefix) > 1 {", "	} else if iinfo.Type.NumMethod() > 0 && cdc.countImplementersRlock(iinfo, cinfo.Prefix) > 1 {")],
 "two concrete types with the same prefix bytes in a field of type interface{}", "The disambiguation bytes are missing: it can't be decoded.", '''
type demoA struct{ A int }
type demoB struct{ A int }
func TestDemo(t *testing.T) {
	// Two names with the same prefix bytes.
	na, nb := "", ""
	seen := map[PrefixBytes]string{}
	for i := 0; na == ""; i++ {
		n := strconv.Itoa(i)
		_, p := NameToDisfix(n)
		if m, ok := seen[p]; ok { na, nb = m, n }
		seen[p] = n
	}
	cdc := NewCodec()
	cdc.RegisterInterface((*interface{})(nil), &InterfaceOptions{Priority: []string{na, nb}})
	cdc.RegisterConcrete(demoA{}, na, nil)
	cdc.RegisterConcrete(demoB{}, nb, nil)
	v := struct{ I interface{} }{demoB{3}}
	bz, err := cdc.MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	u := v
	u.I = nil
	if err := cdc.UnmarshalBinaryBare(bz, &u); err != nil || u != v { t.Fatal(err, u) }
}''', imports="strconv")

mkseed("time-duplicate-nanos", "C04", [("decoder.go", "	if len(bz) > 0 {\n		nsec, err = decodeNanos(&bz, &n)\n", "	for l := -1; len(bz) > 0 && len(bz) != l; {\n		l = len(bz)\n		nsec, err = decodeNanos(&bz, &n)\n")],
 "a time with the nanoseconds field twice", "It is accepted.", '''
func TestDemo(t *testing.T) {
	var u time.Time
	if err := UnmarshalBinaryBare([]byte{8, 1, 16, 1, 16, 2}, &u); err == nil { t.Fatal(u) }
}''', imports="time")

mkseed("length-overflow", "C07", [("decoder.go", "	if len(bz) < int(count) {\n", "	if len(bz)+n < n+int(count) {\n")],
 "a length of 2^63-1 or a little less", "The sum overflows: slicing panics.", '''
func TestDemo(t *testing.T) {
	var u struct{ A string }
	if err := UnmarshalBinaryBare([]byte{10, 255, 255, 255, 255, 255, 255, 255, 255, 127, 65}, &u); err == nil { t.Fatal(u) }
}''')

mkseed("list-leftover", "C08", [("binary-decode.go", "		if !bare && len(bz) > 0 {\n			err = errors.New(\"bytes left over after reading slice contents\")", "		if !bare && len(bz) > 0 && fopts.BinFieldNum != 1 {\n			err = errors.New(\"bytes left over after reading slice contents\")")],
 "a list within a list, with a field that doesn't belong there after its elements", "The rest is taken as a part of the outer list.", '''
func TestDemo(t *testing.T) {
	var u struct{ A [][]string }
	// The inner list says it has 6 bytes: an element and a field 2.
	if err := UnmarshalBinaryBare([]byte{10, 6, 10, 1, 65, 18, 1, 66}, &u); err == nil { t.Fatal(u) }
}''')

mkseed("nested-order-reset", "C09", [("binary-decode.go", """				if fnum <= lastFieldNum {
					err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\\nbytes:%X",
						fnum, lastFieldNum, bz)
					return
				}
				lastFieldNum = fnum
				if slide""", """				if fnum < lastFieldNum {
					err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\\nbytes:%X",
						fnum, lastFieldNum, bz)
					return
				}
				if lastFieldNum = fnum; field.UnpackedList {
					lastFieldNum--
				}
				if slide"""), ("binary-decode.go", "			if fnum <= lastFieldNum && !isRepeated {", "			if fnum < lastFieldNum && !isRepeated {")],
 "the last field of a struct twice", "The second one is ignored instead of refused.", '''
func TestDemo(t *testing.T) {
	var u struct{ A, B uint8 }
	if err := UnmarshalBinaryBare([]byte{8, 1, 16, 2, 16, 3}, &u); err == nil { t.Fatal(u) }
}''')

mkseed("skip-padded-varint", "C09", [("binary-decode.go", "		_, _n, err = DecodeVarint(bz)\n	case Typ38Byte:", "		var i64 int64\n		if i64, _n, err = DecodeVarint(bz); err == nil && VarintSize(i64) != _n {\n			err = errors.New(\"varint isn't minimal\")\n		}\n	case Typ38Byte:")],
 "an unknown varint field in more bytes than it needs", "The message is refused.", '''
func TestDemo(t *testing.T) {
	var u struct{ A uint8 }
	if err := UnmarshalBinaryBare([]byte{8, 1, 16, 0x80, 0}, &u); err != nil || u.A != 1 { t.Fatal(err, u) }
}''')

mkseed("skip-4byte-tail", "C10", [("binary-decode.go", "		_, _n, err = DecodeInt32(bz)\n	default:", "		if _n = 4; len(bz) <= _n {\n			err = errors.New(\"EOF skipping 4 bytes\")\n		}\n	default:")],
 "an unknown fixed32 field at the very end", "The message is refused.", '''
func TestDemo(t *testing.T) {
	v := struct {
		A uint8
		B uint32 `binary:"fixed32"`
	}{1, 7}
	bz, err := MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	var u struct{ A uint8 }
	if err := UnmarshalBinaryBare(bz, &u); err != nil || u.A != 1 { t.Fatal(err, u) }
}''')

mkseed("uint32-off-by-one", "C11", [("binary-decode.go", "			if num > math.MaxUint32 {", "			if num > math.MaxUint32+1 {")],
 "2^32 for a uint32", "It is taken as 0.", '''
func TestDemo(t *testing.T) {
	var u struct{ A uint32 }
	if err := UnmarshalBinaryBare([]byte{8, 0x80, 0x80, 0x80, 0x80, 0x10}, &u); err == nil { t.Fatal(u) }
}''')

mkseed("empty-frame-shortcut", "C12", [("amino.go", "	bz = bz[n:]\n\n	// Decode.\n", "	if bz = bz[n:]; u64 == 0 && reflect.ValueOf(ptr).Kind() == reflect.Ptr {\n		// Nothing but default values.\n		rv := reflect.ValueOf(ptr).Elem()\n		rv.Set(defaultValue(rv.Type()))\n		return nil\n	}\n\n	// Decode.\n")],
 "an empty frame for a registered type or an interface", "It is accepted although the prefix bytes are missing.", '''
type demoA struct{ A int }
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterConcrete(demoA{}, "demo", nil)
	var u demoA
	if err := cdc.UnmarshalBinaryLengthPrefixed([]byte{0}, &u); err == nil { t.Fatal("accepted") }
}''')

mkseed("disamb-zeroes", "C15", [("codec.go", "	for bz[0] == 0x00 {\n		bz = bz[1:]\n	}\n	copy(db[:], bz[0:3])\n", "	if bz[0] == 0x00 {\n		bz = bz[1:]\n	}\n	copy(db[:], bz[0:3])\n")],
 "a name whose hash starts with two zero bytes", "The disambiguation bytes start with zero.", '''
func TestDemo(t *testing.T) {
	for i := 0; i < 400000; i++ {
		n := strconv.Itoa(i)
		if db, _ := NameToDisfix(n); db[0] == 0 { t.Fatal(n, db) }
	}
}''', imports="strconv")

mkseed("repr-zero-shortcut", "C17", [("binary-decode.go", "		// Then, decode from repr instance.\n", "		// Then, decode from repr instance.\n		if len(bz) == 0 && rrv.IsZero() && rrv.Kind() == reflect.String {\n			rv.Set(info.ZeroValue)\n			return\n		}\n"), ("binary-decode.go", "		_n, err = cdc.decodeReflectBinary(bz, rinfo, rrv, fopts, bare)\n		if slide(&bz, &n, _n) && err != nil {\n			return\n		}\n", "		if _n, err = cdc.decodeReflectBinary(bz, rinfo, rrv, fopts, bare); err != nil {\n			return\n		}\n		slide(&bz, &n, _n)\n")],
 "a type whose representation is an empty string, and whose UnmarshalAmino refuses it or makes something else of it", "UnmarshalAmino isn't called.", '''
type demoR struct{ S string }
func (r demoR) MarshalAmino() (string, error) { return r.S, nil }
func (r *demoR) UnmarshalAmino(s string) error { r.S = s + "!"; return nil }
func TestDemo(t *testing.T) {
	v := struct{ A *demoR }{&demoR{}}
	bz, err := MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	v.A = nil
	if err := UnmarshalBinaryBare(bz, &v); err != nil || v.A == nil || v.A.S != "!" { t.Fatal(err, v.A) }
}''')

mkseed("json-omit-pointer", "C18", [("json-encode.go", "		if field.JSONOmitEmpty && isEmpty(frv, field.ZeroValue) {", "		if field.JSONOmitEmpty && (isNil || isEmpty(frv, reflect.Zero(frv.Type()))) {")],
 "a pointer to zero with omitempty", "The field is left out and comes back as nil.", '''
func TestDemo(t *testing.T) {
	x := int32(0)
	v := struct{ A *int32 `json:",omitempty"` }{&x}
	bz, err := MarshalJSON(v)
	if err != nil { t.Fatal(err) }
	v.A = nil
	if err := UnmarshalJSON(bz, &v); err != nil || v.A == nil { t.Fatal(err, string(bz)) }
}''')

mkseed("json-name-escape", "C19", [("json-encode.go", "	err = invokeStdlibJSONMarshal(w, name)\n	if err != nil {\n		return\n	}\n	return writeStr(w, `,\"value\":`)", "	err = writeStr(w, `\"`+name+`\"`)\n	if err != nil {\n		return\n	}\n	return writeStr(w, `,\"value\":`)")],
 "a concrete type registered with a quote or a backslash in its name", "The JSON is invalid.", '''
type demoI interface{ Demo() }
type demoA struct{ A int }
func (demoA) Demo() {}
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoA{}, `demo"A\\`, nil)
	v := struct{ I demoI }{demoA{1}}
	bz, err := cdc.MarshalJSON(v)
	if err != nil || !json.Valid(bz) { t.Fatal(err, string(bz)) }
}''', imports="encoding/json")

mkseed("json-value-missing", "C20", [("json-decode.go", "	if len(dfw.Data) == 0 {\n		err = errors.New(\"interface JSON wrapper should have non-empty value field\")\n		return\n	}\n	data = dfw.Data\n", "	if data = dfw.Data; data == nil {\n		data = []byte(`null`)\n	}\n")],
 "a wrapper without a value", "It is accepted.", '''
type demoI interface{ Demo() }
type demoA struct{ A int }
func (demoA) Demo() {}
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoA{}, "demo", nil)
	var v struct{ I demoI }
	if err := cdc.UnmarshalJSON([]byte(`{"I":{"type":"demo"}}`), &v); err == nil { t.Fatal(v) }
}''')

mkseed("deepcopy-map-values", "C21", [("deep_copy.go", "			vcpy := reflect.New(val.Type()).Elem()\n			deepCopy(val, vcpy)\n", "			vcpy := val\n			if k := val.Kind(); k != reflect.Array && k != reflect.String {\n				vcpy = reflect.New(val.Type()).Elem()\n				deepCopy(val, vcpy)\n			}\n")],
 "a map with arrays of pointers as values", "The copy shares what they point to.", '''
func TestDemo(t *testing.T) {
	x := 1
	v := map[string][1]*int{"a": {&x}}
	u := DeepCopy(v).(map[string][1]*int)
	if u["a"][0] == &x || *u["a"][0] != 1 { t.Fatal("shared") }
}''')

mkseed("register-nil-options", "C22", [("codec.go", "	if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {\n", "	if existing, ok := cdc.nameToTypeInfo[info.Name]; ok && existing.Type.Kind() == info.Type.Kind() {\n")] if False else [("codec.go", "			// Return to previous state.\n			for _, f := range undo {\n				f()\n			}\n			panic(err)", "			// Return to previous state.\n			undo[len(undo)-1]()\n			panic(err)")],
 "a registration that fails at the second interface the type implements", "The first interface keeps the type among its implementers.", '''
type demoI interface{ Demo() }
type demoJ interface{ Demo(); Demo2() }
type demoA struct{ A int }
type demoB struct{ A int }
func (demoA) Demo() {}
func (demoA) Demo2() {}
func (demoB) Demo() {}
func (demoB) Demo2() {}
func TestDemo(t *testing.T) {
	na, nb := "", ""
	seen := map[PrefixBytes]string{}
	for i := 0; na == ""; i++ {
		n := strconv.Itoa(i)
		_, p := NameToDisfix(n)
		if m, ok := seen[p]; ok { na, nb = m, n }
		seen[p] = n
	}
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), &InterfaceOptions{Priority: []string{na, nb}})
	cdc.RegisterInterface((*demoJ)(nil), nil)
	cdc.RegisterConcrete(demoA{}, na, nil)
	v := struct{ I demoI }{demoA{3}}
	before, err := cdc.MarshalBinaryBare(v)
	if err != nil { t.Fatal(err) }
	func() {
		defer func() { if recover() == nil { t.Fatal("no conflict") } }()
		cdc.RegisterConcrete(demoB{}, nb, nil)
	}()
	after, err := cdc.MarshalBinaryBare(v)
	if err != nil || string(before) != string(after) { t.Fatalf("%X %X %v", before, after, err) }
}''', imports="strconv")

mkseed("json-time-strip", "C23", [("json-encode.go", "		ct := rv.Interface().(time.Time).Round(0).UTC()\n		rv = reflect.ValueOf(ct)\n", "		ct := rv.Interface().(time.Time).Round(0).UTC()\n		if rv.CanSet() {\n			rv.Set(reflect.ValueOf(ct))\n		} else {\n			rv = reflect.ValueOf(ct)\n		}\n")],
 "encoding a pointer to a struct with a time that isn't in UTC", "The time zone of the argument changes.", '''
func TestDemo(t *testing.T) {
	z := time.FixedZone("X", 3600)
	v := &struct{ T time.Time }{time.Date(2020, 1, 2, 3, 4, 5, 0, z)}
	if _, err := MarshalJSON(v); err != nil || v.T.Location() != z { t.Fatal(err, v.T) }
}''', imports="time")

mkseed("json-map-merge", "C24", [("json-decode.go", "	var mrv = reflect.MakeMapWithSize(rv.Type(), len(rawMap))\n", "	var mrv = rv\n	if rv.Len() == 0 {\n		mrv = reflect.MakeMapWithSize(rv.Type(), len(rawMap))\n	}\n")],
 "decoding JSON into a map which has other keys", "The old entries stay.", '''
func TestDemo(t *testing.T) {
	v := struct{ M map[string]int8 }{map[string]int8{"a": 1}}
	if err := UnmarshalJSON([]byte(`{"M":{"b":2}}`), &v); err != nil || len(v.M) != 1 { t.Fatal(err, v) }
}''')

mkseed("list-capacity-guess", "C25", [("binary-decode.go", "	var srv = reflect.Zero(esrt)\n", "	var srv reflect.Value\n	if len(bz) > 8 {\n		srv = reflect.MakeSlice(esrt, 0, len(bz))\n	} else {\n		srv = reflect.Zero(esrt)\n	}\n")],
 "a list of large elements in which the encoding has few of them", "An element's memory is reserved for every byte.", '''
type demoBig struct {
	S string
	X [1 << 12]byte
}
func TestDemo(t *testing.T) {
	var u struct{ A []*[1 << 12]byte; B []demoBig }
	bz, err := MarshalBinaryBare(struct{ A []string; B []struct{ S string } }{nil, []struct{ S string }{{strings.Repeat("x", 5000)}}})
	if err != nil { t.Fatal(err) }
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if err := UnmarshalBinaryBare(bz, &u); err != nil { t.Fatal(err) }
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<20 { t.Fatal(n) }
}''', imports="strings runtime")

mkseed("indent-arguments", "C27", [("amino.go", "	return gcdc.MarshalJSONIndent(o, prefix, indent)\n", "	return gcdc.MarshalJSONIndent(o, prefix, prefix+indent)\n")],
 "MarshalJSONIndent of the package with a prefix", "Its result differs from the codec's.", '''
func TestDemo(t *testing.T) {
	v := struct{ A int8 }{1}
	a, err := MarshalJSONIndent(v, "> ", "  ")
	if err != nil { t.Fatal(err) }
	b, err := NewCodec().MarshalJSONIndent(v, "> ", "  ")
	if err != nil || string(a) != string(b) { t.Fatalf("%s %s %v", a, b, err) }
}''')

mkseed("print-unnamed", "C28", [("codec.go", "	for _, i := range cdc.concreteInfos {\n		if _, err := io.WriteString(out, \"| \")", "	for _, i := range namedTypes(cdc.concreteInfos) {\n		if _, err := io.WriteString(out, \"| \")"), ("codec.go", "// A heuristic to guess", "// Others cannot be referred to.\nfunc namedTypes(infos []*TypeInfo) (named []*TypeInfo) {\n	for _, i := range infos {\n		if i.Type.Name() != \"\" {\n			named = append(named, i)\n		}\n	}\n	return\n}\n\n// A heuristic to guess")],
 "a registered type without a name, such as []byte or struct{}", "It is missing from the table.", '''
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterConcrete([]byte{}, "demo/bytes", nil)
	var b bytes.Buffer
	if err := cdc.PrintTypes(&b); err != nil || !strings.Contains(b.String(), "demo/bytes") { t.Fatal(err, b.String()) }
}''', imports="bytes strings")

mkseed("scan-length-overflow", "C29", [("cmd/aminoscan/aminoscan.go", "	if l64 > uint64(len(bz)-_n) {", "	if l64+uint64(_n) > uint64(len(bz)) {")],
 "a length close to 2^64", "The sum overflows: the scanner panics.", '''
package main

import "testing"

func TestDemo(t *testing.T) {
	if _, _, err := scanByteLength([]byte{255, 255, 255, 255, 255, 255, 255, 255, 255, 1, 1, 2, 3}, ""); err == nil { t.Fatal("accepted") }
}''', pkg="cmd/aminoscan")
