from mkseed import mkseed
import shutil
for x in ["byteslice-len-fastpath", "amino-unmarshal-error-json", "reader-max-size", "uvarint-size"]:
    shutil.rmtree("/verif/seeded/" + x, ignore_errors=True)
mkseed("ptr-to-false", "C01", [("binary-encode.go", "writeEmpty := field.WriteEmpty || frvIsPtr", "writeEmpty := field.WriteEmpty || (frvIsPtr && dfrv.Kind() == reflect.Struct)")],
 "a field which is a pointer to false", "The pointer comes back nil.", '''
type demoT struct{ A int; B *bool; C *struct{} }
func TestDemo(t *testing.T) {
	b := false
	var out demoT
	if err := UnmarshalBinaryBare(MustMarshalBinaryBare(demoT{1, &b, &struct{}{}}), &out); err != nil { t.Fatal(err) }
	if out.A != 1 || out.B == nil || *out.B || out.C == nil { t.Fatal(out) }
}''')
mkseed("varint-size", "C14", [("encoder.go", "	return UvarintSize((uint64(i) << 1) ^ uint64(i>>63))", "	if i < 0 {\n		i = -i\n	}\n	return UvarintSize(uint64(i) << 1)")],
 "a negative number that is minus a power of two of certain orders, e.g. -64", "The size is one too large.", '''
func TestDemo(t *testing.T) {
	for s := uint(0); s < 64; s++ {
		for d := -1; d < 2; d++ {
			for _, i := range []int64{int64(1)<<s + int64(d), -(int64(1) << s) + int64(d)} {
				var b bytes.Buffer
				EncodeVarint(&b, i)
				if VarintSize(i) != b.Len() { t.Fatal(i) }
			}
		}
	}
}''', imports="bytes")
mkseed("reader-prefix-limit", "C13", [("amino.go", "if maxSize > 0 && n >= maxSize {", "if maxSize > 0 && n > maxSize {")],
 "a length prefix longer than the maximum size", "One byte more than the maximum is read.", '''
func TestDemo(t *testing.T) {
	r := bytes.NewReader([]byte{0x80, 0x80, 0x80, 0, 0})
	var s string
	n, err := UnmarshalBinaryLengthPrefixedReader(r, &s, 2)
	if err == nil || n != 2 || r.Len() != 3 { t.Fatal(n, err, r.Len()) }
}''', imports="bytes")
mkseed("repr-field-options", "C17", [("binary-encode.go", "		err = cdc.encodeReflectBinary(w, rinfo, rrv, fopts, bare)\n		return", "		err = cdc.encodeReflectBinary(w, rinfo, rrv, FieldOptions{BinFieldNum: fopts.BinFieldNum}, bare)\n		return")],
 "a field with a MarshalAmino type and a binary:\"fixed64\" tag", "The representation is encoded as a varint under a key which says fixed64.", '''
type demoR int64
func (r demoR) MarshalAmino() (int64, error) { return int64(r), nil }
func (r *demoR) UnmarshalAmino(s int64) error { *r = demoR(s); return nil }
type demoS struct{ A demoR `binary:"fixed64"`; B demoR }
func TestDemo(t *testing.T) {
	var s demoS
	if err := UnmarshalBinaryBare(MustMarshalBinaryBare(demoS{5, 6}), &s); err != nil || s != (demoS{5, 6}) { t.Fatal(s, err) }
}''')
mkseed("time-upper-bound", "C04", [("decoder.go", "if res < minSeconds || res >= maxSeconds {", "if res < minSeconds || res > maxSeconds {")],
 "exactly the first second of the year 10000", "An encoded time of 10000-01-01T00:00:00 is accepted when decoding.", '''
func TestDemo(t *testing.T) {
	b := bytes.NewBuffer([]byte{8})
	EncodeUvarint(b, 253402300799)
	if _, _, err := DecodeTime(b.Bytes()); err != nil { t.Fatal(err) }
	b = bytes.NewBuffer([]byte{8})
	EncodeUvarint(b, 253402300800)
	if v, _, err := DecodeTime(b.Bytes()); err == nil { t.Fatal("accepted", v) }
}''', imports="bytes")
mkseed("concrete-empty-shortcut", "C03", [("binary-decode.go", "	// Decode into the concrete type.\n	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)", "	// Nothing to decode: all fields have their defaults.\n	if len(bz) == 0 {\n		rv.Set(irvSet)\n		return\n	}\n\n	// Decode into the concrete type.\n	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)")],
 "an interface value of a registered struct whose encoding is empty but whose default is not the zero value: one with a time field of 1970-01-01", "The time comes back as year 1.", '''
type demoI interface{ Demo() }
type demoA struct{ N int; T time.Time }
func (demoA) Demo() {}
func TestDemo(t *testing.T) {
	cdc := NewCodec()
	cdc.RegisterInterface((*demoI)(nil), nil)
	cdc.RegisterConcrete(demoA{}, "demoA", nil)
	for n := 0; n < 2; n++ {
		in := struct{ I demoI }{demoA{N: n, T: time.Unix(0, 0).UTC()}}
		out := in
		out.I = nil
		if err := cdc.UnmarshalBinaryBare(cdc.MustMarshalBinaryBare(in), &out); err != nil { t.Fatal(err) }
		if !out.I.(demoA).T.Equal(in.I.(demoA).T) { t.Fatal(n, out) }
	}
}''', imports="time")
mkseed("int16-fastpath", "C05", [("encoder.go", "func EncodeInt16(w io.Writer, i int16) (err error) {\n	return", "func EncodeInt16(w io.Writer, i int16) (err error) {\n	if i >= 0 && i <= 64 {\n		_, err = w.Write([]byte{byte(i << 1)})\n		return\n	}\n	return")],
 "an int16 of exactly 64", "The varint is written as an unterminated byte 0x80.", '''
func TestDemo(t *testing.T) {
	for i := -70; i < 70; i++ {
		var a, b bytes.Buffer
		EncodeInt16(&a, int16(i))
		EncodeVarint(&b, int64(i))
		if a.String() != b.String() { t.Fatal(i) }
	}
}''', imports="bytes")
