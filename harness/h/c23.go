package h

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// How a value is encoded.
const encoders = 5

func encodeBy(c *amino.Codec, how int, v any) ([]byte, error) {
	switch how {
	case 0:
		return c.MarshalBinaryBare(v)
	case 1:
		return c.MarshalBinaryLengthPrefixed(v)
	case 2:
		var b bytes.Buffer
		_, err := c.MarshalBinaryLengthPrefixedWriter(&b, v)
		return b.Bytes(), err
	case 3:
		return c.MustMarshalBinaryBare(v), nil
	}
	return c.MustMarshalBinaryLengthPrefixed(v), nil
}

// decodeBy is the inverse of encodeBy.
func decodeBy(c *amino.Codec, how int, bz []byte, p any) (err error) {
	switch how {
	case 0:
		return c.UnmarshalBinaryBare(bz, p)
	case 1:
		return c.UnmarshalBinaryLengthPrefixed(bz, p)
	case 2:
		_, err = c.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), p, 0)
		return err
	case 3:
		c.MustUnmarshalBinaryBare(bz, p)
	case 4:
		c.MustUnmarshalBinaryLengthPrefixed(bz, p)
	}
	return nil
}

// spared is b with room behind it, which is not to be touched.
func spared(b []byte) []byte {
	r := append(make([]byte, 0, len(b)+4), b...)
	copy(r[:len(b)+4][len(b):], "room")
	return r
}

// untouched: what goes in stays as it was, what comes out is independent.
func untouched[T any](c *amino.Codec, tweak func(g *generator)) {
	sym.Bound(genBound)
	g := newGen()
	g.lens = []int{0, 1, 2}
	g.spare = true
	if tweak != nil {
		tweak(g)
	}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	untouchedValue(c, v)
}

func untouchedValue[T any](c *amino.Codec, v T) {
	how := sym.Choose("how", encoders)
	behind := how == 0 || how == 4 // a pointer
	if sym.Tier() > 0 {
		behind = sym.Choose("pointer", 2) == 1
	}
	snap, mem := cloneOf(v), memory(v)
	var bz []byte
	var err error
	if !behind {
		bz, err = encodeBy(c, how, v)
	} else {
		bz, err = encodeBy(c, how, &v)
	}
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.And(same(v, snap), sym.Same(memory(v), mem)), fmt.Sprintf("%T: encoding changes the value", v))
	was := append([]byte(nil), bz...)
	bz2, err := encodeBy(c, how, v)
	sym.Assert(err == nil, "encode error")
	scribble(reflect.ValueOf(&v).Elem())
	sym.Assert(sym.And(sym.EqBytes(bz, was), sym.EqBytes(bz2, was)), fmt.Sprintf("%T: changing the value changes its encoding", v))
	scribbleBytes(bz2)
	sym.Assert(sym.EqBytes(bz, was), fmt.Sprintf("%T: two encodings share memory", v))

	in := spared(was)
	var u, w T
	err = decodeBy(c, how, in, &u)
	sym.Assert(err == nil, "decode error")
	err = decodeBy(c, how, in, &w)
	sym.Assert(err == nil, "decode error")
	sym.Assert(sym.And(sym.EqBytes(in, was), string(in[len(in):len(in)+4]) == "room"), fmt.Sprintf("%T: decoding changes its input", v))
	snap = cloneOf(u)
	sym.Assert(same(w, snap), fmt.Sprintf("%T: decoding twice gives different values", v))
	scribbleBytes(in)
	sym.Assert(sym.And(sym.Same(u, snap), sym.Same(w, snap)), fmt.Sprintf("%T: overwriting the input changes the decoded value", v))
	scribbled := cloneOf(u)
	scribble(reflect.ValueOf(&u).Elem())
	scribble(reflect.ValueOf(&scribbled).Elem())
	sym.Assert(sym.Same(w, snap), fmt.Sprintf("%T: two decoded values share memory", v))
	sym.Assert(sym.Same(u, scribbled), fmt.Sprintf("%T: parts of a decoded value share memory", v))
	sym.Cover("untouched")
}

func C23_ints()     { untouched[Ints](cdc, nil) }
func C23_fixed()    { untouched[Fixed](cdc, nil) }
func C23_text()     { untouched[Text](cdc, nil) }
func C23_ptrs()     { untouched[Ptrs](cdc, nil) }
func C23_nest()     { untouched[Nest](cdc, nil) }
func C23_named()    { untouched[Named](cdc, nil) }
func C23_octets()   { untouched[Octets](cdc, nil) }
func C23_embedded() { untouched[Embedded](cdc, nil) }
func C23_wempty()   { untouched[WriteEmpty](cdc, nil) }
func C23_node()     { untouched[Node](cdc, nil) }
func C23_packed()   { untouched[PackedLists](cdc, nil) }
func C23_fixeds()   { untouched[FixedLists](cdc, nil) }
func C23_texts()    { untouched[TextLists](cdc, nil) }
func C23_structs()  { untouched[StructLists](cdc, fullEmpty) }
func C23_rich()     { untouched[RichLists](cdc, nil) }
func C23_plists()   { untouched[PtrLists](cdc, nil) }
func C23_alists()   { untouched[ArrayLists](cdc, nil) }
func C23_tlists()   { untouched[TimeLists](cdc, nil) }
func C23_nlists()   { untouched[NamedLists](cdc, nil) }
func C23_lists()    { untouched[ListsInLists](cdc, nil) }
func C23_arrays()   { untouched[Arrays](cdc, nil) }
func C23_times()    { untouched[Times](cdc, nil) }
func C23_zoo()      { untouched[Zoo](zcdc, nil) }
func C23_herd()     { untouched[Herd](dcdc, nil) }

func C23_top() {
	switch sym.Choose("type", 8) {
	case 0:
		untouched[[]byte](cdc, nil)
	case 1:
		untouched[[4]byte](cdc, nil)
	case 2:
		untouched[[]string](cdc, nil)
	case 3:
		untouched[[]int64](cdc, nil)
	case 4:
		untouched[[]Leaf](cdc, nil)
	case 5:
		untouched[[][]byte](cdc, nil)
	case 6:
		untouched[Data](zcdc, nil)
	case 7:
		untouched[[]time.Time](cdc, nil)
	}
}

// Keep has a representation which is the very memory it holds.
type Keep struct{ b []byte }

func (k Keep) MarshalAmino() ([]byte, error) { return k.b, nil }
func (k *Keep) UnmarshalAmino(b []byte) error {
	k.b = b
	return nil
}

type keeps struct {
	A Keep
	B []Keep
}

// representations are not changed, and the ones decoded are independent of the input
func C23_repr() {
	b := spared(sym.Bytes("b", sym.Choose("len", 3)))
	was := append([]byte(nil), b...)
	v := keeps{A: Keep{b}, B: []Keep{{b}, {b}}}
	how := sym.Choose("how", encoders)
	bz, err := encodeBy(cdc, how, v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.And(sym.EqBytes(b, was), string(b[len(b):len(b)+4]) == "room"), "encoding changes a representation")
	bwas := append([]byte(nil), bz...)
	scribbleBytes(b)
	sym.Assert(sym.EqBytes(bz, bwas), "changing the value changes its encoding")
	var u keeps
	sym.Assert(decodeBy(cdc, how, bz, &u) == nil, "decode error")
	scribbleBytes(bz)
	sym.Assert(len(u.B) == 2, "elements lost")
	sym.Assert(sym.And(sym.EqBytes(u.A.b, was), sym.EqBytes(u.B[0].b, was), sym.EqBytes(u.B[1].b, was)), "overwriting the input changes the decoded value")
	scribbleBytes(u.B[0].b)
	sym.Assert(sym.And(sym.EqBytes(u.A.b, was), sym.EqBytes(u.B[1].b, was)), "parts of a decoded value share memory")
	sym.Cover("kept")
}

// no input is changed, whether it is refused or not
func inputKept[T any](c *amino.Codec, bz []byte) {
	in := spared(bz)
	var u T
	var err error
	switch sym.Choose("framing", 3) {
	case 0:
		err = c.UnmarshalBinaryBare(in, &u)
	case 1:
		err = c.UnmarshalBinaryLengthPrefixed(in, &u)
	case 2:
		_, err = c.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(in), &u, 0)
	}
	sym.Assert(sym.And(sym.EqBytes(in, bz), string(in[len(in):len(in)+4]) == "room"), fmt.Sprintf("%T: decoding changes its input", u))
	if err == nil {
		snap := cloneOf(u)
		scribbleBytes(in)
		sym.Assert(sym.Same(u, snap), fmt.Sprintf("%T: overwriting the input changes the decoded value", u))
		sym.Cover("accepted")
	}
}

func anyKept[T any](c *amino.Codec) { inputKept[T](c, anyBytes(3+sym.Tier())) }

func C23_any_text()  { anyKept[Text](cdc) }
func C23_any_texts() { anyKept[TextLists](cdc) }
func C23_any_ptrs()  { anyKept[Ptrs](cdc) }
func C23_any_zoo()   { anyKept[Zoo](zcdc) }
func C23_mut_texts() { inputKept[TextLists](cdc, mutant(noreg.encode(smallValue[TextLists]()))) }
func C23_mut_zoo()   { inputKept[Zoo](zcdc, mutant(zreg.encode(smallValue[Zoo]()))) }

// The functions of the package which split byte strings off.
func C23_slices() {
	bz := anyBytes(4)
	in := spared(bz)
	b, _, err := amino.DecodeByteSlice(in)
	s, _, serr := amino.DecodeString(in)
	sym.Assert((err == nil) == (serr == nil), "a byte slice is accepted, a string not, or the other way round")
	if err == nil {
		snap := append([]byte(nil), b...)
		scribbleBytes(in)
		sym.Assert(sym.And(sym.EqBytes(b, snap), s == string(snap)), "overwriting the input changes a decoded byte slice")
		sym.Cover("split off")
	}
}

// ---- JSON

// customJSON keeps the very text it is given.
type customJSON struct{ b []byte }

func (k customJSON) MarshalJSON() ([]byte, error) { return k.b, nil }
func (k *customJSON) UnmarshalJSON(b []byte) error {
	k.b = append([]byte(nil), b...)
	return nil
}

func jsonBy(how int, v any) ([]byte, error) {
	switch how {
	case 0:
		return jcdc.MarshalJSON(v)
	case 1:
		return jcdc.MustMarshalJSON(v), nil
	}
	return jcdc.MarshalJSONIndent(v, "", " ")
}

// jsonUntouched: what goes in stays as it was, what comes out is independent, in JSON.
func jsonUntouched[T any]() {
	if sym.Tier() == 0 {
		sym.Bound("texts of letters, byte strings of 0 and 2 bytes; otherwise: " + jsonBound)
	} else {
		sym.Bound(jsonBound)
	}
	g := newJGen()
	g.lens = []int{0, 2}
	if sym.Tier() > 0 {
		g.lens = []int{0, 1, 2}
	}
	g.plain = sym.Tier() == 0
	g.spare = true
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	how := sym.Choose("how", 2+min(sym.Tier(), 1))
	snap, mem := cloneOf(v), memory(v)
	var bz []byte
	var err error
	if how == 0 {
		bz, err = jsonBy(how, &v)
	} else {
		bz, err = jsonBy(how, v)
	}
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.And(same(v, snap), sym.Same(memory(v), mem)), fmt.Sprintf("%T: encoding to JSON changes the value", v))
	was := append([]byte(nil), bz...)
	bz2, err := jsonBy(how, v)
	sym.Assert(err == nil, "encode error")
	scribble(reflect.ValueOf(&v).Elem())
	sym.Assert(sym.EqBytes(bz, was), fmt.Sprintf("%T: changing the value changes its JSON", v))
	scribbleBytes(bz2)
	sym.Assert(sym.EqBytes(bz, was), fmt.Sprintf("%T: two encodings to JSON share memory", v))

	in := spared(was)
	var u, w T
	sym.Assert(jcdc.UnmarshalJSON(in, &u) == nil, "decode error")
	sym.Assert(jcdc.UnmarshalJSON(in, &w) == nil, "decode error")
	sym.Assert(sym.And(sym.EqBytes(in, was), string(in[len(in):len(in)+4]) == "room"), fmt.Sprintf("%T: decoding JSON changes its input", v))
	snap = cloneOf(u)
	sym.Assert(same(w, snap), fmt.Sprintf("%T: decoding JSON twice gives different values", v))
	scribbleBytes(in)
	sym.Assert(sym.And(sym.Same(u, snap), sym.Same(w, snap)), fmt.Sprintf("%T: overwriting the JSON changes the decoded value", v))
	scribbled := cloneOf(u)
	scribble(reflect.ValueOf(&u).Elem())
	scribble(reflect.ValueOf(&scribbled).Elem())
	sym.Assert(sym.Same(w, snap), fmt.Sprintf("%T: two values decoded from JSON share memory", v))
	sym.Assert(sym.Same(u, scribbled), fmt.Sprintf("%T: parts of a value decoded from JSON share memory", v))
	sym.Cover("untouched JSON")
}

func C23_json_ints()   { jsonUntouched[Ints]() }
func C23_json_text()   { jsonUntouched[Text]() }
func C23_json_ptrs()   { jsonUntouched[Ptrs]() }
func C23_json_nest()   { jsonUntouched[Nest]() }
func C23_json_named()  { jsonUntouched[Named]() }
func C23_json_maps()   { jsonUntouched[Maps]() }
func C23_json_omit()   { jsonUntouched[Omit]() }
func C23_json_jlists() { jsonUntouched[JLists]() }
func C23_json_texts()  { jsonUntouched[TextLists]() }
func C23_json_arrays() { jsonUntouched[Arrays]() }
func C23_json_tlists() { jsonUntouched[TimeLists]() }
func C23_json_zoo()    { jsonUntouched[Zoo]() }
func C23_json_herd()   { jsonUntouched[Herd]() }

func C23_json_top() {
	switch sym.Choose("type", 6) {
	case 0:
		jsonUntouched[[]byte]()
	case 1:
		jsonUntouched[[2]byte]()
	case 2:
		jsonUntouched[[]string]()
	case 3:
		jsonUntouched[map[string][]byte]()
	case 4:
		jsonUntouched[[]Leaf]()
	case 5:
		jsonUntouched[time.Time]()
	}
}

// texts of a marshaler's own are not changed
func C23_json_custom() {
	b := spared([]byte(`"` + sym.String("s", 1) + `"`))
	sym.Assume(sym.And(b[1] >= 0x20, b[1] < 0x7f, b[1] != '"', b[1] != '\\'))
	was := append([]byte(nil), b...)
	type T struct {
		A customJSON
		B []customJSON
	}
	v := T{A: customJSON{b}, B: []customJSON{{b}, {b}}}
	bz, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.And(sym.EqBytes(b, was), string(b[len(b):len(b)+4]) == "room"), "encoding to JSON changes a text of a marshaler")
	bwas := append([]byte(nil), bz...)
	scribbleBytes(b)
	sym.Assert(sym.EqBytes(bz, bwas), "changing the value changes its JSON")
	var u T
	sym.Assert(jcdc.UnmarshalJSON(bz, &u) == nil, "decode error")
	scribbleBytes(bz)
	sym.Assert(len(u.B) == 2, "elements lost")
	sym.Assert(sym.And(sym.EqBytes(u.A.b, was), sym.EqBytes(u.B[0].b, was), sym.EqBytes(u.B[1].b, was)), "overwriting the JSON changes the decoded value")
	sym.Cover("custom")
}

// no JSON is changed, whether it is refused or not
func jsonKept[T any]() {
	bz := anyBytes(3 + sym.Tier())
	in := spared(bz)
	var u T
	err := jcdc.UnmarshalJSON(in, &u)
	sym.Assert(sym.And(sym.EqBytes(in, bz), string(in[len(in):len(in)+4]) == "room"), fmt.Sprintf("%T: decoding JSON changes its input", u))
	if err == nil {
		snap := cloneOf(u)
		scribbleBytes(in)
		sym.Assert(sym.Same(u, snap), fmt.Sprintf("%T: overwriting the JSON changes the decoded value", u))
		sym.Cover("accepted")
	}
}

func C23_jany_string() { jsonKept[string]() }
func C23_jany_bytes()  { jsonKept[[]byte]() }
func C23_jany_map()    { jsonKept[map[string]int8]() }
func C23_jany_ints()   { jsonKept[[]*int8]() }
