package h

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"aminoharness/jsonmodel"
	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// jsonIs: the JSON of v is the documented one, whatever the order of iteration over maps; it is the same
// through a pointer; the indented form is the same document.
func jsonIs[T any]() {
	sym.Bound(jsonBound + "; every order of iteration over maps")
	g := newJGen()
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	jsonIsValue(v)
}

// jsonMixed: every pattern of default and other fields, and elements of lists.
func jsonMixed[T any]() {
	sym.Bound(mixBound)
	g := newJGen()
	var v T
	g.mix(reflect.ValueOf(&v).Elem())
	jsonIsValue(v)
	bz, _ := jcdc.MarshalJSON(v)
	var u T
	sym.Assert(jcdc.UnmarshalJSON(bz, &u) == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
	want := jnorm(reflect.ValueOf(&v).Elem()).Interface()
	sym.Assert(sym.Same(want, u), fmt.Sprintf("%T: decoded value differs from the encoded one", v))
}

func jsonIsValue[T any](v T) {
	want := refJSON(nil, reflect.ValueOf(&v).Elem(), true)
	sym.MapOrder(true)
	bz, err := jcdc.MarshalJSON(v)
	sym.MapOrder(false)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(bz, want), fmt.Sprintf("%T: the JSON isn't the documented one", v))
	p, err := jcdc.MarshalJSON(&v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(p, bz), fmt.Sprintf("%T: another JSON through a pointer", v))
	sym.Cover("encoded")
}

func C19_ints()     { jsonIs[Ints]() }
func C19_uints()    { jsonIs[Uints]() }
func C19_fixed()    { jsonIs[Fixed]() }
func C19_floats()   { jsonIs[Options]() }
func C19_text()     { jsonIs[Text]() }
func C19_ptrs()     { jsonIs[Ptrs]() }
func C19_nest()     { jsonIs[Nest]() }
func C19_deep()     { jsonIs[Deep]() }
func C19_named()    { jsonIs[Named]() }
func C19_octets()   { jsonIs[Octets]() }
func C19_embedded() { jsonIs[Embedded]() }
func C19_tagged()   { jsonIs[Tagged]() }
func C19_wempty()   { jsonIs[WriteEmpty]() }
func C19_node()     { jsonIs[Node]() }
func C19_empty()    { jsonIs[HoldsEmpty]() }
func C19_maps()     { jsonIs[Maps]() }
func C19_omit()     { jsonIs[Omit]() }
func C19_jlists()   { jsonIs[JLists]() }
func C19_keys()     { jsonIs[Keys]() }
func C19_packed()   { jsonIs[PackedLists]() }
func C19_texts()    { jsonIs[TextLists]() }
func C19_structs()  { jsonIs[StructLists]() }
func C19_rich()     { jsonIs[RichLists]() }
func C19_plists()   { jsonIs[PtrLists]() }
func C19_alists()   { jsonIs[ArrayLists]() }
func C19_nlists()   { jsonIs[NamedLists]() }
func C19_inlists()  { jsonIs[ListsInLists]() }
func C19_arrays()   { jsonIs[Arrays]() }
func C19_times()    { jsonIs[Times]() }
func C19_tlists()   { jsonIs[TimeLists]() }
func C19_zoo()      { jsonIs[Zoo]() }
func C19_herd()     { jsonIs[Herd]() }

// jTop: one of the kinds of values at the top level.
func jTop(f func(v any)) {
	sym.Bound("top-level values of 21 types: all integers and booleans, any text of one character, byte strings up to 4 bytes, lists and maps up to 2 elements, 17 floats, 20 implementers by themselves")
	g := newJGen()
	fill := func(p any) {
		g.fill(reflect.ValueOf(p).Elem(), "v", gFull)
		f(p)
	}
	switch sym.Choose("type", 22) {
	case 0:
		fill(new(int8))
	case 1:
		fill(new(int16))
	case 2:
		fill(new(int64))
	case 3:
		fill(new(int))
	case 4:
		fill(new(uint8))
	case 5:
		fill(new(uint32))
	case 6:
		fill(new(uint64))
	case 7:
		fill(new(uint))
	case 8:
		fill(new(bool))
	case 9:
		fill(new(string))
	case 10:
		fill(new(MyStr))
	case 11:
		fill(new([]byte))
	case 12:
		fill(new([3]byte))
	case 13:
		fill(new([]string))
	case 14:
		fill(new([]*Leaf))
	case 15:
		fill(new([2]MyInt))
	case 16:
		fill(new(map[string]Leaf))
	case 17:
		fill(new(map[string]map[MyStr]*bool))
	case 18:
		fill(new([]Animal))
	case 19:
		var p any = g.time("v", gFull)
		rp := reflect.New(timeT)
		rp.Elem().Set(reflect.ValueOf(p))
		f(rp.Interface())
	case 20:
		fill(new(MyBool))
	case 21:
		a := g.animal("v", gFull)
		sym.Assume(a != nil)
		v, _, _ := deref(reflect.ValueOf(a))
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		f(p.Interface())
	}
}

func C19_top() {
	jTop(func(p any) {
		rv := reflect.ValueOf(p).Elem()
		want := refJSON(nil, rv, true)
		sym.MapOrder(true)
		bz, err := jcdc.MarshalJSON(rv.Interface())
		sym.MapOrder(false)
		sym.Assert(err == nil, "encode error")
		sym.Assert(sym.EqBytes(bz, want), fmt.Sprintf("%v: the JSON isn't the documented one", rv.Type()))
		bz, err = jcdc.MarshalJSON(p)
		sym.Assert(err == nil, "encode error")
		sym.Assert(sym.EqBytes(bz, want), fmt.Sprintf("%v: another JSON through a pointer", rv.Type()))
		sym.Cover("encoded")
	})
}

// nil at the top level
func C19_nil() {
	sym.Bound("nil pointers and lists")
	var v any
	switch sym.Choose("type", 6) {
	case 0:
		v = (*int)(nil)
	case 1:
		v = (*Leaf)(nil)
	case 2:
		v = []int16(nil)
	case 3:
		v = []byte(nil)
	case 4:
		v = new(*Leaf)
	case 5:
		v = (**[]byte)(nil)
	}
	bz, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil && string(bz) == "null", "nil isn't null")
	sym.Cover("encoded")
}

// ---- the indented form

// Boxes has empty and nested maps and lists.
type Boxes struct {
	M map[string][]int8
	N map[string]struct{}
	L [][]bool
	S struct{}
	P *map[string]*Leaf
}

// strip removes the space outside of texts.
func strip(b []byte) (out []byte) {
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		switch {
		case in:
			if c == '\\' {
				out = append(out, c)
				i++
				c = b[i]
			} else if c == '"' {
				in = false
			}
		case c == ' ' || c == '\t' || c == '\n':
			continue
		case c == '"':
			in = true
		}
		out = append(out, c)
	}
	return
}

func indented[T any]() {
	sym.Bound(jsonBound)
	g := newJGen()
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	bz, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(jsonmodel.Valid(bz), "invalid JSON")
	k := sym.Choose("indent", 2)
	ind, err := jcdc.MarshalJSONIndent(v, []string{"", "\t"}[k], []string{"  ", ""}[k])
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(strip(ind), bz), "the indented form is another document")
	var want bytes.Buffer
	err = jsonmodel.Indent(&want, bz, []string{"", "\t"}[k], []string{"  ", ""}[k])
	sym.Assert(err == nil && sym.EqBytes(ind, want.Bytes()), "the indentation differs")
	sym.Cover("indented")
}

func C19_indent_text() { indented[Text]() }
func C19_indent_maps() { indented[Boxes]() }
func C19_indent_omit() { indented[Omit]() }
func C19_indent_herd() { indented[Herd]() }

// ---- types with their own JSON

// JNum writes itself as a number in an array.
type JNum struct{ n int8 }

func (j JNum) MarshalJSON() ([]byte, error) {
	if j.n == 7 {
		return nil, errJNum
	}
	return append(strconv.AppendInt([]byte{'['}, int64(j.n), 10), ']'), nil
}

func (j *JNum) UnmarshalJSON(bz []byte) error {
	if len(bz) < 3 {
		return errJNum
	}
	n, err := strconv.ParseInt(string(bz[1:len(bz)-1]), 10, 8)
	if n == 9 {
		return errJNum
	}
	j.n = int8(n)
	return err
}

func (JNum) Sound() int { return 40 }

// JPtr has its methods on the pointer.
type JPtr struct{ A int64 }

func (j *JPtr) MarshalJSON() ([]byte, error) {
	return []byte(strconv.FormatInt(j.A, 10)), nil
}

func (j *JPtr) UnmarshalJSON(bz []byte) (err error) {
	j.A, err = strconv.ParseInt(string(bz), 10, 64)
	return err
}

var errJNum = errors.New("JNum")

type Customs struct {
	A JNum
	B *JNum
	C []JNum
	D map[string]JNum
	E Animal
	F []*JPtr
	G *JPtr
	H map[string]*JPtr
	I JNum `json:"i,omitempty"`
}

// Stray implements Animal and isn't registered.
type Stray struct{ A int8 }

func (Stray) Sound() int { return 41 }

var ccdc = func() *amino.Codec {
	c := amino.NewCodec()
	c.RegisterInterface((*Animal)(nil), nil)
	c.RegisterConcrete(JNum{}, "j/Num", nil)
	return c
}()

func genCustoms() (v Customs, want string) {
	n := JNum{sym.I8("n")}
	sym.Assume(n.n != 7 && n.n != 9)
	s := strconv.Itoa(int(n.n))
	w := []string{`{"type":"j/Num","value":[0]}`, "null", "null", "{}", "null", "null", "null", "{}"}
	w[0] = "[0]"
	last := ""
	sym.Bound("one field at a time over all its values, the rest empty")
	switch sym.Choose("focus", 9) {
	case 0:
		v.A, w[0] = n, "["+s+"]"
	case 1:
		v.B, w[1] = &n, "["+s+"]"
	case 2:
		v.C, w[2] = []JNum{{}, n}, "[[0],["+s+"]]"
	case 3:
		v.D, w[3] = map[string]JNum{"k": n, "b": {}}, `{"b":[0],"k":[`+s+`]}`
	case 4:
		v.E, w[4] = n, `{"type":"j/Num","value":[`+s+`]}`
	case 5:
		v.F, w[5] = []*JPtr{{int64(n.n)}, nil}, "["+s+",null]"
	case 6:
		v.G, w[6] = &JPtr{int64(n.n)}, s
	case 7:
		v.H, w[7] = map[string]*JPtr{"": {int64(n.n)}}, `{"":`+s+`}`
	case 8:
		v.I = n
		if n.n != 0 {
			last = `,"i":[` + s + `]`
		}
	}
	for i, x := range w {
		if i > 0 {
			want += ","
		}
		want += `"` + string(rune('A'+i)) + `":` + x
	}
	return v, "{" + want + last + "}"
}

func C19_custom() {
	v, want := genCustoms()
	bz, err := ccdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(bz, []byte(want)), "the JSON isn't the one of the type's own method")
	bz, err = ccdc.MarshalJSON(&v.A)
	sym.Assert(err == nil && sym.EqBytes(bz, []byte(`{"type":"j/Num","value":[`+strconv.Itoa(int(v.A.n))+`]}`)), "the type is missing")
	sym.Cover("encoded")
}

// an error of the type's own method comes back
func C19_custom_err() {
	sym.Bound("all values of one byte")
	n := JNum{sym.I8("n")}
	var v any
	switch sym.Choose("where", 6) {
	case 0:
		v = n
	case 1:
		v = &n
	case 2:
		v = []*JNum{{}, &n, {}}
	case 3:
		v = map[string]JNum{"a": n}
	case 4:
		v = struct{ A Animal }{n}
	case 5:
		v = [2]Animal{n, nil}
	}
	_, err := ccdc.MarshalJSON(v)
	sym.Assert((err != nil) == (n.n == 7), "the error of MarshalJSON")
	sym.Cover("checked")
}

// values that have no JSON are refused
func C19_refuse() {
	sym.Bound("each of 9 kinds of values without a JSON encoding")
	var v any
	switch sym.Choose("kind", 9) {
	case 0:
		v = map[int]string{1: "a"}
	case 1:
		v = struct{ M map[uint8]int }{map[uint8]int{}}
	case 2:
		v = [2]float64{1}
	case 3:
		v = []float32{1}
	case 4:
		v = struct{ A Animal }{Stray{1}}
	case 5:
		v = []Animal{Dog{}, Stray{}}
	case 6:
		v = map[string]Animal{"a": &Stray{}}
	case 7:
		v = struct {
			F float64 `amino:"unsafe"`
		}{math.Inf(1)}
	case 8:
		v = map[float64]int(nil)
	}
	var err error
	panicked := sym.Try(func() { _, err = jcdc.MarshalJSON(v) })
	sym.Assert(panicked || err != nil, "a value without JSON was encoded")
	sym.Assert(!panicked, "panic")
	sym.Cover("refused")
}
func C19_mix_ints()     { jsonMixed[Ints]() }
func C19_mix_text()     { jsonMixed[Text]() }
func C19_mix_ptrs()     { jsonMixed[Ptrs]() }
func C19_mix_nest()     { jsonMixed[Nest]() }
func C19_mix_embedded() { jsonMixed[Embedded]() }
func C19_mix_tagged()   { jsonMixed[Tagged]() }
func C19_mix_maps()     { jsonMixed[Maps]() }
func C19_mix_omit()     { jsonMixed[Omit]() }
func C19_mix_jlists()   { jsonMixed[JLists]() }
func C19_mix_keys()     { jsonMixed[Keys]() }
func C19_mix_texts()    { jsonMixed[TextLists]() }
func C19_mix_structs()  { jsonMixed[StructLists]() }
func C19_mix_rich()     { jsonMixed[RichLists]() }
func C19_mix_plists()   { jsonMixed[PtrLists]() }
func C19_mix_alists()   { jsonMixed[ArrayLists]() }
func C19_mix_arrays()   { jsonMixed[Arrays]() }
func C19_mix_times()    { jsonMixed[Times]() }
func C19_mix_tlists()   { jsonMixed[TimeLists]() }
func C19_mix_zoo()      { jsonMixed[Zoo]() }
func C19_mix_herd()     { jsonMixed[Herd]() }

// maps with more entries
func C19_map_sizes() {
	sym.Bound("maps of 3 entries with any keys of one letter, and of 4 to 40 entries one of which has any key of one letter; in every order of iteration (of 3), or in three (of more)")
	v := map[string]int8{}
	if n := []int{3, 4, 12, 13, 20, 40}[sym.Choose("n", 6)]; n == 3 {
		var ks []string
		for i := 0; i < 3; i++ {
			k := sym.Bytes(fmt.Sprintf("k%d", i), 1)
			sym.Assume(sym.And(k[0]|0x20 >= 'a', k[0]|0x20 <= 'z'))
			for _, o := range ks {
				sym.Assume(o != string(k))
			}
			ks = append(ks, string(k))
			v[string(k)] = int8(i)
		}
		jsonIsValue(v)
	} else {
		for i := 1; i < n; i++ {
			v[fmt.Sprintf("%c%d", 'A'+i*7%26, i)] = int8(i)
		}
		k := sym.Bytes("k", 1)
		sym.Assume(sym.And(k[0]|0x20 >= 'a', k[0]|0x20 <= 'z'))
		v[string(k)] = -1
		want := refJSON(nil, reflect.ValueOf(&v).Elem(), true)
		bz, err := jcdc.MarshalJSON(v)
		sym.Assert(err == nil, "encode error")
		sym.Assert(sym.EqBytes(bz, want), "the JSON isn't the documented one")
		var u map[string]int8
		sym.Assert(jcdc.UnmarshalJSON(bz, &u) == nil, "cannot decode what was encoded")
		sym.Assert(sym.Same(u, v), "decoded value differs from the encoded one")
	}
	sym.Cover("sizes")
}

// longer lists, texts and byte strings
func C19_long() {
	sym.Bound("lists of 3 to 200 elements, one of which is arbitrary; byte strings of 5 to 1000 bytes, texts of up to 5000 letters, with three arbitrary bytes (letters)")
	n := []int{3, 5, 9, 33, 200}[sym.Choose("n", 5)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	type T struct {
		A []int64
		B []string `json:"b,omitempty"`
		C []*Leaf
		D []byte
		E string
		F [][]byte
		G []Animal
		H [9]int8
	}
	var v T
	letter := func(name string) byte {
		c := sym.U8(name)
		sym.Assume(sym.And(c|0x20 >= 'a', c|0x20 <= 'z'))
		return c
	}
	f := sym.Choose("field", 8)
	for i := 0; i < n; i++ {
		x := int64(i * 1000)
		if i == at {
			x = int64(sym.I32("x"))
		}
		switch f {
		case 0:
			v.A = append(v.A, x)
		case 1:
			v.B = append(v.B, string([]byte{'a', letter("l")}))
		case 2:
			if i == at {
				v.C = append(v.C, nil)
			} else {
				v.C = append(v.C, &Leaf{A: int64(i)})
			}
		case 3:
			v.D = append(v.D, byte(x), 1, 2, 3, 4)
		case 4:
			v.E += strings.Repeat("x", 24) + string([]byte{letter("l")})
		case 5:
			v.F = append(v.F, []byte{byte(x), byte(i)})
		case 6:
			v.G = append(v.G, Dog{Age: x})
		case 7:
			v.H[i%9] = int8(x)
		}
	}
	jsonIsValue(v)
	bz, _ := jcdc.MarshalJSON(v)
	var u T
	sym.Assert(jcdc.UnmarshalJSON(bz, &u) == nil, "cannot decode what was encoded")
	want := jnorm(reflect.ValueOf(&v).Elem()).Interface()
	sym.Assert(sym.Same(want, u), "decoded value differs from the encoded one")
	sym.Cover("long")
}
