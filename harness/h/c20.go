package h

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// jrobust: decoding any text ends, within a number of steps that the length bounds, without a panic.
func jrobust[T any](cdc *amino.Codec, bz []byte) {
	var u T
	sym.Steps(500_000 + 50_000*len(bz))
	err := cdc.UnmarshalJSON(bz, &u)
	sym.Steps(0)
	sym.Observe("err", err != nil)
	if err == nil {
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
		sym.Assert(len(err.Error()) > 0, "an error without a message")
	}
}

func jany[T any](cdc *amino.Codec, max int) {
	if sym.Tier() > 0 {
		max++
	}
	jrobust[T](cdc, anyBytes(max))
}

func C20_any_int8()   { jany[int8](jcdc, 4) }
func C20_any_int64()  { jany[int64](jcdc, 5) }
func C20_any_uint()   { jany[uint](jcdc, 5) }
func C20_any_bool()   { jany[bool](jcdc, 5) }
func C20_any_string() { jany[string](jcdc, 5) }
func C20_any_bytes()  { jany[[]byte](jcdc, 5) }
func C20_any_barr()   { jany[[1]byte](jcdc, 5) }
func C20_any_barr0()  { jany[[0]byte](jcdc, 5) }
func C20_any_ints()   { jany[[]int8](jcdc, 4) }
func C20_any_arr()    { jany[[1]*bool](jcdc, 4) }
func C20_any_arr0()   { jany[[0]string](jcdc, 4) }
func C20_any_struct() { jany[Leaf](jcdc, 4) }
func C20_any_empty()  { jany[struct{}](jcdc, 4) }
func C20_any_map()    { jany[map[string]uint8](jcdc, 4) }
func C20_any_iface()  { jany[Animal](jcdc, 4) }
func C20_any_dog()    { jany[Dog](jcdc, 4) }
func C20_any_fish()   { jany[**Fish](jcdc, 4) }
func C20_any_time()   { jany[time.Time](jcdc, 4) }
func C20_any_custom() { jany[*JNum](ccdc, 4) }
func C20_any_repr()   { jany[*RStruct](cdc, 4) }

// hole: any text where a value is expected.
func hole(max int) string {
	if sym.Tier() > 0 {
		max++
	}
	sym.Bound(fmt.Sprintf("documents in which the text of one value is replaced by all texts up to %d bytes", max))
	return string(sym.Bytes("hole", sym.Choose("len", max+1)))
}

func holes[T any](cdc *amino.Codec, max int) {
	rt := reflect.TypeOf((*T)(nil)).Elem()
	fs := rfields(rt)
	f := fs[sym.Choose("field", len(fs))]
	l, r := "", ""
	ft := derefT(rt.Field(f.idx).Type)
	switch ft.Kind() {
	case reflect.Slice, reflect.Array:
		if ft.Elem().Kind() != reflect.Uint8 && sym.Choose("inside", 2) == 1 {
			l, r = "[", "]"
			if ft.Kind() == reflect.Array && ft.Len() > 1 {
				l += strings.Repeat("null,", ft.Len()-1)
			}
		}
	case reflect.Map:
		if sym.Choose("inside", 2) == 1 {
			l, r = `{"":`, "}"
		}
	case reflect.Interface:
		if sym.Choose("inside", 2) == 1 {
			l, r = `{"type":"zoo/Fish","value":`, "}"
		}
	}
	jrobust[T](cdc, []byte(`{"`+f.json+`":`+l+hole(max)+r+"}"))
}

func C20_hole_ints()    { holes[Ints](jcdc, 3) }
func C20_hole_uints()   { holes[Uints](jcdc, 3) }
func C20_hole_octets()  { holes[Octets](jcdc, 3) }
func C20_hole_text()    { holes[Text](jcdc, 3) }
func C20_hole_ptrs()    { holes[Ptrs](jcdc, 3) }
func C20_hole_maps()    { holes[Maps](jcdc, 3) }
func C20_hole_omit()    { holes[Omit](jcdc, 3) }
func C20_hole_jlists()  { holes[JLists](jcdc, 3) }
func C20_hole_zoo()     { holes[Zoo](jcdc, 3) }
func C20_hole_custom()  { holes[Customs](ccdc, 3) }
func C20_hole_reprs()   { holes[Reprs](cdc, 3) }
func C20_hole_options() { holes[Options](jcdc, 3) }

func jmut[T any](cdc *amino.Codec) {
	g := newJGen()
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gSmall)
	bz, err := cdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	jrobust[T](cdc, mutant(bz))
}

func C20_mut_kinds() {
	g := newJGen()
	g.kinds = true
	var v Cage
	g.fill(reflect.ValueOf(&v).Elem(), "v", gSmall)
	bz, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	jrobust[Cage](jcdc, mutant(bz))
}
func C20_mut_ints()  { jmut[Ints](jcdc) }
func C20_mut_text()  { jmut[Text](jcdc) }
func C20_mut_nest()  { jmut[Nest](jcdc) }
func C20_mut_times() { jmut[struct{ A *time.Time }](jcdc) }
func C20_mut_maps() {
	jmut[struct {
		A map[string]*Leaf
		B map[string]Animal
	}](jcdc)
}
func C20_mut_lists() {
	jmut[struct {
		A []int16
		B [2]*bool
		C [][]byte
	}](jcdc)
}
func C20_mut_cage() { jmut[Cage](jcdc) }
func C20_mut_dog()  { jmut[Dog](jcdc) }

// ---- numbers

// limits of the kinds: the text of the largest absolute value, positive and negative
var jlimits = map[reflect.Kind][2]string{
	reflect.Int8:   {"127", "128"},
	reflect.Int16:  {"32767", "32768"},
	reflect.Int32:  {"2147483647", "2147483648"},
	reflect.Int64:  {"9223372036854775807", "9223372036854775808"},
	reflect.Int:    {"9223372036854775807", "9223372036854775808"},
	reflect.Uint8:  {"255", ""},
	reflect.Uint16: {"65535", ""},
	reflect.Uint32: {"4294967295", ""},
	reflect.Uint64: {"18446744073709551615", ""},
	reflect.Uint:   {"18446744073709551615", ""},
}

// jnumber: the text of any integer with about as many digits as the limit, and whether it fits.
func jnumber(k reflect.Kind) (text []byte, fits bool, val uint64) {
	sym.Bound("all integers with up to one digit more than the limit of the type")
	neg := sym.Choose("neg", 2) == 1
	lim := jlimits[k][0]
	if neg {
		lim = jlimits[k][1]
	}
	n := []int{1, 2, len(lim) - 1, len(lim), len(lim) + 1}[sym.Choose("digits", 5)]
	if n <= 0 {
		n = 3
	}
	d := make([]byte, n)
	var head uint64 // without the last digit
	for i := range d {
		d[i] = sym.Range("d", 0, 9)
		if i == 0 && n > 1 {
			d[i] = sym.Range("first", 1, 9)
		}
		head, val = val, val*10+uint64(d[i])
		d[i] += '0'
	}
	l, _ := strconv.ParseUint("0"+lim, 10, 64)
	fits = sym.Or(head < l/10, sym.And(head == l/10, uint64(d[n-1]-'0') <= l%10))
	if n < 20 {
		fits = val <= l
	}
	if n > 20 { // (head has overflowed)
		fits = false
	}
	if neg {
		return append([]byte{'-'}, d...), fits, -val
	}
	return d, fits, val
}

func quoted(k reflect.Kind) bool {
	switch k {
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
		return true
	}
	return false
}

func intOf(rv reflect.Value) uint64 {
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(rv.Int())
	}
	return rv.Uint()
}

// integers: accepted if and only if the number fits, in each context.
func integers[T any]() {
	rt := reflect.TypeOf((*T)(nil)).Elem()
	text, fits, val := jnumber(rt.Kind())
	canon := sym.Choose("form", 2) == 0
	form := text
	if quoted(rt.Kind()) == canon {
		form = append(append([]byte{'"'}, text...), '"')
	}
	wrap := func(l, r string) []byte { return append(append([]byte(l), form...), r...) }
	var got []uint64
	var err error
	switch sym.Choose("context", 6) {
	case 0:
		var u T
		err = jcdc.UnmarshalJSON(form, &u)
		got = []uint64{intOf(refl(u))}
	case 1:
		var u struct{ A, B T }
		err = jcdc.UnmarshalJSON(wrap(`{"B":`, "}"), &u)
		got = []uint64{intOf(refl(u.B))}
		sym.Assert(intOf(refl(u.A)) == 0, "another field changed")
	case 2:
		var u []T
		err = jcdc.UnmarshalJSON(wrap(`[`, "]"), &u)
		if err == nil {
			got = []uint64{intOf(refl(u[0]))}
		}
	case 3:
		var u map[string]*T
		err = jcdc.UnmarshalJSON(wrap(`{"k":`, "}"), &u)
		if err == nil {
			got = []uint64{intOf(refl(*u["k"]))}
		}
	case 4:
		var u [1]T
		if rt.Kind() == reflect.Uint8 {
			return
		}
		err = jcdc.UnmarshalJSON(wrap(`[`, "]"), &u)
		got = []uint64{intOf(refl(u[0]))}
	case 5:
		var u struct {
			A **T `json:"a,omitempty"`
		}
		err = jcdc.UnmarshalJSON(wrap(`{"a":`, "}"), &u)
		if err == nil {
			got = []uint64{intOf(refl(**u.A))}
		}
	}
	if err == nil {
		sym.Assert(fits, fmt.Sprintf("%v: accepted a number that doesn't fit", rt))
		sym.Assert(sym.Eq64(got[0], val), fmt.Sprintf("%v: decoded another number", rt))
		sym.Cover("accepted")
		return
	}
	sym.Cover("rejected")
	if canon && text[0] != '-' || canon && jlimits[rt.Kind()][1] != "" {
		sym.Assert(sym.Not(fits), fmt.Sprintf("%v: refused a number that fits", rt))
	}
}

func C20_int8()   { integers[int8]() }
func C20_int16()  { integers[int16]() }
func C20_int32()  { integers[int32]() }
func C20_int64()  { integers[int64]() }
func C20_int()    { integers[int]() }
func C20_uint16() { integers[uint16]() }
func C20_uint32() { integers[uint32]() }
func C20_uint64() { integers[uint64]() }
func C20_uint()   { integers[uint]() }
func C20_myint()  { integers[MyInt]() }

// uint8 can't be in lists
func C20_uint8() {
	text, fits, val := jnumber(reflect.Uint8)
	var u struct {
		A uint8
		B *uint8
	}
	name := []string{"A", "B"}[sym.Choose("field", 2)]
	err := jcdc.UnmarshalJSON(append(append([]byte(`{"`+name+`":`), text...), '}'), &u)
	if err == nil {
		if name == "B" {
			u.A = *u.B
		}
		sym.Assert(fits, "uint8: accepted a number that doesn't fit")
		sym.Assert(uint64(u.A) == val, "uint8: decoded another number")
		sym.Cover("accepted")
		return
	}
	sym.Assert(sym.Or(sym.Not(fits), text[0] == '-'), "uint8: refused a number that fits")
	sym.Cover("rejected")
}

// registered integers, and integers inside of registered values
func C20_registered() {
	text, fits, val := jnumber(reflect.Int64)
	form := string(append(append([]byte{'"'}, text...), '"'))
	var err error
	var got int64
	switch sym.Choose("context", 5) {
	case 0:
		var u Fish
		err = jcdc.UnmarshalJSON([]byte(`{"type":"`+nameFish+`","value":`+form+`}`), &u)
		got = int64(u)
	case 1:
		var u Animal
		err = jcdc.UnmarshalJSON([]byte(`{"type":"`+nameFish+`","value":`+form+`}`), &u)
		if err == nil {
			got = int64(u.(Fish))
		}
	case 2:
		var u Cage
		err = jcdc.UnmarshalJSON([]byte(`{"In":{"value":`+form+`,"type":"`+nameFish+`"}}`), &u)
		if err == nil {
			got = int64(u.In.(Fish))
		}
	case 3:
		var u []Animal
		err = jcdc.UnmarshalJSON([]byte(`[{"type":"`+nameDog+`","value":{"Age":`+form+`}}]`), &u)
		if err == nil {
			got = u[0].(Dog).Age
		}
	case 4:
		var u RInt
		err = cdc.UnmarshalJSON([]byte(form), &u)
		got = -int64(u)
	}
	if err == nil {
		sym.Assert(fits, "accepted a number that doesn't fit")
		sym.Assert(uint64(got) == val, "decoded another number")
		sym.Cover("accepted")
		return
	}
	sym.Assert(sym.Not(fits), "refused a number that fits")
	sym.Cover("rejected")
}

// fractions and exponents
func C20_fraction() {
	sym.Bound("d.d, dEd and de-d for all digits d, for all integer types")
	a, b := sym.U8("a"), sym.U8("b")
	sym.Assume(sym.And(a >= 1, a <= 9, b <= 9))
	var text []byte
	var whole bool
	val := uint64(a)
	switch sym.Choose("form", 3) {
	case 0:
		text, whole = []byte{'0' + a, '.', '0' + b}, b == 0
	case 1:
		text, whole = []byte{'0' + a, 'E', '0' + b}, true
		for i := uint8(1); i <= 9; i++ {
			val = sym.IteU64(b >= i, val*10, val)
		}
	case 2:
		text, whole = []byte{'0' + a, 'e', '-', '0' + b}, b == 0
	}
	if sym.Choose("quoted", 2) == 1 {
		text = append(append([]byte{'"'}, text...), '"')
	}
	var err error
	var got uint64
	switch sym.Choose("type", 8) {
	case 0:
		var u int8
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	case 1:
		var u int16
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	case 2:
		var u int32
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	case 3:
		var u int64
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	case 4:
		var u uint8
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	case 5:
		var u uint16
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	case 6:
		var u uint32
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	case 7:
		var u uint
		err = jcdc.UnmarshalJSON(text, &u)
		got = uint64(u)
	}
	sym.Assert(err != nil || sym.And(whole, got == val), "a number that isn't an integer, or doesn't fit, was accepted")
	sym.Cover("checked")
}

// ---- types

// registered names: Animals, then others
var jtypes = []struct {
	name, val string
	animal    bool
}{
	{nameDog, `{"Name":"a"}`, true}, {nameCat, `{"Lives":7}`, true}, {nameFish, `"5"`, true}, {nameTag, `"t"`, true}, {nameBlob, `"AQIDBA=="`, true},
	{nameData, `"AQ=="`, true}, {nameNums, `[1]`, true}, {nameWords, `["a"]`, true}, {nameJTime, `{"T":"2020-01-02T03:04:05Z"}`, true}, {nameJMap, `{"a":1}`, true},
	{nameSquare, `{}`, false},
}

func jname(n string) string {
	return strings.ReplaceAll(strings.ReplaceAll(n, `\`, `\\`), `"`, `\"`)
}

// a name that isn't registered, or not for an implementer, is refused
func C20_names() {
	sym.Bound("registered names with one byte replaced by any printable character, removed, or appended; all names up to 2 printable characters")
	k := sym.Choose("name", len(jtypes)+1)
	var name []byte
	val := `{}`
	same := true
	animal := true
	plain := func(label string) byte {
		c := sym.U8(label)
		sym.Assume(sym.And(c >= 0x20, c < 0x7f, c != '"', c != '\\'))
		return c
	}
	if k == len(jtypes) {
		for n := sym.Choose("len", 3); n > 0; n-- {
			name = append(name, plain("c"))
		}
		same = sym.EqBytes(name, []byte(nameJMap))
	} else {
		t := jtypes[k]
		val, animal = t.val, t.animal
		name = []byte(jname(t.name))
		n := len(name)
		switch sym.Choose("change", 4) {
		case 1:
			p := sym.Choose("at", n)
			sym.Assume(sym.And(name[p] != '\\', name[p] != '"', name[p] < 0x80))
			c := plain("c")
			same = name[p] == c
			name = append(append(append([]byte(nil), name[:p]...), c), name[p+1:]...)
		case 2:
			name, same = name[:n-1], false
		case 3:
			name, same = append(name, plain("c")), false
		}
		if !same || sym.Symbolic() {
			for _, o := range jtypes { // it may be the name of another type
				if o.name != t.name {
					sym.Assume(!sym.EqBytes(name, []byte(jname(o.name))))
				}
			}
		}
	}
	var err error
	doc := func(l, r string) []byte {
		return append(append([]byte(l+`{"type":"`), name...), `","value":`+val+"}"+r...)
	}
	switch sym.Choose("context", 5) {
	case 0:
		var u Animal
		err = jcdc.UnmarshalJSON(doc("", ""), &u)
	case 1:
		var u Cage
		err = jcdc.UnmarshalJSON(doc(`{"In":`, "}"), &u)
	case 2:
		var u []Animal
		err = jcdc.UnmarshalJSON(doc(`[null,`, "]"), &u)
	case 3:
		var u map[string]Animal
		err = jcdc.UnmarshalJSON(doc(`{"k":`, "}"), &u)
	case 4:
		// a registered type itself accepts its own name only
		var u JMap
		same = sym.And(same, sym.EqBytes(name, []byte(nameJMap)))
		err = jcdc.UnmarshalJSON(doc("", ""), &u)
	}
	if err == nil {
		sym.Assert(sym.And(same, animal), "an unknown type name was accepted")
		sym.Cover("accepted")
		return
	}
	if animal && k < len(jtypes) {
		sym.Assert(sym.Not(same), "a registered type name was refused")
	}
	sym.Cover("rejected")
}

// a missing type name or value is refused
func C20_untyped() {
	sym.Bound("each of 18 wrappers without a type name or a value, in 4 contexts")
	docs := []string{`{}`, `{"value":{}}`, `{"type":"","value":{}}`, `{"type":null,"value":{}}`, `{"type":5,"value":{}}`, `{"type":["zoo/Dog"],"value":{}}`,
		`{"type":{"a":"zoo/Dog"},"value":{}}`, `[]`, `5`, `"zoo/Dog"`, `true`, `{"Name":"a"}`, `{"typ":"zoo/Dog","value":{}}`, `{"type ":"zoo/Dog","value":{}}`,
		// nor a value
		`{"type":"zoo/Dog"}`, `{"type":"zoo/Fish"}`, `{"type":"zoo/Dog","val":{}}`, `{"type":"zoo/Tag","value ":"x"}`}
	d := docs[sym.Choose("doc", len(docs))]
	var err error
	switch sym.Choose("context", 4) {
	case 0:
		var u Animal
		err = jcdc.UnmarshalJSON([]byte(d), &u)
	case 1:
		var u Cage
		err = jcdc.UnmarshalJSON([]byte(`{"In":`+d+`}`), &u)
	case 2:
		var u []Animal
		err = jcdc.UnmarshalJSON([]byte(`[`+d+`]`), &u)
	case 3:
		var u Dog
		err = jcdc.UnmarshalJSON([]byte(d), &u)
	}
	sym.Assert(err != nil, "a missing type name or value was accepted")
	sym.Cover("rejected")
}

// ---- arrays

// lists of another length than the array's are refused
func C20_arrays() {
	sym.Bound("arrays of 0 to 3 elements, given lists of 0 to 4; byte arrays of 0 to 4 bytes given 0 to 6 any bytes; in fields, lists, maps and pointers")
	if sym.Choose("bytes", 2) == 0 {
		n := sym.Choose("n", 5)
		e := []string{}
		for i := 0; i < n; i++ {
			e = append(e, `"x"`)
		}
		d := "[" + strings.Join(e, ",") + "]"
		check := func(k int, err error) {
			sym.Assert((err == nil) == (k == n), "a list of another length than the array's")
		}
		switch sym.Choose("type", 6) {
		case 0:
			var u [0]string
			check(0, jcdc.UnmarshalJSON([]byte(d), &u))
		case 1:
			var u [1]*string
			check(1, jcdc.UnmarshalJSON([]byte(d), &u))
		case 2:
			var u struct{ A [2]MyStr }
			check(2, jcdc.UnmarshalJSON([]byte(`{"A":`+d+`}`), &u))
		case 3:
			var u [][3]string
			check(3, jcdc.UnmarshalJSON([]byte(`[`+d+`]`), &u))
		case 4:
			var u map[string][2]string
			check(2, jcdc.UnmarshalJSON([]byte(`{"A":`+d+`}`), &u))
		case 5:
			var u struct {
				A *[3]string `json:"a,omitempty"`
			}
			check(3, jcdc.UnmarshalJSON([]byte(`{"a":`+d+`}`), &u))
		}
		sym.Cover("checked")
		return
	}
	b := sym.Bytes("b", sym.Choose("n", 7))
	n := len(b)
	d := string(refJSON(nil, refl(b), false))
	check := func(a []byte, err error) {
		sym.Assert((err == nil) == (len(a) == n), "bytes of another length than the array's")
		if err == nil {
			sym.Assert(sym.EqBytes(a, b), "other bytes")
		}
	}
	switch sym.Choose("type", 5) {
	case 0:
		var u [0]byte
		check(u[:], jcdc.UnmarshalJSON([]byte(d), &u))
	case 1:
		var u [3]byte
		check(u[:], jcdc.UnmarshalJSON([]byte(d), &u))
	case 2:
		var u struct{ A [4]byte }
		err := jcdc.UnmarshalJSON([]byte(`{"A":`+d+`}`), &u)
		check(u.A[:], err)
	case 3:
		var u Animal
		err := jcdc.UnmarshalJSON([]byte(`{"type":"`+nameBlob+`","value":`+d+`}`), &u)
		var a Blob
		if err == nil {
			a = u.(Blob)
		}
		check(a[:], err)
	case 4:
		var u map[string]*[1]byte
		err := jcdc.UnmarshalJSON([]byte(`{"":`+d+`}`), &u)
		a := [1]byte{}
		if err == nil {
			a = *u[""]
		}
		check(a[:], err)
	}
	sym.Cover("checked")
}

// jint reads text as a JSON integer with white space around it; null is no number but means the default.
func jint(t []byte) (v int64, ok bool) {
	ws := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
	for len(t) > 0 && ws(t[0]) {
		t = t[1:]
	}
	for len(t) > 0 && ws(t[len(t)-1]) {
		t = t[:len(t)-1]
	}
	if string(t) == "null" {
		return 0, true
	}
	neg := len(t) > 0 && t[0] == '-'
	if neg {
		t = t[1:]
	}
	if len(t) == 0 || len(t) > 1 && t[0] == '0' {
		return 0, false
	}
	for _, c := range t {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int64(c-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

func jsyntax[T int64 | uint64 | int | uint | int32 | uint16 | uint8](quoted bool) {
	n := 4 + sym.Tier()
	sym.Bound(fmt.Sprintf("any text of up to %d bytes where there should be an integer, within quotes where they are needed", n))
	t := sym.Bytes("text", sym.Choose("len", n+1))
	bz := t
	if quoted {
		bz = append(append([]byte{'"'}, t...), '"')
	}
	var u T
	err := cdc.UnmarshalJSON(bz, &u)
	if err != nil {
		sym.Cover("rejected")
		return
	}
	want, ok := jint(t)
	sym.Assert(ok, fmt.Sprintf("%T: accepted what is not an integer", u))
	sym.Assert(int64(u) == want, fmt.Sprintf("%T: decoded another integer", u))
	sym.Cover("accepted")
}

func C20_syntax_int64()  { jsyntax[int64](true) }
func C20_syntax_uint64() { jsyntax[uint64](true) }
func C20_syntax_int()    { jsyntax[int](true) }
func C20_syntax_uint()   { jsyntax[uint](true) }
func C20_syntax_int32()  { jsyntax[int32](false) }
func C20_syntax_uint16() { jsyntax[uint16](false) }
func C20_syntax_uint8()  { jsyntax[uint8](false) }
