package h

import (
	"errors"
	"fmt"
	"strconv"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// ---- types with a representation

// RStruct is represented by a struct.
type RStruct struct {
	a int64
	b string
}

func (r RStruct) MarshalAmino() (Leaf, error) { return Leaf{-r.a, r.b}, nil }
func (r *RStruct) UnmarshalAmino(l Leaf) error {
	r.a, r.b = -l.A, l.B
	return nil
}
func (RStruct) Sound() int { return 20 }

// RInt by another integer.
type RInt int64

func (r RInt) MarshalAmino() (int64, error) { return -int64(r), nil }
func (r *RInt) UnmarshalAmino(i int64) error {
	*r = RInt(-i)
	return nil
}
func (RInt) Sound() int { return 21 }

// RStr by a string.
type RStr string

func (r RStr) MarshalAmino() (string, error) {
	b := []byte(r)
	for i := range b {
		b[i] ^= 1
	}
	return string(b), nil
}
func (r *RStr) UnmarshalAmino(s string) error {
	b := []byte(s)
	for i := range b {
		b[i] ^= 1
	}
	*r = RStr(b)
	return nil
}
func (RStr) Sound() int { return 22 }

// RList by a list.
type RList []int16

func (r RList) MarshalAmino() ([]int16, error) {
	var l []int16
	for _, v := range r {
		l = append(l, -v)
	}
	return l, nil
}
func (r *RList) UnmarshalAmino(l []int16) error {
	*r = nil
	for _, v := range l {
		*r = append(*r, -v)
	}
	return nil
}
func (RList) Sound() int { return 23 }

// RText is a struct represented by a string.
type RText struct{ n uint8 }

func (r RText) MarshalAmino() (string, error) {
	if r.n == 0 {
		return "", nil
	}
	return string([]byte{r.n & 0x7f, 1}), nil
}
func (r *RText) UnmarshalAmino(s string) error {
	r.n = 0
	if len(s) > 0 {
		r.n = s[0]
	}
	return nil
}

// RErr refuses.
type RErr struct{ A int64 }

var errMarshalAmino = errors.New("MarshalAmino")
var errUnmarshalAmino = errors.New("UnmarshalAmino")

func (r RErr) MarshalAmino() (Leaf, error) {
	if r.A == 7 {
		return Leaf{}, errMarshalAmino
	}
	return Leaf{A: r.A}, nil
}
func (r *RErr) UnmarshalAmino(l Leaf) error {
	if l.A == 9 {
		return errUnmarshalAmino
	}
	r.A = l.A
	return nil
}
func (RErr) Sound() int { return 24 }

// RSeen and RSeenInt keep what UnmarshalAmino was given, and refuse some of it.
type RSeen struct {
	called int
	got    string
}

func (r RSeen) MarshalAmino() (string, error) { return r.got, nil }
func (r *RSeen) UnmarshalAmino(s string) error {
	r.called++
	r.got = s
	if s == "" || s == "no" {
		return errUnmarshalAmino
	}
	return nil
}

type RSeenInt int64 // the number of calls above the 32 bits given

func (r RSeenInt) MarshalAmino() (int32, error) { return int32(r), nil }
func (r *RSeenInt) UnmarshalAmino(i int32) error {
	*r = (*r>>32+1)<<32 | RSeenInt(uint32(i))
	if i == 0 || i == 3 {
		return errUnmarshalAmino
	}
	return nil
}

// Reprs and Plain: the same with and without.
type Reprs struct {
	A RStruct
	B RInt
	C RStr
	D RList
	E *RStruct
	F []RStruct
	G [2]RInt
	H []RStr
	I *RInt
	J []*RStruct
	K []RInt
	L int8
	M struct{ X RStruct }
	N RInt   `binary:"fixed64"`
	O []RInt `binary:"fixed64"`
	P RInt   `amino:"write_empty"`
}

type Plain struct {
	A Leaf
	B int64
	C string
	D []int16
	E *Leaf
	F []Leaf
	G [2]int64
	H []string
	I *int64
	J []*Leaf
	K []int64
	L int8
	M struct{ X Leaf }
	N int64   `binary:"fixed64"`
	O []int64 `binary:"fixed64"`
	P int64   `amino:"write_empty"`
}

func rleaf(n string) (RStruct, Leaf) {
	s := sym.String(n+".b", sym.Choose(n+".len", 3))
	a := sym.I64(n + ".a")
	return RStruct{a, s}, Leaf{-a, s}
}

func flip(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] ^= 1
	}
	return string(b)
}

// genRepr: if json, the strings are ASCII and shorter.
func genRepr(json bool) (r Reprs, p Plain) {
	str := func(n int) string {
		s := sym.String("v", n)
		if json {
			for i := 0; i < n; i++ {
				sym.Assume(s[i] < 0x80)
			}
		}
		return s
	}
	num := func(n string) int64 { // (other harnesses have all integers in JSON)
		if json {
			return int64(sym.I8(n))
		}
		return sym.I64(n)
	}
	rleaf := func(n string) (RStruct, Leaf) {
		s := str(sym.Choose(n+".len", 3))
		a := num(n + ".a")
		return RStruct{a, s}, Leaf{-a, s}
	}
	lens := []int{0, 1, 2, 127, 128}
	if json {
		lens = lens[:3]
	}

	sym.Bound("one field at a time over all its values; lists up to 2 elements")
	r.L, p.L = 5, 5
	switch sym.Choose("focus", 16) {
	case 0:
		r.A, p.A = rleaf("v")
	case 1:
		i := num("v")
		r.B, p.B = RInt(i), -i
	case 2:
		s := str(lens[sym.Choose("len", len(lens))])
		r.C, p.C = RStr(s), flip(s)
	case 3:
		for i := sym.Choose("len", 3); i > 0; i-- {
			v := sym.I16("v")
			r.D, p.D = append(r.D, v), append(p.D, -v)
		}
	case 4:
		if sym.Choose("nil", 2) == 0 {
			x, y := rleaf("v")
			r.E, p.E = &x, &y
		}
	case 5:
		for i := sym.Choose("len", 3); i > 0; i-- {
			x, y := RStruct{}, Leaf{}
			if i == 1 {
				x, y = rleaf("v")
			}
			r.F, p.F = append(r.F, x), append(p.F, y)
		}
	case 6:
		i := num("v")
		r.G, p.G = [2]RInt{0, RInt(i)}, [2]int64{0, -i}
	case 7:
		for i := sym.Choose("len", 3); i > 0; i-- {
			s := str(sym.Choose("slen", 3))
			r.H, p.H = append(r.H, RStr(s)), append(p.H, flip(s))
		}
	case 8:
		i := num("v")
		j := -i
		x := RInt(i)
		r.I, p.I = &x, &j
	case 9:
		x, y := rleaf("v")
		sym.Assume(json || x.a != 0) // a pointer to an empty struct is written like nil
		r.J, p.J = []*RStruct{&x, {1, ""}}, []*Leaf{&y, {-1, ""}}
	case 10:
		i := num("v")
		r.K, p.K = []RInt{1, RInt(i)}, []int64{-1, -i}
	case 11:
		r.L = sym.I8("v")
		p.L = r.L
	case 12:
		r.M.X, p.M.X = rleaf("v")
	case 13:
		i := num("v")
		r.N, p.N = RInt(i), -i
	case 14:
		i := num("v")
		r.O, p.O = []RInt{1, RInt(i)}, []int64{-1, -i}
	case 15:
		i := num("v")
		r.P, p.P = RInt(i), -i
	}
	return
}

// the encoding is that of the representation, and decodes to the value
func C17_binary() {
	r, p := genRepr(false)
	bz, err := cdc.MarshalBinaryBare(r)
	sym.Assert(err == nil, "encode error")
	want, err := cdc.MarshalBinaryBare(p)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(bz, want), "the encoding isn't that of the representation")
	var u Reprs
	err = cdc.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, "cannot decode what was encoded")
	if r.I != nil && *r.I == 0 { // left out
		r.I = nil
	}
	sym.Assert(sym.Same(u, r), "decoded value differs from the encoded one")
	sym.Cover("round trip")
}

func reprTop[T, R any](v T, r R) {
	bz, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	want, err := cdc.MarshalBinaryBare(r)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(bz, want), fmt.Sprintf("%T: the encoding isn't that of the representation", v))
	var u T
	err = cdc.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
	sym.Assert(sym.Same(u, v), fmt.Sprintf("%T: decoded value differs from the encoded one", v))
	sym.Cover("round trip")
}

func C17_top() {
	sym.Bound("all integers, strings up to 2 bytes, lists up to 2 elements")
	switch sym.Choose("type", 6) {
	case 0:
		r, p := rleaf("v")
		reprTop(r, p)
	case 1:
		i := sym.I64("v")
		reprTop(RInt(i), -i)
	case 2:
		s := sym.String("v", sym.Choose("len", 3))
		reprTop(RStr(s), flip(s))
	case 3:
		var l RList
		var p []int16
		for i := sym.Choose("len", 3); i > 0; i-- {
			v := sym.I16("v")
			l, p = append(l, v), append(p, -v)
		}
		reprTop(l, p)
	case 4:
		r, p := rleaf("v")
		reprTop([]RStruct{{1, ""}, r}, []Leaf{{-1, ""}, p})
	case 5:
		s := sym.String("v", sym.Choose("len", 3))
		reprTop([]RStr{RStr(s), "a"}, []string{flip(s), flip("a")})
	}
}

var rcdc = func() *amino.Codec {
	c := amino.NewCodec()
	c.RegisterInterface((*Animal)(nil), nil)
	c.RegisterConcrete(RStruct{}, "repr/Struct", nil)
	c.RegisterConcrete(RInt(0), "repr/Int", nil)
	c.RegisterConcrete(RStr(""), "repr/Str", nil)
	c.RegisterConcrete(RList{}, "repr/List", nil)
	c.RegisterConcrete(&RErr{}, "repr/Err", nil)
	c.RegisterConcrete(Dog{}, nameDog, nil)
	return c
}()

// the representation stands in for the implementer of an interface
func C17_iface() {
	sym.Bound("all integers, strings up to 2 bytes, lists up to 2 elements")
	var a Animal
	var name string
	var bz []byte
	switch sym.Choose("type", 4) {
	case 0:
		r, p := rleaf("v")
		a, name, bz = r, "repr/Struct", noreg.payload(refl(p), fopt{}, 1)
	case 1:
		i := sym.I64("v")
		a, name, bz = RInt(i), "repr/Int", putUvarint(nil, uint64(-i))
	case 2:
		s := sym.String("v", sym.Choose("len", 3))
		a, name, bz = RStr(s), "repr/Str", append([]byte{byte(len(s))}, flip(s)...)
	case 3:
		var l RList
		for i := sym.Choose("len", 3); i > 0; i-- {
			v := sym.I16("v")
			l = append(l, v)
			bz = putUvarint(bz, zigzag(int64(-v)))
		}
		a, name = l, "repr/List"
	}
	v := Cage{In: a}
	_, pb := disfix(name)
	p := append(pb, bz...)
	got, err := rcdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(got, len1(2, p)), fmt.Sprintf("%T: the encoding in an interface isn't that of the representation", a))
	var u Cage
	err = rcdc.UnmarshalBinaryBare(got, &u)
	sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode what was encoded", a))
	sym.Assert(sym.Same(u, v), fmt.Sprintf("%T: decoded value differs from the encoded one", a))
	// and at the top level, with the prefix bytes
	got, err = rcdc.MarshalBinaryBare(a)
	sym.Assert(err == nil && len(got) >= 4 && sym.EqBytes(got[:4], pb), "the prefix bytes are missing")
	sym.Cover("round trip")
}

// errors come back to the caller
func C17_errors() {
	sym.Bound("all integers")
	a := sym.I64("a")
	switch sym.Choose("where", 6) {
	case 0:
		_, err := cdc.MarshalBinaryBare(RErr{a})
		sym.Assert((err != nil) == (a == 7), "the error of MarshalAmino")
	case 1:
		_, err := cdc.MarshalBinaryBare(struct{ X []*RErr }{[]*RErr{{1}, {a}}})
		sym.Assert((err != nil) == (a == 7), "the error of MarshalAmino in a list")
	case 2:
		_, err := rcdc.MarshalBinaryBare(Cage{In: &RErr{a}})
		sym.Assert((err != nil) == (a == 7), "the error of MarshalAmino in an interface")
	case 3:
		var u RErr
		err := cdc.UnmarshalBinaryBare(putUvarint([]byte{8}, uint64(a)), &u)
		sym.Assert((err != nil) == (a == 9), "the error of UnmarshalAmino")
	case 4:
		var u struct{ X []RErr }
		p := putUvarint([]byte{8}, uint64(a))
		err := cdc.UnmarshalBinaryBare(len1(1, p), &u)
		sym.Assert((err != nil) == (a == 9), "the error of UnmarshalAmino in a list")
	case 5:
		var u Cage
		_, pb := disfix("repr/Err")
		err := rcdc.UnmarshalBinaryBare(len1(2, putUvarint(append(pb, 8), uint64(a))), &u)
		sym.Assert((err != nil) == (a == 9), "the error of UnmarshalAmino in an interface")
	}
	sym.Cover("checked")
}

// UnmarshalAmino is called once with whatever is there, a default value included
func C17_handed() {
	sym.Bound("all strings of up to 3 bytes and all 32-bit integers as representations, in 7 binary and 5 JSON contexts")
	s := sym.String("s", 3)
	i := sym.I32("i")
	var bz []byte
	var err error
	seen := func(r *RSeen) {
		sym.Assert((err != nil) == (s == "" || s == "no"), "the error of UnmarshalAmino")
		if err == nil {
			sym.Assert(r != nil && r.called == 1 && r.got == s, "UnmarshalAmino is given something else")
		}
	}
	seenInt := func(r *RSeenInt) {
		sym.Assert((err != nil) == (i == 0 || i == 3), "the error of UnmarshalAmino")
		if err == nil {
			sym.Assert(r != nil && *r == 1<<32|RSeenInt(uint32(i)), "UnmarshalAmino is given something else")
		}
	}
	str := append(append([]byte{'"'}, sym.Bytes("js", sym.Choose("js.len", 3))...), '"')
	if w := sym.Choose("where", 12); w < 7 {
		bz = len1(1, []byte(s))
		if w >= 4 {
			bz = putUvarint([]byte{1 << 3}, uint64(int64(i)))
		}
		switch w {
		case 0:
			var u struct{ A RSeen }
			err = cdc.UnmarshalBinaryBare(bz, &u)
			seen(&u.A)
		case 1:
			var u struct{ A *RSeen }
			err = cdc.UnmarshalBinaryBare(bz, &u)
			seen(u.A)
		case 2:
			sym.Assume(s != "") // elements without contents are defaults
			var u struct{ A []RSeen }
			err = cdc.UnmarshalBinaryBare(bz, &u)
			if err != nil {
				u.A = make([]RSeen, 1)
			}
			sym.Assert(len(u.A) == 1, "number of elements")
			seen(&u.A[0])
		case 3:
			var u RSeen
			err = cdc.UnmarshalBinaryBare(append([]byte{byte(len(s))}, s...), &u)
			seen(&u)
		case 4:
			var u struct{ A RSeenInt }
			err = cdc.UnmarshalBinaryBare(bz, &u)
			seenInt(&u.A)
		case 5:
			var u struct{ A **RSeenInt }
			err = cdc.UnmarshalBinaryBare(bz, &u)
			if err != nil {
				seenInt(nil)
			} else {
				seenInt(*u.A)
			}
		case 6:
			var u RSeenInt
			err = cdc.UnmarshalBinaryBare(bz, &u)
			seenInt(&u)
		}
		sym.Cover("binary")
	} else {
		for _, c := range str[1 : len(str)-1] {
			sym.Assume(c >= 'a' && c <= 'z')
		}
		s = string(str[1 : len(str)-1])
		num := []byte(strconv.FormatInt(int64(i), 10))
		switch w {
		case 7:
			var u RSeen
			err = cdc.UnmarshalJSON(str, &u)
			seen(&u)
		case 8:
			var u struct{ A []*RSeen }
			err = cdc.UnmarshalJSON(append(append([]byte(`{"A":[`), str...), "]}"...), &u)
			if err != nil {
				seen(nil)
			} else {
				seen(u.A[0])
			}
		case 9:
			var u map[string]RSeen
			err = cdc.UnmarshalJSON(append(append([]byte(`{"k":`), str...), "}"...), &u)
			r := u["k"]
			seen(&r)
		case 10:
			var u RSeenInt
			err = cdc.UnmarshalJSON(num, &u)
			seenInt(&u)
		case 11:
			var u struct{ A *RSeenInt }
			err = cdc.UnmarshalJSON(append(append([]byte(`{"A":`), num...), "}"...), &u)
			seenInt(u.A)
		}
		sym.Cover("JSON")
	}
}

// the same in JSON
func C17_json() {
	r, p := genRepr(true)
	bz, err := cdc.MarshalJSON(r)
	sym.Assert(err == nil, "JSON: encode error")
	want, err := cdc.MarshalJSON(p)
	sym.Assert(err == nil, "JSON: encode error")
	sym.Assert(sym.EqBytes(bz, want), "the JSON isn't that of the representation")
	var u Reprs
	err = cdc.UnmarshalJSON(bz, &u)
	sym.Assert(err == nil, "cannot decode the JSON that was encoded")
	sym.Assert(sym.Same(u, r), "the value decoded from JSON differs from the encoded one")
	sym.Cover("round trip")
}

func reprTopJSON[T, R any](v T, r R) {
	bz, err := cdc.MarshalJSON(v)
	sym.Assert(err == nil, "JSON: encode error")
	want, err := cdc.MarshalJSON(r)
	sym.Assert(err == nil, "JSON: encode error")
	sym.Assert(sym.EqBytes(bz, want), fmt.Sprintf("%T: the JSON isn't that of the representation", v))
	var u T
	err = cdc.UnmarshalJSON(bz, &u)
	sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode the JSON that was encoded", v))
	sym.Assert(sym.Same(u, v), fmt.Sprintf("%T: the value decoded from JSON differs from the encoded one", v))
	sym.Cover("round trip")
}

func C17_json_top() {
	sym.Bound("all integers, ASCII strings up to 2 bytes, lists and maps up to 2 elements")
	str := func() string { return ascii("v", sym.Choose("len", 3)) }
	switch sym.Choose("type", 9) {
	case 0:
		a, s := sym.I64("a"), str()
		reprTopJSON(RStruct{a, s}, Leaf{-a, s})
	case 1:
		i := sym.I64("v")
		reprTopJSON(RInt(i), -i)
	case 2:
		s := str()
		reprTopJSON(RStr(s), flip(s))
	case 3:
		var l RList
		var p []int16
		for i := sym.Choose("len", 3); i > 0; i-- {
			v := sym.I16("v")
			l, p = append(l, v), append(p, -v)
		}
		reprTopJSON(l, p)
	case 4:
		a, s := sym.I64("a"), str()
		reprTopJSON([]RStruct{{1, ""}, {a, s}}, []Leaf{{-1, ""}, {-a, s}})
	case 5:
		s := str()
		reprTopJSON([]RStr{RStr(s), "a"}, []string{flip(s), flip("a")})
	case 6:
		s := str()
		reprTopJSON(map[string]RStr{"k": RStr(s), "": "a"}, map[string]string{"k": flip(s), "": flip("a")})
	case 7:
		i := sym.I64("v")
		x, y := RInt(i), -i
		reprTopJSON(map[string]*RInt{"k": &x, "z": nil}, map[string]*int64{"k": &y, "z": nil})
	case 8:
		n := sym.U8("v")
		sym.Assume(n < 0x80)
		s := ""
		if n != 0 {
			s = string([]byte{n, 1})
		}
		reprTopJSON(RText{n}, s)
	}
}

func C17_json_iface() {
	sym.Bound("all integers, ASCII strings up to 2 bytes, lists up to 2 elements")
	var a Animal
	var name, val string
	var p any
	switch sym.Choose("type", 4) {
	case 0:
		i, s := sym.I64("a"), ascii("v", sym.Choose("len", 3))
		a, name, p = RStruct{i, s}, "repr/Struct", Leaf{-i, s}
	case 1:
		i := sym.I64("v")
		a, name, p = RInt(i), "repr/Int", -i
	case 2:
		s := ascii("v", sym.Choose("len", 3))
		a, name, p = RStr(s), "repr/Str", flip(s)
	case 3:
		l, q := RList{}, []int16{}
		for i := sym.Choose("len", 3); i > 0; i-- {
			v := sym.I16("v")
			l, q = append(l, v), append(q, -v)
		}
		if len(l) == 0 {
			a, name, p = RList(nil), "repr/List", []int16(nil)
			break
		}
		a, name, p = l, "repr/List", q
	}
	val = `{"type":"` + name + `","value":` + string(refJSON(nil, refl(p), false)) + "}"
	switch sym.Choose("where", 3) {
	case 0:
		got, err := rcdc.MarshalJSON(Cage{In: a})
		sym.Assert(err == nil, "JSON: encode error")
		sym.Assert(sym.EqBytes(got, []byte(`{"Pre":0,"In":`+val+`,"Out":""}`)), fmt.Sprintf("%T: the JSON in an interface isn't that of the representation", a))
		var u Cage
		err = rcdc.UnmarshalJSON(got, &u)
		sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode the JSON that was encoded", a))
		sym.Assert(sym.Same(u.In, a), fmt.Sprintf("%T: the value decoded from JSON differs from the encoded one", a))
	case 1:
		got, err := rcdc.MarshalJSON(a)
		sym.Assert(err == nil && sym.EqBytes(got, []byte(val)), fmt.Sprintf("%T: the JSON at the top level", a))
		var u Animal
		err = rcdc.UnmarshalJSON(got, &u)
		sym.Assert(err == nil && sym.Same(u, a), fmt.Sprintf("%T: the value decoded from JSON differs from the encoded one", a))
	case 2:
		got, err := rcdc.MarshalJSON(map[string][]Animal{"a": {nil, a}})
		sym.Assert(err == nil && sym.EqBytes(got, []byte(`{"a":[null,`+val+`]}`)), fmt.Sprintf("%T: the JSON in a map", a))
		var u map[string][]Animal
		err = rcdc.UnmarshalJSON(got, &u)
		sym.Assert(err == nil && sym.Same(u, map[string][]Animal{"a": {nil, a}}), fmt.Sprintf("%T: the value decoded from JSON differs from the encoded one", a))
	}
	sym.Cover("round trip")
}

// errors come back to the caller
func C17_json_errors() {
	sym.Bound("all integers")
	a := sym.I64("a")
	s := []byte(`{"A":"` + strconv.FormatInt(a, 10) + `"}`)
	in := func(l, r string) []byte { return append(append([]byte(l), s...), r...) }
	switch sym.Choose("where", 8) {
	case 0:
		_, err := cdc.MarshalJSON(RErr{a})
		sym.Assert((err != nil) == (a == 7), "JSON: the error of MarshalAmino")
	case 1:
		_, err := cdc.MarshalJSON(struct{ X []*RErr }{[]*RErr{{1}, {a}, {2}}})
		sym.Assert((err != nil) == (a == 7), "JSON: the error of MarshalAmino in a list")
	case 2:
		_, err := rcdc.MarshalJSON(Cage{In: &RErr{a}})
		sym.Assert((err != nil) == (a == 7), "JSON: the error of MarshalAmino in an interface")
	case 3:
		_, err := cdc.MarshalJSON(map[string]RErr{"a": {a}})
		sym.Assert((err != nil) == (a == 7), "JSON: the error of MarshalAmino in a map")
	case 4:
		var u RErr
		err := cdc.UnmarshalJSON(s, &u)
		sym.Assert((err != nil) == (a == 9), "JSON: the error of UnmarshalAmino")
	case 5:
		var u struct{ X []RErr }
		err := cdc.UnmarshalJSON(in(`{"X":[{},`, `,{}]}`), &u)
		sym.Assert((err != nil) == (a == 9), "JSON: the error of UnmarshalAmino in a list")
	case 6:
		var u Cage
		err := rcdc.UnmarshalJSON(in(`{"In":{"type":"repr/Err","value":`, `}}`), &u)
		sym.Assert((err != nil) == (a == 9), "JSON: the error of UnmarshalAmino in an interface")
	case 7:
		var u map[string]*RErr
		err := cdc.UnmarshalJSON(in(`{"In":`, `}`), &u)
		sym.Assert((err != nil) == (a == 9), "JSON: the error of UnmarshalAmino in a map")
	}
	sym.Cover("checked")
}
