package h

import (
	"bytes"
	"io"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// budget: what may be allocated to decode n bytes, a multiple of the size of what a byte can stand for.
func budget(t reflect.Type, n int) int {
	return 16<<10 + n*(64+8*int(t.Size()))
}

// frugal: the memory which decoding allocates is bounded by the length of the input.
func frugal[T any](c *amino.Codec, bz []byte, unit reflect.Type, prefixed bool) {
	var u T
	if unit == nil {
		unit = reflect.TypeOf(&u).Elem()
	}
	how := 0
	if prefixed {
		how = 1 + sym.Choose("how", 2)
	}
	sym.AllocLimit(budget(unit, len(bz)))
	var err error
	switch how {
	case 0:
		err = c.UnmarshalBinaryBare(bz, &u)
	case 1:
		err = c.UnmarshalBinaryLengthPrefixed(bz, &u)
	case 2:
		_, err = c.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), &u, 0)
	}
	sym.AllocLimit(0)
	if err == nil {
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

func lenOf(num uint32) []byte {
	return append(putKey(nil, num, wLen), putUvarint(nil, sym.U64("len"))...)
}

// a field whose length is anything
func claimed[T any](c *amino.Codec, num uint32) {
	rest := sym.Bytes("rest", sym.Choose("n", 4+2*sym.Tier()))
	frugal[T](c, append(lenOf(num), rest...), nil, false)
}

func fieldsOf[T any](c *amino.Codec) {
	sym.Bound("each field of 11 types with any length or count of 64 bits, followed by up to 3 (thorough: 5) arbitrary bytes")
	n := reflect.TypeOf((*T)(nil)).Elem().NumField()
	claimed[T](c, uint32(1+sym.Choose("field", n)))
}

func C25_text()    { fieldsOf[Text](cdc) }
func C25_ptrs()    { fieldsOf[Ptrs](cdc) }
func C25_nest()    { fieldsOf[Nest](cdc) }
func C25_packed()  { fieldsOf[PackedLists](cdc) }
func C25_fixed()   { fieldsOf[FixedLists](cdc) }
func C25_texts()   { fieldsOf[TextLists](cdc) }
func C25_structs() { fieldsOf[StructLists](cdc) }
func C25_rich()    { fieldsOf[RichLists](cdc) }
func C25_times()   { fieldsOf[TimeLists](cdc) }
func C25_lists()   { fieldsOf[ListsInLists](cdc) }
func C25_arrays()  { fieldsOf[Arrays](cdc) }
func C25_zoo()     { fieldsOf[Zoo](zcdc) }

// the contents of an interface value claim a length
func C25_inside() {
	sym.Bound("interface values of 4 types whose contents have any length")
	impl := []struct {
		name string
		body []byte
	}{{nameData, nil}, {nameWords, []byte{10}}, {nameTag, nil}, {nameNums, nil}, {namePack, []byte{10}}, {nameDog, []byte{10}}}[sym.Choose("impl", 6)]
	_, pb := disfix(impl.name)
	body := append(append(append([]byte(nil), pb...), impl.body...), putUvarint(nil, sym.U64("len"))...)
	body = append(body, sym.Bytes("rest", sym.Choose("n", 3))...)
	bz := append(putKey(nil, 1, wLen), len1(1, body)[1:]...)
	frugal[Zoo](zcdc, bz, nil, false)
}

// the length prefix, and values without a struct around them
func C25_prefix() {
	sym.Bound("any length prefix, followed by up to 2 (thorough: 5) arbitrary bytes")
	bz := append(putUvarint(nil, sym.U64("len")), sym.Bytes("rest", sym.Choose("n", 3+3*sym.Tier()))...)
	switch sym.Choose("type", 8) {
	case 0:
		frugal[Text](cdc, bz, nil, true)
	case 1:
		frugal[[]byte](cdc, bz, nil, true)
	case 2:
		frugal[string](cdc, bz, nil, true)
	case 3:
		frugal[[]string](cdc, bz, nil, true)
	case 4:
		frugal[[]int64](cdc, bz, nil, true)
	case 5:
		frugal[Animal](zcdc, bz, nil, true)
	case 6:
		frugal[time.Time](cdc, bz, nil, true)
	case 7:
		frugal[[4]byte](cdc, bz, nil, true)
	}
}

// an endless stream: with a maximum size no more than that is read or allocated
type endless struct{ n int }

func (e *endless) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 1
	}
	e.n += len(p)
	return len(p), nil
}

func C25_stream() {
	sym.Bound("any length prefix on an endless stream, maximum sizes of 1, 10, 100 and 1000")
	max := []int64{1, 10, 100, 1000}[sym.Choose("max", 4)]
	e := &endless{}
	r := io.MultiReader(bytes.NewReader(putUvarint(nil, sym.U64("len"))), e)
	var u []byte
	sym.AllocLimit(16<<10 + int(max)*16)
	n, err := cdc.UnmarshalBinaryLengthPrefixedReader(r, &u, max)
	sym.AllocLimit(0)
	sym.Assert(n <= max, "more than the maximum was read")
	if err == nil {
		sym.Cover("accepted")
	}
}

// the package's functions
func C25_functions() {
	sym.Bound("any length of 64 bits, followed by up to 3 arbitrary bytes")
	bz := append(putUvarint(nil, sym.U64("len")), sym.Bytes("rest", sym.Choose("n", 4))...)
	f := sym.Choose("f", 3)
	sym.AllocLimit(4096)
	switch f {
	case 0:
		amino.DecodeByteSlice(bz)
	case 1:
		amino.DecodeString(bz)
	case 2:
		amino.DecodeTime(bz)
	}
	sym.AllocLimit(0)
	sym.Cover("done")
}

// long inputs: the memory grows in proportion
func C25_long() {
	sym.Bound("lists of 1300 to 2000 short elements with arbitrary scalars, about 4000 bytes long")
	elem := func(b ...byte) []byte {
		x := sym.U8("x")
		sym.Assume(sym.And(x > 0, x < 0x80))
		e := append(b, x)
		var l []byte
		for len(l) < 4000 {
			l = append(l, e...)
		}
		return l
	}
	packed := func(l []byte) []byte {
		return append(append(putKey(nil, 1, wLen), putUvarint(nil, uint64(len(l)))...), l...)
	}
	switch sym.Choose("type", 8) {
	case 0:
		frugal[struct{ A []int16 }](cdc, packed(elem()), reflect.TypeOf(int16(0)), false)
	case 1:
		frugal[struct{ A []*int64 }](cdc, packed(elem()), reflect.TypeOf(new(int64)), false)
	case 2:
		frugal[struct{ A []string }](cdc, elem(10, 1), reflect.TypeOf(""), false)
	case 3:
		frugal[struct{ A [][]byte }](cdc, elem(10, 1), reflect.TypeOf([]byte{}), false)
	case 4:
		frugal[struct{ A []Leaf }](cdc, elem(10, 2, 8), reflect.TypeOf(Leaf{}), false)
	case 5:
		frugal[struct{ A []*Leaf }](cdc, elem(10, 2, 8), reflect.TypeOf(Leaf{}), false)
	case 6:
		frugal[struct{ A []time.Time }](cdc, elem(10, 2, 8), reflect.TypeOf(time.Time{}), false)
	case 7:
		frugal[struct{ A [][]string }](cdc, elem(10, 3, 10, 1), reflect.TypeOf([]string{}), false)
	}
}

// values within values: the memory doesn't grow with the depth times the length
func C25_deep() {
	sym.Bound("structs nested to a depth of 1, 5 and 400 around a text of 4000 bytes")
	n := []int{1, 5, 400}[sym.Choose("depth", 3)]
	bz := append(putKey(nil, 3, wLen), putUvarint(nil, 4000)...)
	bz = append(bz, sym.Bytes("b", 40)...)
	bz = append(bz, make([]byte, 3960)...)
	for i := 0; i < n; i++ {
		bz = append(append(putKey(nil, 2, wLen), putUvarint(nil, uint64(len(bz)))...), bz...)
	}
	sym.AllocLimit(1 << 16)
	var u chain
	err := cdc.UnmarshalBinaryBare(bz, &u)
	sym.AllocLimit(0)
	sym.Assert(err == nil, "decode error")
	for p := &u; ; p = p.Next {
		if p.Next == nil {
			sym.Assert(len(p.Text) == 4000, "the text is lost")
			break
		}
	}
	sym.Cover("deep")
}

type chain struct {
	V    int8
	Next *chain
	Text []byte
}
