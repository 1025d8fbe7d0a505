package h

import (
	"fmt"
	"time"

	"aminoharness/sym"
)

func C02_packed()    { roundTrip[PackedLists](cdc, nil) }
func C02_fixed()     { roundTrip[FixedLists](cdc, nil) }
func C02_text()      { roundTrip[TextLists](cdc, nil) }
func C02_structs()   { roundTrip[StructLists](cdc, fullEmpty) }
func C02_ptrs()      { roundTrip[PtrLists](cdc, nil) }
func C02_times()     { roundTrip[TimeLists](cdc, nil) }
func C02_named()     { roundTrip[NamedLists](cdc, nil) }
func C02_lists()     { roundTrip[ListsInLists](cdc, nil) }
func C02_arrays()    { roundTrip[Arrays](cdc, nil) }
func C02_widelists() { roundTrip[WideLists](cdc, nil) }
func C02_rich()      { roundTrip[RichLists](cdc, nil) }
func C02_alists()    { roundTrip[ArrayLists](cdc, nil) }

func C02_mix_alists()  { mixedTrip[ArrayLists](cdc, nil) }
func C02_mix_packed()  { mixedTrip[PackedLists](cdc, nil) }
func C02_mix_fixeds()  { mixedTrip[FixedLists](cdc, nil) }
func C02_mix_texts()   { mixedTrip[TextLists](cdc, nil) }
func C02_mix_structs() { mixedTrip[StructLists](cdc, fullEmpty) }
func C02_mix_rich()    { mixedTrip[RichLists](cdc, nil) }
func C02_mix_plists()  { mixedTrip[PtrLists](cdc, nil) }
func C02_mix_tlists()  { mixedTrip[TimeLists](cdc, nil) }
func C02_mix_nlists()  { mixedTrip[NamedLists](cdc, nil) }
func C02_mix_arrays()  { mixedTrip[Arrays](cdc, nil) }
func C02_mix_wlists()  { mixedTrip[WideLists](cdc, nil) }
func C02_mix_lists()   { mixedTrip[ListsInLists](cdc, nil) }

// a nil struct pointer is an error with empty_elements
func fullEmpty(g *generator) { g.noNilElems = true }

func C02_top() {
	switch sym.Choose("type", 16) {
	case 0:
		roundTrip[[]int64](cdc, nil)
	case 1:
		roundTrip[[]uint16](cdc, nil)
	case 2:
		roundTrip[[]string](cdc, nil)
	case 3:
		roundTrip[[][]byte](cdc, nil)
	case 4:
		roundTrip[[]Leaf](cdc, nil)
	case 5:
		roundTrip[[]*Leaf](cdc, nil)
	case 6:
		roundTrip[[3]int16](cdc, nil)
	case 7:
		roundTrip[[4]byte](cdc, nil)
	case 8:
		roundTrip[[]byte](cdc, nil)
	case 9:
		roundTrip[[2]string](cdc, nil)
	case 10:
		roundTrip[[2]Leaf](cdc, nil)
	case 11:
		roundTrip[[]bool](cdc, nil)
	case 12:
		roundTrip[[]*int32](cdc, nil)
	case 13:
		roundTrip[[]time.Time](cdc, nil)
	case 14:
		roundTrip[MyBytes](cdc, nil)
	case 15:
		roundTrip[[][2]byte](cdc, nil)
	}
}

// lists whose encoding needs a length of two bytes or more
func C02_long_lists() {
	n := []int{5, 16, 63, 64, 127, 128, 129, 300}[sym.Choose("n", 8)]
	p := sym.Choose("p", 3)
	k := []int{0, n / 2, n - 1}[p]
	sym.Bound("lists of 5,16,63,64,127,128,129,300 elements, one of which takes all its values")
	v := LongLists{}
	f := sym.Choose("field", 5)
	for i := 0; i < n; i++ {
		x := int64(i%50 + 1)
		if i == k {
			x = sym.I64("x")
		}
		switch f {
		case 0:
			v.A = append(v.A, x)
		case 1:
			v.B = append(v.B, string([]byte{byte(x), 7}))
		case 2:
			v.C = append(v.C, Leaf{A: x})
		case 3:
			v.D = append(v.D, uint32(x))
		case 4:
			v.E = append(v.E, []byte{byte(x)})
		}
	}
	v.F = 9
	bz, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	var u LongLists
	err = cdc.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, "cannot decode a long list")
	sym.Assert(sym.Same(v, u), "a long list changed in a round trip")
	sym.Cover("long")
}

// texts whose length needs three bytes
func C02_long_text() {
	n := []int{16382, 16383, 16384, 40000}[sym.Choose("n", 4)]
	sym.Bound("strings and byte slices of 16382,16383,16384,40000 bytes, three of which are arbitrary")
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	for i, p := range []int{0, n / 2, n - 1} {
		b[p] = sym.U8(fmt.Sprintf("b%d", i))
	}
	var v, u Text
	switch sym.Choose("field", 2) {
	case 0:
		v.A = string(b)
	case 1:
		v.B = b
	}
	v.E = "end"
	bz, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(len(bz) == n+1+len(putUvarint(nil, uint64(n)))+6+5, "length of the encoding")
	err = cdc.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, "cannot decode a long text")
	sym.Assert(sym.Same(v, u), "a long text changed in a round trip")
}

// lists of lists are not part of the format: they are refused, or they round trip
func refusedOrRoundTrip[T any](v T) {
	bz, err := cdc.MarshalBinaryBare(v)
	if err != nil {
		sym.Assert(len(bz) == 0, "bytes along with an error")
		return
	}
	var u T
	err = cdc.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
	sym.Assert(sym.Same(v, u), fmt.Sprintf("%T: decoded value differs from the encoded one", v))
}

func C02_multidimensional() {
	switch sym.Choose("type", 6) {
	case 0:
		refusedOrRoundTrip([][]int64{{sym.I64("x")}, {2}})
	case 1:
		refusedOrRoundTrip(struct{ A [][]string }{[][]string{{sym.String("s", 2)}, {"a", "", "b"}}})
	case 2:
		refusedOrRoundTrip([2][2]int16{{sym.I16("x"), 1}})
	case 3:
		refusedOrRoundTrip(struct{ A [2][]Leaf }{[2][]Leaf{{{A: sym.I64("x")}, {}}, nil}})
	case 4:
		refusedOrRoundTrip(struct{ A [][]int64 }{[][]int64{{sym.I64("x")}, {2, 0}}})
	case 5:
		refusedOrRoundTrip(struct {
			P int8
			A [][]*Leaf
		}{1, [][]*Leaf{{{A: 1}, {A: sym.I64("x") | 1}}, {{B: "x"}}}})
	}
}
