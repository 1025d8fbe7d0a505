package h

import (
	"fmt"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// strict: a valid length-prefixed encoding has no other reading: cut short, extended, or with another
// length it is refused.
func strict[T any](cdc *amino.Codec, tweak func(g *generator)) {
	sym.Bound(genBound)
	g := newGen()
	if tweak != nil {
		tweak(g)
	}
	g.lens = []int{0, 1, 2, 126, 127, 128}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	bz, err := cdc.MarshalBinaryLengthPrefixed(v)
	sym.Assert(err == nil, "encode error")
	var u T
	switch sym.Choose("change", 4) {
	case 0:
		k := len(bz)
		if k > 12 {
			k = 12
		}
		i := sym.Choose("cut", k)
		if i >= 6 {
			i = len(bz) - 12 + i // the first and the last few
		}
		sym.Assume(i < len(bz))
		err = cdc.UnmarshalBinaryLengthPrefixed(bz[:i], &u)
		sym.Assert(err != nil, fmt.Sprintf("%T: a truncated encoding is accepted", v))
	case 1:
		err = cdc.UnmarshalBinaryLengthPrefixed(append(append([]byte(nil), bz...), sym.Bytes("extra", 1+sym.Choose("n", 3))...), &u)
		sym.Assert(err != nil, fmt.Sprintf("%T: trailing bytes are accepted", v))
	case 2:
		bare, err := cdc.MarshalBinaryBare(v)
		sym.Assert(err == nil, "encode error")
		l := sym.U64("length")
		sym.Assume(l != uint64(len(bare)))
		err = cdc.UnmarshalBinaryLengthPrefixed(append(putUvarint(nil, l), bare...), &u)
		sym.Assert(err != nil, fmt.Sprintf("%T: a wrong length prefix is accepted", v))
	case 3:
		err = cdc.UnmarshalBinaryLengthPrefixed(bz, &u)
		sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
	}
	sym.Cover("strict")
}

func C08_ints()    { strict[Ints](cdc, nil) }
func C08_text()    { strict[Text](cdc, nil) }
func C08_nest()    { strict[Nest](cdc, nil) }
func C08_ptrs()    { strict[Ptrs](cdc, nil) }
func C08_packed()  { strict[PackedLists](cdc, nil) }
func C08_octets()  { strict[Octets](cdc, nil) }
func C08_texts()   { strict[TextLists](cdc, nil) }
func C08_structs() { strict[StructLists](cdc, fullEmpty) }
func C08_rich()    { strict[RichLists](cdc, nil) }
func C08_times()   { strict[Times](cdc, nil) }
func C08_cage()    { strict[Cage](zcdc, nil) }
func C08_top() {
	switch sym.Choose("type", 8) {
	case 0:
		strict[int64](cdc, nil)
	case 1:
		strict[string](cdc, nil)
	case 2:
		strict[[]byte](cdc, nil)
	case 3:
		strict[[3]byte](cdc, nil)
	case 4:
		strict[[]int16](cdc, nil)
	case 5:
		strict[[]string](cdc, nil)
	case 6:
		strict[Dog](zcdc, nil)
	case 7:
		strict[[2]bool](cdc, nil)
	}
}

// Everything that is not an encoding by the specification is refused; cf. C09, which also compares values.
func refuse[T any](cdc *amino.Codec, reg *registry, bz []byte) {
	var u, w T
	err := cdc.UnmarshalBinaryBare(append([]byte(nil), bz...), &u)
	d := reg.decode(bz, reflect.ValueOf(&w).Elem())
	sym.Observe("err", err)
	if d.bad && !d.unspec {
		sym.Assert(err != nil, fmt.Sprintf("%T: accepted an invalid encoding: %s", u, d.why))
		sym.Cover("refused")
	}
}

// every field key: number and wire type
func C08_keys() {
	sym.Bound("all field keys (any 64-bit value), before valid contents of each wire type")
	key := putUvarint(nil, sym.U64("key"))
	val := [][]byte{{5}, {1, 2, 3, 4, 5, 6, 7, 8}, {2, 8, 1}, {1, 2, 3, 4}, {0}}[sym.Choose("value", 5)]
	var pre []byte
	if sym.Choose("pre", 2) == 1 {
		pre = []byte{1 << 3, 5} // field 1 is there already
	}
	bz := append(append(pre, key...), val...)
	switch sym.Choose("type", 8) {
	case 0:
		refuse[Ints](cdc, noreg, bz)
	case 1:
		refuse[Fixed](cdc, noreg, bz)
	case 2:
		refuse[Text](cdc, noreg, bz)
	case 3:
		refuse[Nest](cdc, noreg, bz)
	case 4:
		refuse[Wide](cdc, noreg, bz)
	case 5:
		refuse[TextLists](cdc, noreg, bz)
	case 6:
		refuse[Node](cdc, noreg, bz)
	case 7:
		refuse[Times](cdc, noreg, bz)
	}
}

// the length of something inside is off
func C08_inner_lengths() {
	sym.Bound("an inner length prefix of any 64-bit value")
	l := sym.U64("len")
	body := func(b ...byte) []byte { return append(putUvarint(putKey(nil, 1, wLen), l), b...) }
	switch sym.Choose("type", 8) {
	case 0:
		refuse[Nest](cdc, noreg, body(8, 1, 16, 1))
	case 1:
		refuse[Text](cdc, noreg, body(40, 41, 42))
	case 2:
		refuse[PackedLists](cdc, noreg, body(1, 2, 3))
	case 3:
		refuse[FixedLists](cdc, noreg, body(1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4, 5, 6, 7, 8))
	case 4:
		refuse[TextLists](cdc, noreg, body(9, 9))
	case 5:
		refuse[Times](cdc, noreg, body(8, 1, 16, 1))
	case 6:
		refuse[[]string](cdc, noreg, body(10, 1, 65))
	case 7:
		_, pb := disfix(nameFish)
		refuse[Zoo](zcdc, zreg, body(append(pb, 1, 1)...))
	}
}

// fields in another order, or twice
func C08_field_order() {
	sym.Bound("three fields with any of 6 numbers in any order")
	var bz []byte
	for _, n := range []string{"a", "b", "c"} {
		num := uint32(sym.Choose(n, 6))
		bz = append(putKey(bz, num, wVarint), 1+sym.U8(n)&0x3f)
	}
	refuse[Ints](cdc, noreg, bz)
}

// repeated fields, interleaved with others
func C08_repeated_order() {
	sym.Bound("four length-delimited fields with any of 5 numbers in any order")
	var bz []byte
	for _, n := range []string{"a", "b", "c", "d"} {
		num := uint32(sym.Choose(n, 5))
		bz = append(putKey(bz, num, wLen), 1, 65)
	}
	refuse[struct {
		A []string
		B string
		C []string
	}](cdc, noreg, bz)
}

func refuseMut[T any](cdc *amino.Codec, reg *registry) {
	refuse[T](cdc, reg, mutant(reg.encode(smallValue[T]())))
}

func C08_mut_text()   { refuseMut[Text](cdc, noreg) }
func C08_mut_nest()   { refuseMut[Nest](cdc, noreg) }
func C08_mut_arrays() { refuseMut[Arrays](cdc, noreg) }
func C08_mut_times()  { refuseMut[DeepTimes](cdc, noreg) }
func C08_mut_zoo()    { refuseMut[Zoo](zcdc, zreg) }
func C08_mut_bools()  { refuseMut[[]bool](cdc, noreg) }
func C08_mut_dog()    { refuseMut[Dog](zcdc, zreg) }
func C08_mut_lists()  { refuseMut[StructLists](cdc, noreg) }

func refuseGraft[T any](cdc *amino.Codec, reg *registry) { refuse[T](cdc, reg, grafted[T](reg, 1)) }

func C08_graft_ints()    { refuseGraft[Ints](cdc, noreg) }
func C08_graft_text()    { refuseGraft[Text](cdc, noreg) }
func C08_graft_nest()    { refuseGraft[Nest](cdc, noreg) }
func C08_graft_deep()    { refuseGraft[Deep](cdc, noreg) }
func C08_graft_packed()  { refuseGraft[PackedLists](cdc, noreg) }
func C08_graft_structs() { refuseGraft[StructLists](cdc, noreg) }
func C08_graft_alists()  { refuseGraft[ArrayLists](cdc, noreg) }
func C08_graft_dtimes()  { refuseGraft[DeepTimes](cdc, noreg) }
func C08_graft_arrays()  { refuseGraft[Arrays](cdc, noreg) }
func C08_graft_zoo()     { refuseGraft[Zoo](zcdc, zreg) }
func C08_graft_dzoo()    { refuseGraft[Zoo](dcdc, dreg) }
func C08_graft_kinds() {
	c, r, bz := graftedKinds()
	refuse[Cage](c, r, bz)
}
func C08_mut_kinds() {
	c, r, bz := mutKinds()
	refuse[Cage](c, r, bz)
}
func C08_mut_dzoo() { refuseMut[Zoo](dcdc, dreg) }
