package h

import (
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// robust: decoding any bytes ends, within a number of steps that the length bounds, without a panic.
func robust[T any](cdc *amino.Codec, bz []byte) {
	var u T
	sym.Steps(200_000 + 20_000*len(bz))
	var err error
	if sym.Choose("framing", 2) == 0 {
		err = cdc.UnmarshalBinaryBare(bz, &u)
	} else {
		err = cdc.UnmarshalBinaryLengthPrefixed(bz, &u)
	}
	sym.Steps(0)
	sym.Observe("err", err)
	if err == nil {
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
		sym.Assert(len(err.Error()) > 0, "an error without a message")
	}
}

func robustAny[T any](cdc *amino.Codec, max int) {
	if sym.Tier() > 0 {
		max++
	}
	robust[T](cdc, anyBytes(max))
}

func robustMut[T any](cdc *amino.Codec, reg *registry) {
	v := smallValue[T]()
	robust[T](cdc, mutant(reg.encode(v)))
}

func C07_mut_kinds() {
	c, _, bz := mutKinds()
	robust[Cage](c, bz)
}

func C07_any_ints()     { robustAny[Ints](cdc, 4) }
func C07_any_fixed()    { robustAny[Fixed](cdc, 4) }
func C07_any_octets()   { robustAny[Octets](cdc, 4) }
func C07_mut_octets()   { robustMut[Octets](cdc, noreg) }
func C07_any_text()     { robustAny[Text](cdc, 4) }
func C07_any_ptrs()     { robustAny[Ptrs](cdc, 4) }
func C07_any_nest()     { robustAny[Nest](cdc, 4) }
func C07_any_node()     { robustAny[Node](cdc, 5) }
func C07_any_packed()   { robustAny[PackedLists](cdc, 4) }
func C07_any_fixeds()   { robustAny[FixedLists](cdc, 4) }
func C07_any_texts()    { robustAny[TextLists](cdc, 4) }
func C07_any_structs()  { robustAny[StructLists](cdc, 4) }
func C07_any_arrays()   { robustAny[Arrays](cdc, 4) }
func C07_any_times()    { robustAny[TimeLists](cdc, 4) }
func C07_any_zoo()      { robustAny[Zoo](zcdc, 4) }
func C07_any_tagged()   { robustAny[Tagged](cdc, 4) }
func C07_any_embedded() { robustAny[Embedded](cdc, 4) }

func C07_mut_text()     { robustMut[Text](cdc, noreg) }
func C07_mut_ptrs()     { robustMut[Ptrs](cdc, noreg) }
func C07_mut_deep()     { robustMut[Deep](cdc, noreg) }
func C07_mut_embedded() { robustMut[Embedded](cdc, noreg) }
func C07_mut_packed()   { robustMut[PackedLists](cdc, noreg) }
func C07_mut_texts()    { robustMut[TextLists](cdc, noreg) }
func C07_mut_structs()  { robustMut[StructLists](cdc, noreg) }
func C07_mut_rich()     { robustMut[RichLists](cdc, noreg) }
func C07_mut_arrays()   { robustMut[Arrays](cdc, noreg) }
func C07_mut_times()    { robustMut[DeepTimes](cdc, noreg) }
func C07_mut_zoo()      { robustMut[Zoo](zcdc, zreg) }
func C07_mut_herd()     { robustMut[Herd](dcdc, dreg) }

// length prefixes close to the limits of int, and beyond
func C07_lengths() {
	sym.Bound("a length prefix of any 64-bit value, followed by up to 2 arbitrary bytes")
	l := putUvarint(nil, sym.U64("len"))
	bz := append(l, sym.Bytes("rest", sym.Choose("n", 3))...)
	key := func(num int) []byte { return append(putKey(nil, uint32(num), wLen), bz...) }
	switch sym.Choose("type", 12) {
	case 0:
		robust[Text](cdc, key(1))
	case 1:
		robust[Text](cdc, key(2))
	case 2:
		robust[Text](cdc, key(3))
	case 3:
		robust[Nest](cdc, key(1))
	case 4:
		robust[PackedLists](cdc, key(1))
	case 5:
		robust[TextLists](cdc, key(1))
	case 6:
		robust[StructLists](cdc, key(2))
	case 7:
		robust[Ints](cdc, key(9)) // an unknown field
	case 8:
		robust[Times](cdc, key(1))
	case 9:
		robust[Zoo](zcdc, key(1))
	case 10:
		robust[Leaf](cdc, bz)
	case 11:
		robust[string](cdc, key(1))
	}
}

// field numbers of any size
func C07_keys() {
	sym.Bound("a key of any 64-bit value, followed by up to 3 arbitrary bytes")
	bz := append(putUvarint(nil, sym.U64("key")), sym.Bytes("rest", sym.Choose("n", 4))...)
	switch sym.Choose("type", 6) {
	case 0:
		robust[Ints](cdc, bz)
	case 1:
		robust[TextLists](cdc, bz)
	case 2:
		robust[Wide](cdc, bz)
	case 3:
		robust[time.Time](cdc, bz)
	case 4:
		robust[int64](cdc, bz)
	case 5:
		robust[Arrays](cdc, bz)
	}
}

func C07_top() {
	max := 3
	switch sym.Choose("type", 20) {
	case 0:
		robustAny[int8](cdc, max)
	case 1:
		robustAny[int64](cdc, max)
	case 2:
		robustAny[uint32](cdc, max)
	case 3:
		robustAny[bool](cdc, max)
	case 4:
		robustAny[string](cdc, max)
	case 5:
		robustAny[[]byte](cdc, max)
	case 6:
		robustAny[[3]byte](cdc, max+2)
	case 7:
		robustAny[[]int16](cdc, max)
	case 8:
		robustAny[[]string](cdc, max+2)
	case 9:
		robustAny[[]Leaf](cdc, max)
	case 10:
		robustAny[[2]Leaf](cdc, max)
	case 11:
		robustAny[[]*Leaf](cdc, max+1)
	case 12:
		robustAny[*int](cdc, max)
	case 13:
		robustAny[**Leaf](cdc, max)
	case 14:
		robustAny[time.Time](cdc, max)
	case 15:
		robustAny[Animal](zcdc, max+2)
	case 16:
		robustAny[Dog](zcdc, max+2)
	case 17:
		robustAny[Words](zcdc, max+2)
	case 18:
		robustAny[[]Animal](zcdc, max+2)
	case 19:
		robustAny[[][]byte](cdc, max+2)
	}
}

// the concrete value after a valid prefix
func C07_prefixed() {
	sym.Bound("valid prefix bytes of every registered type, followed by up to 3 (thorough 4) arbitrary bytes")
	t := zooTypes[sym.Choose("type", len(zooTypes))]
	db, pb := disfix(t.name)
	bz := append([]byte(nil), pb...)
	if sym.Choose("disamb", 2) == 1 {
		bz = append(append([]byte{0}, db...), pb...)
	}
	bz = append(bz, sym.Bytes("rest", sym.Choose("n", 4+sym.Tier()))...)
	switch sym.Choose("into", 4) {
	case 0:
		robust[Animal](zcdc, bz)
	case 1:
		robust[Shape](zcdc, bz)
	case 2:
		robust[Cage](zcdc, append(putUvarint(putKey(nil, 2, wLen), uint64(len(bz))), bz...))
	case 3:
		sym.Assume(len(bz) < 9)
		rv := reflect.New(t.rt)
		err := zcdc.UnmarshalBinaryBare(bz, rv.Interface())
		sym.Observe("err", err)
		_ = fmt.Sprint(t.name)
	}
}
