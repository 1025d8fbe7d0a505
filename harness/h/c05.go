package h

import (
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// conforms: the encoding of v is byte for byte the documented one.
func conforms[T any](cdc *amino.Codec, reg *registry, tweak func(g *generator)) {
	sym.Bound(genBound)
	g := newGen()
	if tweak != nil {
		tweak(g)
	}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	conformsValue(cdc, reg, v)
}

// mixed: every pattern of default and other fields, and elements of lists.
func mixed[T any](cdc *amino.Codec, reg *registry, tweak func(g *generator)) {
	sym.Bound(mixBound)
	g := newGen()
	if tweak != nil {
		tweak(g)
	}
	var v T
	g.mix(reflect.ValueOf(&v).Elem())
	conformsValue(cdc, reg, v)
	roundTripValue(cdc, v)
}

func conformsValue[T any](cdc *amino.Codec, reg *registry, v T) {
	bz, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	sym.Observe("bz", bz)
	want := reg.encode(v)
	sym.Assert(len(bz) == len(want), fmt.Sprintf("%T: the encoding has another length than specified", v))
	sym.Assert(sym.EqBytes(bz, want), fmt.Sprintf("%T: the encoding is not the specified one", v))
	sym.Cover("conforms")
}

func C05_ints()      { conforms[Ints](cdc, noreg, nil) }
func C05_uints()     { conforms[Uints](cdc, noreg, nil) }
func C05_fixed()     { conforms[Fixed](cdc, noreg, nil) }
func C05_floats()    { conforms[Floats](cdc, noreg, nil) }
func C05_text()      { conforms[Text](cdc, noreg, nil) }
func C05_ptrs()      { conforms[Ptrs](cdc, noreg, nil) }
func C05_nest()      { conforms[Nest](cdc, noreg, nil) }
func C05_deep()      { conforms[Deep](cdc, noreg, nil) }
func C05_named()     { conforms[Named](cdc, noreg, nil) }
func C05_octets()    { conforms[Octets](cdc, noreg, nil) }
func C05_embedded()  { conforms[Embedded](cdc, noreg, nil) }
func C05_tagged()    { conforms[Tagged](cdc, noreg, nil) }
func C05_wempty()    { conforms[WriteEmpty](cdc, noreg, nil) }
func C05_wide()      { conforms[Wide](cdc, noreg, nil) }
func C05_node()      { conforms[Node](cdc, noreg, nil) }
func C05_empty()     { conforms[HoldsEmpty](cdc, noreg, nil) }
func C05_packed()    { conforms[PackedLists](cdc, noreg, nil) }
func C05_fixeds()    { conforms[FixedLists](cdc, noreg, nil) }
func C05_texts()     { conforms[TextLists](cdc, noreg, nil) }
func C05_structs()   { conforms[StructLists](cdc, noreg, fullEmpty) }
func C05_rich()      { conforms[RichLists](cdc, noreg, nil) }
func C05_ptrlists()  { conforms[PtrLists](cdc, noreg, nil) }
func C05_alists()    { conforms[ArrayLists](cdc, noreg, nil) }
func C05_timelists() { conforms[TimeLists](cdc, noreg, nil) }
func C05_nameds()    { conforms[NamedLists](cdc, noreg, nil) }
func C05_lists()     { conforms[ListsInLists](cdc, noreg, nil) }
func C05_arrays()    { conforms[Arrays](cdc, noreg, nil) }
func C05_widelists() { conforms[WideLists](cdc, noreg, nil) }
func C05_times()     { conforms[Times](cdc, noreg, nil) }
func C05_deeptimes() { conforms[DeepTimes](cdc, noreg, nil) }
func C05_zoo()       { conforms[Zoo](zcdc, zreg, nil) }
func C05_dzoo()      { conforms[Zoo](dcdc, dreg, nil) }
func C05_herd()      { conforms[Herd](zcdc, zreg, nil) }

func C05_top() {
	switch sym.Choose("type", 26) {
	case 0:
		conforms[int8](cdc, noreg, nil)
	case 1:
		conforms[int16](cdc, noreg, nil)
	case 2:
		conforms[int32](cdc, noreg, nil)
	case 3:
		conforms[int64](cdc, noreg, nil)
	case 4:
		conforms[int](cdc, noreg, nil)
	case 5:
		conforms[uint8](cdc, noreg, nil)
	case 6:
		conforms[uint16](cdc, noreg, nil)
	case 7:
		conforms[uint32](cdc, noreg, nil)
	case 8:
		conforms[uint64](cdc, noreg, nil)
	case 9:
		conforms[uint](cdc, noreg, nil)
	case 10:
		conforms[bool](cdc, noreg, nil)
	case 11:
		conforms[string](cdc, noreg, nil)
	case 12:
		conforms[[]byte](cdc, noreg, nil)
	case 13:
		conforms[[4]byte](cdc, noreg, nil)
	case 14:
		conforms[[]int16](cdc, noreg, nil)
	case 15:
		conforms[[]string](cdc, noreg, nil)
	case 16:
		conforms[[]Leaf](cdc, noreg, nil)
	case 17:
		conforms[[2]Leaf](cdc, noreg, nil)
	case 18:
		conforms[[]*Leaf](cdc, noreg, nil)
	case 19:
		conforms[time.Time](cdc, noreg, nil)
	case 20:
		conforms[[][]byte](cdc, noreg, nil)
	case 21:
		conforms[MyStr](cdc, noreg, nil)
	case 22:
		conforms[[3]int16](cdc, noreg, nil)
	case 23:
		conforms[Fish](zcdc, zreg, nil)
	case 24:
		conforms[Words](zcdc, zreg, nil)
	case 25:
		conforms[Pack](zcdc, zreg, nil)
	}
}
func C05_mix_ints()     { mixed[Ints](cdc, noreg, nil) }
func C05_mix_fixed()    { mixed[Fixed](cdc, noreg, nil) }
func C05_mix_text()     { mixed[Text](cdc, noreg, nil) }
func C05_mix_ptrs()     { mixed[Ptrs](cdc, noreg, nil) }
func C05_mix_nest()     { mixed[Nest](cdc, noreg, nil) }
func C05_mix_deep()     { mixed[Deep](cdc, noreg, nil) }
func C05_mix_named()    { mixed[Named](cdc, noreg, nil) }
func C05_mix_octets()   { mixed[Octets](cdc, noreg, nil) }
func C05_mix_embedded() { mixed[Embedded](cdc, noreg, nil) }
func C05_mix_tagged()   { mixed[Tagged](cdc, noreg, nil) }
func C05_mix_wempty()   { mixed[WriteEmpty](cdc, noreg, nil) }
func C05_mix_wide()     { mixed[Wide](cdc, noreg, nil) }
func C05_mix_packed()   { mixed[PackedLists](cdc, noreg, nil) }
func C05_mix_fixeds()   { mixed[FixedLists](cdc, noreg, nil) }
func C05_mix_texts()    { mixed[TextLists](cdc, noreg, nil) }
func C05_mix_structs()  { mixed[StructLists](cdc, noreg, fullEmpty) }
func C05_mix_rich()     { mixed[RichLists](cdc, noreg, nil) }
func C05_mix_plists()   { mixed[PtrLists](cdc, noreg, nil) }
func C05_mix_alists()   { mixed[ArrayLists](cdc, noreg, nil) }
func C05_mix_tlists()   { mixed[TimeLists](cdc, noreg, nil) }
func C05_mix_nlists()   { mixed[NamedLists](cdc, noreg, nil) }
func C05_mix_arrays()   { mixed[Arrays](cdc, noreg, nil) }
func C05_mix_wlists()   { mixed[WideLists](cdc, noreg, nil) }
func C05_mix_times()    { mixed[Times](cdc, noreg, nil) }
func C05_mix_zoo()      { mixed[Zoo](zcdc, zreg, nil) }
func C05_mix_herd()     { mixed[Herd](dcdc, dreg, nil) }
