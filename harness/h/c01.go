package h

import (
	"fmt"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

const genBound = "one field (list element, pointer target) at a time ranges over all its values, the rest is all default or all small non-default; " +
	"strings and byte slices of lengths 0,1,2,127,128 (thorough: also 3,126,129,300), lists up to 2 (thorough: 3) elements, recursive types to depth 2 (3)"

// roundTrip: decoding the encoding of v gives v again (up to what the format does not distinguish), and
// the encoding is the documented one.
func roundTrip[T any](cdc *amino.Codec, tweak func(g *generator)) {
	sym.Bound(genBound)
	g := newGen()
	if tweak != nil {
		tweak(g)
	}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	roundTripValue(cdc, v)
}

func roundTripValue[T any](cdc *amino.Codec, v T) {
	bz, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	sym.Observe("bz", bz)
	var u T
	err = cdc.UnmarshalBinaryBare(bz, &u)
	sym.Observe("err", err)
	sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
	want := norm(reflect.ValueOf(&v).Elem(), fopt{num: 1}).Interface()
	sym.Assert(sym.Same(want, u), fmt.Sprintf("%T: decoded value differs from the encoded one", v))
	sym.Cover("round trip")
}

func C01_ints()     { roundTrip[Ints](cdc, nil) }
func C01_uints()    { roundTrip[Uints](cdc, nil) }
func C01_fixed()    { roundTrip[Fixed](cdc, nil) }
func C01_floats()   { roundTrip[Floats](cdc, nil) }
func C01_text()     { roundTrip[Text](cdc, nil) }
func C01_ptrs()     { roundTrip[Ptrs](cdc, nil) }
func C01_nest()     { roundTrip[Nest](cdc, nil) }
func C01_deep()     { roundTrip[Deep](cdc, nil) }
func C01_named()    { roundTrip[Named](cdc, nil) }
func C01_octets()   { roundTrip[Octets](cdc, nil) }
func C01_embedded() { roundTrip[Embedded](cdc, nil) }
func C01_tagged()   { roundTrip[Tagged](cdc, nil) }
func C01_wempty()   { roundTrip[WriteEmpty](cdc, nil) }
func C01_wide()     { roundTrip[Wide](cdc, nil) }
func C01_node()     { roundTrip[Node](cdc, nil) }
func C01_empty()    { roundTrip[HoldsEmpty](cdc, nil) }
func C01_rich()     { roundTrip[Rich](cdc, nil) }

// mixedTrip: the round trip of every pattern of default and other fields, and elements of lists.
func mixedTrip[T any](cdc *amino.Codec, tweak func(g *generator)) {
	sym.Bound(mixBound)
	g := newGen()
	if tweak != nil {
		tweak(g)
	}
	var v T
	g.mix(reflect.ValueOf(&v).Elem())
	roundTripValue(cdc, v)
}

func C01_mix_ints()     { mixedTrip[Ints](cdc, nil) }
func C01_mix_uints()    { mixedTrip[Uints](cdc, nil) }
func C01_mix_fixed()    { mixedTrip[Fixed](cdc, nil) }
func C01_mix_floats()   { mixedTrip[Floats](cdc, nil) }
func C01_mix_text()     { mixedTrip[Text](cdc, nil) }
func C01_mix_ptrs()     { mixedTrip[Ptrs](cdc, nil) }
func C01_mix_nest()     { mixedTrip[Nest](cdc, nil) }
func C01_mix_deep()     { mixedTrip[Deep](cdc, nil) }
func C01_mix_named()    { mixedTrip[Named](cdc, nil) }
func C01_mix_octets()   { mixedTrip[Octets](cdc, nil) }
func C01_mix_embedded() { mixedTrip[Embedded](cdc, nil) }
func C01_mix_tagged()   { mixedTrip[Tagged](cdc, nil) }
func C01_mix_wempty()   { mixedTrip[WriteEmpty](cdc, nil) }
func C01_mix_wide()     { mixedTrip[Wide](cdc, nil) }
func C01_mix_empty()    { mixedTrip[HoldsEmpty](cdc, nil) }
func C01_mix_rich()     { mixedTrip[Rich](cdc, nil) }
