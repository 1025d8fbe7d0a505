package h

import (
	"fmt"
	"math"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// numbers registered as implementers of an interface
type Num interface{ IsNum() }
type (
	NI8  int8
	NI16 int16
	NI32 int32
	NI64 int64
	NI   int
	NU8  uint8
	NU16 uint16
	NU32 uint32
	NU64 uint64
	NU   uint
)

func (NI8) IsNum()  {}
func (NI16) IsNum() {}
func (NI32) IsNum() {}
func (NI64) IsNum() {}
func (NI) IsNum()   {}
func (NU8) IsNum()  {}
func (NU16) IsNum() {}
func (NU32) IsNum() {}
func (NU64) IsNum() {}
func (NU) IsNum()   {}

var ncdc = func() *amino.Codec {
	c := amino.NewCodec()
	c.RegisterInterface((*Num)(nil), nil)
	for i, o := range []Num{NI8(0), NI16(0), NI32(0), NI64(0), NI(0), NU8(0), NU16(0), NU32(0), NU64(0), NU(0)} {
		c.RegisterConcrete(o, fmt.Sprintf("num/%d", i), nil)
	}
	return c
}()

type integer interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint
}

// anyVarint: a varint of any length, and the number it stands for; ok: it stands for a number.
func anyVarint() (bz []byte, u uint64, ok bool) {
	sym.Bound("all varints of 1 to 11 bytes, minimal or not")
	n := 1 + sym.Choose("varint.len", 11)
	bz = sym.Bytes("varint", n)
	for i := 0; i < n-1; i++ {
		sym.Assume(bz[i] >= 0x80)
	}
	sym.Assume(bz[n-1] < 0x80)
	ok = n <= 10
	for i := 0; i < n && i < 10; i++ {
		u |= uint64(bz[i]&0x7f) << (7 * uint(i))
	}
	if n == 10 {
		ok = bz[9] <= 1
	}
	return bz, u, ok
}

// number: what u means for T; fits: T has it.
func number[T integer](u uint64, sgn, zig bool, min int64, max uint64) (v T, fits bool) {
	if !sgn {
		return T(u), u <= max
	}
	i := int64(u)
	if zig {
		i = int64(u>>1) ^ -int64(u&1)
	}
	return T(i), sym.And(i >= min, i <= int64(max))
}

func overflow[T integer](id int, mk func(T) Num, sgn, zig bool, min int64, max uint64) {
	bz, u, ok := anyVarint()
	want, fits := number[T](u, sgn, zig, min, max)
	fits = sym.And(ok, fits)
	key := []byte{1 << 3}
	var got T
	var err error
	switch sym.Choose("context", 10) {
	case 0:
		var s struct{ A T }
		err = cdc.UnmarshalBinaryBare(append(key, bz...), &s)
		got = s.A
	case 1: // packed list
		if _, isU8 := any(want).(uint8); isU8 {
			sym.Assume(false) // byte strings
		}
		var s struct {
			X int8
			A []T
		}
		p := append([]byte{1}, bz...)
		p = append(p, 0)
		err = cdc.UnmarshalBinaryBare(append(putUvarint([]byte{2<<3 | 2}, uint64(len(p))), p...), &s)
		if err == nil {
			sym.Assert(len(s.A) == 3, "a list of another length")
			got = s.A[1]
		}
	case 2: // array
		if _, isU8 := any(want).(uint8); isU8 {
			sym.Assume(false)
		}
		var s struct{ A [1]T }
		err = cdc.UnmarshalBinaryBare(append(putUvarint([]byte{1<<3 | 2}, uint64(len(bz))), bz...), &s)
		got = s.A[0]
	case 3: // pointer
		var s struct{ A **T }
		err = cdc.UnmarshalBinaryBare(append(key, bz...), &s)
		if err == nil {
			got = **s.A
		}
	case 4: // top level
		err = cdc.UnmarshalBinaryBare(append(key, bz...), &got)
	case 5: // pointers in a list
		var s struct{ A []*T }
		err = cdc.UnmarshalBinaryBare(append(putUvarint([]byte{1<<3 | 2}, uint64(len(bz))), bz...), &s)
		if err == nil {
			sym.Assert(len(s.A) == 1, "a list of another length")
			if s.A[0] != nil { // nil is the default
				got = *s.A[0]
			}
		}
	case 6: // in an interface
		var s struct{ A Num }
		_, pb := disfix(fmt.Sprintf("num/%d", id))
		p := append(pb, bz...)
		err = ncdc.UnmarshalBinaryBare(append(putUvarint([]byte{1<<3 | 2}, uint64(len(p))), p...), &s)
		if err == nil {
			sym.Assert(fits, "a number that does not fit is accepted inside an interface")
			sym.Assert(s.A == mk(want), "another number was decoded inside an interface")
			sym.Cover("fits")
			return
		}
	case 7: // nested struct, not the last field
		var s struct {
			B struct {
				A T
				C bool
			}
		}
		p := append(append(key, bz...), 2<<3, 1)
		err = cdc.UnmarshalBinaryBare(append(putUvarint([]byte{1<<3 | 2}, uint64(len(p))), p...), &s)
		got = s.B.A
	case 8: // top-level list
		if _, isU8 := any(want).(uint8); isU8 {
			sym.Assume(false)
		}
		var s []T
		err = cdc.UnmarshalBinaryBare(append(putUvarint([]byte{1<<3 | 2}, uint64(len(bz))), bz...), &s)
		if err == nil {
			sym.Assert(len(s) == 1, "a list of another length")
			got = s[0]
		}
	case 9: // length-prefixed
		var s struct{ A T }
		err = cdc.UnmarshalBinaryLengthPrefixed(append([]byte{byte(1 + len(bz)), 1 << 3}, bz...), &s)
		got = s.A
	}
	if err == nil {
		sym.Assert(fits, fmt.Sprintf("%T: a number that does not fit is accepted", want))
		sym.Assert(got == want, fmt.Sprintf("%T: another number was decoded", want))
		sym.Cover("fits")
		return
	}
	sym.Assert(!fits, fmt.Sprintf("%T: a number that fits is refused", want))
	sym.Cover("refused")
}

func C11_int8() {
	overflow[int8](0, func(v int8) Num { return NI8(v) }, true, true, math.MinInt8, math.MaxInt8)
}
func C11_int16() {
	overflow[int16](1, func(v int16) Num { return NI16(v) }, true, true, math.MinInt16, math.MaxInt16)
}
func C11_int32() {
	overflow[int32](2, func(v int32) Num { return NI32(v) }, true, false, math.MinInt32, math.MaxInt32)
}
func C11_int64() {
	overflow[int64](3, func(v int64) Num { return NI64(v) }, true, false, math.MinInt64, math.MaxInt64)
}
func C11_int() {
	overflow[int](4, func(v int) Num { return NI(v) }, true, false, math.MinInt64, math.MaxInt64)
}
func C11_uint8() {
	overflow[uint8](5, func(v uint8) Num { return NU8(v) }, false, false, 0, math.MaxUint8)
}
func C11_uint16() {
	overflow[uint16](6, func(v uint16) Num { return NU16(v) }, false, false, 0, math.MaxUint16)
}
func C11_uint32() {
	overflow[uint32](7, func(v uint32) Num { return NU32(v) }, false, false, 0, math.MaxUint32)
}
func C11_uint64() {
	overflow[uint64](8, func(v uint64) Num { return NU64(v) }, false, false, 0, math.MaxUint64)
}
func C11_uint() {
	overflow[uint](9, func(v uint) Num { return NU(v) }, false, false, 0, math.MaxUint64)
}

// the exported decoders of numbers
func C11_primitives() {
	bz, u, ok := anyVarint()
	check := func(name string, fits, same bool, err error) {
		if err == nil {
			sym.Assert(fits, name+" accepts a number that does not fit")
			sym.Assert(same, name+" gives another number")
			sym.Cover("fits")
			return
		}
		sym.Assert(!fits, name+" refuses a number that fits")
		sym.Cover("refused")
	}
	switch sym.Choose("decoder", 7) {
	case 0:
		w, f := number[int8](u, true, true, math.MinInt8, math.MaxInt8)
		v, _, err := amino.DecodeInt8(bz)
		check("DecodeInt8", sym.And(ok, f), v == w, err)
	case 1:
		w, f := number[int16](u, true, true, math.MinInt16, math.MaxInt16)
		v, _, err := amino.DecodeInt16(bz)
		check("DecodeInt16", sym.And(ok, f), v == w, err)
	case 2:
		w, _ := number[int64](u, true, true, math.MinInt64, math.MaxInt64)
		v, _, err := amino.DecodeVarint(bz)
		check("DecodeVarint", ok, v == w, err)
	case 3:
		v, _, err := amino.DecodeUint8(bz)
		check("DecodeUint8", sym.And(ok, u <= math.MaxUint8), uint64(v) == u, err)
	case 4:
		v, _, err := amino.DecodeUint16(bz)
		check("DecodeUint16", sym.And(ok, u <= math.MaxUint16), uint64(v) == u, err)
	case 5:
		v, _, err := amino.DecodeByte(bz)
		check("DecodeByte", sym.And(ok, u <= math.MaxUint8), uint64(v) == u, err)
	case 6:
		v, _, err := amino.DecodeUvarint(bz)
		check("DecodeUvarint", ok, v == u, err)
	}
}
