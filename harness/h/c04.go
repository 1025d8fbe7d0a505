package h

import (
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"
)

func C04_fields()     { roundTrip[Times](cdc, nil) }
func C04_lists()      { roundTrip[TimeLists](cdc, nil) }
func C04_top()        { roundTrip[time.Time](cdc, nil) }
func C04_nested()     { roundTrip[DeepTimes](cdc, nil) }
func C04_mix_times()  { mixedTrip[Times](cdc, nil) }
func C04_mix_lists()  { mixedTrip[TimeLists](cdc, nil) }
func C04_mix_nested() { mixedTrip[DeepTimes](cdc, nil) }

// DeepTimes has times in structs which may be empty.
type DeepTimes struct {
	A struct {
		T time.Time
		N int8
	}
	B []struct{ T time.Time }
	C [2]struct {
		U int8
		T *time.Time
	}
	D *struct{ T [1]time.Time }
	E int8
}

var zones = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -11*3600), time.FixedZone("odd", 17)}

// the instant survives in every time zone, and comes back in UTC without a monotonic clock reading
func C04_zones() {
	sym.Bound("all valid instants in 4 time zones")
	s, n := sym.I64("sec"), sym.I64("nsec")
	sym.Assume(sym.And(s >= minSec, s < maxSec, n >= 0, n < 1e9))
	z := zones[sym.Choose("zone", len(zones))]
	v := Times{A: time.Unix(s, n).In(z)}
	bz, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "a valid time is refused")
	bz0, err := cdc.MarshalBinaryBare(Times{A: time.Unix(s, n).UTC()})
	sym.Assert(err == nil && sym.EqBytes(bz, bz0), "the encoding depends on the time zone")
	var u Times
	err = cdc.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, "cannot decode a time")
	sym.Assert(u.A.Unix() == s && int64(u.A.Nanosecond()) == n, "the instant changed")
	sym.Assert(reflect.DeepEqual(u.A.Location(), time.UTC), "not in UTC")
	sym.Assert(sym.Same(u.A, time.Unix(s, n).UTC()), "the time has extra state")
}

// seconds outside of years 1 to 9999 are refused
func C04_invalid() {
	sym.Bound("all instants with |seconds| < 2^61")
	s, n := sym.I64("sec"), sym.I64("nsec")
	sym.Assume(sym.And(s > -(1<<61), s < 1<<61, n >= 0, n < 1e9))
	t := time.Unix(s, n).UTC()
	var v, bz any = nil, []byte(nil)
	switch sym.Choose("where", 4) {
	case 0:
		v = t
	case 1:
		v = Times{A: t, B: &t}
	case 2:
		v = TimeLists{A: []time.Time{t}}
	case 3:
		v = TimeLists{B: []*time.Time{nil, &t}}
	}
	b, err := cdc.MarshalBinaryBare(v)
	bz = b
	_ = bz
	if s >= minSec && s < maxSec {
		sym.Assert(err == nil, "a valid time is refused")
		sym.Cover("valid")
	} else {
		sym.Assert(err != nil && len(b) == 0, "a time out of range is encoded")
		sym.Cover("invalid")
	}
}

// what is decoded is a valid time: seconds and nanoseconds in range, or an error
func C04_decode() {
	sym.Bound("all 64-bit seconds and nanoseconds, each present or not")
	var body []byte
	var s, n uint64
	if sym.Choose("has.sec", 2) == 1 {
		s = sym.U64("sec")
		body = putUvarint(append(body, 1<<3), s)
	}
	if sym.Choose("has.nsec", 2) == 1 {
		n = sym.U64("nsec")
		body = putUvarint(append(body, 2<<3), n)
	}
	valid := int64(s) >= minSec && int64(s) < maxSec && n < 1e9
	var got time.Time
	var err error
	switch sym.Choose("where", 3) {
	case 0:
		err = cdc.UnmarshalBinaryBare(body, &got)
	case 1:
		var u Times
		bz := append(putUvarint([]byte{1<<3 | 2}, uint64(len(body))), body...)
		err = cdc.UnmarshalBinaryBare(bz, &u)
		got = u.A
	case 2:
		var u TimeLists
		sym.Assume(len(body) > 0)
		bz := append(putUvarint([]byte{1<<3 | 2}, uint64(len(body))), body...)
		err = cdc.UnmarshalBinaryBare(bz, &u)
		if err == nil {
			sym.Assert(len(u.A) == 1, "number of elements")
			got = u.A[0]
		}
	}
	if !valid {
		sym.Assert(err != nil, "an invalid time is decoded")
		sym.Cover("invalid")
		return
	}
	sym.Assert(err == nil, "a valid time is refused")
	sym.Assert(got.Unix() == int64(s) && got.Nanosecond() == int(n), "another instant is decoded")
	sym.Cover("valid")
}

// encodings of times with something in them that doesn't belong there
func C04_mut_times()    { agreeMut[Times](cdc, noreg) }
func C04_mut_lists()    { agreeMut[TimeLists](cdc, noreg) }
func C04_graft_times()  { agreeGraft[Times](cdc, noreg, 1) }
func C04_graft_lists()  { agreeGraft[TimeLists](cdc, noreg, 1) }
func C04_graft_nested() { agreeGraft[DeepTimes](cdc, noreg, 1) }
func C04_graft_top()    { agreeGraft[time.Time](cdc, noreg, 1) }

// fields with large numbers
func C04_big_times() { agreeBig[Times](cdc, noreg) }
func C04_big_lists() { agreeBig[TimeLists](cdc, noreg) }
func C04_big_top()   { agreeBig[time.Time](cdc, noreg) }

// up to two varint fields of any number and wire type
func C04_keys() {
	sym.Bound("times of up to two fields with any 64-bit keys and values of one byte")
	var body []byte
	for i, n := 0, sym.Choose("fields", 3); i < n; i++ {
		body = putUvarint(body, sym.U64(fmt.Sprintf("key%d", i)))
		body = append(body, sym.U8(fmt.Sprintf("value%d", i))&0x7f)
	}
	if sym.Choose("field", 2) == 1 {
		agree[Times](cdc, noreg, append(putUvarint([]byte{1<<3 | 2}, uint64(len(body))), body...))
		return
	}
	agree[time.Time](cdc, noreg, body)
}
