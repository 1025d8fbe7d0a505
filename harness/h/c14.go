package h

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// prim checks one encoder and its decoder: want is the documented encoding.
func prim[T any](name string, v T, want []byte, enc func(w *bytes.Buffer) error, dec func([]byte) (T, int, error)) {
	var buf bytes.Buffer
	buf.WriteByte(0xaa)
	err := enc(&buf)
	sym.Assert(err == nil, name+": encode error")
	b := buf.Bytes()[1:]
	sym.Assert(sym.EqBytes(b, want), name+": another encoding than the documented one")
	rest := sym.Bytes("rest", sym.Choose("rest.len", 3))
	in := append(append([]byte(nil), b...), rest...)
	u, n, err := dec(in)
	sym.Assert(err == nil, name+": cannot decode what was encoded")
	if name == "Time" { // consumes all the fields it knows
		return
	}
	sym.Assert(n == len(b), name+": consumes another number of bytes than were written")
	sym.Assert(sym.Same(u, v), name+": decodes another value")
	for i := 0; i < len(b); i++ {
		_, _, err := dec(b[:i])
		sym.Assert(err != nil, name+": decodes a truncated encoding")
	}
	sym.Cover(name)
}

func C14_inverse() {
	sym.Bound("all values; byte strings of lengths 0,1,2,127,128; up to 2 bytes following")
	type B = bytes.Buffer
	switch sym.Choose("type", 17) {
	case 0:
		v := sym.I8("v")
		prim("Int8", v, putUvarint(nil, zigzag(int64(v))), func(w *B) error { return amino.EncodeInt8(w, v) }, amino.DecodeInt8)
	case 1:
		v := sym.I16("v")
		prim("Int16", v, putUvarint(nil, zigzag(int64(v))), func(w *B) error { return amino.EncodeInt16(w, v) }, amino.DecodeInt16)
	case 2:
		v := sym.I32("v")
		prim("Int32", v, le32(nil, uint32(v)), func(w *B) error { return amino.EncodeInt32(w, v) }, amino.DecodeInt32)
	case 3:
		v := sym.I64("v")
		prim("Int64", v, le64(nil, uint64(v)), func(w *B) error { return amino.EncodeInt64(w, v) }, amino.DecodeInt64)
	case 4:
		v := sym.I64("v")
		prim("Varint", v, putUvarint(nil, zigzag(v)), func(w *B) error { return amino.EncodeVarint(w, v) }, amino.DecodeVarint)
	case 5:
		v := sym.U8("v")
		prim("Byte", v, putUvarint(nil, uint64(v)), func(w *B) error { return amino.EncodeByte(w, v) }, amino.DecodeByte)
	case 6:
		v := sym.U8("v")
		prim("Uint8", v, putUvarint(nil, uint64(v)), func(w *B) error { return amino.EncodeUint8(w, v) }, amino.DecodeUint8)
	case 7:
		v := sym.U16("v")
		prim("Uint16", v, putUvarint(nil, uint64(v)), func(w *B) error { return amino.EncodeUint16(w, v) }, amino.DecodeUint16)
	case 8:
		v := sym.U32("v")
		prim("Uint32", v, le32(nil, v), func(w *B) error { return amino.EncodeUint32(w, v) }, amino.DecodeUint32)
	case 9:
		v := sym.U64("v")
		prim("Uint64", v, le64(nil, v), func(w *B) error { return amino.EncodeUint64(w, v) }, amino.DecodeUint64)
	case 10:
		v := sym.U64("v")
		prim("Uvarint", v, putUvarint(nil, v), func(w *B) error { return amino.EncodeUvarint(w, v) }, amino.DecodeUvarint)
	case 11:
		v := sym.Bool("v")
		prim("Bool", v, []byte{byte(sym.IteU8(v, 1, 0))}, func(w *B) error { return amino.EncodeBool(w, v) }, amino.DecodeBool)
	case 12:
		v := sym.F32("v")
		prim("Float32", v, le32(nil, math.Float32bits(v)), func(w *B) error { return amino.EncodeFloat32(w, v) }, amino.DecodeFloat32)
	case 13:
		v := sym.F64("v")
		prim("Float64", v, le64(nil, math.Float64bits(v)), func(w *B) error { return amino.EncodeFloat64(w, v) }, amino.DecodeFloat64)
	case 14:
		v := sym.Bytes("v", []int{0, 1, 2, 127, 128}[sym.Choose("len", 5)])
		prim("ByteSlice", v, append(putUvarint(nil, uint64(len(v))), v...), func(w *B) error { return amino.EncodeByteSlice(w, v) }, amino.DecodeByteSlice)
		sym.Assert(amino.ByteSliceSize(v) == len(putUvarint(nil, uint64(len(v))))+len(v), "ByteSliceSize")
	case 15:
		v := sym.String("v", []int{0, 1, 2, 127, 128}[sym.Choose("len", 5)])
		prim("String", v, append(putUvarint(nil, uint64(len(v))), v...), func(w *B) error { return amino.EncodeString(w, v) }, amino.DecodeString)
	case 16:
		s, n := sym.I64("sec"), sym.I64("nsec")
		sym.Assume(sym.And(s >= minSec, s < maxSec, n >= 0, n < 1e9))
		v := time.Unix(s, n).UTC()
		var buf bytes.Buffer
		err := amino.EncodeTime(&buf, v)
		sym.Assert(err == nil, "Time: encode error")
		b := buf.Bytes()
		sym.Assert(sym.EqBytes(b, noreg.payload(reflect.ValueOf(v), fopt{}, 1)), "Time: another encoding than the documented one")
		u, k, err := amino.DecodeTime(b)
		sym.Assert(err == nil && k == len(b), "Time: cannot decode what was encoded")
		sym.Assert(sym.Same(u, v), "Time: decodes another value")
	}
}

func C14_sizes() {
	sym.Bound("all 64-bit numbers, byte strings up to 2^16 bytes")
	switch sym.Choose("fn", 4) {
	case 3: // nil is written like an empty slice
		sym.Assert(amino.ByteSliceSize(nil) == 1, "ByteSliceSize(nil) is not the size of the encoding")
		prim("ByteSlice", []byte{}, []byte{0}, func(w *bytes.Buffer) error { return amino.EncodeByteSlice(w, nil) }, amino.DecodeByteSlice)
	case 0:
		v := sym.U64("v")
		sym.Assert(amino.UvarintSize(v) == len(putUvarint(nil, v)), "UvarintSize is not the size of the encoding")
	case 1:
		v := sym.I64("v")
		sym.Assert(amino.VarintSize(v) == len(putUvarint(nil, zigzag(v))), "VarintSize is not the size of the encoding")
	case 2:
		n := []int{0, 1, 127, 128, 16383, 16384, 65535}[sym.Choose("len", 7)]
		b := make([]byte, n)
		sym.Assert(amino.ByteSliceSize(b) == len(putUvarint(nil, uint64(n)))+n, "ByteSliceSize is not the size of the encoding")
	}
	sym.Cover("sized")
}

// any input at all
func anyPrim[T any](name string, least int, dec func([]byte) (T, int, error)) {
	max := 12
	sym.Bound(fmt.Sprintf("all byte strings up to %d bytes", max))
	b := sym.Bytes("b", sym.Choose("len", max+1))
	keep := append([]byte(nil), b...)
	_, n, err := dec(b)
	sym.Observe("n", n)
	sym.Observe("err", err)
	sym.Assert(sym.EqBytes(b, keep), name+": the input was changed")
	if err == nil {
		sym.Assert(n >= least && n <= len(b), name+": consumes more than there is, or nothing")
		sym.Cover("accepted")
		return
	}
	sym.Cover("refused")
}

func C14_any() {
	switch sym.Choose("decoder", 18) {
	case 0:
		anyPrim("Int8", 1, amino.DecodeInt8)
	case 1:
		anyPrim("Int16", 1, amino.DecodeInt16)
	case 2:
		anyPrim("Int32", 4, amino.DecodeInt32)
	case 3:
		anyPrim("Int64", 8, amino.DecodeInt64)
	case 4:
		anyPrim("Varint", 1, amino.DecodeVarint)
	case 5:
		anyPrim("Byte", 1, amino.DecodeByte)
	case 6:
		anyPrim("Uint8", 1, amino.DecodeUint8)
	case 7:
		anyPrim("Uint16", 1, amino.DecodeUint16)
	case 8:
		anyPrim("Uint32", 4, amino.DecodeUint32)
	case 9:
		anyPrim("Uint64", 8, amino.DecodeUint64)
	case 10:
		anyPrim("Uvarint", 1, amino.DecodeUvarint)
	case 11:
		anyPrim("Bool", 1, amino.DecodeBool)
	case 12:
		anyPrim("Float32", 4, amino.DecodeFloat32)
	case 13:
		anyPrim("Float64", 8, amino.DecodeFloat64)
	case 14:
		anyPrim("ByteSlice", 1, amino.DecodeByteSlice)
	case 15:
		anyPrim("String", 1, amino.DecodeString)
	case 16:
		anyPrim("Time", 0, amino.DecodeTime)
	case 17:
		anyPrim("DisambPrefixBytes", 4, func(b []byte) (bool, int, error) {
			_, d, _, p, n, err := amino.DecodeDisambPrefixBytes(b)
			_ = d
			return p, n, err
		})
	}
}

// a failing writer: its error is returned
func C14_writer() {
	sym.Bound("writers that fail after 0 to 3 bytes")
	s := &sink{max: sym.Choose("room", 4), quiet: true}
	v := sym.U64("v")
	var err error
	var want int
	switch sym.Choose("fn", 9) {
	case 0:
		err, want = amino.EncodeInt8(s, int8(v)), len(putUvarint(nil, zigzag(int64(int8(v)))))
	case 1:
		err, want = amino.EncodeInt32(s, int32(v)), 4
	case 2:
		err, want = amino.EncodeInt64(s, int64(v)), 8
	case 3:
		err, want = amino.EncodeUvarint(s, v), len(putUvarint(nil, v))
	case 4:
		err, want = amino.EncodeBool(s, v&1 == 1), 1
	case 5:
		err, want = amino.EncodeFloat64(s, math.Float64frombits(v)), 8
	case 6:
		err, want = amino.EncodeByteSlice(s, []byte{1, byte(v)}), 3
	case 7:
		err, want = amino.EncodeString(s, "xyz"), 4
	case 8:
		err, want = amino.EncodeTime(s, time.Unix(int64(v&0x7f|1), 5)), 4
	}
	if want > s.max {
		sym.Assert(err != nil, "the writer's error was lost")
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil, "an error though the writer has none")
		sym.Cover("written")
	}
}
