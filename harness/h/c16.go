package h

import (
	"fmt"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// payloads which are valid for one or the other implementer
var payloads = [][]byte{{}, {0}, {5}, {8, 5}, {16, 5}, {2, 65, 66}, {4, 1, 2, 3, 4}, {10, 1, 65}, {10, 2, 8, 1}}

// only: what an interface decodes to is registered under the bytes read.
func only(names map[reflect.Type]string, ptrs map[reflect.Type]bool, shared [][]byte, v any, err error, db, pb []byte) {
	if err != nil || v == nil {
		sym.Cover("refused")
		return
	}
	rt := reflect.TypeOf(v)
	isPtr := rt.Kind() == reflect.Ptr
	if isPtr {
		rt = rt.Elem()
	}
	name, ok := names[rt]
	sym.Assert(ok, fmt.Sprintf("decoded a %v, which is not registered", rt))
	sym.Assert(isPtr == ptrs[rt], fmt.Sprintf("decoded a %v, but it was registered differently", reflect.TypeOf(v)))
	wdb, wpb := disfix(name)
	sym.Assert(sym.EqBytes(pb, wpb), fmt.Sprintf("decoded a %v from other prefix bytes", rt))
	if db != nil {
		sym.Assert(sym.EqBytes(db, wdb), fmt.Sprintf("decoded a %v from other disambiguation bytes", rt))
		sym.Cover("with disambiguation bytes")
	} else {
		for _, s := range shared {
			sym.Assert(!sym.EqBytes(pb, s), "decoded shared prefix bytes without disambiguation bytes")
		}
		sym.Cover("with prefix bytes")
	}
}

// prefix: any prefix bytes, with or without disambiguation bytes
func prefix() (bz, db, pb []byte) {
	sym.Bound("all prefix and disambiguation bytes, followed by one of 9 contents")
	if sym.Choose("disamb", 2) == 1 {
		db, pb = sym.Bytes("db", 3), sym.Bytes("pb", 4)
		bz = append(append([]byte{0}, db...), pb...)
	} else {
		pb = sym.Bytes("pb", 4)
		sym.Assume(pb[0] != 0) // else they are disambiguation bytes
		bz = append(bz, pb...)
	}
	return append(bz, payloads[sym.Choose("payload", len(payloads))]...), db, pb
}

var zooPtrs = map[reflect.Type]bool{reflect.TypeOf(Cat{}): true}

func len1(num int, bz []byte) []byte { return append([]byte{byte(num<<3 | 2), byte(len(bz))}, bz...) }

func onlyZoo(c *amino.Codec) {
	bz, db, pb := prefix()
	switch sym.Choose("where", 5) {
	case 0:
		var u Animal
		err := c.UnmarshalBinaryBare(bz, &u)
		only(zooNames, zooPtrs, nil, u, err, db, pb)
	case 1:
		var u Cage
		err := c.UnmarshalBinaryBare(len1(2, bz), &u)
		only(zooNames, zooPtrs, nil, u.In, err, db, pb)
	case 2:
		var u Zoo
		err := c.UnmarshalBinaryBare(len1(2, bz), &u)
		only(zooNames, zooPtrs, nil, u.B, err, db, pb)
	case 3:
		var u Zoo
		err := c.UnmarshalBinaryBare(append(len1(3, []byte{}), len1(3, bz)...), &u)
		var a Animal
		if err == nil {
			sym.Assert(len(u.C) == 2 && u.C[0] == nil, "a list of another length")
			a = u.C[1]
		}
		only(zooNames, zooPtrs, nil, a, err, db, pb)
	case 4:
		var u Zoo
		err := c.UnmarshalBinaryBare(append(len1(5, bz), len1(5, []byte{})...), &u)
		only(zooNames, zooPtrs, nil, u.E[0], err, db, pb)
	}
}

func C16_zoo()  { onlyZoo(zcdc) }
func C16_dzoo() { onlyZoo(dcdc) }

// implementers that share their prefix bytes
func C16_twins() {
	names := map[reflect.Type]string{reflect.TypeOf(Twin1{}): nameTwin1, reflect.TypeOf(Twin2{}): nameTwin2, reflect.TypeOf(Other{}): nameOther}
	ptrs := map[reflect.Type]bool{reflect.TypeOf(Twin2{}): true}
	_, sh := disfix(nameTwin1)
	bz, db, pb := prefix()
	c := twins(sym.Choose("order", 5))
	var u Twins
	if sym.Choose("where", 2) == 0 {
		err := c.UnmarshalBinaryBare(len1(1, bz), &u)
		only(names, ptrs, [][]byte{sh}, u.A, err, db, pb)
		return
	}
	err := c.UnmarshalBinaryBare(len1(2, bz), &u)
	var a Animal
	if err == nil {
		sym.Assert(len(u.B) == 1, "a list of another length")
		a = u.B[0]
	}
	only(names, ptrs, [][]byte{sh}, a, err, db, pb)
}

// the registered prefixes do decode, also from an interface they are not the only one for
func C16_registered() {
	sym.Bound("every registered name, in either interface, with and without disambiguation bytes")
	type impl struct {
		v     any
		bytes []byte
	}
	impls := []impl{{Dog{Age: 5}, []byte{16, 5}}, {&Cat{5}, []byte{8, 5}}, {Fish(5), []byte{5}}, {Tag("AB"), []byte{2, 65, 66}},
		{Blob{1, 2, 3, 4}, []byte{4, 1, 2, 3, 4}}, {Data{1}, []byte{1, 1}}, {Square{5}, []byte{8, 5}}, {Both{}, []byte{}}}
	i := impls[sym.Choose("impl", len(impls))]
	rt := derefT(reflect.TypeOf(i.v))
	db, pb := disfix(zooNames[rt])
	bz := append(append([]byte(nil), pb...), i.bytes...)
	if sym.Choose("disamb", 2) == 1 {
		bz = append(append([]byte{0}, db...), bz...)
	}
	c := []*amino.Codec{zcdc, dcdc}[sym.Choose("codec", 2)]
	var u Zoo
	if sym.Choose("iface", 2) == 0 {
		err := c.UnmarshalBinaryBare(len1(1, bz), &u)
		if a, ok := i.v.(Animal); ok {
			sym.Assert(err == nil && sym.Same(u.A, a), "a registered implementer does not decode")
			sym.Cover("implementer")
		} else {
			sym.Assert(err != nil && u.A == nil, "a type that does not implement the interface is accepted")
			sym.Cover("not an implementer")
		}
		return
	}
	err := c.UnmarshalBinaryBare(len1(2, bz), &u)
	if s, ok := i.v.(Shape); ok {
		sym.Assert(err == nil && sym.Same(u.B, s), "a registered implementer does not decode")
		sym.Cover("implementer")
	} else {
		sym.Assert(err != nil && u.B == nil, "a type that does not implement the interface is accepted")
		sym.Cover("not an implementer")
	}
}

type unregistered interface{ Nothing() }

func C16_unregistered() {
	bz, _, _ := prefix()
	var u struct{ A unregistered }
	err := cdc.UnmarshalBinaryBare(len1(1, bz), &u)
	sym.Assert(err != nil && u.A == nil, "an interface that is not registered was decoded")
	var w unregistered
	err = cdc.UnmarshalBinaryBare(bz, &w)
	sym.Assert(err != nil && w == nil, "an interface that is not registered was decoded")
	var a Cage
	err = amino.NewCodec().UnmarshalBinaryBare(len1(2, bz), &a)
	sym.Assert(err != nil && a.In == nil, "an interface that is not registered was decoded")
	sym.Cover("refused")
}

// top-level concrete types check their prefix bytes
func C16_concrete() {
	sym.Bound("all 4-byte prefixes")
	pb := sym.Bytes("pb", 4)
	bz := append(append([]byte(nil), pb...), 16, 5)
	_, want := disfix(nameDog)
	var u Dog
	err := zcdc.UnmarshalBinaryBare(bz, &u)
	if sym.EqBytes(pb, want) {
		sym.Assert(err == nil && u == Dog{Age: 5}, "a registered type does not decode")
		sym.Cover("right prefix")
	} else {
		sym.Assert(err != nil, "another prefix is accepted")
		sym.Cover("wrong prefix")
	}
	n := sym.Choose("n", 4)
	sym.Assert(zcdc.UnmarshalBinaryBare(want[:n], &u) != nil, "an incomplete prefix is accepted")
}
