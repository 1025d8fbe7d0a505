package h

import (
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// ---- versions of a type: new fields are appended

type V1 struct {
	A int64
	B string
}

type V2 struct {
	A int64
	B string
	C int32
	D []byte
	E Leaf
	F []string
	G uint64 `binary:"fixed64"`
	H []int16
	I *bool
	J time.Time
	K uint32  `binary:"fixed32"`
	L float64 `amino:"unsafe"`
	M []Leaf
	N [2]string
	O [3]byte
	P int8     `amino:"write_empty"`
	Q []uint32 `binary:"fixed32"`
	R string   `amino:"write_empty"`
}

type V1Nest struct {
	A V1
	B *V1
	C []V1
	D []*V1
	E [2]V1
	F int8
}

type V2Nest struct {
	A V2
	B *V2
	C []V2
	D []*V2
	E [2]V2
	F int8
	G []V2
	H *V2
}

// new fields with two-byte keys
type V1Wide struct {
	F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12, F13, F14 bool
	F15                                                         uint16
}

type Versioned interface{ Version() int }

func (V1) Version() int { return 1 }
func (V2) Version() int { return 2 }

type V1Holder struct {
	A Versioned
	B []Versioned
	C int8
}

type V2Holder struct {
	A Versioned
	B []Versioned
	C int8
	D Versioned
}

// convert carries v over to another version of its type.
func convert(v reflect.Value, rt reflect.Type) reflect.Value {
	out := reflect.New(rt).Elem()
	if v.Type() == rt && rt.Kind() != reflect.Struct && rt.Kind() != reflect.Slice && rt.Kind() != reflect.Interface || rt == timeT {
		out.Set(v)
		return out
	}
	switch rt.Kind() {
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if i < v.NumField() {
				out.Field(i).Set(convert(v.Field(i), rt.Field(i).Type))
			} else {
				setMissing(out.Field(i))
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(rt.Elem())
			p.Elem().Set(convert(v.Elem(), rt.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		out.Set(reflect.MakeSlice(rt, v.Len(), v.Len()))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(convert(v.Index(i), rt.Elem()))
		}
	case reflect.Interface:
		if v.IsNil() {
			break
		}
		switch e := v.Elem(); e.Type() {
		case reflect.TypeOf(V1{}):
			out.Set(convert(e, reflect.TypeOf(V2{})))
		case reflect.TypeOf(V2{}):
			out.Set(convert(e, reflect.TypeOf(V1{})))
		default:
			out.Set(e)
		}
	default:
		out.Set(v)
	}
	return out
}

func evolved[A, B any](ca, cb *amino.Codec, v A) {
	bz, err := ca.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	var u B
	if sym.Choose("framing", 2) == 0 {
		err = cb.UnmarshalBinaryBare(bz, &u)
	} else {
		err = cb.UnmarshalBinaryLengthPrefixed(append(putUvarint(nil, uint64(len(bz))), bz...), &u)
	}
	sym.Assert(err == nil, fmt.Sprintf("an encoding of %T cannot be decoded as %T", v, u))
	w := convert(norm(reflect.ValueOf(&v).Elem(), fopt{num: 1}), reflect.TypeOf(&u).Elem()).Interface()
	sym.Assert(sym.Same(w, u), fmt.Sprintf("an encoding of %T decodes to another value as %T", v, u))
	sym.Cover("evolved")
}

func evolve[A, B any](ca, cb *amino.Codec) {
	sym.Bound(genBound)
	g := newGen()
	fullEmpty(g)
	if sym.Tier() == 0 {
		g.lens = []int{0, 128}
		g.listMax = 1
	}
	var v A
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	evolved[A, B](ca, cb, v)
}

func C10_new_to_old()        { evolve[V2, V1](cdc, cdc) }
func C10_old_to_new()        { evolve[V1, V2](cdc, cdc) }
func C10_new_to_empty()      { evolve[V2, Empty](cdc, cdc) }
func C10_empty_to_new()      { evolve[Empty, V2](cdc, cdc) }
func C10_nest_new_to_old()   { evolve[V2Nest, V1Nest](cdc, cdc) }
func C10_nest_old_to_new()   { evolve[V1Nest, V2Nest](cdc, cdc) }
func C10_wide_new_to_old()   { evolve[Wide, V1Wide](cdc, cdc) }
func C10_wide_old_to_new()   { evolve[V1Wide, Wide](cdc, cdc) }
func C10_arrays_to_empty()   { evolve[Arrays, Empty](cdc, cdc) }
func C10_lists_to_empty()    { evolve[StructLists, Empty](cdc, cdc) }
func C10_ptrlists_to_empty() { evolve[PtrLists, Empty](cdc, cdc) }
func C10_alists_to_empty()   { evolve[ArrayLists, Empty](cdc, cdc) }
func C10_times_to_empty()    { evolve[TimeLists, Empty](cdc, cdc) }
func C10_rich_to_empty()     { evolve[RichLists, Empty](cdc, cdc) }
func C10_packed_to_empty()   { evolve[PackedLists, Empty](cdc, cdc) }
func C10_fixeds_to_empty()   { evolve[FixedLists, Empty](cdc, cdc) }
func C10_texts_to_empty()    { evolve[TextLists, Empty](cdc, cdc) }
func C10_nlists_to_empty()   { evolve[NamedLists, Empty](cdc, cdc) }
func C10_inlists_to_empty()  { evolve[ListsInLists, Empty](cdc, cdc) }
func C10_deep_to_empty()     { evolve[Deep, Empty](cdc, cdc) }
func C10_ptrs_to_empty()     { evolve[Ptrs, Empty](cdc, cdc) }
func C10_embedded_to_empty() { evolve[Embedded, Empty](cdc, cdc) }
func C10_node_to_empty()     { evolve[Node, Empty](cdc, cdc) }
func C10_named_to_empty()    { evolve[Named, Empty](cdc, cdc) }
func C10_octets_to_empty()   { evolve[Octets, Empty](cdc, cdc) }
func C10_zoo_to_empty()      { evolve[Zoo, Empty](zcdc, cdc) }
func C10_lists()             { evolve[[]V2, []V1](cdc, cdc) }
func C10_lists_back()        { evolve[[]V1, []V2](cdc, cdc) }

func versions(new bool) *amino.Codec {
	c := amino.NewCodec()
	c.RegisterInterface((*Versioned)(nil), nil)
	if new {
		c.RegisterConcrete(V2{}, "x/V", nil)
	} else {
		c.RegisterConcrete(V1{}, "x/V", nil)
	}
	return c
}

var oldCdc, newCdc = versions(false), versions(true)

func C10_iface_new_to_old() {
	sym.Bound(genBound)
	g := newGen()
	g.lens = []int{0, 128}
	g.listMax = 1 + sym.Tier()
	var full V2
	v := V2Holder{C: 5}
	where := sym.Choose("where", 4)
	if where < 3 {
		g.fill(reflect.ValueOf(&full).Elem(), "full", gFull)
	}
	switch where {
	case 0:
		v.A = full
	case 1:
		v.B = []Versioned{V2{C: 1}, full, nil}
	case 2:
		v.D = full
	case 3:
		v.A, v.B, v.C, v.D = V2{}, []Versioned{nil, V2{}, V2{P: sym.I8("p")}}, sym.I8("c"), V2{A: sym.I64("d")}
	}
	evolved[V2Holder, V1Holder](newCdc, oldCdc, v)
}

func C10_iface_old_to_new() {
	sym.Bound(genBound)
	g := newGen()
	g.lens = []int{0, 128}
	mk := func(n string) Versioned {
		switch sym.Choose(n, 3) {
		case 0:
			return nil
		case 1:
			var v V1
			g.fill(reflect.ValueOf(&v).Elem(), n, gFull)
			return v
		}
		return V1{}
	}
	v := V1Holder{A: mk("a"), B: []Versioned{mk("b")}, C: sym.I8("c")}
	evolved[V1Holder, V2Holder](oldCdc, newCdc, v)
}

// unknown fields in any number and of any wire type, after the known ones
func C10_unknown() {
	sym.Bound("two unknown fields with any field number, of every wire type")
	v := V1{A: sym.I64("a"), B: "b"}
	bz := noreg.encode(v)
	one := func(n string, max uint64) {
		num := sym.U64(n + ".num")
		sym.Assume(sym.And(num > 2, num < max))
		w := []int{wVarint, w8, wLen, w4}[sym.Choose(n+".type", 4)]
		bz = putUvarint(bz, num<<3|uint64(w))
		switch w {
		case wVarint:
			bz = putUvarint(bz, sym.U64(n+".val"))
		case w8:
			bz = append(bz, sym.Bytes(n+".val", 8)...)
		case w4:
			bz = append(bz, sym.Bytes(n+".val", 4)...)
		default:
			p := sym.Bytes(n+".val", []int{0, 1, 3, 128}[sym.Choose(n+".len", 4)])
			bz = append(putUvarint(bz, uint64(len(p))), p...)
		}
	}
	one("x", 1<<29)
	if sym.Choose("two", 2) == 1 {

		max := uint64(16)
		if sym.Tier() > 0 {
			max = 1 << 29
		}
		one("y", max)
	}
	var u, w V1
	err := cdc.UnmarshalBinaryBare(bz, &u)
	d := noreg.decode(bz, reflect.ValueOf(&w).Elem())
	if d.unspec || d.bad { // e.g. numbers not in order
		sym.Assert(!d.bad || d.unspec || err != nil, "accepted an invalid encoding: "+d.why)
		return
	}
	sym.Assert(err == nil, "unknown fields are refused")
	sym.Assert(u == v, "unknown fields change the known ones")
	sym.Cover("skipped")
}
