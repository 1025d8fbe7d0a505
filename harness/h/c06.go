package h

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// stable: the encoding is a function of the value alone.
func stable[T any](cdc *amino.Codec, mk func() *amino.Codec, tweak func(g *generator)) {
	sym.Bound(genBound)
	g := newGen()
	if tweak != nil {
		tweak(g)
	}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	bz, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	again := func(what string, b []byte, err error) {
		sym.Assert(err == nil, what+": encode error")
		sym.Assert(sym.EqBytes(b, bz), fmt.Sprintf("%T: the encoding changes %s", v, what))
	}
	switch sym.Choose("variant", 5) {
	case 0:
		b, err := cdc.MarshalBinaryBare(v)
		again("when repeated", b, err)
	case 1:
		b, err := cdc.MarshalBinaryBare(&v)
		again("behind a pointer", b, err)
		p := &v
		b, err = cdc.MarshalBinaryBare(&p)
		again("behind two pointers", b, err)
	case 2: // nil and empty are the same
		e := emptied(reflect.ValueOf(&v).Elem()).Interface()
		b, err := cdc.MarshalBinaryBare(e)
		again("with empty for nil", b, err)
	case 3: // another codec, used in another order
		c := mk()
		c.MarshalBinaryBare(Nest{D: 1})
		var junk T
		c.UnmarshalBinaryBare([]byte{1, 2, 3}, &junk)
		c.UnmarshalBinaryBare(bz, &junk)
		b, err := c.MarshalBinaryBare(v)
		again("with the history of the codec", b, err)
	case 4: // what was decoded is encoded the same
		var u T
		if cdc.UnmarshalBinaryBare(bz, &u) == nil {
			b, err := cdc.MarshalBinaryBare(u)
			if err == nil && hasNilTime(reflect.ValueOf(&v).Elem()) && !sym.EqBytes(b, bz) {
				sym.Known("nil-time-pointer")
			}
			again("after a round trip", b, err)
		}
	}
	sym.Cover("stable")
}

// hasNilTime: there is a nil *time.Time somewhere in rv
func hasNilTime(rv reflect.Value) bool {
	rt := rv.Type()
	switch rt.Kind() {
	case reflect.Ptr:
		if rv.IsNil() {
			return derefT(rt) == timeT
		}
		return hasNilTime(rv.Elem())
	case reflect.Struct:
		if rt == timeT {
			return false
		}
		for _, f := range rfields(rt) {
			if hasNilTime(rv.Field(f.idx)) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			if hasNilTime(rv.Index(i)) {
				return true
			}
		}
	}
	return false
}

// emptied replaces nil slices by empty ones, and the other way around.
func emptied(rv reflect.Value) reflect.Value {
	rt := rv.Type()
	out := reflect.New(rt).Elem()
	out.Set(rv)
	if rt == timeT {
		return out
	}
	switch rt.Kind() {
	case reflect.Slice:
		if rv.Len() == 0 {
			if rv.IsNil() {
				out.Set(reflect.MakeSlice(rt, 0, 3))
			} else {
				out.Set(reflect.Zero(rt))
			}
			return out
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			return out
		}
		out.Set(reflect.MakeSlice(rt, rv.Len(), rv.Len()+2))
		fallthrough
	case reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			return out
		}
		for i := 0; i < rv.Len(); i++ {
			out.Index(i).Set(emptied(rv.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				out.Field(i).Set(emptied(rv.Field(i)))
			}
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			p := reflect.New(rt.Elem())
			p.Elem().Set(emptied(rv.Elem()))
			out.Set(p)
		}
	}
	return out
}

func stab[T any](tweak func(g *generator)) { stable[T](cdc, amino.NewCodec, tweak) }
func zstab[T any]()                        { stable[T](zcdc, func() *amino.Codec { return zoo(false) }, nil) }

func C06_ints()      { stab[Ints](nil) }
func C06_fixed()     { stab[Fixed](nil) }
func C06_floats()    { stab[Floats](nil) }
func C06_text()      { stab[Text](nil) }
func C06_ptrs()      { stab[Ptrs](nil) }
func C06_nest()      { stab[Nest](nil) }
func C06_deep()      { stab[Deep](nil) }
func C06_embedded()  { stab[Embedded](nil) }
func C06_tagged()    { stab[Tagged](nil) }
func C06_wempty()    { stab[WriteEmpty](nil) }
func C06_node()      { stab[Node](nil) }
func C06_packed()    { stab[PackedLists](nil) }
func C06_fixeds()    { stab[FixedLists](nil) }
func C06_texts()     { stab[TextLists](nil) }
func C06_structs()   { stab[StructLists](fullEmpty) }
func C06_rich()      { stab[RichLists](nil) }
func C06_uints()     { stab[Uints](nil) }
func C06_named()     { stab[Named](nil) }
func C06_octets()    { stab[Octets](nil) }
func C06_wide()      { stab[Wide](nil) }
func C06_nlists()    { stab[NamedLists](nil) }
func C06_herd()      { zstab[Herd]() }
func C06_ptrlists()  { stab[PtrLists](nil) }
func C06_alists()    { stab[ArrayLists](nil) }
func C06_timelists() { stab[TimeLists](nil) }
func C06_lists()     { stab[ListsInLists](nil) }
func C06_arrays()    { stab[Arrays](nil) }
func C06_times()     { stab[DeepTimes](nil) }
func C06_zoo()       { zstab[Zoo]() }
func C06_cage()      { zstab[Cage]() }

func C06_top() {
	switch sym.Choose("type", 12) {
	case 0:
		stab[int](nil)
	case 1:
		stab[string](nil)
	case 2:
		stab[[]byte](nil)
	case 3:
		stab[[3]byte](nil)
	case 4:
		stab[[]int16](nil)
	case 5:
		stab[[]string](nil)
	case 6:
		stab[[]Leaf](nil)
	case 7:
		stab[time.Time](nil)
	case 8:
		zstab[Dog]()
	case 9:
		zstab[Blob]()
	case 10:
		zstab[Words]()
	case 11:
		stab[[2]*Leaf](nil)
	}
}

// the registration order of unrelated types does not matter
func C06_registration_order() {
	sym.Bound("5 orders of registration")
	v := Twins{A: Twin1{sym.I64("x")}, B: []Animal{&Twin2{sym.I64("y")}, Other{"o"}}, C: Other{"p"}}
	a, err := twins(0).MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	b, err := twins(sym.Choose("order", 5)).MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(a, b), "the encoding depends on the order of registration")
}

// different values have different encodings
func C06_injective() {
	sym.Bound("two values of one type, each with one field ranging over all its values")
	f := sym.Choose("f", 6)
	var a, b any
	switch f {
	case 0:
		a, b = Ints{D: sym.I64("x")}, Ints{D: sym.I64("y")}
	case 1:
		a, b = Ints{B: sym.I16("x"), C: 1}, Ints{B: sym.I16("y"), C: sym.I32("z")}
	case 2:
		a, b = Fixed{B: sym.U64("x")}, Fixed{B: sym.U64("y")}
	case 3:
		a, b = Text{A: sym.String("x", sym.Choose("n", 3)), E: "e"}, Text{A: sym.String("y", sym.Choose("m", 3)), E: "e"}
	case 4:
		a, b = PackedLists{B: []int8{sym.I8("x"), sym.I8("y")}}, PackedLists{B: []int8{sym.I8("u"), sym.I8("v")}}
	case 5:
		a, b = TextLists{A: []string{sym.String("x", 1), sym.String("y", 1)}}, TextLists{A: []string{sym.String("z", 2)}}
	}
	ba, err := cdc.MarshalBinaryBare(a)
	sym.Assert(err == nil, "encode error")
	bb, err := cdc.MarshalBinaryBare(b)
	sym.Assert(err == nil, "encode error")
	if sym.EqBytes(ba, bb) {
		sym.Assert(sym.Same(a, b), "different values have the same encoding")
		sym.Cover("equal")
	}
}

// anything done with a codec before leaves encodings as they are
func C06_uses() {
	sym.Bound("a new codec, 2 (thorough: 3) of 16 uses of it, then the encoding and JSON of one of 14 values")
	c := zoo(false)
	uses := []func(){
		func() { c.MarshalBinaryBare(Zoo{A: Dog{Age: 1}}) },
		func() { var u Zoo; c.UnmarshalBinaryBare([]byte{0x0a, 0xff}, &u) },
		func() { c.MarshalJSON(Zoo{A: Fish(6)}) },
		func() { var u Animal; c.UnmarshalJSON([]byte(`{"type":"zoo/Fish","value":{}}`), &u) },
		func() { var u Animal; c.UnmarshalBinaryBare([]byte{1, 2, 3, 4, 5}, &u) },
		func() { c.MarshalBinaryBare(&Fixed{B: 3}) },
		func() { c.MarshalBinaryBare(FixedLists{}) },
		func() { c.MarshalJSON(Omit{}) },
		func() { sym.Try(func() { c.MarshalBinaryBare(struct{ M map[string]int }{map[string]int{"": 1}}) }) },
		func() { sym.Try(func() { c.MarshalJSON(struct{ F float64 }{1}) }) },
		func() { sym.Try(func() { c.RegisterConcrete(Dog{}, "again", nil) }) },
		func() { c.MarshalBinaryBare([]*Leaf{{A: 1}, nil}) },
		func() { p := &Leaf{A: 4}; pp := &p; c.MarshalBinaryBare(&pp) },
		func() { amino.DeepCopy(Zoo{A: Dog{Age: 1}}) },
		func() { var b bytes.Buffer; c.PrintTypes(&b) },
		func() { c.Seal() },
	}
	for i := 0; i < 2+min(sym.Tier(), 1); i++ {
		uses[sym.Choose(fmt.Sprintf("use%d", i), len(uses))]()
	}
	x := int64(smallU("x"))
	var v any
	switch sym.Choose("value", 14) {
	case 0:
		v = Dog{Age: x}
	case 1:
		v = Fish(6)
	case 2:
		v = Zoo{A: Dog{Age: x}, C: []Animal{Fish(6), nil, Dog{}}}
	case 3:
		v = Fixed{A: x, B: uint64(x)}
	case 4:
		v = FixedLists{A: []int64{x, 0}}
	case 5:
		v = Leaf{A: x}
	case 6:
		v = []Leaf{{A: x}, {}}
	case 7:
		v = []*Leaf{{A: x}, nil}
	case 8:
		v = x
	case 9:
		v = []int64{x, 0}
	case 10:
		v = []string{"", string(rune(x))}
	case 11:
		v = Cage{In: Dog{Age: x}}
	case 12:
		v = Ints{D: x}
	case 13:
		v = Nest{A: Leaf{A: x}, D: 1}
	}
	bz, err := c.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(bz, zreg.encode(v)), fmt.Sprintf("%T: the encoding depends on what the codec was used for", v))
	js, err := c.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	j2, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	sym.Assert(sym.EqBytes(js, j2), fmt.Sprintf("%T: the JSON depends on what the codec was used for", v))
	sym.Cover("used")
}
