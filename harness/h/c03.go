package h

import (
	"fmt"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

func C03_zoo()      { roundTrip[Zoo](zcdc, nil) }
func C03_dzoo()     { roundTrip[Zoo](dcdc, nil) }
func C03_cage()     { roundTrip[Cage](zcdc, nil) }
func C03_dcage()    { roundTrip[Cage](dcdc, nil) }
func C03_herd()     { roundTrip[Herd](zcdc, nil) }
func C03_both()     { roundTrip[Both](zcdc, nil) }
func C03_animals()  { roundTrip[[]Animal](zcdc, nil) }
func C03_array()    { roundTrip[[2]Animal](dcdc, nil) }
func C03_mix_zoo()  { mixedTrip[Zoo](zcdc, nil) }
func C03_mix_dzoo() { mixedTrip[Zoo](dcdc, nil) }
func C03_mix_herd() { mixedTrip[Herd](dcdc, nil) }
func C03_mix_cage() { mixedTrip[Cage](zcdc, nil) }

// registered concrete types as top-level values, decoded into their own type
func C03_concrete() {
	c := zcdc
	if sym.Choose("codec", 2) == 1 {
		c = dcdc
	}
	switch sym.Choose("type", 12) {
	case 0:
		roundTrip[Dog](c, nil)
	case 1:
		roundTrip[Cat](c, nil)
	case 2:
		roundTrip[Fish](c, nil)
	case 3:
		roundTrip[Tag](c, nil)
	case 4:
		roundTrip[Blob](c, nil)
	case 5:
		roundTrip[Data](c, nil)
	case 6:
		roundTrip[Nums](c, nil)
	case 7:
		roundTrip[Words](c, nil)
	case 8:
		roundTrip[Pack](c, nil)
	case 9:
		roundTrip[Square](c, nil)
	case 10:
		roundTrip[Bird](c, nil)
	case 11:
		roundTrip[*Dog](c, func(g *generator) { g.noNilPtr = true })
	}
}

// a registered concrete value decoded into an interface variable
func C03_into_interface() {
	sym.Bound(genBound)
	c := zcdc
	if sym.Choose("codec", 2) == 1 {
		c = dcdc
	}
	g := newGen()
	if sym.Choose("iface", 2) == 0 {
		v := g.animal("v", gFull)
		sym.Assume(v != nil)
		bz, err := c.MarshalBinaryBare(v)
		sym.Assert(err == nil, "encode error")
		var u Animal
		err = c.UnmarshalBinaryBare(bz, &u)
		sym.Observe("err", err)
		sym.Assert(err == nil, fmt.Sprintf("cannot decode a %T into an interface", v))
		want := norm(reflect.ValueOf(&v).Elem(), fopt{num: 1}).Interface()
		sym.Assert(sym.Same(want, u), fmt.Sprintf("%T: decoded into an interface differs", v))
		return
	}
	v := g.shape("v", gFull)
	sym.Assume(v != nil)
	bz, err := c.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	var u Shape
	err = c.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, fmt.Sprintf("cannot decode a %T into an interface", v))
	want := norm(reflect.ValueOf(&v).Elem(), fopt{num: 1}).Interface()
	sym.Assert(sym.Same(want, u), fmt.Sprintf("%T: decoded into an interface differs", v))
}

// a pointer to an interface variable, decoded into an interface variable
func C03_interface_variable() {
	c := zcdc
	if sym.Choose("codec", 2) == 1 {
		c = dcdc
	}
	v := newGen().animal("v", gSmall)
	sym.Assume(v != nil)
	bz, err := c.MarshalBinaryBare(&v)
	sym.Assert(err == nil, "encode error")
	var u Animal
	if c.UnmarshalBinaryBare(bz, &u) != nil {
		sym.Known("interface-variable")
	}
	want := norm(reflect.ValueOf(&v).Elem(), fopt{num: 1}).Interface()
	sym.Assert(sym.Same(want, u), fmt.Sprintf("%T: decoded into an interface differs", v))
}

// ---- concrete types whose names have the same prefix bytes

type (
	Twin1 struct{ A int64 }
	Twin2 struct{ A int64 }
	Twin3 int32
	Other struct{ B string }
)

func (Twin1) Sound() int  { return 21 }
func (*Twin2) Sound() int { return 22 }
func (Twin3) Area() int   { return 23 }
func (Other) Sound() int  { return 24 }
func (Other) Area() int   { return 24 }

// same prefix bytes
const (
	nameTwin1 = "c/12560"
	nameTwin2 = "c/81969"
	// leading zero bytes in the hash
	nameOther = "z/21048"
)

func twins(order int) *amino.Codec {
	c := amino.NewCodec()
	regs := []func(){
		func() {
			c.RegisterInterface((*Animal)(nil), &amino.InterfaceOptions{Priority: []string{nameTwin1, nameTwin2}})
		},
		func() { c.RegisterConcrete(Twin1{}, nameTwin1, nil) },
		func() { c.RegisterConcrete(&Twin2{}, nameTwin2, nil) },
		func() { c.RegisterConcrete(Other{}, nameOther, nil) },
		func() { c.RegisterInterface((*Shape)(nil), nil) },
	}
	for i := range regs {
		regs[(i+order)%len(regs)]()
	}
	return c
}

type Twins struct {
	A Animal
	B []Animal
	C Shape
	D int8
}

func C03_twins() {
	sym.Bound("three concrete types, two with the same prefix bytes, registered in 5 orders")
	c := twins(sym.Choose("order", 5))
	mk := func(name string) Animal {
		switch sym.Choose(name, 5) {
		case 0:
			return Twin1{sym.I64(name)}
		case 1:
			return &Twin2{sym.I64(name)}
		case 2:
			return Other{sym.String(name, 2)}
		case 3:
			return &Twin1{7}
		}
		return nil
	}
	v := Twins{A: mk("a"), D: 5}
	if sym.Choose("list", 2) == 1 {
		v.B = []Animal{mk("b0"), Twin1{3}}
	}
	if sym.Choose("shape", 2) == 1 {
		v.C = Other{"x"}
	}
	bz, err := c.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	sym.Observe("bz", bz)
	var u Twins
	err = c.UnmarshalBinaryBare(bz, &u)
	sym.Assert(err == nil, "cannot decode types with the same prefix bytes")
	sym.Assert(u.D == 5 && len(u.B) == len(v.B), "decoded value differs")
	same := func(a, b Animal) bool {
		if p, ok := a.(*Twin1); ok {
			a = *p
		}
		return sym.Same(a, b)
	}
	sym.Assert(same(v.A, u.A), "interface value differs")
	for i := range v.B {
		sym.Assert(same(v.B[i], u.B[i]), "interface element differs")
	}
	sym.Assert(sym.Same(v.C, u.C), "interface value differs")
	sym.Cover("twins")
}

// one of the twins alone: it is decoded to its own type; an interface variable can't hold it
func C03_twin_alone() {
	c := twins(sym.Choose("order", 5))
	t := Twin1{sym.I64("a")}
	bz, err := c.MarshalBinaryBare(t)
	sym.Assert(err == nil, "encode error")
	var u Twin1
	sym.Assert(c.UnmarshalBinaryBare(bz, &u) == nil, "cannot decode a registered type")
	sym.Assert(u == t, "decoded value differs")
	var i Animal
	if c.UnmarshalBinaryBare(bz, &i) != nil {
		sym.Known("shared-prefix-alone")
	}
	sym.Assert(sym.Same(i, Animal(t)), "decoded into an interface differs")
}

// values which cannot be encoded as interface values are refused
func C03_unregistered() {
	c := amino.NewCodec()
	if sym.Choose("iface", 2) == 1 {
		c.RegisterInterface((*Animal)(nil), nil)
		c.RegisterConcrete(Dog{}, nameDog, nil)
	}
	var v any
	switch sym.Choose("value", 3) {
	case 0:
		v = Cage{In: Fish(sym.I64("x"))}
	case 1:
		v = Zoo{C: []Animal{Fish(sym.I64("x"))}}
	case 2:
		v = Cage{In: &Cat{sym.U8("x")}}
	}
	bz, err := c.MarshalBinaryBare(v)
	sym.Assert(err != nil && len(bz) == 0, "an unregistered type is encoded")
}
