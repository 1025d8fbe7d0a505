package h

import (
	"fmt"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// A model of the codec's registrations.
type regModel struct {
	types  map[reflect.Type]bool // types which are registered or were used
	ptr    map[reflect.Type]bool
	ifaces map[reflect.Type]*amino.InterfaceOptions
	order  []reflect.Type // registered concrete types
	nameOf map[reflect.Type]string
	sealed bool
}

func newModel() *regModel {
	return &regModel{types: map[reflect.Type]bool{}, ptr: map[reflect.Type]bool{},
		ifaces: map[reflect.Type]*amino.InterfaceOptions{}, nameOf: map[reflect.Type]string{}}
}

func sameBytes(a, b string) bool {
	da, pa := disfix(a)
	db, pb := disfix(b)
	return sym.EqBytes(append(da, pa...), append(db, pb...))
}

func samePrefix(a, b string) bool {
	_, pa := disfix(a)
	_, pb := disfix(b)
	return sym.EqBytes(pa, pb)
}

// conflict: the concrete types that (as pointers) implement the interface and share their prefix bytes must be
// listed by priority.
func conflict(it reflect.Type, opts *amino.InterfaceOptions, names []string, rts []reflect.Type) bool {
	for i, n := range names {
		if !reflect.PtrTo(rts[i]).Implements(it) {
			continue
		}
		for j, m := range names {
			if i == j || !reflect.PtrTo(rts[j]).Implements(it) || !samePrefix(n, m) {
				continue
			}
			found := false
			if opts != nil {
				for _, p := range opts.Priority {
					if sameBytes(p, n) {
						found = true
					}
				}
			}
			if !found {
				return true
			}
		}
	}
	return false
}

func (m *regModel) iface(it reflect.Type, opts *amino.InterfaceOptions) bool {
	if m.sealed || m.ifaces[it] != nil {
		return false
	}
	var names []string
	for _, rt := range m.order {
		names = append(names, m.nameOf[rt])
	}
	if conflict(it, opts, names, m.order) {
		return false
	}
	if opts == nil {
		opts = &amino.InterfaceOptions{}
	}
	m.ifaces[it] = opts
	return true
}

func (m *regModel) concrete(rt reflect.Type, ptr bool, name string) bool {
	if m.sealed || m.types[rt] {
		return false
	}
	var names []string
	for _, t := range m.order {
		if sameBytes(m.nameOf[t], name) {
			return false
		}
		names = append(names, m.nameOf[t])
	}
	names = append(names, name)
	rts := append(append([]reflect.Type(nil), m.order...), rt)
	for it, opts := range m.ifaces {
		if conflict(it, opts, names, rts) {
			return false
		}
	}
	m.types[rt] = true
	m.order = rts
	m.nameOf[rt], m.ptr[rt] = name, ptr
	return true
}

var regImpls = []struct {
	v    any
	body []byte // its encoding
}{{Dog{Age: 5}, []byte{16, 5}}, {&Cat{6}, []byte{8, 6}}, {Square{7}, []byte{8, 7}}, {Other{"x"}, []byte{10, 1, 120}},
	{Bee{8}, []byte{8, 8}}, {&Wasp{9}, []byte{8, 9}}}

// Bee and Wasp implement both interfaces.
type Bee struct{ A uint8 }
type Wasp struct{ A uint8 }

func (Bee) Sound() int   { return 3 }
func (Bee) Area() int    { return 3 }
func (*Wasp) Sound() int { return 4 }
func (*Wasp) Area() int  { return 4 }

// verify: the codec does what the model says.
func (m *regModel) verify(c *amino.Codec) {
	for _, impl := range regImpls {
		rt := derefT(reflect.TypeOf(impl.v))
		name, reg := m.nameOf[rt]
		var pb, db []byte
		if reg {
			db, pb = disfix(name)
		} else if !m.types[rt] {
			continue // using the type would make it known to the codec
		}
		bz, err := c.MarshalBinaryBare(impl.v)
		sym.Assert(err == nil && sym.EqBytes(bz, append(append([]byte(nil), pb...), impl.body...)), fmt.Sprintf("%T is encoded differently", impl.v))
		if a, ok := impl.v.(Animal); ok && m.ifaces[animalT] != nil {
			m.field(c, reflect.ValueOf(&struct{ X Animal }{a}).Elem(), animalT, name, reg, impl.body, db, pb)
		}
		if s, ok := impl.v.(Shape); ok && m.ifaces[shapeT] != nil {
			m.field(c, reflect.ValueOf(&struct{ X Shape }{s}).Elem(), shapeT, name, reg, impl.body, db, pb)
		}
	}
	for _, it := range []reflect.Type{animalT, shapeT} {
		if m.ifaces[it] == nil {
			var err error
			if it == animalT {
				_, err = c.MarshalBinaryBare(struct{ X Animal }{})
			} else {
				_, err = c.MarshalBinaryBare(struct{ X Shape }{})
			}
			sym.Assert(err != nil, "an interface which isn't registered is encoded")
		}
	}
}

func (m *regModel) field(c *amino.Codec, v reflect.Value, it reflect.Type, name string, reg bool, body, db, pb []byte) {
	bz, err := c.MarshalBinaryBare(v.Interface())
	if !reg {
		sym.Assert(err != nil, "an unregistered type is encoded as an interface value")
		return
	}
	shared := 0
	for _, t := range m.order {
		if reflect.PtrTo(t).Implements(it) && samePrefix(m.nameOf[t], name) {
			shared++
		}
	}
	want := append(append([]byte(nil), pb...), body...)
	if m.ifaces[it].AlwaysDisambiguate || shared > 1 {
		want = append(append([]byte{0}, db...), want...)
		sym.Cover("disambiguated")
	}
	want = len1(1, want)
	sym.Assert(err == nil && sym.EqBytes(bz, want), "an interface value is encoded differently")
	u := reflect.New(v.Type())
	err = c.UnmarshalBinaryBare(want, u.Interface())
	if rt := derefT(v.Field(0).Elem().Type()); !m.ptr[rt] && !rt.Implements(it) {
		// registered as a value, but only the pointer implements the interface
		sym.Assert(err != nil, "an interface value decodes to a type which doesn't implement it")
		return
	}
	sym.Assert(err == nil, "an interface value does not decode")
	got := u.Elem().Field(0).Elem()
	sym.Assert((got.Kind() == reflect.Ptr) == m.ptr[derefT(got.Type())], "an interface value decodes to a pointer or not as it was not registered")
	if got.Kind() == reflect.Ptr {
		got = got.Elem()
	}
	was := v.Field(0).Elem()
	if was.Kind() == reflect.Ptr {
		was = was.Elem()
	}
	sym.Assert(sym.Same(got.Interface(), was.Interface()), "an interface value decodes differently")
	sym.Cover("interface value")
}

// op does one of the operations and compares whether it panics.
func (m *regModel) op(c *amino.Codec, op int, names []string, prio []string) {
	var f func()
	ok := true
	what := ""
	reg := func(v any, n string) {
		rt := reflect.TypeOf(v)
		ptr := rt.Kind() == reflect.Ptr
		f = func() { c.RegisterConcrete(v, n, nil) }
		ok = m.concrete(derefT(rt), ptr, n)
		what = fmt.Sprintf("registering %T", v)
	}
	ifc := func(p any, o *amino.InterfaceOptions) {
		f = func() { c.RegisterInterface(p, o) }
		ok = m.iface(reflect.TypeOf(p).Elem(), o)
		what = fmt.Sprintf("registering %T", p)
	}
	switch op {
	case 0:
		reg(Dog{}, names[0])
	case 1:
		reg(&Cat{}, names[1])
	case 2:
		reg(&Dog{}, names[1])
	case 3:
		reg(Cat{}, names[0])
	case 4:
		ifc((*Animal)(nil), nil)
	case 5:
		ifc((*Animal)(nil), &amino.InterfaceOptions{Priority: prio})
	case 6:
		reg(Other{}, names[2])
	case 7:
		ifc((*Shape)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true})
	case 8:
		f = func() { sym.Assert(c.Seal() == c, "Seal returns another codec") }
		m.sealed = true
		what = "sealing"
	case 9: // a use makes the type known
		f = func() { c.MarshalBinaryBare(Dog{}) }
		m.types[reflect.TypeOf(Dog{})] = true
		what = "encoding"
	case 10:
		reg(Square{}, names[2])
	case 11:
		reg(Bee{}, names[0])
	case 12:
		reg(&Wasp{}, names[1])
	case 13:
		ifc((*Shape)(nil), nil)
	case 14:
		ifc((*Shape)(nil), &amino.InterfaceOptions{Priority: prio})
	}
	p := sym.Try(f)
	if ok {
		sym.Assert(!p, what+" panics")
	} else {
		sym.Assert(p, what+" should panic")
		sym.Cover("refused")
	}
}

const regOps = 11

func history(n int, names, prio []string) {
	c := amino.NewCodec()
	m := newModel()
	for i := 0; i < n; i++ {
		m.op(c, sym.Choose("op", regOps), names, prio)
	}
	m.verify(c)
	sym.Cover("verified")
}

// C22_history: ordinary names, one of which is used for two types
func C22_history() {
	sym.Bound("all histories of 4 (thorough: 5) of 11 operations")
	history(4+sym.Tier(), []string{nameDog, nameCat, nameOther}, []string{nameDog, nameCat})
}

// C22_twins: names with the same prefix bytes
func C22_twins() {
	sym.Bound("all histories of 4 (thorough: 5) of 11 operations")
	p := [][]string{nil, {nameTwin1}, {nameTwin2, nameTwin1}}[sym.Choose("prio", 3)]
	history(4+sym.Tier(), []string{nameTwin1, nameTwin2, nameTwin1}, p)
}

// C22_both: types which implement two interfaces, one of which may be in the way
func C22_both() {
	sym.Bound("all histories of 5 (thorough: 6) of 7 operations")
	names := [][]string{{nameTwin1, nameTwin2}, {nameTwin2, nameTwin1}}[sym.Choose("names", 2)]
	prio := [][]string{{names[0], names[1]}, {names[0]}}[sym.Choose("prio", 2)]
	c := amino.NewCodec()
	m := newModel()
	for i := 0; i < 5+sym.Tier(); i++ {
		m.op(c, []int{11, 12, 4, 5, 13, 14, 8}[sym.Choose("op", 7)], names, prio)
	}
	m.verify(c)
	sym.Cover("verified")
}

// C22_hashes: three registrations with any hashes of their names
func C22_hashes() {
	sym.Bound("all hashes of three names (fewer than 2 zero bytes skipped), 3 registrations for two interfaces")
	names := []string{symName("a"), symName("b"), symName("c")}
	for _, n := range names {
		h := sym.HashBytes(n)
		sym.Assume(sym.And(h[0] != 0, h[3] != 0)) // see C15
	}
	c := amino.NewCodec()
	m := newModel()
	prio := [][]string{nil, {names[0], names[1]}, {names[2], names[0], names[1]}}[sym.Choose("prio", 3)]
	ops := [][]int{{4, 0, 1, 6}, {0, 1, 6, 4}, {5, 0, 1, 6}, {0, 5, 1, 6}, {0, 1, 6, 5}, {7, 6, 10, 5}, {0, 1, 4, 6}}[sym.Choose("ops", 7)]
	for _, op := range ops {
		m.op(c, op, names, prio)
	}
	m.verify(c)
	sym.Cover("verified")
}

// C22_others: what can never be registered
func C22_others() {
	c := amino.NewCodec()
	c.RegisterInterface((*Animal)(nil), nil)
	c.RegisterConcrete(Dog{}, nameDog, nil)
	p := &Dog{}
	var a Animal = Dog{}
	fs := []func(){
		func() { c.RegisterConcrete(&p, "x", nil) },
		func() { c.RegisterConcrete(&a, "x", nil) },
		func() { c.RegisterInterface(Dog{}, nil) },
		func() { c.RegisterInterface(&Dog{}, nil) },
		func() { c.RegisterInterface((*Animal)(nil), nil) },
		func() { c.RegisterConcrete(Dog{}, "y", nil) },
		func() { c.RegisterConcrete(Fish(0), nameDog, nil) },
		func() { c.RegisterConcrete(struct{ A float64 }{}, "z", nil) },
	}
	i := sym.Choose("what", len(fs))
	sym.Assert(sym.Try(fs[i]), "a registration which makes no sense is accepted")
	m := newModel()
	m.iface(animalT, nil)
	m.concrete(reflect.TypeOf(Dog{}), false, nameDog)
	m.verify(c)
	c.RegisterConcrete(Fish(0), "x", nil)
	bz, err := c.MarshalBinaryBare(Fish(1))
	_, pb := disfix("x")
	sym.Assert(err == nil && sym.EqBytes(bz, append(pb, 8, 1)), "the name of a refused registration is taken")
}
