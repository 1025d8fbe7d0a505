package h

import (
	"bytes"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// C26: several goroutines with one codec. The engine switches between them before operations on locks and atomics
// (at most preempts() times away from one that could go on) and looks for unordered accesses, deadlocks and panics;
// the harness compares every result with what the call gives on its own.

func preempts() int { return 3 + sym.Tier() }

// T26 is known to no codec in advance.
type T26 struct {
	A int16
	B *L26
	C []L26
	D string
}

type L26 struct{ X uint8 }

type M26 struct{ v int32 }

func (m M26) MarshalAmino() (L26, error)  { return L26{uint8(m.v)}, nil }
func (m *M26) UnmarshalAmino(l L26) error { m.v = int32(l.X); return nil }

type W26 struct {
	M M26
	S []M26
}

type I26 struct {
	A Animal
	S []Animal
}

func t26(name string) T26 {
	return T26{A: sym.I16(name), B: &L26{7}, C: []L26{{1}}, D: "d"}
}

func animals26() *amino.Codec {
	c := amino.NewCodec()
	c.RegisterInterface((*Animal)(nil), nil)
	c.RegisterConcrete(Dog{}, "dog", nil)
	c.RegisterConcrete(&Cat{}, "cat", nil)
	return c
}

// one26 is a call and what it gives.
type one26 struct {
	run  func(c *amino.Codec) []byte // the result as text
	want []byte
	got  []byte
}

func bin26(v any) *one26 {
	return &one26{run: func(c *amino.Codec) []byte {
		b, err := c.MarshalBinaryBare(v)
		return append(errByte(err), b...)
	}}
}

func pre26(v any) *one26 {
	return &one26{run: func(c *amino.Codec) []byte {
		var buf bytes.Buffer
		_, err := c.MarshalBinaryLengthPrefixedWriter(&buf, v)
		return append(errByte(err), buf.Bytes()...)
	}}
}

func json26(v any) *one26 {
	return &one26{run: func(c *amino.Codec) []byte {
		b, err := c.MarshalJSON(v)
		return append(errByte(err), b...)
	}}
}

func errByte(err error) []byte {
	if err != nil {
		return []byte{1}
	}
	return []byte{0}
}

// unbin26 decodes and compares with the value that was encoded.
func unbin26(enc []byte, ptr func() any, v any) *one26 {
	return &one26{run: func(c *amino.Codec) []byte {
		p := ptr()
		err := c.UnmarshalBinaryBare(enc, p)
		return append(errByte(err), boolByte(sym.Same(derefAny(p), v)))
	}}
}

func unpre26(enc []byte, ptr func() any, v any) *one26 {
	return &one26{run: func(c *amino.Codec) []byte {
		p := ptr()
		_, err := c.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(enc), p, 0)
		return append(errByte(err), boolByte(sym.Same(derefAny(p), v)))
	}}
}

func unjson26(enc []byte, ptr func() any, v any) *one26 {
	return &one26{run: func(c *amino.Codec) []byte {
		p := ptr()
		err := c.UnmarshalJSON(enc, p)
		return append(errByte(err), boolByte(sym.Same(derefAny(p), v)))
	}}
}

func boolByte(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func derefAny(p any) any { return reflect.ValueOf(p).Elem().Interface() }

// together26 runs the calls alone, each on a codec of its own, then all at once on one codec.
func together26(mk func() *amino.Codec, n int, ones ...*one26) { shared26(mk, mk(), n, ones...) }

func shared26(mk func() *amino.Codec, c *amino.Codec, n int, ones ...*one26) {
	var fs []func()
	for _, o := range ones {
		o.want = o.run(mk())
		fs = append(fs, func() { o.got = o.run(c) })
	}
	sym.Parallel(fs, n)
	for _, o := range ones {
		sym.Assert(sym.EqBytes(o.got, o.want), "a call gives another result than alone")
	}
	// the codec goes on as before
	for _, o := range ones {
		sym.Assert(sym.EqBytes(o.run(c), o.want), "a later call gives another result than alone")
	}
	sym.Cover("together")
}

func mustBin(c *amino.Codec, v any) []byte {
	b, err := c.MarshalBinaryBare(v)
	sym.Assume(err == nil)
	return b
}

func mustJSON(c *amino.Codec, v any) []byte {
	b, err := c.MarshalJSON(v)
	sym.Assume(err == nil)
	return b
}

// C26_binary: first uses of a type, encoding and decoding.
func C26_binary() {
	v, w := t26("v"), T26{300, &L26{sym.Range("w", 0, 127)}, []L26{{1}, {2}}, ""}
	enc := mustBin(amino.NewCodec(), w)
	dec := unbin26(enc, func() any { return new(T26) }, w)
	switch sym.Choose("case", 4) {
	case 0:
		together26(amino.NewCodec, preempts(), bin26(v), bin26(&w))
	case 1:
		together26(amino.NewCodec, preempts(), bin26(v), dec)
	case 2:
		together26(amino.NewCodec, preempts(), dec, unbin26(enc, func() any { return new(T26) }, w))
	case 3:
		enc := append([]byte{byte(len(enc))}, enc...)
		together26(amino.NewCodec, preempts(), pre26(v), unpre26(enc, func() any { return new(T26) }, w))
	}
}

// C26_json: the same in JSON.
func C26_json() {
	v := T26{A: 3, B: &L26{sym.U8("x")}, C: []L26{{1}}, D: "d"}
	enc := []byte(`{"A":7,"B":{"X":4},"C":[{"X":5}],"D":"e"}`)
	dec := unjson26(enc, func() any { return new(T26) }, T26{7, &L26{4}, []L26{{5}}, "e"})
	switch sym.Choose("case", 3) {
	case 0:
		together26(amino.NewCodec, preempts(), json26(v), json26(v))
	case 1:
		together26(amino.NewCodec, preempts(), json26(v), dec)
	case 2:
		together26(amino.NewCodec, preempts(), bin26(v), dec)
	}
}

// C26_custom: types with representations of their own, maps and times.
func C26_custom() {
	v := W26{M26{int32(sym.U8("m"))}, []M26{{5}, {6}}}
	m := map[string]L26{"k": {sym.U8("x")}}
	enc := mustBin(amino.NewCodec(), v)
	dec := unbin26(enc, func() any { return new(W26) }, v)
	switch sym.Choose("case", 3) {
	case 0:
		together26(amino.NewCodec, preempts(), bin26(v), dec)
	case 1:
		together26(amino.NewCodec, preempts(), json26(v), bin26(v))
	case 2:
		together26(amino.NewCodec, preempts(), json26(m), json26(L26{2}))
	}
}

// C26_interface: values of registered types in interfaces.
func C26_interface() {
	v := I26{Dog{Age: int64(sym.U8("age"))}, []Animal{&Cat{2}}}
	enc := mustBin(animals26(), v)
	dec := unbin26(enc, func() any { return new(I26) }, v)
	js := mustJSON(animals26(), I26{A: Dog{Age: 3}})
	jdec := unjson26(js, func() any { return new(I26) }, I26{A: Dog{Age: 3}})
	switch sym.Choose("case", 4) {
	case 0:
		together26(animals26, preempts(), bin26(v), dec)
	case 1:
		together26(animals26, preempts(), json26(v), jdec)
	case 2:
		together26(animals26, preempts(), dec, jdec)
	case 3:
		together26(animals26, preempts()-1, bin26(v), dec, json26(v))
	}
}

// C26_register: registrations while the codec is in use.
func C26_register() {
	v := I26{Dog{Age: 3}, nil}
	enc := mustBin(animals26(), v)
	js := mustJSON(animals26(), v)
	ones := []*one26{
		bin26(v),
		unbin26(enc, func() any { return new(I26) }, v),
		json26(v),
		unjson26(js, func() any { return new(I26) }, v),
		bin26(t26("t")),
		{run: func(c *amino.Codec) []byte {
			var buf bytes.Buffer
			err := c.PrintTypes(&buf)
			// what is there depends on when it runs
			return append(errByte(err), buf.Bytes()[:10]...)
		}},
	}
	one := ones[sym.Choose("use", len(ones))]
	var reg *one26
	k := sym.Choose("reg", 4)
	switch k {
	case 0:
		reg = &one26{run: func(c *amino.Codec) []byte { c.RegisterConcrete(Bird{}, "bird", nil); return nil }}
	case 1:
		reg = &one26{run: func(c *amino.Codec) []byte { c.RegisterInterface((*Shape)(nil), nil); return nil }}
	case 2:
		reg = &one26{run: func(c *amino.Codec) []byte { c.RegisterConcrete(Square{}, "square", nil); return nil }}
	case 3:
		reg = &one26{run: func(c *amino.Codec) []byte { c.Seal(); return nil }}
	}
	one.want = one.run(animals26())
	c := animals26()
	sym.Parallel([]func(){func() { one.got = one.run(c) }, func() { reg.run(c) }}, preempts())
	sym.Assert(sym.EqBytes(one.got, one.want), "a call gives another result than alone")
	sym.Assert(sym.EqBytes(one.run(c), one.want), "a later call gives another result than alone")
	switch k {
	case 0:
		b := mustBin(c, I26{A: Bird{}})
		var i I26
		sym.Assert(c.UnmarshalBinaryBare(b, &i) == nil, "what was registered meanwhile is not known")
		_, is := i.A.(Bird)
		sym.Assert(is, "what was registered meanwhile is not known")
	case 3:
		sym.Assert(sym.Try(func() { c.RegisterConcrete(Bird{}, "bird", nil) }), "Seal was lost")
	}
	sym.Cover("register")
}

// C26_registrations: several registrations at once are as good as one after the other.
func C26_registrations() {
	c := amino.NewCodec()
	done := make([]bool, 2)
	try := func(i int, f func()) func() {
		return func() { done[i] = !sym.Try(f) }
	}
	roundTrip := func(v Animal) {
		b, err := c.MarshalBinaryBare(I26{A: v})
		sym.Assert(err == nil, "a registered type is not known")
		var i I26
		sym.Assert(c.UnmarshalBinaryBare(b, &i) == nil && sym.Same(i.A, v), "a registered type does not come back")
		b, err = c.MarshalJSON(I26{A: v})
		sym.Assert(err == nil, "a registered type is not known")
		var j I26
		sym.Assert(c.UnmarshalJSON(b, &j) == nil && sym.Same(j.A, v), "a registered type does not come back")
	}
	iface := func() { c.RegisterInterface((*Animal)(nil), nil) }
	dog := func() { c.RegisterConcrete(Dog{}, "dog", nil) }
	switch sym.Choose("case", 6) {
	case 0: // an interface and what implements it
		sym.Parallel([]func(){try(0, iface), try(1, dog)}, preempts())
		sym.Assert(done[0] && done[1], "a registration fails")
		roundTrip(Dog{Age: 4})
	case 1: // two types
		iface()
		sym.Parallel([]func(){try(0, func() { c.RegisterConcrete(&Cat{}, "cat", nil) }), try(1, dog)}, preempts())
		sym.Assert(done[0] && done[1], "a registration fails")
		roundTrip(Dog{Age: 4})
		roundTrip(&Cat{3})
	case 2: // one name for two types
		iface()
		sym.Parallel([]func(){try(0, func() { c.RegisterConcrete(&Cat{}, "dog", nil) }), try(1, dog)}, preempts())
		sym.Assert(done[0] != done[1], "two types have one name")
		if done[1] {
			roundTrip(Dog{Age: 4})
		} else {
			roundTrip(&Cat{3})
		}
	case 3: // one type twice
		iface()
		sym.Parallel([]func(){try(0, func() { c.RegisterConcrete(Dog{}, "wolf", nil) }), try(1, dog)}, preempts())
		sym.Assert(done[0] != done[1], "one type has two names")
		roundTrip(Dog{Age: 4})
	case 4: // one interface twice
		dog()
		sym.Parallel([]func(){try(0, iface), try(1, iface)}, preempts())
		sym.Assert(done[0] != done[1], "one interface is registered twice")
		roundTrip(Dog{Age: 4})
	case 5: // sealing
		iface()
		sym.Parallel([]func(){try(0, func() { c.Seal() }), try(1, dog)}, preempts())
		sym.Assert(done[0], "Seal fails")
		if done[1] {
			roundTrip(Dog{Age: 4})
		} else {
			_, err := c.MarshalBinaryBare(I26{A: Dog{Age: 4}})
			sym.Assert(err != nil, "half of a registration was done")
		}
		sym.Assert(sym.Try(func() { c.RegisterConcrete(&Cat{}, "cat", nil) }), "Seal was lost")
	}
	sym.Cover("registrations")
}

// C26_first_or_registered: a type is used for the first time while it is registered. One of the two comes first.
func C26_first_or_registered() {
	c := amino.NewCodec()
	var b []byte
	var err error
	var failed bool
	sym.Parallel([]func(){
		func() { b, err = c.MarshalBinaryBare(L26{sym.Range("x", 1, 127)}) },
		func() { failed = sym.Try(func() { c.RegisterConcrete(L26{}, "leaf", nil) }) },
	}, preempts())
	sym.Assert(err == nil, "encoding fails")
	var l L26
	b2, err := c.MarshalBinaryBare(L26{5})
	sym.Assert(err == nil, "encoding fails")
	_, pb := disfix("leaf")
	if failed {
		sym.Assert(sym.EqBytes(b2, []byte{8, 5}), "the registration failed and left something")
	} else {
		sym.Assert(sym.EqBytes(b2, append(pb, 8, 5)), "the type was registered but is not")
	}
	sym.Assert(c.UnmarshalBinaryBare(b2, &l) == nil && l.X == 5, "the value does not come back")
	sym.Assert(!failed || len(b) < 3, "prefix bytes before a registration that failed")
	sym.Cover("first")
}

// C26_package: the functions of the package share a codec.
func C26_package() {
	v := L26{sym.U8("x")}
	bin, js, un := bin26(v), json26(v), unbin26([]byte{8, 9}, func() any { return new(L26) }, L26{9})
	pkg := func(o *one26, f func() []byte) *one26 {
		run := o.run
		o.run = func(c *amino.Codec) []byte {
			if c != nil {
				return run(c)
			}
			return f()
		}
		return o
	}
	pkg(bin, func() []byte {
		b, err := amino.MarshalBinaryBare(v)
		return append(errByte(err), b...)
	})
	pkg(js, func() []byte {
		b, err := amino.MarshalJSON(v)
		return append(errByte(err), b...)
	})
	pkg(un, func() []byte {
		var l L26
		err := amino.UnmarshalBinaryBare([]byte{8, 9}, &l)
		return append(errByte(err), boolByte(l.X == 9))
	})
	switch sym.Choose("case", 3) {
	case 0:
		shared26(amino.NewCodec, nil, preempts(), bin, un)
	case 1:
		shared26(amino.NewCodec, nil, preempts(), bin, js)
	case 2:
		shared26(amino.NewCodec, nil, preempts()-1, bin, un, js)
	}
}

// always26 is a codec whose interface always has disambiguation bytes.
func always26() *amino.Codec {
	c := amino.NewCodec()
	c.RegisterInterface((*Animal)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true})
	c.RegisterConcrete(Dog{}, "dog", nil)
	c.RegisterConcrete(&Cat{}, "cat", nil)
	return c
}

// C26_disambiguate: interface values with disambiguation bytes.
func C26_disambiguate() {
	v, w := I26{A: Dog{Age: int64(sym.U8("age"))}}, I26{A: &Cat{2}, S: []Animal{Dog{Age: 1}}}
	ptr := func() any { return new(I26) }
	one, two := unbin26(mustBin(always26(), v), ptr, v), unbin26(mustBin(always26(), w), ptr, w)
	switch sym.Choose("case", 3) {
	case 0:
		together26(always26, preempts(), one, two)
	case 1:
		together26(always26, preempts(), one, bin26(w))
	case 2:
		together26(always26, preempts(), one, &one26{run: func(c *amino.Codec) []byte {
			sym.Try(func() { c.RegisterConcrete(Bird{}, "bird", nil) })
			return nil
		}})
	}
}

// C26_refused: calls that fail, next to one that registers a type or uses one for the first time.
func C26_refused() {
	mk, other := animals26, always26
	if sym.Choose("always", 2) == 1 {
		mk, other = other, mk
	}
	fails := func(f func(c *amino.Codec) error) *one26 {
		return &one26{run: func(c *amino.Codec) []byte {
			failed := true
			if !sym.Try(func() { failed = f(c) != nil }) {
				return []byte{boolByte(failed)}
			}
			return []byte("panic")
		}}
	}
	more := func() *amino.Codec {
		c := mk()
		c.RegisterConcrete(Square{}, "square", nil)
		c.RegisterConcrete(Fish(0), "fish", nil)
		return c
	}
	var bad *one26
	switch sym.Choose("fails", 6) {
	case 0: // bytes of a type that is not registered
		enc := mustBin(more(), I26{A: Fish(3)})
		bad = fails(func(c *amino.Codec) error { return c.UnmarshalBinaryBare(enc, new(I26)) })
	case 1: // the name of one
		enc := mustJSON(more(), I26{A: Fish(3)})
		bad = fails(func(c *amino.Codec) error { return c.UnmarshalJSON(enc, new(I26)) })
	case 2: // its values
		bad = fails(func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(I26{A: Fish(3)}); return err })
	case 3:
		bad = fails(func(c *amino.Codec) error { _, err := c.MarshalJSON(I26{A: Fish(3)}); return err })
	case 4: // an interface that is not
		bad = fails(func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(struct{ S Shape }{Square{}}); return err })
	case 5: // what another codec wrote
		enc := mustBin(other(), I26{A: Dog{Age: 3}})
		bad = fails(func(c *amino.Codec) error { return c.UnmarshalBinaryBare(enc, new(I26)) })
	}
	switch sym.Choose("other", 2) {
	case 0:
		together26(mk, preempts()-1, bad, bin26(t26("t")))
	case 1:
		together26(mk, preempts()-1, bad, &one26{run: func(c *amino.Codec) []byte {
			sym.Try(func() { c.RegisterConcrete(Bird{}, "bird", nil) })
			return nil
		}})
	}
}
