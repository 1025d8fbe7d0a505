package h

import (
	"fmt"
	"reflect"

	"aminoharness/sym"
)

const jsonBound = "one field (list element, map entry, pointer target) at a time ranges over all its values, the rest is all default or all small non-default; " +
	"all integers, booleans and texts of one character (and ASCII after another one), byte strings of 0 to 4 bytes, lists and maps of up to 2 elements, 17 floats, 15 times with any two digits of the fraction"

func newJGen() *generator {
	g := newGen()
	g.json = true
	g.lens = []int{0, 1, 2, 3, 4}
	if sym.Tier() > 0 {
		g.lens = []int{0, 1, 2, 3, 4, 5, 6, 7}
	}
	return g
}

// jsonTrip: decoding the JSON of v gives v again (up to what the format does not distinguish).
func jsonTrip[T any]() {
	sym.Bound(jsonBound)
	g := newJGen()
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	bz, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	sym.Observe("bz", bz)
	var u T
	err = jcdc.UnmarshalJSON(bz, &u)
	sym.Observe("err", err)
	sym.Assert(err == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
	want := jnorm(reflect.ValueOf(&v).Elem()).Interface()
	sym.Assert(sym.Same(want, u), fmt.Sprintf("%T: decoded value differs from the encoded one", v))
	sym.Cover("round trip")
}

func C18_ints()     { jsonTrip[Ints]() }
func C18_uints()    { jsonTrip[Uints]() }
func C18_fixed()    { jsonTrip[Fixed]() }
func C18_floats()   { jsonTrip[Options]() }
func C18_text()     { jsonTrip[Text]() }
func C18_ptrs()     { jsonTrip[Ptrs]() }
func C18_nest()     { jsonTrip[Nest]() }
func C18_deep()     { jsonTrip[Deep]() }
func C18_named()    { jsonTrip[Named]() }
func C18_octets()   { jsonTrip[Octets]() }
func C18_embedded() { jsonTrip[Embedded]() }
func C18_tagged()   { jsonTrip[Tagged]() }
func C18_wempty()   { jsonTrip[WriteEmpty]() }
func C18_node()     { jsonTrip[Node]() }
func C18_empty()    { jsonTrip[HoldsEmpty]() }
func C18_maps()     { jsonTrip[Maps]() }
func C18_omit()     { jsonTrip[Omit]() }
func C18_jlists()   { jsonTrip[JLists]() }
func C18_keys()     { jsonTrip[Keys]() }
func C18_packed()   { jsonTrip[PackedLists]() }
func C18_texts()    { jsonTrip[TextLists]() }
func C18_structs()  { jsonTrip[StructLists]() }
func C18_rich()     { jsonTrip[RichLists]() }
func C18_plists()   { jsonTrip[PtrLists]() }
func C18_alists()   { jsonTrip[ArrayLists]() }
func C18_nlists()   { jsonTrip[NamedLists]() }
func C18_inlists()  { jsonTrip[ListsInLists]() }
func C18_arrays()   { jsonTrip[Arrays]() }
func C18_times()    { jsonTrip[Times]() }
func C18_tlists()   { jsonTrip[TimeLists]() }
func C18_zoo()      { jsonTrip[Zoo]() }
func C18_herd()     { jsonTrip[Herd]() }

func C18_top() {
	jTop(func(p any) {
		rv := reflect.ValueOf(p).Elem()
		bz, err := jcdc.MarshalJSON(rv.Interface())
		sym.Assert(err == nil, "encode error")
		u := reflect.New(rv.Type())
		err = jcdc.UnmarshalJSON(bz, u.Interface())
		sym.Assert(err == nil, fmt.Sprintf("%v: cannot decode what was encoded", rv.Type()))
		want := jnorm(rv).Interface()
		sym.Assert(sym.Same(want, u.Elem().Interface()), fmt.Sprintf("%v: decoded value differs from the encoded one", rv.Type()))
		if animalNames[rv.Type()] != "" { // also as an interface, and through a pointer
			var a Animal
			err = jcdc.UnmarshalJSON(bz, &a)
			sym.Assert(err == nil, fmt.Sprintf("%v: cannot decode into an interface what was encoded", rv.Type()))
			ra := reflect.ValueOf(p).Convert(animalT)
			h := reflect.New(animalT).Elem()
			h.Set(ra)
			sym.Assert(sym.Same(jnorm(h).Interface(), a), fmt.Sprintf("%v: decoded interface value differs from the encoded one", rv.Type()))
			q := reflect.New(u.Type())
			err = jcdc.UnmarshalJSON(bz, q.Interface())
			sym.Assert(err == nil, fmt.Sprintf("%v: cannot decode into a pointer what was encoded", rv.Type()))
			sym.Assert(sym.Same(want, q.Elem().Elem().Interface()), fmt.Sprintf("%v: value decoded into a pointer differs", rv.Type()))
		}
		sym.Cover("round trip")
	})
}

// types with their own JSON
func C18_custom() {
	v, _ := genCustoms()
	bz, err := ccdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	var u Customs
	err = ccdc.UnmarshalJSON(bz, &u)
	sym.Assert(err == nil, "cannot decode what was encoded")
	if v.D == nil {
		v.D = map[string]JNum{}
	}
	if v.H == nil {
		v.H = map[string]*JPtr{}
	}
	sym.Assert(sym.Same(v, u), "decoded value differs from the encoded one")
	sym.Cover("round trip")
}
