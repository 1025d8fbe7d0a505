package h

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// slices of the value that are reached without following a pointer or an interface, and what they hold
func slicesIn(rv reflect.Value, f func(s reflect.Value)) {
	switch rv.Kind() {
	case reflect.Struct:
		if rv.Type() == timeT {
			return
		}
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" {
				slicesIn(rv.Field(i), f)
			}
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			slicesIn(rv.Index(i), f)
		}
	case reflect.Slice:
		if !rv.IsNil() {
			f(rv)
			for i := 0; i < rv.Len(); i++ {
				slicesIn(rv.Index(i), f)
			}
		}
	}
}

// hasIface: there is an interface value which decoding might reuse.
func hasIface(rv reflect.Value) bool {
	switch rv.Kind() {
	case reflect.Interface:
		return !rv.IsNil()
	case reflect.Ptr:
		return !rv.IsNil() && hasIface(rv.Elem())
	case reflect.Struct:
		if rv.Type() == timeT {
			return false
		}
		for i := 0; i < rv.NumField(); i++ {
			if hasIface(rv.Field(i)) {
				return true
			}
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			if hasIface(rv.Index(i)) {
				return true
			}
		}
	}
	return false
}

func decodeHow(c *amino.Codec, how int, bz []byte, p any) error {
	switch how {
	case 0:
		return c.UnmarshalBinaryBare(bz, p)
	case 1:
		return c.UnmarshalBinaryLengthPrefixed(bz, p)
	}
	_, err := c.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), p, 0)
	return err
}

// reuse: decoding bz into a used variable gives what decoding into a fresh one gives.
func reuse[T any](c *amino.Codec, how int, bz []byte, dirty T) {
	var fresh T
	ferr := decodeHow(c, how, bz, &fresh)
	full := hasIface(reflect.ValueOf(&dirty).Elem())
	var held []reflect.Value
	var was []any
	slicesIn(reflect.ValueOf(&dirty).Elem(), func(s reflect.Value) {
		h := reflect.New(s.Type()).Elem()
		h.Set(s.Slice(0, s.Cap()))
		held = append(held, h)
		flat := reflect.MakeSlice(s.Type(), s.Cap(), s.Cap())
		reflect.Copy(flat, h)
		was = append(was, flat.Interface())
	})
	err := decodeHow(c, how, bz, &dirty)
	sym.Observe("err", err)
	if full {
		// interface values in the destination may be refused
		if err != nil {
			sym.Cover("refused")
			return
		}
		sym.Assert(ferr == nil, fmt.Sprintf("%T: accepted only by a variable in use", dirty))
	} else {
		sym.Assert((err == nil) == (ferr == nil), fmt.Sprintf("%T: refused or not by what the variable holds", dirty))
	}
	for i, h := range held {
		sym.Assert(sameFlat(h, reflect.ValueOf(was[i])), fmt.Sprintf("%T: a slice of the old value is written through", dirty))
	}
	if err != nil {
		return
	}
	sym.Assert(same(fresh, dirty), fmt.Sprintf("%T: the decoded value depends on what the variable held", dirty))
	for _, h := range held { // no sharing
		scribbleFlat(h)
	}
	sym.Assert(sym.Same(fresh, dirty), fmt.Sprintf("%T: a slice of the old value is part of the new one", dirty))
	sym.Cover("same")
}

// sameFlat compares the elements, pointers by identity.
func sameFlat(a, b reflect.Value) bool {
	for i := 0; i < a.Len(); i++ {
		switch a.Type().Elem().Kind() {
		case reflect.Ptr:
			if a.Index(i).Interface() != b.Index(i).Interface() {
				return false
			}
		case reflect.Slice:
			x, y := a.Index(i), b.Index(i)
			if x.IsNil() != y.IsNil() || x.Len() != y.Len() {
				return false
			}
			if x.Len() > 0 && x.Index(0).Addr().Interface() != y.Index(0).Addr().Interface() {
				return false
			}
		default:
			if !sym.Same(a.Index(i).Interface(), b.Index(i).Interface()) {
				return false
			}
		}
	}
	return true
}

func scribbleFlat(h reflect.Value) {
	for i := 0; i < h.Len(); i++ {
		switch h.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice:
			h.Index(i).Set(reflect.Zero(h.Type().Elem()))
		default:
			scribble(h.Index(i))
		}
	}
}

// reused: the encoding or the old contents range over one field's values at a time.
func reused[T any](c *amino.Codec, tweak func(g *generator)) {
	sym.Bound("the encoded value or the variable's old contents have one field at a time ranging over all its values, the other is the zero value or all small non-default values; slices have room behind their end; lengths up to 2")
	gv, gd := newGen(), newGen()
	gv.lens, gd.lens = []int{0, 1, 2}, []int{0, 1, 2}
	gd.spare = true
	if tweak != nil {
		tweak(gv)
		tweak(gd)
	}
	var v, dirty T
	switch sym.Choose("mode", 4) {
	case 0:
		gv.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
		gd.fill(reflect.ValueOf(&dirty).Elem(), "dirty", gSmall)
	case 1:
		gv.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
		// two elements in every list, pointers to them
		gd.fill(reflect.ValueOf(&dirty).Elem(), "dirty", gSmall)
		double(reflect.ValueOf(&dirty).Elem())
	case 2:
		sym.Assume(reflect.TypeOf(v).Kind() != reflect.Ptr) // nil cannot be encoded
		gd.fill(reflect.ValueOf(&dirty).Elem(), "dirty", gFull)
		gv.fill(reflect.ValueOf(&v).Elem(), "v", gZero)
	case 3:
		gd.fill(reflect.ValueOf(&dirty).Elem(), "dirty", gFull)
		gv.fill(reflect.ValueOf(&v).Elem(), "v", gSmall)
	}
	how := sym.Choose("how", 2+sym.Tier())
	bz, err := encodeBy(c, how, v)
	sym.Assert(err == nil, "encode error")
	if hasIface(reflect.ValueOf(&dirty).Elem()) && sym.Choose("ifaces", 2) == 0 {
		dropIfaces(reflect.ValueOf(&dirty).Elem())
	}
	if t, ok := any(&dirty).(*Tagged); ok {
		t.C = "" // never encoded, and left alone
	}
	reuse(c, how, bz, dirty)
}

// double appends a zero element to every list.
func double(rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Struct:
		if rv.Type() == timeT {
			return
		}
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" {
				double(rv.Field(i))
			}
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			double(rv.Elem())
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			double(rv.Index(i))
		}
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			double(rv.Index(i))
		}
		rv.Set(reflect.Append(rv, reflect.Zero(rv.Type().Elem())))
	case reflect.Map:
		if rv.IsNil() {
			rv.Set(reflect.MakeMap(rv.Type()))
		}
		rv.SetMapIndex(reflect.ValueOf("another").Convert(rv.Type().Key()), reflect.Zero(rv.Type().Elem()))
	}
}

// dropIfaces sets all interface values to nil.
func dropIfaces(rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Interface:
		rv.Set(reflect.Zero(rv.Type()))
	case reflect.Struct:
		if rv.Type() == timeT {
			return
		}
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" {
				dropIfaces(rv.Field(i))
			}
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			dropIfaces(rv.Elem())
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			dropIfaces(rv.Index(i))
		}
	}
}

func C24_ints()     { reused[Ints](cdc, nil) }
func C24_fixed()    { reused[Fixed](cdc, nil) }
func C24_floats()   { reused[Floats](cdc, nil) }
func C24_text()     { reused[Text](cdc, nil) }
func C24_ptrs()     { reused[Ptrs](cdc, nil) }
func C24_nest()     { reused[Nest](cdc, nil) }
func C24_deep()     { reused[Deep](cdc, nil) }
func C24_named()    { reused[Named](cdc, nil) }
func C24_octets()   { reused[Octets](cdc, nil) }
func C24_embedded() { reused[Embedded](cdc, nil) }
func C24_tagged()   { reused[Tagged](cdc, nil) }
func C24_wempty()   { reused[WriteEmpty](cdc, nil) }
func C24_wide()     { reused[Wide](cdc, nil) }
func C24_node()     { reused[Node](cdc, nil) }
func C24_empty()    { reused[HoldsEmpty](cdc, nil) }
func C24_packed()   { reused[PackedLists](cdc, nil) }
func C24_fixeds()   { reused[FixedLists](cdc, nil) }
func C24_texts()    { reused[TextLists](cdc, nil) }
func C24_structs()  { reused[StructLists](cdc, fullEmpty) }
func C24_rich()     { reused[RichLists](cdc, nil) }
func C24_plists()   { reused[PtrLists](cdc, nil) }
func C24_alists()   { reused[ArrayLists](cdc, nil) }
func C24_tlists()   { reused[TimeLists](cdc, nil) }
func C24_nlists()   { reused[NamedLists](cdc, nil) }
func C24_lists()    { reused[ListsInLists](cdc, nil) }
func C24_arrays()   { reused[Arrays](cdc, nil) }
func C24_times()    { reused[Times](cdc, nil) }
func C24_zoo()      { reused[Zoo](zcdc, nil) }
func C24_dzoo()     { reused[Zoo](dcdc, nil) }
func C24_herd()     { reused[Herd](zcdc, nil) }
func C24_both()     { reused[Both](zcdc, nil) }

func C24_top() {
	switch sym.Choose("type", 31) {
	case 0:
		reused[[]byte](cdc, nil)
	case 1:
		reused[[4]byte](cdc, nil)
	case 2:
		reused[[]string](cdc, nil)
	case 3:
		reused[[]int64](cdc, nil)
	case 4:
		reused[[]Leaf](cdc, nil)
	case 5:
		reused[[][]byte](cdc, nil)
	case 6:
		reused[Data](zcdc, nil)
	case 7:
		reused[[]time.Time](cdc, nil)
	case 8:
		reused[time.Time](cdc, nil)
	case 9:
		reused[string](cdc, nil)
	case 10:
		reused[int64](cdc, nil)
	case 11:
		reused[bool](cdc, nil)
	case 12:
		reused[*Leaf](cdc, func(g *generator) { g.noNilPtr = true })
	case 13:
		reused[[2]*Leaf](cdc, nil)
	case 14:
		reused[[]*Leaf](cdc, nil)
	case 15:
		reused[Pack](zcdc, nil)
	case 16:
		reused[Bird](zcdc, nil)
	case 17:
		reused[[2]Animal](zcdc, nil)
	case 18:
		reused[*[]int64](cdc, func(g *generator) { g.noNilPtr = true })
	case 19:
		reused[*[]string](cdc, func(g *generator) { g.noNilPtr = true })
	case 20:
		reused[*[]Leaf](cdc, func(g *generator) { g.noNilPtr = true })
	case 21:
		reused[*[2]string](cdc, func(g *generator) { g.noNilPtr = true })
	case 22:
		reused[*[1]Leaf](cdc, func(g *generator) { g.noNilPtr = true })
	case 23:
		reused[*[]byte](cdc, func(g *generator) { g.noNilPtr = true })
	case 24:
		reused[**string](cdc, func(g *generator) { g.noNilPtr = true })
	case 25:
		reused[*[]*Leaf](cdc, func(g *generator) { g.noNilPtr = true })
	case 26:
		reused[*Data](zcdc, func(g *generator) { g.noNilPtr = true })
	case 27:
		reused[*[]Animal](zcdc, func(g *generator) { g.noNilPtr = true })
	case 28:
		reused[*time.Time](cdc, func(g *generator) { g.noNilPtr = true })
	case 29:
		reused[*[3]byte](cdc, func(g *generator) { g.noNilPtr = true })
	case 30:
		reused[**uint16](cdc, func(g *generator) { g.noNilPtr = true })
	}
}

// any input, whether it is a complete encoding or not
func anyReused[T any](c *amino.Codec, bz []byte) {
	g := newGen()
	g.spare = true
	var dirty T
	g.fill(reflect.ValueOf(&dirty).Elem(), "dirty", gSmall)
	if sym.Choose("double", 2) == 1 {
		double(reflect.ValueOf(&dirty).Elem())
	}
	dropIfaces(reflect.ValueOf(&dirty).Elem())
	reuse(c, 0, bz, dirty)
}

func C24_any_ints()    { anyReused[Ints](cdc, anyBytes(3+sym.Tier())) }
func C24_any_text()    { anyReused[Text](cdc, anyBytes(3+sym.Tier())) }
func C24_any_ptrs()    { anyReused[Ptrs](cdc, anyBytes(3+sym.Tier())) }
func C24_any_texts()   { anyReused[TextLists](cdc, anyBytes(3+sym.Tier())) }
func C24_any_arrays()  { anyReused[Arrays](cdc, anyBytes(3+sym.Tier())) }
func C24_any_zoo()     { anyReused[Zoo](zcdc, anyBytes(3+sym.Tier())) }
func C24_mut_ptrs()    { anyReused[Ptrs](cdc, mutant(noreg.encode(smallValue[Ptrs]()))) }
func C24_mut_structs() { anyReused[StructLists](cdc, mutant(noreg.encode(smallValue[StructLists]()))) }
func C24_mut_arrays()  { anyReused[Arrays](cdc, mutant(noreg.encode(smallValue[Arrays]()))) }
func C24_mut_times()   { anyReused[TimeLists](cdc, mutant(noreg.encode(smallValue[TimeLists]()))) }
func C24_mut_nest()    { anyReused[Nest](cdc, mutant(noreg.encode(smallValue[Nest]()))) }

// a variable which is used again and again
func C24_again() {
	sym.Bound("three encodings, each with two fields ranging over all their values, one after another")
	var u Nest
	for i := 0; i < 3; i++ {
		var v Nest
		switch sym.Choose("shape", 4) {
		case 0:
		case 1:
			v = smallNest(i)
		case 2:
			v = smallNest(i)
			dropHalf(reflect.ValueOf(&v).Elem(), 0)
		case 3:
			v = smallNest(i)
			dropHalf(reflect.ValueOf(&v).Elem(), 1)
		}
		bz, err := cdc.MarshalBinaryBare(v)
		sym.Assert(err == nil, "encode error")
		var fresh Nest
		sym.Assert(cdc.UnmarshalBinaryBare(bz, &fresh) == nil, "decode error")
		sym.Assert(cdc.UnmarshalBinaryBare(bz, &u) == nil, "decode error")
		sym.Assert(same(fresh, u), "the decoded value depends on what the variable held")
	}
	sym.Cover("again")
}

func smallNest(i int) (v Nest) {
	g := newGen()
	g.fill(reflect.ValueOf(&v).Elem(), fmt.Sprintf("v%d", i), gSmall)
	return
}

// dropHalf resets every other field.
func dropHalf(rv reflect.Value, odd int) {
	for i := 0; i < rv.NumField(); i++ {
		if i%2 == odd && rv.Type().Field(i).PkgPath == "" {
			rv.Field(i).Set(reflect.Zero(rv.Field(i).Type()))
		}
	}
}

// reusedMix: every pattern of what is present, decoded into a variable full of values.
func reusedMix[T any](c *amino.Codec, tweak func(g *generator)) {
	sym.Bound(mixBound + ", decoded into a variable with two or more elements in every list")
	gv, gd := newGen(), newGen()
	gd.spare = true
	if tweak != nil {
		tweak(gv)
		tweak(gd)
	}
	var v, dirty T
	gv.mix(reflect.ValueOf(&v).Elem())
	gd.fill(reflect.ValueOf(&dirty).Elem(), "dirty", gSmall)
	for i := sym.Choose("grow", 2) * 4; i >= 0; i-- {
		double(reflect.ValueOf(&dirty).Elem())
	}
	bz, err := c.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	dropIfaces(reflect.ValueOf(&dirty).Elem())
	if t, ok := any(&dirty).(*Tagged); ok {
		t.C = "" // never encoded, and left alone
	}
	reuse(c, 0, bz, dirty)
}

func C24_mix_ints()     { reusedMix[Ints](cdc, nil) }
func C24_mix_fixed()    { reusedMix[Fixed](cdc, nil) }
func C24_mix_text()     { reusedMix[Text](cdc, nil) }
func C24_mix_ptrs()     { reusedMix[Ptrs](cdc, nil) }
func C24_mix_nest()     { reusedMix[Nest](cdc, nil) }
func C24_mix_embedded() { reusedMix[Embedded](cdc, nil) }
func C24_mix_tagged()   { reusedMix[Tagged](cdc, nil) }
func C24_mix_wempty()   { reusedMix[WriteEmpty](cdc, nil) }
func C24_mix_packed()   { reusedMix[PackedLists](cdc, nil) }
func C24_mix_fixeds()   { reusedMix[FixedLists](cdc, nil) }
func C24_mix_texts()    { reusedMix[TextLists](cdc, nil) }
func C24_mix_structs()  { reusedMix[StructLists](cdc, fullEmpty) }
func C24_mix_rich()     { reusedMix[RichLists](cdc, nil) }
func C24_mix_plists()   { reusedMix[PtrLists](cdc, nil) }
func C24_mix_alists()   { reusedMix[ArrayLists](cdc, nil) }
func C24_mix_tlists()   { reusedMix[TimeLists](cdc, nil) }
func C24_mix_nlists()   { reusedMix[NamedLists](cdc, nil) }
func C24_mix_arrays()   { reusedMix[Arrays](cdc, nil) }
func C24_mix_wlists()   { reusedMix[WideLists](cdc, nil) }
func C24_mix_times()    { reusedMix[Times](cdc, nil) }
func C24_mix_zoo()      { reusedMix[Zoo](zcdc, nil) }
func C24_mix_herd()     { reusedMix[Herd](dcdc, nil) }

// ---- JSON

// jsonReused: decoding the JSON of a value into a variable in use gives what decoding it into a fresh one gives.
func jsonReused[T any]() {
	sym.Bound("the encoded value or the variable's old contents have one field at a time ranging over all its values, the other is the zero value or all small non-default values; " + jsonBound)
	gv, gd := newJGen(), newJGen()
	gv.lens, gd.lens = []int{0, 1, 2}, []int{0, 1, 2}
	gv.plain, gd.plain = true, true
	var v, dirty T
	rv, rd := reflect.ValueOf(&v).Elem(), reflect.ValueOf(&dirty).Elem()
	switch sym.Choose("mode", 3) {
	case 0:
		gv.fill(rv, "v", gFull)
		gd.fill(rd, "dirty", gSmall)
		double(rd)
	case 1:
		gd.fill(rd, "dirty", gFull)
		gv.fill(rv, "v", gZero)
	case 2:
		gd.fill(rd, "dirty", gFull)
		gv.fill(rv, "v", gSmall)
	}
	jsonReuse(v, dirty)
}

// jsonReusedMix: every pattern of what is there.
func jsonReusedMix[T any]() {
	sym.Bound(mixBound + ", decoded into a variable with two or more elements in every list and map")
	gv, gd := newJGen(), newJGen()
	var v, dirty T
	gv.mix(reflect.ValueOf(&v).Elem())
	gd.fill(reflect.ValueOf(&dirty).Elem(), "dirty", gSmall)
	for i := sym.Choose("grow", 2) * 4; i >= 0; i-- {
		double(reflect.ValueOf(&dirty).Elem())
	}
	jsonReuse(v, dirty)
}

func jsonReuse[T any](v, dirty T) {
	bz, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	var fresh T
	sym.Assert(jcdc.UnmarshalJSON(bz, &fresh) == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
	was := cloneOf(dirty)
	sym.Assert(jcdc.UnmarshalJSON(bz, &dirty) == nil, fmt.Sprintf("%T: a variable in use refuses what a fresh one accepts", v))
	if rf := reflect.ValueOf(&fresh).Elem(); rf.Kind() == reflect.Struct {
		rd, rw := reflect.ValueOf(&dirty).Elem(), reflect.ValueOf(&was).Elem()
		for i := 0; i < rf.NumField(); i++ {
			f := rf.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			d, w := rd.Field(i).Interface(), rw.Field(i).Interface()
			switch {
			case f.Tag.Get("json") == "-":
				sym.Assert(sym.Same(d, w), fmt.Sprintf("%T: a field which isn't encoded is changed", v))
			case strings.Contains(f.Tag.Get("json"), ",omitempty"):
				if !jsonHas(bz, f) {
					sym.Assert(sym.Same(d, w), fmt.Sprintf("%T: an omitted field is changed", v))
					sym.Cover("omitted")
					continue
				}
				// it is there, or a key of a map is like it
				n := rf.Field(i).Interface()
				sym.Assert(sym.Or(sym.Same(d, n), sym.And(sym.Same(d, w), sym.Same(n, reflect.Zero(f.Type).Interface()))),
					fmt.Sprintf("%T: field %s depends on what the variable held", v, f.Name))
			default:
				sym.Assert(sym.Same(d, rf.Field(i).Interface()), fmt.Sprintf("%T: field %s depends on what the variable held", v, f.Name))
			}
		}
	} else {
		sym.Assert(sym.Same(fresh, dirty), fmt.Sprintf("%T: the decoded value depends on what the variable held", v))
	}
	sym.Cover("same")
}

// jsonHas: the document has the field, or a key which is like it.
func jsonHas(bz []byte, f reflect.StructField) bool {
	name := strings.Split(f.Tag.Get("json"), ",")[0]
	if name == "" {
		name = f.Name
	}
	return bytes.Contains(bz, []byte(`"`+name+`":`))
}

func C24_json_ints()    { jsonReused[Ints]() }
func C24_json_text()    { jsonReused[Text]() }
func C24_json_ptrs()    { jsonReused[Ptrs]() }
func C24_json_nest()    { jsonReused[Nest]() }
func C24_json_tagged()  { jsonReused[Tagged]() }
func C24_json_wempty()  { jsonReused[WriteEmpty]() }
func C24_json_maps()    { jsonReused[Maps]() }
func C24_json_omit()    { jsonReused[Omit]() }
func C24_json_jlists()  { jsonReused[JLists]() }
func C24_json_structs() { jsonReused[StructLists]() }
func C24_json_arrays()  { jsonReused[Arrays]() }
func C24_json_plists()  { jsonReused[PtrLists]() }
func C24_json_tlists()  { jsonReused[TimeLists]() }
func C24_json_herd()    { jsonReused[Herd]() }
func C24_jmix_ints()    { jsonReusedMix[Ints]() }
func C24_jmix_ptrs()    { jsonReusedMix[Ptrs]() }
func C24_jmix_nest()    { jsonReusedMix[Nest]() }
func C24_jmix_maps()    { jsonReusedMix[Maps]() }
func C24_jmix_omit()    { jsonReusedMix[Omit]() }
func C24_jmix_jlists()  { jsonReusedMix[JLists]() }
func C24_jmix_rich()    { jsonReusedMix[RichLists]() }
func C24_jmix_plists()  { jsonReusedMix[PtrLists]() }
func C24_jmix_alists()  { jsonReusedMix[ArrayLists]() }
func C24_jmix_times()   { jsonReusedMix[Times]() }
func C24_jmix_zoo()     { jsonReusedMix[Zoo]() }
func C24_jmix_herd()    { jsonReusedMix[Herd]() }
