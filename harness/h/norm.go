package h

import (
	"reflect"
	"time"
)

// norm is the value that decoding the encoding of rv must give: what the format does not distinguish is
// replaced by its canonical form (nil pointers for pointers to default values, UTC times, zero for
// fields that are not part of the encoding).

type fopt struct {
	fixed32, fixed64, unsafe, writeEmpty, emptyElems bool
	num                                              uint32
}

type rfield struct {
	idx  int
	name string // Go name
	json string
	omit bool
	opt  fopt
}

// hasTag: tag is a comma separated list
func hasWord(list, w string) bool {
	for len(list) > 0 {
		i := 0
		for i < len(list) && list[i] != ',' {
			i++
		}
		if list[:i] == w {
			return true
		}
		if i == len(list) {
			break
		}
		list = list[i+1:]
	}
	return false
}

func firstWord(list string) (string, string) {
	for i := 0; i < len(list); i++ {
		if list[i] == ',' {
			return list[:i], list[i+1:]
		}
	}
	return list, ""
}

// rfields lists the encoded fields of a struct.
func rfields(rt reflect.Type) []rfield {
	var fs []rfield
	for i := 0; i < rt.NumField(); i++ {
		sf := rt.Field(i)
		if sf.PkgPath != "" {
			continue
		}
		j := sf.Tag.Get("json")
		if j == "-" {
			continue
		}
		a := sf.Tag.Get("amino")
		b := sf.Tag.Get("binary")
		f := rfield{idx: i, name: sf.Name, json: sf.Name}
		n, rest := firstWord(j)
		if n != "" {
			f.json = n
		}
		w, _ := firstWord(rest)
		f.omit = w == "omitempty"
		f.opt = fopt{fixed32: b == "fixed32", fixed64: b == "fixed64", unsafe: hasWord(a, "unsafe"),
			writeEmpty: hasWord(a, "write_empty"), emptyElems: hasWord(a, "empty_elements"), num: uint32(len(fs) + 1)}
		fs = append(fs, f)
	}
	return fs
}

func deref(rv reflect.Value) (v reflect.Value, isPtr, isNil bool) {
	for rv.Kind() == reflect.Ptr {
		isPtr = true
		if rv.IsNil() {
			return rv, true, true
		}
		rv = rv.Elem()
	}
	return rv, isPtr, false
}

func derefT(rt reflect.Type) reflect.Type {
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	return rt
}

// isDefault: the values that are not written as fields.
func isDefault(rv reflect.Value) bool {
	v, _, isNil := deref(rv)
	if isNil {
		return true
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Interface:
		return v.IsNil()
	}
	return false
}

// missing is what a field of type rt decodes to when it is absent.
func missing(rt reflect.Type) reflect.Value {
	rv := reflect.New(rt).Elem()
	setMissing(rv)
	return rv
}

func setMissing(rv reflect.Value) {
	rt := rv.Type()
	switch {
	case rt == timeT:
		rv.Set(reflect.ValueOf(time.Unix(0, 0).UTC()))
	case rt.Kind() == reflect.Ptr && derefT(rt) == timeT:
		rv.Set(reflect.New(rt.Elem()))
		setMissing(rv.Elem())
	case rt.Kind() == reflect.Struct:
		for _, f := range rfields(rt) {
			setMissing(rv.Field(f.idx))
		}
	case rt.Kind() == reflect.Array:
		for i := 0; i < rt.Len(); i++ {
			setMissing(rv.Index(i))
		}
	}
}

func normTime(t time.Time) time.Time { return time.Unix(t.Unix(), int64(t.Nanosecond())).UTC() }

// norm of a value that is written (not of a missing field).
func norm(rv reflect.Value, opt fopt) reflect.Value {
	rt := rv.Type()
	out := reflect.New(rt).Elem()
	if rt == timeT {
		out.Set(reflect.ValueOf(normTime(rv.Interface().(time.Time))))
		return out
	}
	switch rt.Kind() {
	case reflect.Ptr:
		p := reflect.New(rt.Elem())
		p.Elem().Set(norm(rv.Elem(), opt))
		out.Set(p)
	case reflect.Struct:
		for _, f := range rfields(rt) {
			fv := rv.Field(f.idx)
			if isDefault(fv) && !f.opt.writeEmpty {
				out.Field(f.idx).Set(missing(fv.Type()))
			} else if _, _, n := deref(fv); n {
				out.Field(f.idx).Set(missing(fv.Type()))
			} else {
				out.Field(f.idx).Set(norm(fv, f.opt))
			}
		}
	case reflect.Slice:
		if rv.Len() == 0 || rt.Elem().Kind() == reflect.Uint8 {
			out.Set(rv)
			break
		}
		out.Set(reflect.MakeSlice(rt, rv.Len(), rv.Len()))
		for i := 0; i < rv.Len(); i++ {
			out.Index(i).Set(normElem(rv.Index(i), opt))
		}
	case reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			out.Set(rv)
			break
		}
		for i := 0; i < rv.Len(); i++ {
			out.Index(i).Set(normElem(rv.Index(i), opt))
		}
	case reflect.Interface:
		if rv.IsNil() {
			break
		}
		v, _, _ := deref(rv.Elem())
		n := norm(v, opt)
		if v.Type() == reflect.TypeOf(Cat{}) { // registered as a pointer
			p := reflect.New(v.Type())
			p.Elem().Set(n)
			n = p
		}
		out.Set(n)
	default:
		out.Set(rv)
	}
	return out
}

// normElem is the norm of a list element.
func normElem(e reflect.Value, opt fopt) reflect.Value {
	rt := e.Type()
	if isDefault(e) {
		switch derefT(rt).Kind() {
		case reflect.Bool, reflect.Float32, reflect.Float64: // nil is written as the zero value
			out := reflect.New(rt).Elem()
			alloc(out)
			return out
		}
		return missing(rt)
	}
	v, isPtr, _ := deref(e)
	// a pointer to a struct or list with an empty encoding is indistinguishable from nil
	if isPtr && v.Kind() == reflect.Struct && v.Type() != timeT && !opt.emptyElems && emptyStruct(v) {
		return missing(rt)
	}
	return norm(e, opt)
}

// emptyStruct: all fields are omitted.
func emptyStruct(v reflect.Value) bool {
	for _, f := range rfields(v.Type()) {
		if !omitted(v.Field(f.idx), f.opt) {
			return false
		}
	}
	return true
}

// omitted: this field is not written.
func omitted(fv reflect.Value, opt fopt) bool {
	if opt.writeEmpty {
		return false
	}
	if isDefault(fv) {
		return true
	}
	v, isPtr, _ := deref(fv)
	if isPtr {
		return false
	}
	switch v.Kind() {
	case reflect.Bool:
		return !v.Bool()
	case reflect.Struct:
		if v.Type() == timeT {
			t := v.Interface().(time.Time)
			return t.Unix() == 0 && t.Nanosecond() == 0
		}
		return emptyStruct(v)
	case reflect.Array:
		return v.Len() == 0
	}
	return false
}

func refl(v any) reflect.Value { return reflect.ValueOf(v) }
