package h

import (
	"reflect"
	"time"

	"aminoharness/sym"
)

// clone is an independent copy of everything reachable through exported fields (times and
// unexported fields are copied shallowly).
func clone(rv reflect.Value) reflect.Value { return cloner(rv, false) }

// cloner: with spare, slices become as long as their capacity.
func cloner(rv reflect.Value, spare bool) reflect.Value {
	rt := rv.Type()
	out := reflect.New(rt).Elem()
	switch rt.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			p := reflect.New(rt.Elem())
			p.Elem().Set(cloner(rv.Elem(), spare))
			out.Set(p)
		}
	case reflect.Interface:
		if !rv.IsNil() {
			out.Set(cloner(rv.Elem(), spare))
		}
	case reflect.Slice:
		if !rv.IsNil() {
			if spare {
				rv = rv.Slice(0, rv.Cap())
			}
			out.Set(reflect.MakeSlice(rt, rv.Len(), rv.Len()))
			for i := 0; i < rv.Len(); i++ {
				out.Index(i).Set(cloner(rv.Index(i), spare))
			}
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			out.Index(i).Set(cloner(rv.Index(i), spare))
		}
	case reflect.Map:
		if !rv.IsNil() {
			out.Set(reflect.MakeMap(rt))
			for _, k := range rv.MapKeys() {
				out.SetMapIndex(k, cloner(rv.MapIndex(k), spare))
			}
		}
	case reflect.Struct:
		out.Set(rv)
		if rt != timeT {
			for i := 0; i < rt.NumField(); i++ {
				if rt.Field(i).PkgPath == "" {
					out.Field(i).Set(cloner(rv.Field(i), spare))
				}
			}
		}
	default:
		out.Set(rv)
	}
	return out
}

func cloneOf[T any](v T) T { return clone(reflect.ValueOf(&v).Elem()).Interface().(T) }

// memory is a copy of all that can be reached from v, including the room behind the end of slices.
func memory[T any](v T) T { return cloner(reflect.ValueOf(&v).Elem(), true).Interface().(T) }

func cloneAny(v any) any {
	if v == nil {
		return nil
	}
	return clone(reflect.ValueOf(v)).Interface()
}

// scribble changes every value that is reachable through pointers, slices and maps, in place. It does
// not change nil-ness or lengths, except that entries are added to maps.
func scribble(rv reflect.Value) {
	rt := rv.Type()
	switch rt.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			scribble(rv.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			scribble(rv.Index(i))
		}
		if rt.Kind() == reflect.Slice && rv.Cap() > rv.Len() {
			r := rv.Slice(0, rv.Cap()) // what is behind the end belongs to the slice, too
			for i := rv.Len(); i < rv.Cap(); i++ {
				scribble(r.Index(i))
			}
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			scribble(rv.MapIndex(k))
			v := reflect.New(rt.Elem()).Elem()
			v.Set(rv.MapIndex(k))
			scribble(v)
			rv.SetMapIndex(k, v)
		}
		if !rv.IsNil() && rt.Key().Kind() == reflect.String {
			rv.SetMapIndex(reflect.ValueOf("scribbled").Convert(rt.Key()), reflect.Zero(rt.Elem()))
		}
	case reflect.Struct:
		if rt == timeT {
			if rv.CanSet() {
				rv.Set(reflect.ValueOf(time.Unix(1, 1)))
			}
			return
		}
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				scribble(rv.Field(i))
			}
		}
	case reflect.Bool:
		if rv.CanSet() {
			rv.SetBool(!rv.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if rv.CanSet() {
			rv.SetInt(^rv.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if rv.CanSet() {
			rv.SetUint(^rv.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if rv.CanSet() {
			rv.SetFloat(12345.25)
		}
	case reflect.String:
		if rv.CanSet() {
			rv.SetString("scribbled")
		}
	}
}

func scribbleBytes(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

// same is equality which tells nil slices and maps from empty ones.
func same[T any](a, b T) bool {
	return sym.Same(a, b) && sameNil(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

// sameNil: slices and maps are nil in both or in neither of two equal values.
func sameNil(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		return a.IsNil() || sameNil(a.Elem(), b.Elem())
	case reflect.Struct:
		if a.Type() == timeT {
			return true
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !sameNil(a.Field(i), b.Field(i)) {
				return false
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !sameNil(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() {
			return false
		}
		if k := a.Type().Elem().Kind(); k == reflect.Uint8 || k == reflect.String {
			return true
		}
		for i := 0; i < a.Len(); i++ {
			if !sameNil(a.Index(i), b.Index(i)) {
				return false
			}
		}
	}
	return true
}
