package h

import (
	"math"
	"reflect"
	"sort"
	"strconv"
	"time"

	"aminoharness/jsonmodel"

	amino "github.com/tendermint/go-amino"
)

// Types that matter for JSON only.

type Maps struct {
	A map[string]int64
	B map[MyStr]string
	C map[string]*Leaf
	D map[string]Animal
	E map[string][]byte
	F map[string]map[string]bool
	G map[string][]string `json:"g,omitempty"`
	H map[string]time.Time
	I *map[string]uint8
	J map[string][2]*int32
	K map[string]*int
}

type Omit struct {
	A int            `json:"a,omitempty"`
	B string         `json:"b,omitempty"`
	C []byte         `json:"c,omitempty"`
	D *int8          `json:"d,omitempty"`
	E []Leaf         `json:"e,omitempty"`
	F Leaf           `json:"f,omitempty"`
	G *Leaf          `json:"g,omitempty"`
	H [2]int16       `json:"h,omitempty"`
	I bool           `json:"i,omitempty"`
	J Animal         `json:"j,omitempty"`
	K time.Time      `json:"k,omitempty"`
	L *time.Time     `json:"l,omitempty"`
	M map[string]int `json:"m,omitempty"`
	N uint64         `json:",omitempty"`
	O **int32        `json:",omitempty"`
	P [2]byte        `json:",omitempty"`
	Q *[]string      `json:",omitempty"`
	R float64        `json:",omitempty" amino:"unsafe"`
	S string         `json:",string"`
	T *string        `json:"t,omitempty"`
}

// JLists has the lists that only JSON supports, too.
type JLists struct {
	A [][]string
	B [][]int64
	C [2][2]uint8
	D [2][]bool
	E [][]Leaf
	F [][][]int8
	G []*[]string
	H [][]byte
	I []map[string]int
	J [][]Animal
	K []**string
}

// Keys has unusual names.
type Keys struct {
	A int8 `json:"a b"`
	B int8 `json:"é"`
	C int8 `json:"<&>"`
	D int8 `json:"q'"`
	E int8 `json:"E2"`
	F int8 `json:"e2"`
	X struct {
		E int8 `json:"a b"`
		G int8 `json:"-,"`
	}
	MyInt
}

// Options is for the scope of a field's options.
type Options struct {
	A float64   `amino:"unsafe"`
	B []float32 `amino:"unsafe"`
	C struct {
		D float64 `amino:"unsafe"`
		E int
	}
	F map[string]float64 `amino:"unsafe"`
	G *float32           `amino:"unsafe"`
	H [2]float64         `amino:"unsafe"`
}

// ---- the reference for the encoding

// jEmpty: what omitempty leaves out.
func jEmpty(rv reflect.Value) bool {
	v, isPtr, isNil := deref(rv)
	if isNil {
		return true
	}
	if isPtr {
		switch v.Kind() {
		case reflect.Slice, reflect.Array, reflect.String:
			return v.Len() == 0
		}
		return false
	}
	switch v.Kind() {
	case reflect.Slice, reflect.String:
		return v.Len() == 0
	}
	return allZero(v)
}

func allZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.String:
		return v.Len() == 0
	case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !allZero(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if v.Type() == timeT {
			return v.Interface().(time.Time).IsZero()
		}
		for i := 0; i < v.NumField(); i++ {
			if !allZero(v.Field(i)) {
				return false
			}
		}
		return true
	}
	panic("allZero: " + v.Type().String())
}

var animalNames = map[reflect.Type]string{
	reflect.TypeOf(Dog{}):     nameDog,
	reflect.TypeOf(Cat{}):     nameCat,
	reflect.TypeOf(Fish(0)):   nameFish,
	reflect.TypeOf(Tag("")):   nameTag,
	reflect.TypeOf(Blob{}):    nameBlob,
	reflect.TypeOf(Data{}):    nameData,
	reflect.TypeOf(Nums{}):    nameNums,
	reflect.TypeOf(Words{}):   nameWords,
	reflect.TypeOf(Pack{}):    namePack,
	reflect.TypeOf(Square{}):  nameSquare,
	reflect.TypeOf(Both{}):    nameBoth,
	reflect.TypeOf(Bird{}):    nameBird,
	reflect.TypeOf(JDog{}):    nameJDog,
	reflect.TypeOf(JTime{}):   nameJTime,
	reflect.TypeOf(JMap(nil)): nameJMap,
}

// refJSON appends the documented encoding.
func refJSON(dst []byte, rv reflect.Value, top bool) []byte {
	if top && rv.IsValid() {
		if n := animalNames[derefT(rv.Type())]; n != "" {
			dst = append(dst, `{"type":`...)
			dst = jsonmodel.AppendString(dst, n)
			dst = append(dst, `,"value":`...)
			return append(refJSON(dst, rv, false), '}')
		}
	}
	v, _, isNil := deref(rv)
	if !rv.IsValid() || isNil {
		return append(dst, "null"...)
	}
	if v.Type() == timeT {
		return refTime(dst, v.Interface().(time.Time))
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(dst, "true"...)
		}
		return append(dst, "false"...)
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return strconv.AppendInt(dst, v.Int(), 10)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return strconv.AppendUint(dst, v.Uint(), 10)
	case reflect.Int, reflect.Int64:
		return append(strconv.AppendInt(append(dst, '"'), v.Int(), 10), '"')
	case reflect.Uint, reflect.Uint64:
		return append(strconv.AppendUint(append(dst, '"'), v.Uint(), 10), '"')
	case reflect.Float32:
		dst, _ = jsonmodel.AppendFloat(dst, v.Float(), 32)
		return dst
	case reflect.Float64:
		dst, _ = jsonmodel.AppendFloat(dst, v.Float(), 64)
		return dst
	case reflect.String:
		return jsonmodel.AppendString(dst, v.String())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return append(dst, "null"...)
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return append(jsonmodel.AppendBase64(append(dst, '"'), b), '"')
		}
		dst = append(dst, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				dst = append(dst, ',')
			}
			dst = refJSON(dst, v.Index(i), false)
		}
		return append(dst, ']')
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		dst = append(dst, '{')
		for i, k := range keys {
			if i > 0 {
				dst = append(dst, ',')
			}
			dst = append(jsonmodel.AppendString(dst, k.String()), ':')
			dst = refJSON(dst, v.MapIndex(k), false)
		}
		return append(dst, '}')
	case reflect.Struct:
		dst = append(dst, '{')
		n := 0
		for _, f := range rfields(v.Type()) {
			fv := v.Field(f.idx)
			if f.omit && jEmpty(fv) {
				continue
			}
			if n > 0 {
				dst = append(dst, ',')
			}
			n++
			dst = append(jsonmodel.AppendString(dst, f.json), ':')
			dst = refJSON(dst, fv, false)
		}
		return append(dst, '}')
	case reflect.Interface:
		if v.IsNil() {
			return append(dst, "null"...)
		}
		return refJSON(dst, v.Elem(), true)
	}
	panic("refJSON: " + v.Type().String())
}

// refTime: RFC 3339 in UTC, with as many digits of the fraction as are needed.
func refTime(dst []byte, t time.Time) []byte {
	t = t.UTC()
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	dst = append(dst, '"')
	for _, x := range []struct{ v, n, end int }{{y, 4, '-'}, {int(mo), 2, '-'}, {d, 2, 'T'}, {h, 2, ':'}, {mi, 2, ':'}, {s, 2, 0}} {
		for p := []int{0, 0, 10, 0, 1000}[x.n]; p > 0; p /= 10 {
			dst = append(dst, '0'+byte(x.v/p%10))
		}
		if x.end != 0 {
			dst = append(dst, byte(x.end))
		}
	}
	if ns := t.Nanosecond(); ns != 0 {
		dst = append(dst, '.')
		for p := 100000000; ns != 0; p /= 10 {
			dst = append(dst, '0'+byte(ns/p))
			ns %= p
		}
	}
	return append(dst, 'Z', '"')
}

// ---- what decoding gives

// jnorm is the value which decoding the encoding of rv must give.
func jnorm(rv reflect.Value) reflect.Value {
	rt := rv.Type()
	out := reflect.New(rt).Elem()
	if rt == timeT {
		out.Set(reflect.ValueOf(rv.Interface().(time.Time).Round(0).UTC()))
		return out
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if jNull(rv) {
			break
		}
		p := reflect.New(rt.Elem())
		p.Elem().Set(jnorm(rv.Elem()))
		out.Set(p)
	case reflect.Struct:
		for _, f := range rfields(rt) {
			fv := rv.Field(f.idx)
			if f.omit && jEmpty(fv) {
				continue
			}
			out.Field(f.idx).Set(jnorm(fv))
		}
	case reflect.Slice:
		if rv.Len() == 0 {
			break
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			out.Set(rv)
			break
		}
		out.Set(reflect.MakeSlice(rt, rv.Len(), rv.Len()))
		for i := 0; i < rv.Len(); i++ {
			out.Index(i).Set(jnorm(rv.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			out.Index(i).Set(jnorm(rv.Index(i)))
		}
	case reflect.Map:
		out.Set(reflect.MakeMap(rt))
		for _, k := range rv.MapKeys() {
			out.SetMapIndex(k, jnorm(rv.MapIndex(k)))
		}
	case reflect.Interface:
		if rv.IsNil() {
			break
		}
		v, _, _ := deref(rv.Elem())
		n := jnorm(v)
		if v.Type() == reflect.TypeOf(Cat{}) || v.Type() == reflect.TypeOf(JTime{}) { // registered as a pointer
			p := reflect.New(v.Type())
			p.Elem().Set(n)
			n = p
		}
		out.Set(n)
	default:
		out.Set(rv)
	}
	return out
}

// jNull: encoded as null.
func jNull(rv reflect.Value) bool {
	v, _, isNil := deref(rv)
	if isNil {
		return true
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// ---- types which are only registered for JSON

type JDog struct {
	A Animal
	B map[string]Animal `json:"b,omitempty"`
	C []byte            `json:"c"`
}
type JTime struct{ T time.Time }
type JMap map[string]int16

func (JDog) Sound() int   { return 21 }
func (*JTime) Sound() int { return 22 }
func (JMap) Sound() int   { return 23 }

const (
	nameJDog  = `q"uo\te <dog>`
	nameJTime = "é/Time"
	nameJMap  = "x"
)

var jcdc = func() *amino.Codec {
	c := zoo(false)
	c.RegisterConcrete(JDog{}, nameJDog, nil)
	c.RegisterConcrete(&JTime{}, nameJTime, nil)
	c.RegisterConcrete(JMap(nil), nameJMap, nil)
	return c
}()

func floatsOf() []float64 {
	return []float64{0, 1, -1, 0.1, 1e21, 1e20, 1e-6, 9.99e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, math.Copysign(0, -1), 123456789, 1e100, -2.5e-300, float64(float32(0.1)), math.MaxFloat32}
}
