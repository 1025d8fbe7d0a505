package h

import (
	"crypto/sha256"
	"fmt"
	"math"
	"reflect"
	"time"
)

// An encoder for the documented wire format (proto3 with Amino's prefix bytes), written from the
// specification and independent of the implementation's structure.

type registry struct {
	names  map[reflect.Type]string
	disamb map[reflect.Type]bool // interface types whose values carry disambiguation bytes
	hook   func(p []byte) []byte // changes the contents of length-delimited values, in the order in which they are complete
}

var zooNames = map[reflect.Type]string{
	reflect.TypeOf(Dog{}): nameDog, reflect.TypeOf(Cat{}): nameCat, reflect.TypeOf(Fish(0)): nameFish, reflect.TypeOf(Tag("")): nameTag,
	reflect.TypeOf(Blob{}): nameBlob, reflect.TypeOf(Data{}): nameData, reflect.TypeOf(Nums{}): nameNums, reflect.TypeOf(Words{}): nameWords,
	reflect.TypeOf(Pack{}): namePack, reflect.TypeOf(Square{}): nameSquare, reflect.TypeOf(Both{}): nameBoth,
	reflect.TypeOf(Bird{}): nameBird,
}

var zreg = &registry{names: zooNames}
var dreg = &registry{names: zooNames, disamb: map[reflect.Type]bool{animalT: true}}
var noreg = &registry{}

// disfix derives the disambiguation and prefix bytes of a registered name.
func disfix(name string) (db, pb []byte) {
	h := sha256.Sum256([]byte(name))
	i := 0
	for h[i] == 0 {
		i++
	}
	db = append(db, h[i:i+3]...)
	i += 3
	for h[i] == 0 {
		i++
	}
	pb = append(pb, h[i:i+4]...)
	return
}

func putUvarint(b []byte, u uint64) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func zigzag(i int64) uint64 { return uint64(i<<1) ^ uint64(i>>63) }

func le32(b []byte, u uint32) []byte {
	return append(b, byte(u), byte(u>>8), byte(u>>16), byte(u>>24))
}

func le64(b []byte, u uint64) []byte {
	return append(b, byte(u), byte(u>>8), byte(u>>16), byte(u>>24), byte(u>>32), byte(u>>40), byte(u>>48), byte(u>>56))
}

const (
	wVarint = 0
	w8      = 1
	wLen    = 2
	w4      = 5
)

// wireType of a (dereferenced) type.
func wireType(rt reflect.Type, opt fopt) int {
	switch rt.Kind() {
	case reflect.Int64, reflect.Uint64:
		if opt.fixed64 {
			return w8
		}
		return wVarint
	case reflect.Int32, reflect.Uint32:
		if opt.fixed32 {
			return w4
		}
		return wVarint
	case reflect.Float64:
		return w8
	case reflect.Float32:
		return w4
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Uint, reflect.Uint8, reflect.Uint16:
		return wVarint
	}
	return wLen
}

func putKey(b []byte, num uint32, w int) []byte { return putUvarint(b, uint64(num)<<3|uint64(w)) }

// scalar appends a value whose wire type is not wLen.
func scalar(b []byte, v reflect.Value, opt fopt) []byte {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8, reflect.Int16:
		return putUvarint(b, zigzag(v.Int()))
	case reflect.Int, reflect.Int32, reflect.Int64:
		switch wireType(v.Type(), opt) {
		case w4:
			return le32(b, uint32(v.Int()))
		case w8:
			return le64(b, uint64(v.Int()))
		}
		return putUvarint(b, uint64(v.Int()))
	case reflect.Float32:
		return le32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return le64(b, math.Float64bits(v.Float()))
	}
	switch wireType(v.Type(), opt) {
	case w4:
		return le32(b, uint32(v.Uint()))
	case w8:
		return le64(b, v.Uint())
	}
	return putUvarint(b, v.Uint())
}

// payload is the content of a wLen value, without its length. num is the field number for the
// elements of lists that are written as repeated fields.
func (r *registry) payload(v reflect.Value, opt fopt, num uint32) []byte {
	p := r.contents(v, opt, num)
	if r.hook != nil {
		p = r.hook(p)
	}
	return p
}

func (r *registry) contents(v reflect.Value, opt fopt, num uint32) []byte {
	if v.Type() == timeT {
		t := v.Interface().(time.Time)
		var b []byte
		if s := t.Unix(); s != 0 {
			b = putUvarint(append(b, 1<<3), uint64(s))
		}
		if n := t.Nanosecond(); n != 0 {
			b = putUvarint(append(b, 2<<3), uint64(n))
		}
		return b
	}
	switch v.Kind() {
	case reflect.String:
		return []byte(v.String())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return b
		}
		return r.list(v, opt, num)
	case reflect.Struct:
		return r.structure(v)
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		c, _, _ := deref(v.Elem())
		name, ok := r.names[c.Type()]
		if !ok {
			panic("ref: unregistered")
		}
		db, pb := disfix(name)
		var b []byte
		if r.disamb[v.Type()] {
			b = append(append(b, 0), db...)
		}
		b = append(b, pb...)
		if wireType(c.Type(), opt) != wLen {
			return scalar(b, c, opt)
		}
		p := r.payload(c, opt, num)
		switch c.Kind() {
		case reflect.String:
			b = putUvarint(b, uint64(len(p)))
		case reflect.Slice, reflect.Array:
			if c.Type().Elem().Kind() == reflect.Uint8 {
				b = putUvarint(b, uint64(len(p)))
			}
		}
		return append(b, p...)
	}
	panic(fmt.Sprintf("ref: %v", v.Kind()))
}

func (r *registry) list(v reflect.Value, opt fopt, num uint32) []byte {
	var b []byte
	et := derefT(v.Type().Elem())
	for i := 0; i < v.Len(); i++ {
		e, _, isNil := deref(v.Index(i))
		if isNil {
			e = reflect.Zero(et)
		}
		if wireType(et, opt) != wLen {
			b = scalar(b, e, opt) // packed
			continue
		}
		b = putKey(b, num, wLen)
		if isNil || isDefault(e) {
			b = append(b, 0)
			continue
		}
		p := r.payload(e, opt, 1)
		b = append(putUvarint(b, uint64(len(p))), p...)
	}
	return b
}

func (r *registry) structure(v reflect.Value) []byte {
	var b []byte
	for _, f := range rfields(v.Type()) {
		fv := v.Field(f.idx)
		if omitted(fv, f.opt) {
			continue
		}
		c, _, isNil := deref(fv)
		if isNil {
			continue
		}
		k := fv.Kind()
		if (k == reflect.Slice || k == reflect.Array) && fv.Type().Elem().Kind() != reflect.Uint8 && wireType(derefT(fv.Type().Elem()), f.opt) == wLen {
			b = append(b, r.list(fv, f.opt, f.opt.num)...)
			continue
		}
		b = r.field(b, f.opt.num, c, f.opt)
	}
	return b
}

func (r *registry) field(b []byte, num uint32, c reflect.Value, opt fopt) []byte {
	w := wireType(c.Type(), opt)
	b = putKey(b, num, w)
	if w != wLen {
		return scalar(b, c, opt)
	}
	p := r.payload(c, opt, opt.num)
	return append(putUvarint(b, uint64(len(p))), p...)
}

// encode is the specification of MarshalBinaryBare.
func (r *registry) encode(v any) []byte {
	c, _, _ := deref(reflect.ValueOf(v))
	var b []byte
	if name, ok := r.names[c.Type()]; ok {
		_, b = disfix(name)
	}
	opt := fopt{num: 1}
	repeatedStruct := (c.Kind() == reflect.Slice || c.Kind() == reflect.Array) && c.Type().Elem().Kind() == reflect.Struct
	switch {
	case c.Kind() == reflect.Struct || repeatedStruct:
		return append(b, r.payload(c, opt, 1)...)
	case isDefault(c), c.Kind() == reflect.Bool && !c.Bool(), c.Kind() == reflect.Array && c.Len() == 0:
		return b
	}
	return r.field(b, 1, c, opt)
}
