package h

import (
	"math"
	"reflect"
	"time"
)

// A decoder for the documented wire format, written from the specification: which byte strings are
// encodings of a type, and of which value. It is the oracle for decoding arbitrary bytes.

type rdec struct {
	r      *registry
	bad    bool // not a valid encoding
	unspec bool // the format does not say
	why    string
}

func (d *rdec) reject(why string) {
	if !d.bad {
		d.bad, d.why = true, why
	}
}

func (d *rdec) uvarint(b []byte) (uint64, []byte) {
	var u uint64
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			d.reject("truncated varint")
			return 0, nil
		}
		c := b[i]
		if c < 0x80 {
			if i == 9 && c > 1 {
				d.reject("varint of more than 64 bits")
				return 0, nil
			}
			return u | uint64(c)<<(7*uint(i)), b[i+1:]
		}
		u |= uint64(c&0x7f) << (7 * uint(i))
	}
	d.reject("varint of more than 10 bytes")
	return 0, nil
}

func (d *rdec) fixed(b []byte, n int) (uint64, []byte) {
	if len(b) < n {
		d.reject("truncated fixed")
		return 0, nil
	}
	var u uint64
	for i := 0; i < n; i++ {
		u |= uint64(b[i]) << (8 * uint(i))
	}
	return u, b[n:]
}

func (d *rdec) key(b []byte) (num uint64, typ int, rest []byte) {
	k, rest := d.uvarint(b)
	num = k >> 3
	if num > 1<<29-1 {
		d.reject("field number too large")
	}
	return num, int(k & 7), rest
}

func (d *rdec) chunk(b []byte) (body, rest []byte) {
	n, b := d.uvarint(b)
	if d.bad || n > uint64(len(b)) {
		d.reject("truncated length-delimited value")
		return nil, nil
	}
	return b[:n], b[n:]
}

func (d *rdec) scalar(b []byte, rv reflect.Value, opt fopt) []byte {
	var u uint64
	switch rv.Kind() {
	case reflect.Bool:
		if len(b) == 0 || b[0] > 1 {
			d.reject("bool")
			return nil
		}
		rv.SetBool(b[0] == 1)
		return b[1:]
	case reflect.Float32:
		u, b = d.fixed(b, 4)
		rv.SetFloat(float64(math.Float32frombits(uint32(u))))
		return b
	case reflect.Float64:
		u, b = d.fixed(b, 8)
		rv.SetFloat(math.Float64frombits(u))
		return b
	}
	switch wireType(rv.Type(), opt) {
	case w4:
		u, b = d.fixed(b, 4)
		if rv.Kind() == reflect.Int32 {
			rv.SetInt(int64(int32(u)))
		} else {
			rv.SetUint(u)
		}
		return b
	case w8:
		u, b = d.fixed(b, 8)
		if rv.Kind() == reflect.Int64 {
			rv.SetInt(int64(u))
		} else {
			rv.SetUint(u)
		}
		return b
	}
	u, b = d.uvarint(b)
	if d.bad {
		return nil
	}
	i := int64(u)
	if rv.Kind() == reflect.Int8 || rv.Kind() == reflect.Int16 {
		i = int64(u>>1) ^ -int64(u&1)
	}
	switch rv.Kind() {
	case reflect.Int8:
		if i < math.MinInt8 || i > math.MaxInt8 {
			d.reject("overflow")
		}
		rv.SetInt(i)
	case reflect.Int16:
		if i < math.MinInt16 || i > math.MaxInt16 {
			d.reject("overflow")
		}
		rv.SetInt(i)
	case reflect.Int32:
		if i < math.MinInt32 || i > math.MaxInt32 {
			d.reject("overflow")
		}
		rv.SetInt(i)
	case reflect.Int, reflect.Int64:
		rv.SetInt(i)
	case reflect.Uint8:
		if u > math.MaxUint8 {
			d.reject("overflow")
		}
		rv.SetUint(u)
	case reflect.Uint16:
		if u > math.MaxUint16 {
			d.reject("overflow")
		}
		rv.SetUint(u)
	case reflect.Uint32:
		if u > math.MaxUint32 {
			d.reject("overflow")
		}
		rv.SetUint(u)
	default:
		rv.SetUint(u)
	}
	return b
}

// alloc follows and constructs pointers.
func alloc(rv reflect.Value) reflect.Value {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			rv.Set(reflect.New(rv.Type().Elem()))
		}
		rv = rv.Elem()
	}
	return rv
}

// payload decodes the content of a length-delimited value, all of b.
func (d *rdec) payload(b []byte, rv reflect.Value, opt fopt, num uint32) {
	rt := rv.Type()
	if rt == timeT {
		d.time(b, rv)
		return
	}
	switch rt.Kind() {
	case reflect.String:
		rv.SetString(string(b))
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Uint8 {
			if len(b) > 0 {
				rv.SetBytes(append([]byte(nil), b...))
			}
			return
		}
		rest := d.slice(b, rv, opt, num)
		if len(rest) > 0 {
			d.reject("left over after a list")
		}
	case reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			if len(b) != rt.Len() {
				d.reject("length of a byte array")
				return
			}
			for i := range b {
				rv.Index(i).SetUint(uint64(b[i]))
			}
			return
		}
		rest := d.array(b, rv, opt, num)
		if len(rest) > 0 {
			d.reject("left over after an array")
		}
	case reflect.Struct:
		d.structure(b, rv)
	case reflect.Interface:
		d.iface(b, rv, opt, num, false)
	}
}

func (d *rdec) time(b []byte, rv reflect.Value) {
	var sec, nsec uint64
	last := uint64(0)
	for len(b) > 0 && !d.bad {
		num, typ, rest := d.key(b)
		if d.bad || typ != wVarint || num <= last || num > 2 {
			d.reject("time field")
			return
		}
		last = num
		var u uint64
		u, b = d.uvarint(rest)
		if num == 1 {
			sec = u
		} else {
			nsec = u
		}
	}
	if d.bad || int64(sec) < minSec || int64(sec) >= maxSec || nsec >= 1e9 {
		d.reject("time out of range")
		return
	}
	rv.Set(reflect.ValueOf(time.Unix(int64(sec), int64(nsec)).UTC()))
}

// elem decodes one element of a repeated field.
func (d *rdec) elem(b []byte, rv reflect.Value, opt fopt) []byte {
	body, rest := d.chunk(b)
	if d.bad {
		return nil
	}
	isPtr := rv.Kind() == reflect.Ptr
	if len(body) == 0 && b[0] == 0 && !(isPtr && derefT(rv.Type()).Kind() == reflect.Struct && opt.emptyElems) {
		rv.Set(missing(rv.Type()))
		return rest
	}
	o := opt
	o.num = 1
	d.payload(body, alloc(rv), o, 1)
	return rest
}

func (d *rdec) packed(b []byte, rv reflect.Value, opt fopt) []byte {
	b = d.scalar(b, alloc(rv), opt)
	if rv.Kind() == reflect.Ptr && isDefault(rv) {
		rv.Set(reflect.Zero(rv.Type()))
	}
	return b
}

// slice reads the elements at the start of b.
func (d *rdec) slice(b []byte, rv reflect.Value, opt fopt, num uint32) []byte {
	et := rv.Type().Elem()
	out := reflect.Zero(rv.Type())
	for len(b) > 0 && !d.bad {
		e := reflect.New(et).Elem()
		if wireType(derefT(et), opt) != wLen {
			b = d.packed(b, e, opt)
		} else {
			n, typ, rest := d.key(b)
			if d.bad {
				return nil
			}
			if n > uint64(num) {
				break
			}
			if n < uint64(num) || typ != wLen {
				d.reject("repeated field")
				return nil
			}
			b = d.elem(rest, e, opt)
		}
		out = reflect.Append(out, e)
	}
	rv.Set(out)
	return b
}

func (d *rdec) array(b []byte, rv reflect.Value, opt fopt, num uint32) []byte {
	et := rv.Type().Elem()
	for i := 0; i < rv.Len() && !d.bad; i++ {
		if wireType(derefT(et), opt) != wLen {
			b = d.packed(b, rv.Index(i), opt)
			continue
		}
		n, typ, rest := d.key(b)
		if d.bad || n != uint64(num) || typ != wLen {
			d.reject("array element")
			return nil
		}
		b = d.elem(rest, rv.Index(i), opt)
	}
	if len(b) > 0 && !d.bad && wireType(derefT(et), opt) == wLen {
		if n, _, _ := d.key(b); n <= uint64(num) {
			d.reject("too many array elements")
		}
	}
	return b
}

func repeated(rt reflect.Type, opt fopt) bool {
	k := rt.Kind()
	return (k == reflect.Slice || k == reflect.Array) && rt.Elem().Kind() != reflect.Uint8 && wireType(derefT(rt.Elem()), opt) == wLen
}

// field decodes the value of a field after its key.
func (d *rdec) field(b []byte, rv reflect.Value, opt fopt) []byte {
	w := wireType(rv.Type(), opt)
	if w != wLen {
		return d.scalar(b, rv, opt)
	}
	body, rest := d.chunk(b)
	if d.bad {
		return nil
	}
	d.payload(body, rv, opt, opt.num)
	return rest
}

func (d *rdec) structure(b []byte, rv reflect.Value) {
	fs := rfields(rv.Type())
	last := uint64(0)
	for _, f := range fs {
		fv := rv.Field(f.idx)
		if len(b) == 0 || d.bad {
			setMissing(fv)
			continue
		}
		if repeated(fv.Type(), f.opt) {
			if fv.Kind() == reflect.Slice {
				b = d.slice(b, fv, f.opt, f.opt.num)
			} else {
				if n, _, _ := d.key(b); n > uint64(f.opt.num) {
					d.unspec = true // an array is always written
				}
				b = d.array(b, fv, f.opt, f.opt.num)
			}
			continue
		}
		num, typ, rest := d.key(b)
		if d.bad {
			return
		}
		if num > uint64(f.opt.num) {
			setMissing(fv)
			continue
		}
		if num <= last || num < uint64(f.opt.num) || typ != wireType(derefT(fv.Type()), f.opt) {
			d.reject("field key")
			return
		}
		last = num
		b = d.field(rest, alloc(fv), f.opt)
	}
	for len(b) > 0 && !d.bad {
		num, typ, rest := d.key(b)
		if d.bad || num < last || num == last && num <= uint64(len(fs)) || num <= uint64(len(fs)) {
			d.reject("field order")
			return
		}
		last = num
		switch typ {
		case wVarint:
			_, b = d.uvarint(rest)
		case w8:
			_, b = d.fixed(rest, 8)
		case w4:
			_, b = d.fixed(rest, 4)
		case wLen:
			_, b = d.chunk(rest)
		default:
			d.reject("wire type")
		}
	}
}

// iface decodes an interface value: disambiguation and prefix bytes, then the concrete value.
func (d *rdec) iface(b []byte, rv reflect.Value, opt fopt, num uint32, top bool) {
	if len(b) == 0 && !top {
		return // nil
	}
	var db []byte
	if len(b) >= 4 && b[0] == 0 {
		if len(b) < 8 {
			d.reject("disambiguation bytes")
			return
		}
		db = b[1:4]
		b = b[4:]
	}
	if len(b) < 4 {
		d.reject("prefix bytes")
		return
	}
	pb := b[:4]
	b = b[4:]
	for _, c := range zooTypes {
		cdb, cpb := disfix(c.name)
		if cpb[0] != pb[0] || cpb[1] != pb[1] || cpb[2] != pb[2] || cpb[3] != pb[3] {
			continue
		}
		if db != nil && (cdb[0] != db[0] || cdb[1] != db[1] || cdb[2] != db[2]) {
			continue
		}
		it := c.rt
		if c.ptr {
			it = reflect.PtrTo(it)
		}
		if !it.Implements(rv.Type()) {
			d.reject("does not implement")
			return
		}
		v := reflect.New(c.rt)
		d.concrete(b, v.Elem(), opt, num, top)
		if c.ptr {
			rv.Set(v)
		} else {
			rv.Set(v.Elem())
		}
		return
	}
	d.reject("prefix bytes")
}

type zooType struct {
	name string
	rt   reflect.Type
	ptr  bool
}

var zooTypes = []zooType{
	{nameDog, reflect.TypeOf(Dog{}), false}, {nameCat, reflect.TypeOf(Cat{}), true}, {nameFish, reflect.TypeOf(Fish(0)), false},
	{nameTag, reflect.TypeOf(Tag("")), false}, {nameBlob, reflect.TypeOf(Blob{}), false}, {nameData, reflect.TypeOf(Data{}), false},
	{nameNums, reflect.TypeOf(Nums{}), false}, {nameWords, reflect.TypeOf(Words{}), false}, {namePack, reflect.TypeOf(Pack{}), false},
	{nameSquare, reflect.TypeOf(Square{}), false}, {nameBoth, reflect.TypeOf(Both{}), false}, {nameBird, reflect.TypeOf(Bird{}), false},
}

// concrete decodes the value of an interface after its prefix bytes. At the top level it is encoded
// like a top-level value.
func (d *rdec) concrete(b []byte, v reflect.Value, opt fopt, num uint32, top bool) {
	if top {
		d.top(b, v)
		return
	}
	if wireType(v.Type(), opt) != wLen {
		if rest := d.scalar(b, v, opt); len(rest) > 0 {
			d.reject("left over")
		}
		return
	}
	k := v.Kind()
	if k == reflect.String || (k == reflect.Slice || k == reflect.Array) && v.Type().Elem().Kind() == reflect.Uint8 {
		body, rest := d.chunk(b)
		if d.bad || len(rest) > 0 {
			d.reject("left over")
			return
		}
		b = body
	}
	d.payload(b, v, opt, num)
}

// top decodes a top-level value (after its prefix bytes).
func (d *rdec) top(b []byte, v reflect.Value) {
	opt := fopt{num: 1}
	rt := v.Type()
	k := rt.Kind()
	if k == reflect.Struct || (k == reflect.Slice || k == reflect.Array) && rt.Elem().Kind() == reflect.Struct {
		d.payload(b, v, opt, 1)
		return
	}
	if len(b) == 0 {
		if k == reflect.Array && rt.Len() > 0 {
			d.reject("array")
		}
		setMissing(v)
		return
	}
	num, typ, rest := d.key(b)
	if d.bad || num != 1 || typ != wireType(rt, opt) {
		d.reject("key")
		return
	}
	if rest = d.field(rest, v, opt); len(rest) > 0 {
		d.reject("left over")
	}
}

// decode is the specification of UnmarshalBinaryBare into a fresh *rv.
func (r *registry) decode(b []byte, rv reflect.Value) *rdec {
	d := &rdec{r: r}
	v := alloc(rv)
	if v.Kind() == reflect.Interface {
		d.iface(b, v, fopt{num: 1}, 1, true)
		return d
	}
	if name, ok := r.names[v.Type()]; ok {
		_, pb := disfix(name)
		if len(b) < 4 || b[0] != pb[0] || b[1] != pb[1] || b[2] != pb[2] || b[3] != pb[3] {
			d.reject("prefix")
			return d
		}
		b = b[4:]
	}
	d.top(b, v)
	return d
}
