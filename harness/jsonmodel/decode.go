package jsonmodel

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"reflect"
	"strconv"

	"aminoharness/sym"
)

var errSyntax = errors.New("json: invalid syntax")

func space(c byte) bool { return sym.Or(c == ' ', c == '\t', c == '\r', c == '\n') }

func skip(b []byte, i int) int {
	for i < len(b) && space(b[i]) {
		i++
	}
	return i
}

func digit(c byte) bool { return between(c, '0', '9') }

func word(b []byte, i int, w string) int {
	if i+len(w) > len(b) || !sym.EqBytes(b[i:i+len(w)], []byte(w)) {
		return -1
	}
	return i + len(w)
}

// value is the end of the value which starts at i, or -1.
func value(b []byte, i, depth int) int {
	if i >= len(b) || depth > 10000 {
		return -1
	}
	switch c := b[i]; c {
	case '{':
		i = skip(b, i+1)
		if i < len(b) && b[i] == '}' {
			return i + 1
		}
		for {
			if i >= len(b) || b[i] != '"' {
				return -1
			}
			if i = str(b, i); i < 0 {
				return -1
			}
			i = skip(b, i)
			if i >= len(b) || b[i] != ':' {
				return -1
			}
			if i = value(b, skip(b, i+1), depth+1); i < 0 {
				return -1
			}
			i = skip(b, i)
			if i >= len(b) {
				return -1
			}
			if b[i] == '}' {
				return i + 1
			}
			if b[i] != ',' {
				return -1
			}
			i = skip(b, i+1)
		}
	case '[':
		i = skip(b, i+1)
		if i < len(b) && b[i] == ']' {
			return i + 1
		}
		for {
			if i = value(b, i, depth+1); i < 0 {
				return -1
			}
			i = skip(b, i)
			if i >= len(b) {
				return -1
			}
			if b[i] == ']' {
				return i + 1
			}
			if b[i] != ',' {
				return -1
			}
			i = skip(b, i+1)
		}
	case '"':
		return str(b, i)
	case 't':
		return word(b, i, "true")
	case 'f':
		return word(b, i, "false")
	case 'n':
		return word(b, i, "null")
	default:
		return number(b, i)
	}
}

func number(b []byte, i int) int {
	if b[i] == '-' {
		i++
	}
	if i >= len(b) || !digit(b[i]) {
		return -1
	}
	if b[i] == '0' {
		i++
	} else {
		for i < len(b) && digit(b[i]) {
			i++
		}
	}
	if i < len(b) && b[i] == '.' {
		i++
		if i >= len(b) || !digit(b[i]) {
			return -1
		}
		for i < len(b) && digit(b[i]) {
			i++
		}
	}
	if i < len(b) && sym.Or(b[i] == 'e', b[i] == 'E') {
		i++
		if i < len(b) && sym.Or(b[i] == '+', b[i] == '-') {
			i++
		}
		if i >= len(b) || !digit(b[i]) {
			return -1
		}
		for i < len(b) && digit(b[i]) {
			i++
		}
	}
	return i
}

func isHex(c byte) bool { return sym.Or(digit(c), between(c, 'a', 'f'), between(c, 'A', 'F')) }

func str(b []byte, i int) int {
	i++
	for i < len(b) {
		c := b[i]
		if sym.And(c >= 0x20, c != '"', c != '\\') {
			i++
			continue
		}
		if c == '"' {
			return i + 1
		}
		if c != '\\' {
			return -1
		}
		i++
		if i >= len(b) {
			return -1
		}
		c = b[i]
		if c == 'u' {
			if i+4 >= len(b) || !sym.And(isHex(b[i+1]), isHex(b[i+2]), isHex(b[i+3]), isHex(b[i+4])) {
				return -1
			}
			i += 5
			continue
		}
		if !sym.Or(c == '"', c == '\\', c == '/', c == 'b', c == 'f', c == 'n', c == 'r', c == 't') {
			return -1
		}
		i++
	}
	return -1
}

// Valid is json.Valid.
func Valid(b []byte) bool {
	i := value(b, skip(b, 0), 0)
	return i >= 0 && skip(b, i) == len(b)
}

func hexVal(c byte) uint16 {
	return uint16(sym.IteU8(c <= '9', c-'0', sym.IteU8(c <= 'F', c-'A'+10, c-'a'+10)))
}

func appendRune(dst []byte, r uint32) []byte {
	switch {
	case r < 0x80:
		return append(dst, byte(r))
	case r < 0x800:
		return append(dst, 0xc0|byte(r>>6), 0x80|byte(r)&0x3f)
	case r < 0x10000:
		return append(dst, 0xe0|byte(r>>12), 0x80|byte(r>>6)&0x3f, 0x80|byte(r)&0x3f)
	}
	return append(dst, 0xf0|byte(r>>18), 0x80|byte(r>>12)&0x3f, 0x80|byte(r>>6)&0x3f, 0x80|byte(r)&0x3f)
}

// unquote gives the text of a valid JSON string.
func unquote(q []byte) []byte {
	b := q[1 : len(q)-1]
	var out []byte
	u4 := func(b []byte) uint32 {
		return uint32(hexVal(b[0])<<12 | hexVal(b[1])<<8 | hexVal(b[2])<<4 | hexVal(b[3]))
	}
	for len(b) > 0 {
		c := b[0]
		if c != '\\' {
			n, ok := Rune(b)
			if ok {
				out = append(out, b[:n]...)
			} else {
				out = append(out, 0xef, 0xbf, 0xbd)
			}
			b = b[n:]
			continue
		}
		c = b[1]
		switch c {
		case 'u':
			r := u4(b[2:])
			b = b[6:]
			if sym.And(r >= 0xd800, r < 0xe000) {
				if r < 0xdc00 && len(b) >= 6 && b[0] == '\\' && b[1] == 'u' {
					r2 := u4(b[2:])
					if sym.And(r2 >= 0xdc00, r2 < 0xe000) {
						b = b[6:]
						out = appendRune(out, (r-0xd800)<<10|(r2-0xdc00)+0x10000)
						continue
					}
				}
				r = 0xfffd
			}
			out = appendRune(out, r)
			continue
		case 'b':
			c = '\b'
		case 'f':
			c = '\f'
		case 'n':
			c = '\n'
		case 'r':
			c = '\r'
		case 't':
			c = '\t'
		}
		out = append(out, c)
		b = b[2:]
	}
	return out
}

func value64(c byte) (v byte, ok bool) {
	v = sym.IteU8(between(c, 'A', 'Z'), c-'A', sym.IteU8(between(c, 'a', 'z'), c-'a'+26, sym.IteU8(between(c, '0', '9'), c-'0'+52, sym.IteU8(c == '+', 62, 63))))
	return v, sym.Or(between(c, 'A', 'Z'), between(c, 'a', 'z'), between(c, '0', '9'), c == '+', c == '/')
}

// decode64 decodes standard base64, in which line ends are ignored.
func decode64(s []byte) ([]byte, bool) {
	var in []byte
	for _, c := range s {
		if !sym.Or(c == '\r', c == '\n') {
			in = append(in, c)
		}
	}
	if len(in)%4 != 0 {
		return nil, false
	}
	out := []byte{}
	for ; len(in) > 0; in = in[4:] {
		n := 4
		if len(in) == 4 && in[3] == '=' {
			n = 3
			if in[2] == '=' {
				n = 2
			}
		}
		var d [4]byte
		for i := 0; i < n; i++ {
			v, ok := value64(in[i])
			if !ok {
				return nil, false
			}
			d[i] = v
		}
		o := []byte{d[0]<<2 | d[1]>>4, d[1]<<4 | d[2]>>2, d[2]<<6 | d[3]}
		out = append(out, o[:n-1]...)
	}
	return out, true
}

var (
	unmarshalerT     = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	textUnmarshalerT = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
)

// Unmarshal is json.Unmarshal.
func Unmarshal(data []byte, ptr any) error {
	i := skip(data, 0)
	j := value(data, i, 0)
	if j < 0 || skip(data, j) != len(data) {
		return errSyntax
	}
	rv := reflect.ValueOf(ptr)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return errors.New("json: Unmarshal(non-pointer or nil)")
	}
	return into(data[i:j], rv.Elem())
}

func typeError(v reflect.Value) error {
	return errors.New("json: cannot unmarshal into Go value of type " + v.Type().String())
}

// into sets v to the (valid) value.
func into(b []byte, v reflect.Value) error {
	null := b[0] == 'n'
	for {
		if v.CanAddr() && v.Addr().Type().Implements(unmarshalerT) && !(null && v.Kind() == reflect.Ptr) {
			return v.Addr().Interface().(json.Unmarshaler).UnmarshalJSON(append([]byte(nil), b...))
		}
		if v.CanAddr() && b[0] == '"' && v.Addr().Type().Implements(textUnmarshalerT) {
			return v.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText(unquote(b))
		}
		if v.Kind() != reflect.Ptr {
			break
		}
		if null {
			v.Set(reflect.Zero(v.Type()))
			return nil
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	t := v.Type()
	if v.Kind() == reflect.Interface && !null {
		if t.NumMethod() > 0 {
			return typeError(v)
		}
		x, err := anyOf(b)
		if err == nil {
			v.Set(reflect.ValueOf(x))
		}
		return err
	}
	switch b[0] {
	case 'n':
		switch v.Kind() {
		case reflect.Interface, reflect.Map, reflect.Slice:
			v.Set(reflect.Zero(t))
		}
		return nil
	case 't', 'f':
		if v.Kind() != reflect.Bool {
			return typeError(v)
		}
		v.SetBool(b[0] == 't')
	case '"':
		switch v.Kind() {
		case reflect.String:
			v.SetString(string(unquote(b)))
		case reflect.Slice:
			if t.Elem().Kind() != reflect.Uint8 {
				return typeError(v)
			}
			d, ok := decode64(unquote(b))
			if !ok {
				return errors.New("json: illegal base64 data")
			}
			v.SetBytes(d)
		default:
			return typeError(v)
		}
	case '[':
		var err error
		n := 0
		if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
			return typeError(v)
		}
		if v.Kind() == reflect.Slice {
			if b[skip(b, 1)] == ']' || v.IsNil() {
				v.Set(reflect.MakeSlice(t, 0, 0))
			}
			v.SetLen(0)
		}
		elems(b, func(e []byte) {
			if v.Kind() == reflect.Slice {
				if v.Cap() > n { // what is there is decoded into
					v.SetLen(n + 1)
				} else {
					v.Set(reflect.Append(v, reflect.Zero(t.Elem())))
				}
			}
			if n < v.Len() {
				if er := into(e, v.Index(n)); er != nil && err == nil {
					err = er
				}
			}
			n++
		})
		for ; v.Kind() == reflect.Array && n < v.Len(); n++ {
			v.Index(n).Set(reflect.Zero(t.Elem()))
		}
		return err
	case '{':
		var err error
		set := func(e error) {
			if err == nil {
				err = e
			}
		}
		switch v.Kind() {
		case reflect.Map:
			if t.Key().Kind() != reflect.String {
				return typeError(v)
			}
			if v.IsNil() {
				v.Set(reflect.MakeMap(t))
			}
			members(b, func(k, e []byte) {
				x := reflect.New(t.Elem()).Elem()
				set(into(e, x))
				v.SetMapIndex(reflect.ValueOf(string(k)).Convert(t.Key()), x)
			})
		case reflect.Struct:
			fs := fieldsOf(t)
			members(b, func(k, e []byte) {
				if i := match(fs, k); i >= 0 {
					fv := v
					for _, j := range fs[i].index {
						fv = fv.Field(j)
					}
					if fs[i].quoted {
						set(errors.New("jsonmodel: the string option is not modelled"))
						return
					}
					set(into(e, fv))
				}
			})
		default:
			return typeError(v)
		}
		return err
	default: // a number
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			n, err := strconv.ParseInt(string(b), 10, 64)
			if err != nil || v.OverflowInt(n) {
				return typeError(v)
			}
			v.SetInt(n)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			n, err := strconv.ParseUint(string(b), 10, 64)
			if err != nil || v.OverflowUint(n) {
				return typeError(v)
			}
			v.SetUint(n)
		case reflect.Float32, reflect.Float64:
			n, err := strconv.ParseFloat(string(b), t.Bits())
			if err != nil || v.OverflowFloat(n) {
				return typeError(v)
			}
			v.SetFloat(n)
		case reflect.String:
			if t != numberT {
				return typeError(v)
			}
			v.SetString(string(b))
		default:
			return typeError(v)
		}
	}
	return nil
}

// match is the field with that name, or with one that differs only in case, or -1.
func match(fs []fieldInfo, k []byte) int {
	for i, f := range fs {
		if len(k) == len(f.name) && sym.EqBytes(k, []byte(f.name)) {
			return i
		}
	}
	folded := fold(k)
	for i, f := range fs {
		g := fold([]byte(f.name))
		if len(folded) == len(g) && sym.EqBytes(folded, g) {
			return i
		}
	}
	return -1
}

// fold gives letters their upper case; the long s and the Kelvin sign are letters, too.
func fold(k []byte) (out []byte) {
	for len(k) > 0 {
		if len(k) >= 2 && sym.And(k[0] == 0xc5, k[1] == 0xbf) {
			out, k = append(out, 'S'), k[2:]
			continue
		}
		if len(k) >= 3 && sym.And(k[0] == 0xe2, k[1] == 0x84, k[2] == 0xaa) {
			out, k = append(out, 'K'), k[3:]
			continue
		}
		c := k[0]
		out, k = append(out, sym.IteU8(between(c, 'a', 'z'), c-32, c)), k[1:]
	}
	return
}

func elems(b []byte, f func(e []byte)) {
	i := skip(b, 1)
	for b[i] != ']' {
		j := value(b, i, 0)
		f(b[i:j])
		i = skip(b, j)
		if b[i] == ',' {
			i = skip(b, i+1)
		}
	}
}

func members(b []byte, f func(k, e []byte)) {
	i := skip(b, 1)
	for b[i] != '}' {
		j := str(b, i)
		k := unquote(b[i:j])
		i = skip(b, skip(b, j)+1)
		j = value(b, i, 0)
		f(k, b[i:j])
		i = skip(b, j)
		if b[i] == ',' {
			i = skip(b, i+1)
		}
	}
}

func anyOf(b []byte) (x any, err error) {
	switch b[0] {
	case 'n':
		return nil, nil
	case 't', 'f':
		return b[0] == 't', nil
	case '"':
		return string(unquote(b)), nil
	case '[':
		l := []any{}
		elems(b, func(e []byte) {
			y, er := anyOf(e)
			if er != nil {
				err = er
			}
			l = append(l, y)
		})
		return l, err
	case '{':
		m := map[string]any{}
		members(b, func(k, e []byte) {
			y, er := anyOf(e)
			if er != nil {
				err = er
			}
			m[string(k)] = y
		})
		return m, err
	}
	f, err := strconv.ParseFloat(string(b), 64)
	return f, err
}

// Compact is json.Compact.
func Compact(dst *bytes.Buffer, src []byte) error {
	if !Valid(src) {
		return errSyntax
	}
	for i := skip(src, 0); i < len(src); i = skip(src, i) {
		if src[i] == '"' {
			j := str(src, i)
			dst.Write(src[i:j])
			i = j
			continue
		}
		dst.WriteByte(src[i])
		i++
	}
	return nil
}

// Indent is json.Indent for a source without white space at the end.
func Indent(dst *bytes.Buffer, src []byte, prefix, indent string) error {
	if !Valid(src) {
		return errSyntax
	}
	dst.Write(appendIndent(nil, src, prefix, indent))
	return nil
}

func appendIndent(dst, src []byte, prefix, indent string) []byte {
	need := false
	depth := 0
	line := func() {
		dst = append(dst, '\n')
		dst = append(dst, prefix...)
		for i := 0; i < depth; i++ {
			dst = append(dst, indent...)
		}
	}
	end := len(src)
	for end > 0 && space(src[end-1]) {
		end--
	}
	for i := skip(src, 0); i < end; i = skip(src, i) {
		c := src[i]
		if need && c != ']' && c != '}' {
			need = false
			depth++
			line()
		}
		switch c {
		case '"':
			j := str(src, i)
			dst = append(dst, src[i:j]...)
			i = j
			continue
		case '{', '[':
			need = true
			dst = append(dst, c)
		case ',':
			dst = append(dst, c)
			line()
		case ':':
			dst = append(dst, c, ' ')
		case '}', ']':
			if need {
				need = false
			} else {
				depth--
				line()
			}
			dst = append(dst, c)
		default:
			dst = append(dst, c)
		}
		i++
	}
	return append(dst, src[end:]...)
}
