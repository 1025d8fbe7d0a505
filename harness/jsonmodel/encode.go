// Package jsonmodel is a model of encoding/json for the symbolic execution engine, which runs it in place of
// the real one; natively it only serves the harnesses as a reference. It covers what go-amino needs and
// what refactorings of it may need.
package jsonmodel

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"aminoharness/sym"
)

// Marshal is json.Marshal.
func Marshal(v any) ([]byte, error) {
	return appendValue(nil, reflect.ValueOf(v))
}

// MarshalIndent is json.MarshalIndent.
func MarshalIndent(v any, prefix, indent string) ([]byte, error) {
	b, err := Marshal(v)
	if err != nil {
		return nil, err
	}
	return appendIndent(nil, b, prefix, indent), nil
}

var (
	marshalerT     = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	textMarshalerT = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	numberT        = reflect.TypeOf(json.Number(""))
)

func appendValue(dst []byte, v reflect.Value) ([]byte, error) {
	if !v.IsValid() {
		return append(dst, "null"...), nil
	}
	t := v.Type()
	if t.Kind() != reflect.Ptr && v.CanAddr() && reflect.PtrTo(t).Implements(marshalerT) {
		return appendMarshaler(dst, v.Addr().Interface().(json.Marshaler))
	}
	if t.Implements(marshalerT) {
		if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
			return append(dst, "null"...), nil
		}
		return appendMarshaler(dst, v.Interface().(json.Marshaler))
	}
	if t.Implements(textMarshalerT) {
		if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
			return append(dst, "null"...), nil
		}
		b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return nil, err
		}
		return AppendString(dst, string(b)), nil
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(dst, "true"...), nil
		}
		return append(dst, "false"...), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(dst, v.Int(), 10), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.AppendUint(dst, v.Uint(), 10), nil
	case reflect.Float32:
		return AppendFloat(dst, v.Float(), 32)
	case reflect.Float64:
		return AppendFloat(dst, v.Float(), 64)
	case reflect.String:
		if t == numberT {
			if v.String() == "" {
				return append(dst, '0'), nil
			}
			return append(dst, v.String()...), nil
		}
		return AppendString(dst, v.String()), nil
	case reflect.Interface:
		if v.IsNil() {
			return append(dst, "null"...), nil
		}
		return appendValue(dst, v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return append(dst, "null"...), nil
		}
		return appendValue(dst, v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return append(dst, "null"...), nil
		}
		if t.Elem().Kind() == reflect.Uint8 && !reflect.PtrTo(t.Elem()).Implements(marshalerT) && !reflect.PtrTo(t.Elem()).Implements(textMarshalerT) {
			dst = append(dst, '"')
			dst = AppendBase64(dst, v.Bytes())
			return append(dst, '"'), nil
		}
		return appendList(dst, v)
	case reflect.Array:
		return appendList(dst, v)
	case reflect.Map:
		return appendMap(dst, v)
	case reflect.Struct:
		return appendStruct(dst, v)
	}
	return nil, errors.New("json: unsupported type: " + t.String())
}

func appendMarshaler(dst []byte, m json.Marshaler) ([]byte, error) {
	b, err := m.MarshalJSON()
	if err != nil {
		return nil, err
	}
	if !Valid(b) {
		return nil, errors.New("json: error calling MarshalJSON: invalid JSON")
	}
	var buf bytes.Buffer
	Compact(&buf, b)
	return append(dst, escapeHTML(nil, buf.Bytes())...), nil
}

func appendList(dst []byte, v reflect.Value) ([]byte, error) {
	var err error
	dst = append(dst, '[')
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			dst = append(dst, ',')
		}
		if dst, err = appendValue(dst, v.Index(i)); err != nil {
			return nil, err
		}
	}
	return append(dst, ']'), nil
}

func appendMap(dst []byte, v reflect.Value) ([]byte, error) {
	if v.Type().Key().Kind() != reflect.String {
		return nil, errors.New("json: unsupported type: " + v.Type().String())
	}
	if v.IsNil() {
		return append(dst, "null"...), nil
	}
	keys := v.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	var err error
	dst = append(dst, '{')
	for i, k := range keys {
		if i > 0 {
			dst = append(dst, ',')
		}
		dst = append(AppendString(dst, k.String()), ':')
		if dst, err = appendValue(dst, v.MapIndex(k)); err != nil {
			return nil, err
		}
	}
	return append(dst, '}'), nil
}

type fieldInfo struct {
	index     []int
	name      string
	omitEmpty bool
	quoted    bool
}

func fieldsOf(t reflect.Type) (fs []fieldInfo) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		if tag == "-" {
			continue
		}
		name, opts := tag, ""
		if k := strings.IndexByte(tag, ','); k >= 0 {
			name, opts = tag[:k], tag[k:]+","
		}
		if f.Anonymous && name == "" {
			ft := f.Type
			if ft.Kind() == reflect.Struct {
				for _, s := range fieldsOf(ft) {
					s.index = append([]int{i}, s.index...)
					fs = append(fs, s)
				}
				continue
			}
		}
		if f.PkgPath != "" {
			continue
		}
		if name == "" {
			name = f.Name
		}
		fs = append(fs, fieldInfo{[]int{i}, name, strings.Contains(opts, ",omitempty,"), strings.Contains(opts, ",string,")})
	}
	return
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Interface, reflect.Ptr:
		return v.IsNil()
	}
	return false
}

func appendStruct(dst []byte, v reflect.Value) ([]byte, error) {
	var err error
	dst = append(dst, '{')
	first := true
	for _, f := range fieldsOf(v.Type()) {
		fv := v
		for _, i := range f.index {
			fv = fv.Field(i)
		}
		if f.omitEmpty && isEmpty(fv) {
			continue
		}
		if !first {
			dst = append(dst, ',')
		}
		first = false
		dst = append(AppendString(dst, f.name), ':')
		if f.quoted {
			return nil, errors.New("jsonmodel: the string option is not modelled")
		}
		if dst, err = appendValue(dst, fv); err != nil {
			return nil, err
		}
	}
	return append(dst, '}'), nil
}

// AppendFloat appends a number in the format of encoding/json.
func AppendFloat(dst []byte, f float64, bits int) ([]byte, error) {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return nil, errors.New("json: unsupported value")
	}
	abs := math.Abs(f)
	fmt := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			fmt = 'e'
		}
	}
	b := strconv.AppendFloat(nil, f, fmt, -1, bits)
	if fmt == 'e' {
		// clean up e-09 to e-9
		n := len(b)
		if n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return append(dst, b...), nil
}

func between(b, lo, hi byte) bool { return sym.And(b >= lo, b <= hi) }

// Rune is the length of the UTF-8 sequence at the start of b, and whether it is valid.
func Rune(b []byte) (n int, ok bool) {
	c := b[0]
	if c < 0x80 {
		return 1, true
	}
	cont := func(i int) bool { return between(b[i], 0x80, 0xbf) }
	if between(c, 0xc2, 0xdf) {
		if len(b) >= 2 && cont(1) {
			return 2, true
		}
		return 1, false
	}
	if between(c, 0xe0, 0xef) {
		if len(b) >= 3 && sym.And(cont(1), cont(2), sym.Imp(c == 0xe0, b[1] >= 0xa0), sym.Imp(c == 0xed, b[1] <= 0x9f)) {
			return 3, true
		}
		return 1, false
	}
	if between(c, 0xf0, 0xf4) {
		if len(b) >= 4 && sym.And(cont(1), cont(2), cont(3), sym.Imp(c == 0xf0, b[1] >= 0x90), sym.Imp(c == 0xf4, b[1] <= 0x8f)) {
			return 4, true
		}
	}
	return 1, false
}

// ValidUTF8 tells whether s is valid UTF-8.
func ValidUTF8(s string) bool {
	for b := []byte(s); len(b) > 0; {
		n, ok := Rune(b)
		if !ok {
			return false
		}
		b = b[n:]
	}
	return true
}

func hexDigit(b byte) byte { return sym.IteU8(b < 10, '0'+b, 'a'+b-10) }

// AppendString appends a JSON string, escaped as json.Marshal does.
func AppendString(dst []byte, s string) []byte {
	dst = append(dst, '"')
	for b := []byte(s); len(b) > 0; {
		c := b[0]
		if c < 0x80 {
			b = b[1:]
			if sym.And(c >= 0x20, c != '"', c != '\\', c != '<', c != '>', c != '&') {
				dst = append(dst, c)
				continue
			}
			switch c {
			case '"', '\\':
				dst = append(dst, '\\', c)
			case '\b':
				dst = append(dst, '\\', 'b')
			case '\f':
				dst = append(dst, '\\', 'f')
			case '\n':
				dst = append(dst, '\\', 'n')
			case '\r':
				dst = append(dst, '\\', 'r')
			case '\t':
				dst = append(dst, '\\', 't')
			default:
				dst = append(dst, '\\', 'u', '0', '0', hexDigit(c>>4), hexDigit(c&15))
			}
			continue
		}
		n, ok := Rune(b)
		if !ok {
			dst = append(dst, 0xef, 0xbf, 0xbd) // (an escape before Go 1.27)
		} else if n == 3 && sym.And(b[0] == 0xe2, b[1] == 0x80, b[2]|1 == 0xa9) {
			dst = append(dst, `\u202`...)
			dst = append(dst, b[2]-0xa8+'8')
		} else {
			dst = append(dst, b[:n]...)
		}
		b = b[n:]
	}
	return append(dst, '"')
}

func digit64(v byte) byte {
	return sym.IteU8(v < 26, 'A'+v, sym.IteU8(v < 52, 'a'+v-26, sym.IteU8(v < 62, '0'+v-52, sym.IteU8(v == 62, '+', '/'))))
}

// AppendBase64 appends standard padded base64.
func AppendBase64(dst, b []byte) []byte {
	for ; len(b) >= 3; b = b[3:] {
		dst = append(dst, digit64(b[0]>>2), digit64(b[0]<<4&63|b[1]>>4), digit64(b[1]<<2&63|b[2]>>6), digit64(b[2]&63))
	}
	switch len(b) {
	case 1:
		dst = append(dst, digit64(b[0]>>2), digit64(b[0]<<4&63), '=', '=')
	case 2:
		dst = append(dst, digit64(b[0]>>2), digit64(b[0]<<4&63|b[1]>>4), digit64(b[1]<<2&63), '=')
	}
	return dst
}

func escapeHTML(dst, b []byte) []byte {
	for i := 0; i < len(b); i++ {
		c := b[i]
		if sym.Or(c == '<', c == '>', c == '&') {
			dst = append(dst, '\\', 'u', '0', '0', hexDigit(c>>4), hexDigit(c&15))
			continue
		}
		if i+2 < len(b) && sym.And(c == 0xe2, b[i+1] == 0x80, b[i+2]|1 == 0xa9) {
			dst = append(dst, `\u202`...)
			dst = append(dst, b[i+2]-0xa8+'8')
			i += 2
			continue
		}
		dst = append(dst, c)
	}
	return dst
}

// HTMLEscape is json.HTMLEscape.
func HTMLEscape(dst *bytes.Buffer, src []byte) { dst.Write(escapeHTML(nil, src)) }
