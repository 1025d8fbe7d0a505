package jsonmodel

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"
)

type inner struct {
	A int8   `json:"a"`
	B string `json:",omitempty"`
	c int
}

type mixed struct {
	I   int64
	U   uint8            `json:"u,omitempty"`
	S   string           `json:"s"`
	Bz  []byte           `json:"bz,omitempty"`
	Arr [3]int16         `json:"arr"`
	L   []inner          `json:"l"`
	P   *inner           `json:"p,omitempty"`
	M   map[string]int32 `json:"m"`
	Any any
	Raw json.RawMessage
	T   time.Time
	F   float64
	Not int `json:"-"`
	inner
	D  time.Duration
	Ks string `json:"ks"`
}

func random(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(r.Int63() >> uint(r.Intn(63)))
		if r.Intn(2) == 0 {
			v.SetInt(-v.Int())
		}
	case reflect.Uint8:
		v.SetUint(uint64(r.Intn(256)))
	case reflect.String:
		v.SetString(text(r))
	case reflect.Float64:
		v.SetFloat(r.NormFloat64())
	case reflect.Slice:
		if t == reflect.TypeOf(json.RawMessage{}) {
			v.SetBytes([]byte([]string{"1", ` {"a" : "<é\u2028` + "\u2028" + `"} `, "[1, 2]", "null", "bad{"}[r.Intn(5)]))
			break
		}
		if n := r.Intn(4); n > 0 {
			v.Set(reflect.MakeSlice(t, n-1, n))
			for i := 0; i < n-1; i++ {
				v.Index(i).Set(random(r, t.Elem(), depth-1))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(random(r, t.Elem(), depth-1))
		}
	case reflect.Ptr:
		if r.Intn(2) == 0 {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(random(r, t.Elem(), depth-1))
		}
	case reflect.Map:
		if n := r.Intn(4); n > 0 {
			v.Set(reflect.MakeMap(t))
			for ; n > 1; n-- {
				v.SetMapIndex(random(r, t.Key(), 0), random(r, t.Elem(), 0))
			}
		}
	case reflect.Interface:
		switch r.Intn(4) {
		case 0:
			v.Set(reflect.ValueOf(1))
		case 1:
			v.Set(reflect.ValueOf(text(r)))
		case 2:
			v.Set(reflect.ValueOf(&inner{A: 3}))
		}
	case reflect.Struct:
		if t == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).UTC()))
			break
		}
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(random(r, t.Field(i).Type, depth-1))
			} else if t.Field(i).Name == "inner" {
				v.Field(i).Field(0)
			}
		}
	}
	return v
}

var bits = []string{"a", "é", "\u2028", "\u2029", "\xff", "<", "&", "\"", "\\", "\n", "\x01", "\x1f", "\b", "€", "\xe2\x80", "😀", "\xed\xa0\x80", "K", " ", "k", "ſ", "/", "\x7f", "{", "\t"}

func text(r *rand.Rand) string {
	s := ""
	for n := r.Intn(5); n > 0; n-- {
		s += bits[r.Intn(len(bits))]
	}
	return s
}

func TestEncode(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 100000; i++ {
		v := random(r, reflect.TypeOf(mixed{}), 3).Interface()
		if i%2 == 0 {
			m := v.(mixed)
			m.inner.A = 5
			v = &m
		}
		b1, e1 := json.Marshal(v)
		b2, e2 := Marshal(v)
		if (e1 == nil) != (e2 == nil) || !bytes.Equal(b1, b2) {
			t.Fatalf("%s\n%s\n%v %v", b1, b2, e1, e2)
		}
		if e1 != nil {
			continue
		}
		b1, _ = json.MarshalIndent(v, ">", "  ")
		b2, _ = MarshalIndent(v, ">", "  ")
		if !bytes.Equal(b1, b2) {
			t.Fatalf("%s\n%s", b1, b2)
		}
		check(t, b1)
		check(t, mutate(r, b1))
		b1, _ = json.Marshal(v)
		check(t, b1)
		for k := 0; k < 5; k++ {
			check(t, mutate(r, b1))
		}
	}
}

var frags = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u00e9", "\\ud83d\\ude00", "\\ud800", "\\uDC00", "\\uD83d\\u0041", "\\n", "\\x", "null", "true", "false", "0", "-", "1", ".5", "e", "E+1", "e-", "01", " ", "\n", "\xff", "\x01", "=", "AAE=", "AA==", "99999999999999999999", "256", "\"a\":1", "ſ", "K", "\"KS\":\"x\"", "\"kS\":\"y\"", "\"P\":{}", "\"any\":[1,{\"a\":null}]", "A\\nA=="}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(2); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		f := frags[r.Intn(len(frags))]
		switch r.Intn(4) {
		case 0:
			b = append(b[:i:i], append([]byte(f), b[i:]...)...)
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte(f), b[i+1:]...)...)
		case 3:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i:i], append([]byte(f), b[j:]...)...)
		}
	}
	return b
}

func check(t *testing.T, b []byte) {
	if json.Valid(b) != Valid(b) {
		t.Fatalf("valid: %q %v", b, json.Valid(b))
	}
	same := func(what string, f, g func(d *bytes.Buffer) error) {
		var d, e bytes.Buffer
		d.WriteString("x")
		e.WriteString("x")
		e1, e2 := f(&d), g(&e)
		if (e1 == nil) != (e2 == nil) || !bytes.Equal(d.Bytes(), e.Bytes()) {
			t.Fatalf("%s: %q\n%q\n%q", what, b, d.Bytes(), e.Bytes())
		}
	}
	same("compact", func(d *bytes.Buffer) error { return json.Compact(d, b) }, func(d *bytes.Buffer) error { return Compact(d, b) })
	if len(bytes.TrimSpace(b)) == len(b) {
		same("indent", func(d *bytes.Buffer) error { return json.Indent(d, b, "p", "\t") }, func(d *bytes.Buffer) error { return Indent(d, b, "p", "\t") })
	}
	same("escape", func(d *bytes.Buffer) error { json.HTMLEscape(d, b); return nil }, func(d *bytes.Buffer) error { HTMLEscape(d, b); return nil })
	for _, f := range []func() any{
		func() any { return new(mixed) },
		func() any { return new(map[string]json.RawMessage) },
		func() any { return new([]json.RawMessage) },
		func() any { return new(json.RawMessage) },
		func() any { return new(string) },
		func() any { return new([]byte) },
		func() any { return new(any) },
		func() any { return new(int8) },
		func() any { return new(uint64) },
		func() any { return new(float32) },
		func() any { return new(bool) },
		func() any {
			return new(struct {
				Name string          `json:"type"`
				Data json.RawMessage `json:"value"`
			})
		},
		func() any { return new(map[string]any) },
		func() any {
			return &mixed{S: "x", L: []inner{{A: 1}, {B: "q"}}, P: &inner{A: 5}, Arr: [3]int16{1, 2, 3}, M: map[string]int32{"z": 1}}
		},
		func() any { s := "x"; p := &s; return &p },
	} {
		v1, v2 := f(), f()
		e1, e2 := json.Unmarshal(b, v1), Unmarshal(b, v2)
		if (e1 == nil) != (e2 == nil) || e1 == nil && !reflect.DeepEqual(v1, v2) {
			if e2 != nil && strings.Contains(e2.Error(), "is not modelled") {
				continue
			}
			t.Fatalf("unmarshal %T %q: %v %v\n%#v\n%#v", v1, b, e1, e2, v1, v2)
		}
	}
}

func TestShort(t *testing.T) {
	r := rand.New(rand.NewSource(2))
	for i := 0; i < 300000; i++ {
		b := []byte(`"`)
		if i%3 == 0 {
			b = nil
		}
		for n := r.Intn(6); n > 0; n-- {
			b = append(b, frags[r.Intn(len(frags))]...)
			if r.Intn(4) == 0 {
				b = append(b, text(r)...)
			}
		}
		if i%3 == 1 {
			b = append(b, '"')
		}
		check(t, b)
	}
}
