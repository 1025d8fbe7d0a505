package h

import (
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"
)

// The generator builds a symbolic value of any catalogue type. One leaf at a time (the focus) ranges
// over all its values, lengths and shapes; the others are all default or all small non-default symbolic
// values. Which leaf is the focus, and lengths and shapes, are choices that the engine explores
// exhaustively; contents are SMT variables.

const (
	gZero  = iota // the zero value
	gSmall        // a symbolic non-default value that needs one byte
	gFull         // anything within the bounds
)

type generator struct {
	cdcAnimals []func(g *generator, name string, mode int) Animal
	lens       []int // lengths of focused strings and byte slices
	listMax    int   // longest focused list
	depth      int   // recursion bound for Node
	times      bool
	noNilElems bool // no nil pointers in lists with empty_elements
	inEmptyEl  bool
	noNilPtr   bool
	spare      bool  // slices have room behind their end
	json       bool  // for JSON: valid UTF-8, concrete floats, times at some instants, more interface types
	plain      bool  // texts are of letters
	smallN     int   // length of lists which are small, if not 1
	nsec       int64 // of small times
	rest       int   // 0: not chosen yet; 1+mode
	kinds      bool  // small interface values are of any type
}

func newGen() *generator {
	g := &generator{lens: []int{0, 1, 2, 127, 128}, listMax: 2, depth: 2}
	if sym.Tier() > 0 {
		g.lens = []int{0, 1, 2, 3, 126, 127, 128, 129, 300}
		g.listMax = 3
		g.depth = 3
	}
	return g
}

func (g *generator) restMode() int {
	if g.rest == 0 {
		g.rest = 1 + sym.Choose("rest", 2)
	}
	return g.rest - 1
}

func smallU(name string) uint64 { return uint64(sym.U8(name+".small")&0x1f) | 0x21 } // 33..63

func (g *generator) value(rt reflect.Type, name string, mode int) reflect.Value {
	rv := reflect.New(rt).Elem()
	g.fill(rv, name, mode)
	return rv
}

func (g *generator) fill(rv reflect.Value, name string, mode int) {
	rt := rv.Type()
	if mode == gZero && rt != timeT {
		if g.inEmptyEl && rt.Kind() == reflect.Ptr {
			rv.Set(reflect.New(rt.Elem()))
		}
		return
	}
	if rt == timeT {
		rv.Set(reflect.ValueOf(g.time(name, mode)))
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		if mode == gSmall {
			rv.SetBool(true)
			return
		}
		rv.SetBool(sym.Bool(name))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if mode == gSmall {
			rv.SetInt(int64(smallU(name)))
			return
		}
		switch rt.Kind() {
		case reflect.Int8:
			rv.SetInt(int64(sym.I8(name)))
		case reflect.Int16:
			rv.SetInt(int64(sym.I16(name)))
		case reflect.Int32:
			rv.SetInt(int64(sym.I32(name)))
		default:
			rv.SetInt(sym.I64(name))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if mode == gSmall {
			rv.SetUint(smallU(name))
			return
		}
		switch rt.Kind() {
		case reflect.Uint8:
			rv.SetUint(uint64(sym.U8(name)))
		case reflect.Uint16:
			rv.SetUint(uint64(sym.U16(name)))
		case reflect.Uint32:
			rv.SetUint(uint64(sym.U32(name)))
		default:
			rv.SetUint(sym.U64(name))
		}
	case reflect.Float32, reflect.Float64:
		if mode == gSmall {
			rv.SetFloat(1.5)
			return
		}
		if g.json {
			l := floatsOf()
			f := l[sym.Choose(name+".float", len(l))]
			if rt.Kind() == reflect.Float32 {
				if f = float64(float32(f)); f-f != 0 {
					f = 2.5
				}
			}
			rv.SetFloat(f)
			return
		}
		if rt.Kind() == reflect.Float32 {
			rv.SetFloat(float64(sym.F32(name)))
		} else {
			rv.SetFloat(sym.F64(name))
		}
	case reflect.String:
		if g.json {
			rv.SetString(g.text(name, mode))
			return
		}
		rv.SetString(string(g.bytes(name, mode)))
	case reflect.Slice:
		g.slice(rv, name, mode)
	case reflect.Map:
		g.fillMap(rv, name, mode)
	case reflect.Array:
		n := rt.Len()
		if rt.Elem().Kind() == reflect.Uint8 {
			var b []byte
			if mode == gSmall {
				for i := 0; i < n; i++ {
					b = append(b, byte(smallU(fmt.Sprintf("%s[%d]", name, i))))
				}
			} else {
				b = sym.Bytes(name, n)
			}
			for i, c := range b {
				rv.Index(i).SetUint(uint64(c))
			}
			return
		}
		f := -1
		if mode == gFull {
			f = sym.Choose(name+".at", n)
		}
		for i := 0; i < n; i++ {
			g.fill(rv.Index(i), fmt.Sprintf("%s[%d]", name, i), g.sub(mode, i == f))
		}
	case reflect.Ptr:
		if mode == gFull && !g.inEmptyEl && !g.noNilPtr && sym.Choose(name+".nil", 2) == 1 {
			return
		}
		p := reflect.New(rt.Elem())
		g.fill(p.Elem(), name+"*", mode)
		rv.Set(p)
	case reflect.Struct:
		g.strct(rv, name, mode)
	case reflect.Interface:
		if rt == animalT {
			if a := g.animal(name, mode); a != nil {
				rv.Set(reflect.ValueOf(a))
			}
			return
		}
		if rt == shapeT {
			if a := g.shape(name, mode); a != nil {
				rv.Set(reflect.ValueOf(a))
			}
			return
		}
		panic("generator: interface " + rt.String())
	default:
		panic("generator: " + rt.String())
	}
}

func (g *generator) sub(mode int, focus bool) int {
	if focus {
		return gFull
	}
	if mode == gFull {
		return g.restMode()
	}
	return mode
}

func (g *generator) strct(rv reflect.Value, name string, mode int) {
	rt := rv.Type()
	if rt == nodeT {
		g.depth--
		defer func() { g.depth++ }()
		if g.depth <= 0 {
			rv.Field(0).SetInt(int64(smallU(name + ".V")))
			return
		}
	}
	var fs []int
	for i := 0; i < rt.NumField(); i++ {
		if rt.Field(i).PkgPath == "" || rt.Field(i).Anonymous {
			fs = append(fs, i)
		}
	}
	f := -1
	if mode == gFull && len(fs) > 0 {
		f = fs[sym.Choose(name+".focus", len(fs))]
	}
	for _, i := range fs {
		ee := g.inEmptyEl
		g.inEmptyEl = g.noNilElems && hasWord(rt.Field(i).Tag.Get("amino"), "empty_elements")
		g.fill(rv.Field(i), name+"."+rt.Field(i).Name, g.sub(mode, i == f))
		g.inEmptyEl = ee
	}
}

func (g *generator) bytes(name string, mode int) []byte {
	if mode == gSmall {
		return []byte{byte(smallU(name))}
	}
	return sym.Bytes(name, g.lens[sym.Choose(name+".len", len(g.lens))])
}

func (g *generator) slice(rv reflect.Value, name string, mode int) {
	rt := rv.Type()
	if rt.Elem().Kind() == reflect.Uint8 {
		if mode == gFull && sym.Choose(name+".nil", 2) == 1 {
			return
		}
		b := g.bytes(name, mode)
		if g.spare {
			b = append(make([]byte, 0, len(b)+2), b...)
			b[:len(b)+2][len(b)] = 0x55
			b[:len(b)+2][len(b)+1] = 0xaa
		}
		rv.SetBytes(b)
		return
	}
	n := max(1, g.smallN)
	if mode == gFull {
		n = sym.Choose(name+".len", g.listMax+2) - 1
		if n < 0 {
			return // nil
		}
	}
	if g.spare {
		rv.Set(reflect.MakeSlice(rt, n+1, n+1))
		g.fill(rv.Index(n), name+"[spare]", gSmall)
		rv.Set(rv.Slice(0, n))
	} else {
		rv.Set(reflect.MakeSlice(rt, n, n))
	}
	f := -1
	if mode == gFull && n > 0 {
		f = sym.Choose(name+".at", n)
	}
	for i := 0; i < n; i++ {
		g.fill(rv.Index(i), fmt.Sprintf("%s[%d]", name, i), g.sub(mode, i == f))
	}
}

var (
	timeT   = reflect.TypeOf(time.Time{})
	nodeT   = reflect.TypeOf(Node{})
	animalT = reflect.TypeOf((*Animal)(nil)).Elem()
	shapeT  = reflect.TypeOf((*Shape)(nil)).Elem()
)

const (
	minSec = -62135596800 // 0001-01-01T00:00:00Z
	maxSec = 253402300800 // 10000-01-01T00:00:00Z
)

// time: any valid instant, not always in UTC.
func (g *generator) time(name string, mode int) time.Time {
	switch mode {
	case gZero:
		if g.json {
			return time.Time{}
		}
		return time.Unix(0, 0).UTC()
	case gSmall:
		return time.Unix(int64(smallU(name)), g.nsec).In(genZones[2])
	}
	if g.json {
		return g.jsonTime(name)
	}
	s := sym.I64(name + ".sec")
	n := sym.I64(name + ".nsec")
	sym.Assume(sym.And(s >= minSec, s < maxSec, n >= 0, n < 1e9))
	return time.Unix(s, n).In(genZones[1])
}

var genZones = []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("west", -34200)}

// jsonTime: some instants, with any two digits of the fraction.
func (g *generator) jsonTime(name string) time.Time {
	secs := []int64{0, maxSec - 1, -1, minSec, 1582934400, -62130000000, 1e9}
	fracs := []int64{1, 10000000, 10000}
	if sym.Tier() > 0 {
		fracs = []int64{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000}
	}
	k := sym.Choose(name+".sec", len(secs)+len(fracs))
	if k < len(secs) {
		return time.Unix(secs[k], 0).In(genZones[k%3])
	}
	k -= len(secs)
	p := fracs[k]
	d := sym.U8(name + ".frac")
	sym.Assume(d < 100)
	return time.Unix(1582934399, []int64{0, 123456789 / (100 * p) * (100 * p)}[k%2]+int64(d)*p).In(genZones[k%3])
}

// text: short valid UTF-8.
func (g *generator) text(name string, mode int) string {
	if mode == gSmall {
		return string([]byte{byte(smallU(name)) | 0x40})
	}
	if g.plain {
		b := sym.Bytes(name, []int{0, 2}[sym.Choose(name+".text", 2)])
		for _, c := range b {
			sym.Assume(sym.And(c|0x20 >= 'a', c|0x20 <= 'z'))
		}
		return string(b)
	}
	return symText(name)
}

// symText: any text of up to one character, and any ASCII character after another one.
func symText(name string) string {
	n := sym.Choose(name+".text", 6)
	b := sym.Bytes(name, []int{0, 1, 2, 3, 4, 2}[n])
	switch n {
	case 1:
		sym.Assume(b[0] < 0x80)
	case 2:
		sym.Assume(sym.And(b[0] >= 0xc2, b[0] <= 0xdf, b[1]&0xc0 == 0x80))
	case 3:
		sym.Assume(sym.And(b[0]&0xf0 == 0xe0, b[1]&0xc0 == 0x80, b[2]&0xc0 == 0x80, sym.Imp(b[0] == 0xe0, b[1] >= 0xa0), sym.Imp(b[0] == 0xed, b[1] < 0xa0)))
	case 4:
		sym.Assume(sym.And(b[0] >= 0xf0, b[0] <= 0xf4, b[1]&0xc0 == 0x80, b[2]&0xc0 == 0x80, b[3]&0xc0 == 0x80, sym.Imp(b[0] == 0xf0, b[1] >= 0x90), sym.Imp(b[0] == 0xf4, b[1] < 0x90)))
	case 5:
		b[0] = []byte("a\\\"\n")[sym.Choose(name+".first", 4)]
		sym.Assume(b[1] < 0x80)
	}
	return string(b)
}

func ascii(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

// fillMap: up to two entries.
func (g *generator) fillMap(rv reflect.Value, name string, mode int) {
	rt := rv.Type()
	n := 1
	if mode == gFull {
		k := 4
		if rt.Elem().Kind() == reflect.Int64 {
			k = 5
		}
		n = sym.Choose(name+".len", k) - 1
		if n < 0 {
			return // nil
		}
	}
	rv.Set(reflect.MakeMap(rt))
	set := func(k string, v reflect.Value) { rv.SetMapIndex(reflect.ValueOf(k).Convert(rt.Key()), v) }
	switch n {
	case 1:
		set("k", g.value(rt.Elem(), name+"[k]", mode))
	case 2: // any two keys
		k1, k2 := sym.Bytes(name+".key1", 1), sym.Bytes(name+".key2", sym.Choose(name+".keylen", 3))
		for _, b := range append(append([]byte(nil), k1...), k2...) {
			sym.Assume(b < 0x80)
			if g.plain {
				sym.Assume(sym.And(b|0x20 >= 'a', b|0x20 <= 'z'))
			}
		}
		sym.Assume(!sym.EqBytes(k1, k2))
		set(string(k1), g.value(rt.Elem(), name+"[1]", gSmall))
		set(string(k2), g.value(rt.Elem(), name+"[2]", gSmall))
	case 3:
		set(g.text(name+".key", gFull), g.value(rt.Elem(), name+"[]", gSmall))
	}
}

func (g *generator) shape(name string, mode int) Shape {
	if mode == gSmall {
		return Square{int32(smallU(name))}
	}
	switch sym.Choose(name+".impl", 3) {
	case 0:
		return nil
	case 1:
		return Square{sym.I32(name)}
	default:
		return Both{Dog{Age: sym.I64(name)}}
	}
}

// animal: nil or one of the registered implementers.
func (g *generator) animal(name string, mode int) Animal {
	if mode == gSmall && g.kinds {
		switch sym.Choose(name+".kind", 10) {
		case 0:
			return &Cat{uint8(smallU(name))}
		case 1:
			return Fish(smallU(name))
		case 2:
			return Tag(g.text(name, gSmall))
		case 3:
			return Blob{byte(smallU(name))}
		case 4:
			return Data{byte(smallU(name))}
		case 5:
			return Nums{int16(smallU(name))}
		case 6:
			return Words{g.text(name, gSmall)}
		case 7:
			return Pack{{A: int64(smallU(name))}}
		case 8:
			return Both{Fish(smallU(name))}
		case 9:
			return Bird{Wing: uint32(smallU(name)), At: time.Unix(1, 7).UTC()}
		}
	}
	if mode == gSmall {
		return Dog{Age: int64(smallU(name))}
	}
	n := 15
	if g.json {
		n = 20
	}
	num := func() int64 {
		if g.json {
			return int64(sym.I8(name))
		}
		return sym.I64(name)
	}
	switch sym.Choose(name+".impl", n) {
	case 0:
		return nil
	case 1:
		if g.json {
			return Dog{Name: ascii(name, 1)}
		}
		return Dog{Name: "a" + sym.String(name, 2)}
	case 2:
		return Dog{Age: num()}
	case 3:
		return &Dog{Age: num()}
	case 4:
		return &Cat{sym.U8(name)}
	case 5:
		return Fish(num())
	case 6:
		if g.json {
			return Tag(symText(name))
		}
		return Tag(sym.String(name, g.lens[sym.Choose(name+".len", len(g.lens))]))
	case 7:
		var b Blob
		copy(b[:], sym.Bytes(name, 4))
		return b
	case 8:
		return Data(sym.Bytes(name, sym.Choose(name+".len", 3)))
	case 9:
		l := make(Nums, sym.Choose(name+".len", 3))
		for i := range l {
			if g.json {
				l[i] = int16(sym.I8(fmt.Sprintf("%s[%d]", name, i)))
				continue
			}
			l[i] = sym.I16(fmt.Sprintf("%s[%d]", name, i))
		}
		return l
	case 10:
		l := make(Words, sym.Choose(name+".len", 3))
		for i := range l {
			if g.json {
				l[i] = ascii(fmt.Sprintf("%s[%d]", name, i), i)
				continue
			}
			l[i] = sym.String(fmt.Sprintf("%s[%d]", name, i), sym.Choose(name+".strlen", 2))
		}
		return l
	case 11:
		l := make(Pack, sym.Choose(name+".len", 3))
		for i := range l {
			l[i].A = int64(sym.I8(fmt.Sprintf("%s[%d]", name, i)))
		}
		return l
	case 12:
		if sym.Choose(name+".innil", 2) == 1 {
			return Both{}
		}
		return Both{Fish(sym.I16(name))}
	case 13:
		return Both{&Cat{sym.U8(name)}}
	case 15:
		return JDog{A: Dog{Age: num()}, C: []byte{}}
	case 16:
		return JDog{B: map[string]Animal{"a": Fish(sym.I8(name)), "b": nil}, C: sym.Bytes(name+".C", 2)}
	case 17:
		return &JTime{T: time.Unix(1582934399, 120000000).UTC()}
	case 18:
		return JMap{"q": int16(sym.I8(name)), "": 1}
	case 19:
		return []JMap{nil, {}}[sym.Choose(name+".nilmap", 2)]
	default:
		b := Bird{At: g.time(name, gZero)}
		switch sym.Choose(name+".bird", 4) {
		case 1:
			if g.json {
				b.At = time.Unix(-1, int64(sym.Choose(name+".nano", 2))).UTC()
				break
			}
			b.At = g.time(name, gFull)
		case 2:
			b.Wing, b.Nest = sym.U32(name), []string{"", "x"}
			if g.json {
				b.Wing &= 0xff
			}
		case 3:
			b.Fly, b.Egg = sym.Bool(name), &Leaf{A: 1}
		}
		return b
	}
}

const mixBound = "every pattern of default and small non-default fields of a struct (of 9 groups of fields if there are more); every pattern of nil, default and small elements of one list of up to 4 (thorough: 6) elements or one array"

// mix: every pattern of default and non-default fields of the struct rv, or of the elements of one of its lists.
func (g *generator) mix(rv reflect.Value) {
	rt := rv.Type()
	what := sym.Choose("mix", rt.NumField()+1)
	if what == 0 {
		var bits [9]int
		for i := range bits {
			if i < rt.NumField() {
				bits[i] = sym.Choose(fmt.Sprintf("mix.%d", i), 2)
			}
		}
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" || rt.Field(i).Anonymous {
				g.inEmptyEl = g.noNilElems && hasWord(rt.Field(i).Tag.Get("amino"), "empty_elements")
				g.fill(rv.Field(i), "v."+rt.Field(i).Name, []int{gZero, gSmall}[bits[i%9]])
				g.inEmptyEl = false
			}
		}
		return
	}
	k := what - 1
	sf := rt.Field(k)
	ft := derefT(sf.Type)
	sym.Assume(sf.PkgPath == "" && (ft.Kind() == reflect.Slice || ft.Kind() == reflect.Array && ft.Len() < 7) && ft.Elem().Kind() != reflect.Uint8)
	rest := []int{gZero, gSmall}[sym.Choose("mix.rest", 2)]
	for i := 0; i < rt.NumField(); i++ {
		if i != k && (rt.Field(i).PkgPath == "" || rt.Field(i).Anonymous) {
			g.inEmptyEl = g.noNilElems && hasWord(rt.Field(i).Tag.Get("amino"), "empty_elements")
			g.fill(rv.Field(i), "v."+rt.Field(i).Name, rest)
		}
	}
	g.inEmptyEl = g.noNilElems && hasWord(sf.Tag.Get("amino"), "empty_elements")
	f := rv.Field(k)
	for f.Kind() == reflect.Ptr {
		f.Set(reflect.New(f.Type().Elem()))
		f = f.Elem()
	}
	n := f.Len()
	if f.Kind() == reflect.Slice {
		n = sym.Choose("mix.len", 5+2*min(sym.Tier(), 1))
		f.Set(reflect.MakeSlice(f.Type(), n, n))
	}
	ptr := f.Type().Elem().Kind() == reflect.Ptr && !g.inEmptyEl
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("mix[%d]", i)
		c := 2
		if ptr {
			c = 3
		}
		switch sym.Choose(name, c) {
		case 0:
			g.fill(f.Index(i), name, gZero)
		case 1:
			g.fill(f.Index(i), name, gSmall)
		case 2:
			f.Index(i).Set(reflect.New(f.Type().Elem().Elem()))
			g.fill(f.Index(i).Elem(), name, gZero)
		}
	}
	g.inEmptyEl = false
}
