package h

import (
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// apart: a deep copy is equal, and nothing done to one of them shows in the other.
func apart[T any](v T) {
	snap := cloneOf(v)
	c, ok := amino.DeepCopy(v).(T)
	sym.Assert(ok, fmt.Sprintf("%T: the copy has another type", v))
	sym.Assert(same(c, snap), fmt.Sprintf("%T: the copy differs from the original", v))
	sym.Assert(same(v, snap), fmt.Sprintf("%T: copying changed the original", v))
	d := amino.DeepCopy(c).(T)
	scribble(reflect.ValueOf(&v).Elem())
	sym.Assert(sym.Same(c, snap), fmt.Sprintf("%T: changing the original changes the copy", v))
	scribble(reflect.ValueOf(&d).Elem())
	sym.Assert(sym.Same(c, snap), fmt.Sprintf("%T: changing a copy of the copy changes the copy", v))
	sym.Cover("copied")
}

func copyOf[T any](opt func(g *generator)) {
	sym.Bound(genBound)
	g := newGen()
	g.lens = []int{0, 1, 2}
	if opt != nil {
		opt(g)
	}
	v := g.value(reflect.TypeOf((*T)(nil)).Elem(), "v", gFull).Interface().(T)
	if sym.Choose("pointer", 2) == 0 {
		apart(v)
	} else {
		apart(&v)
	}
}

func C21_ints()    { copyOf[Ints](nil) }
func C21_ptrs()    { copyOf[Ptrs](nil) }
func C21_nested()  { copyOf[Nest](nil) }
func C21_node()    { copyOf[Node](nil) }
func C21_packed()  { copyOf[PackedLists](nil) }
func C21_text()    { copyOf[TextLists](nil) }
func C21_structs() { copyOf[StructLists](nil) }
func C21_rich()    { copyOf[RichLists](nil) }
func C21_plists()  { copyOf[PtrLists](nil) }
func C21_alists()  { copyOf[ArrayLists](nil) }
func C21_tlists()  { copyOf[TimeLists](nil) }
func C21_named()   { copyOf[NamedLists](nil) }
func C21_inlists() { copyOf[ListsInLists](nil) }
func C21_arrays()  { copyOf[Arrays](nil) }
func C21_zoo()     { copyOf[Zoo](nil) }
func C21_herd()    { copyOf[Herd](nil) }
func C21_floats()  { copyOf[Floats](nil) }

// Maps and what else the binary format does not know.
type Loose struct {
	A map[string]int64
	B map[string]*Leaf
	C map[string][]byte
	D map[MyStr]Leaf
	E map[int8]map[string]bool
	F map[string]Animal
	G any
	H []any
	I ***int16
	J [2]map[string]uint8
	K []map[string][]string
	L map[string]any
	M [][]int8
	N [2][2]*int8
	O map[[2]byte]string
	P []*time.Time
	Q *any
	R map[string][2]*int64
	S map[string]struct{ P *Leaf }
	T map[string][][]byte
	U map[string]**int8
	V map[string]*map[string][]int8
	W map[int]any
	X map[string][1]map[string]*int64
	Y map[string]*time.Time
	Z map[string]time.Time
}

func genLoose() (v Loose) {
	sym.Bound("one field of 26 at a time, maps with up to 2 entries, all scalars")
	b := sym.Bytes("b", 2)
	i := sym.I64("i")
	leaf := func() *Leaf { return &Leaf{A: i, B: string(b)} }
	n := sym.Choose("n", 3) // nil, empty, filled
	mk := n > 0
	fill := n == 2
	switch sym.Choose("focus", 26) {
	case 0:
		if mk {
			v.A = map[string]int64{}
		}
		if fill {
			v.A["a"], v.A[""] = i, 2
		}
	case 1:
		if mk {
			v.B = map[string]*Leaf{}
		}
		if fill {
			v.B["a"], v.B["b"] = leaf(), nil
		}
	case 2:
		if mk {
			v.C = map[string][]byte{}
		}
		if fill {
			v.C["a"], v.C["b"] = b, nil
		}
	case 3:
		if mk {
			v.D = map[MyStr]Leaf{}
		}
		if fill {
			v.D["x"] = *leaf()
		}
	case 4:
		if mk {
			v.E = map[int8]map[string]bool{}
		}
		if fill {
			v.E[1] = map[string]bool{"t": b[0] > 3, "f": true}
			v.E[-1] = nil
		}
	case 5:
		if mk {
			v.F = map[string]Animal{}
		}
		if fill {
			v.F["dog"], v.F["cat"], v.F["data"], v.F["nil"] = &Dog{Age: i}, &Cat{b[0]}, Data(b), nil
		}
	case 6:
		switch n {
		case 1:
			v.G = leaf()
		case 2:
			v.G = map[string]any{"x": []any{leaf(), b, i, nil}}
		}
	case 7:
		if mk {
			v.H = []any{}
		}
		if fill {
			v.H = append(v.H, i, leaf(), nil, b, []*Leaf{leaf()}, [2]*int64{&i}, (*Leaf)(nil), time.Unix(5, i&0xff))
		}
	case 8:
		x := int16(i)
		p := &x
		pp := &p
		if fill {
			v.I = &pp
		} else if mk {
			pp = nil
			v.I = &pp
		}
	case 9:
		if mk {
			v.J[1] = map[string]uint8{}
		}
		if fill {
			v.J[1]["x"] = b[0]
		}
	case 10:
		if mk {
			v.K = []map[string][]string{nil, {}}
		}
		if fill {
			v.K[1]["x"] = []string{string(b), "s"}
		}
	case 11:
		if mk {
			v.L = map[string]any{}
		}
		if fill {
			v.L["p"], v.L["m"] = leaf(), map[string]int64{"i": i}
		}
	case 12:
		if mk {
			v.M = [][]int8{nil, {}}
		}
		if fill {
			v.M = append(v.M, []int8{int8(i), 1})
		}
	case 13:
		if fill {
			x, y := int8(i), int8(b[0])
			v.N[0][1], v.N[1][0] = &x, &y
		}
	case 14:
		if fill {
			v.O = map[[2]byte]string{{1, 2}: string(b)}
		}
	case 15:
		if fill {
			t := time.Unix(i&0xffff, 7)
			v.P = []*time.Time{nil, &t}
		}
	case 16:
		var x any
		if fill {
			x = leaf()
		}
		if mk {
			v.Q = &x
		}
	case 17:
		if fill {
			v.R = map[string][2]*int64{"a": {&i, nil}, "b": {}}
		}
	case 18:
		if fill {
			v.S = map[string]struct{ P *Leaf }{"a": {leaf()}, "b": {}}
		}
	case 19:
		if fill {
			v.T = map[string][][]byte{"a": {b, nil, {}}, "b": nil}
		}
	case 20:
		if fill {
			x := int8(i)
			p := &x
			v.U = map[string]**int8{"a": &p, "b": nil}
		}
	case 21:
		if fill {
			m := map[string][]int8{"x": {int8(i)}}
			v.V = map[string]*map[string][]int8{"a": &m, "b": nil}
		}
	case 22:
		if fill {
			v.W = map[int]any{0: leaf(), 1: nil, 2: []any{b}, -3: [1]*int64{&i}, 4: &b}
		}
	case 23:
		if fill {
			v.X = map[string][1]map[string]*int64{"a": {{"x": &i}}, "b": {}}
		}
	case 24:
		if fill {
			t := time.Unix(i&0xffff, 7)
			v.Y = map[string]*time.Time{"a": &t, "b": nil}
		}
	case 25:
		if fill {
			v.Z = map[string]time.Time{"a": time.Unix(i&0xffff, 7), "b": {}}
		}
	}
	return v
}

func C21_loose() {
	v := genLoose()
	if sym.Choose("pointer", 2) == 0 {
		apart(v)
	} else {
		apart(&v)
	}
}

// top-level values which are not structs
func C21_top() {
	sym.Bound("all 64-bit integers, byte slices of 2 bytes")
	b := sym.Bytes("b", 2)
	i := sym.I64("i")
	switch sym.Choose("type", 14) {
	case 0:
		apart(i)
	case 1:
		apart(b)
	case 2:
		apart([]*int64{&i, nil})
	case 3:
		apart(map[string][]byte{"a": b})
	case 4:
		apart([]any{&i, b, map[string]*int64{"": &i}})
	case 5:
		apart(string(b))
	case 6:
		apart([2][]byte{b, nil})
	case 7:
		apart(&b)
	case 8:
		apart(float64(1.5))
	case 9:
		p := &i
		apart(&p)
	case 10:
		var p *int64
		apart(p)
		apart(&p)
	case 11:
		apart(b[0] > 7)
	case 12:
		var m map[string]int64
		apart(m)
		apart([]map[string]int64{m, {"a": i}})
	case 13:
		sym.Assert(amino.DeepCopy(nil) == nil, "DeepCopy(nil)")
		apart(MyStr(b))
	}
}

// ---- types with methods

// CVal has a DeepCopy method which returns a value, CPtr one which returns a pointer.
type CVal struct{ p *int64 }

func (c CVal) DeepCopy() CVal {
	if c.p == nil {
		return c
	}
	n := *c.p
	return CVal{&n}
}

type CPtr struct{ b []byte }

func (c *CPtr) DeepCopy() *CPtr { return &CPtr{append([]byte(nil), c.b...)} }

// CBad has a method of that name which is something else.
type CBad struct{ A []int64 }

func (c CBad) DeepCopy(n int) CBad { return c }

// CRepr is copied through its representation.
type CRepr struct{ b []byte }

func (c CRepr) MarshalAmino() (string, error) { return string(c.b), nil }
func (c *CRepr) UnmarshalAmino(s string) error {
	c.b = []byte(s)
	return nil
}

type Methods struct {
	A CVal
	B *CVal
	C *CPtr
	D []CVal
	E [1]*CPtr
	F map[string]CVal
	G any
	H CBad
	I CRepr
	J *CRepr
	K []CRepr
	L **CPtr
	M map[string]*CRepr
	N **CVal
}

func C21_methods() {
	sym.Bound("one field of 14 at a time, with all contents")
	n := sym.I64("n")
	b := sym.Bytes("b", 2)
	sb, sn := string(b), n
	var v Methods
	var chk func(m Methods) bool
	isVal := func(c CVal) bool { return c.p != nil && c.p != &n && *c.p == sn }
	isPtr := func(c *CPtr) bool { return c != nil && string(c.b) == sb }
	isRepr := func(c CRepr) bool { return string(c.b) == sb }
	switch sym.Choose("focus", 15) {
	case 0:
		v.A = CVal{&n}
		chk = func(m Methods) bool { return isVal(m.A) }
	case 1:
		v.B = &CVal{&n}
		chk = func(m Methods) bool { return m.B != nil && m.B != v.B && isVal(*m.B) }
	case 2:
		v.C = &CPtr{b}
		chk = func(m Methods) bool { return m.C != v.C && isPtr(m.C) }
	case 3:
		v.D = []CVal{{}, {&n}}
		chk = func(m Methods) bool { return len(m.D) == 2 && m.D[0].p == nil && isVal(m.D[1]) }
	case 4:
		v.E[0] = &CPtr{b}
		chk = func(m Methods) bool { return m.E[0] != v.E[0] && isPtr(m.E[0]) }
	case 5:
		v.F = map[string]CVal{"x": {&n}}
		chk = func(m Methods) bool { return len(m.F) == 1 && isVal(m.F["x"]) }
	case 6:
		v.G = CVal{&n}
		chk = func(m Methods) bool { c, ok := m.G.(CVal); return ok && isVal(c) }
	case 7:
		v.G = &CPtr{b}
		chk = func(m Methods) bool { c, ok := m.G.(*CPtr); return ok && isPtr(c) }
	case 8:
		v.H.A = []int64{n}
		a := v.H.A
		chk = func(m Methods) bool {
			a[0] = ^sn
			return len(m.H.A) == 1 && m.H.A[0] == sn
		}
	case 9:
		v.I = CRepr{b}
		chk = func(m Methods) bool { return isRepr(m.I) }
	case 10:
		v.J = &CRepr{b}
		chk = func(m Methods) bool { return m.J != nil && m.J != v.J && isRepr(*m.J) }
	case 11:
		v.K = []CRepr{{}, {b}}
		chk = func(m Methods) bool { return len(m.K) == 2 && isRepr(m.K[1]) }
	case 12:
		c := &CPtr{b}
		v.L = &c
		chk = func(m Methods) bool { return m.L != nil && m.L != v.L && *m.L != *v.L && isPtr(*m.L) }
	case 13:
		v.M = map[string]*CRepr{"x": {b}}
		chk = func(m Methods) bool { return len(m.M) == 1 && m.M["x"] != v.M["x"] && isRepr(*m.M["x"]) }
	case 14:
		c := &CVal{&n}
		v.N = &c
		chk = func(m Methods) bool { return m.N != nil && m.N != v.N && *m.N != *v.N && isVal(**m.N) }
	}
	c := amino.DeepCopy(v).(Methods)
	n = ^n
	scribbleBytes(b)
	sym.Assert(chk(c), "a type with its own way to be copied is copied differently")
	sym.Cover("copied")
}

func copyMix[T any](opt func(g *generator)) {
	sym.Bound(mixBound)
	g := newGen()
	if opt != nil {
		opt(g)
	}
	var v T
	g.mix(reflect.ValueOf(&v).Elem())
	apart(v)
}

func C21_mix_ints()    { copyMix[Ints](nil) }
func C21_mix_ptrs()    { copyMix[Ptrs](nil) }
func C21_mix_nest()    { copyMix[Nest](nil) }
func C21_mix_packed()  { copyMix[PackedLists](nil) }
func C21_mix_texts()   { copyMix[TextLists](nil) }
func C21_mix_structs() { copyMix[StructLists](nil) }
func C21_mix_rich()    { copyMix[RichLists](nil) }
func C21_mix_plists()  { copyMix[PtrLists](nil) }
func C21_mix_alists()  { copyMix[ArrayLists](nil) }
func C21_mix_tlists()  { copyMix[TimeLists](nil) }
func C21_mix_nlists()  { copyMix[NamedLists](nil) }
func C21_mix_arrays()  { copyMix[Arrays](nil) }
func C21_mix_jlists()  { copyMix[JLists](nil) }
func C21_mix_zoo()     { copyMix[Zoo](nil) }
func C21_mix_octets()  { copyMix[Octets](nil) }
