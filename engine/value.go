package main

import (
	"go/types"
	"sync"
)

// V is an interpreted value.
//
//	bool/ints/floats: concrete bits in u (masked to width), or r=*Term
//	string:   r=nil ("") | string | *SStr
//	slice:    r=nil | *Slice
//	pointer:  r=nil | *Cell | *SymPtr | nativeObj
//	struct/array: r=*Agg (immutable when held in a register)
//	interface: r=nil | *Iface
//	func: r=nil | *Func
//	map: r=nil | *MapObj
//	reflect.Value: r=nil (invalid) | *RV
//	tuple: r=Tuple
type V struct {
	u uint64
	r any
}

type Tuple []V

type Cell struct {
	u   uint64
	r   any
	gen uint32
}

type Agg struct {
	cells []Cell
}

type Slice struct {
	a        *Agg
	off      int
	len, cap int
}

// SStr is a string with at least one non-concrete byte.
type SStr struct {
	b    []V
	lazy bool // has pseudo bytes that stand for the text of a number
}

// Opaque is a pseudo byte in a string whose content is not modelled
// (formatted error text); looking at it makes a path inconclusive.
type Opaque struct{}

var opaque = &Opaque{}

type SymPtr struct {
	a   *Agg
	off int
	n   int
	idx *Term // < n on this path
}

type Iface struct {
	t *TInfo
	v V
}

type Func struct {
	f    *CFunc
	free []V
	nat  func(fr *Frame, args []V) V // native closure (bound reflect methods)
	sig  *types.Signature
}

type RV struct {
	t  *TInfo
	v  V
	c  *Cell // addressable storage, or nil
	ro bool
	m  *boundMethod
}

type boundMethod struct {
	recv V // receiver value
	fn   *CFunc
	sig  *types.Signature
}

type nativeObj interface {
	invoke(fr *Frame, method string, args []V) V
}

type RType struct {
	t *TInfo
	p *Prog
}

type Kind uint8

// reflect kinds
const (
	KInvalid Kind = iota
	KBool
	KInt
	KInt8
	KInt16
	KInt32
	KInt64
	KUint
	KUint8
	KUint16
	KUint32
	KUint64
	KUintptr
	KFloat32
	KFloat64
	KComplex64
	KComplex128
	KArray
	KChan
	KFunc
	KInterface
	KMap
	KPtr
	KSlice
	KString
	KStruct
	KUnsafePointer
)

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

type TInfo struct {
	t       types.Type
	id      int
	under   types.Type
	kind    Kind
	w       uint8 // scalar width (0 for bool)
	scalar  bool  // integer/bool/float
	signed  bool
	isFloat bool
	special bool // reflect.Value: opaque struct
	elem    *TInfo
	key     *TInfo
	alen    int
	fields  []*TInfo
	rt      V // cached reflect.Type interface value
	name    string

	methMu sync.Mutex
	meth   map[string]*CFunc
	impl   map[*TInfo]bool
	msOnce sync.Once
	ms     []*types.Selection // exported methods sorted by name
	ptr    *TInfo
	slice  *TInfo
	size   int64
}

func (t *TInfo) isInt() bool { return t.scalar && !t.isFloat && t.kind != KBool }

// ---- memory

func (x *Exec) zero(t *TInfo) V {
	switch t.kind {
	case KStruct:
		if t.special {
			return V{}
		}
		a := &Agg{cells: make([]Cell, len(t.fields))}
		for i, f := range t.fields {
			c := &a.cells[i]
			c.gen = x.gen
			if f.kind == KStruct || f.kind == KArray {
				c.r = x.zero(f).r
			}
		}
		return V{r: a}
	case KArray:
		return V{r: x.zeroArray(t.elem, t.alen)}
	}
	return V{}
}

func (x *Exec) zeroArray(e *TInfo, n int) *Agg {
	a := &Agg{cells: make([]Cell, n)}
	agg := e.kind == KStruct && !e.special || e.kind == KArray
	for i := range a.cells {
		c := &a.cells[i]
		c.gen = x.gen
		if agg {
			c.r = x.zero(e).r
		}
	}
	return a
}

func (x *Exec) newCell(t *TInfo) *Cell {
	c := &Cell{gen: x.gen}
	if t.kind == KStruct || t.kind == KArray {
		c.r = x.zero(t).r
	}
	return c
}

func (x *Exec) newCellV(v V) *Cell {
	v = x.copyV(v)
	return &Cell{u: v.u, r: v.r, gen: x.gen}
}

func (x *Exec) copyV(v V) V {
	if a, ok := v.r.(*Agg); ok {
		return V{r: x.copyAgg(a)}
	}
	return v
}

func (x *Exec) copyAgg(a *Agg) *Agg {
	n := &Agg{cells: make([]Cell, len(a.cells))}
	for i := range a.cells {
		s, d := &a.cells[i], &n.cells[i]
		d.gen = x.gen
		d.u = s.u
		if sa, ok := s.r.(*Agg); ok {
			d.r = x.copyAgg(sa)
		} else {
			d.r = s.r
		}
	}
	return n
}

func (x *Exec) touch(c *Cell) {
	if c.gen != x.gen {
		x.trail = append(x.trail, undo{c: c, u: c.u, r: c.r, g: c.gen})
		c.gen = x.gen
	}
}

type undo struct {
	c *Cell
	u uint64
	r any
	g uint32
	f func()
}

func (x *Exec) store(c *Cell, v V) {
	if a, ok := v.r.(*Agg); ok {
		d := c.r.(*Agg)
		for i := range a.cells {
			s := &a.cells[i]
			x.store(&d.cells[i], V{s.u, s.r})
		}
		return
	}
	if x.race != nil {
		x.race.access(x, c, true)
	}
	if c.gen != x.gen {
		x.touch(c)
	}
	c.u, c.r = v.u, v.r
}

func (x *Exec) load(c *Cell) V {
	if a, ok := c.r.(*Agg); ok {
		if x.race != nil {
			x.raceLoadAgg(a)
		}
		return V{r: x.copyAgg(a)}
	}
	if x.race != nil {
		x.race.access(x, c, false)
	}
	return V{c.u, c.r}
}

func (x *Exec) raceLoadAgg(a *Agg) {
	for i := range a.cells {
		c := &a.cells[i]
		if sa, ok := c.r.(*Agg); ok {
			x.raceLoadAgg(sa)
		} else {
			x.race.access(x, c, false)
		}
	}
}

func (x *Exec) undoAll() {
	for i := len(x.trail) - 1; i >= 0; i-- {
		u := &x.trail[i]
		if u.f != nil {
			u.f()
		} else {
			u.c.u, u.c.r, u.c.gen = u.u, u.r, u.g
		}
	}
	x.trail = x.trail[:0]
}

// ---- byte slices and strings helpers

func (s *Slice) at(i int) *Cell { return &s.a.cells[s.off+i] }

func (x *Exec) mkBytes(b []V) V {
	a := &Agg{cells: make([]Cell, len(b))}
	for i := range b {
		a.cells[i] = Cell{u: b[i].u, r: b[i].r, gen: x.gen}
	}
	return V{r: &Slice{a: a, len: len(b), cap: len(b)}}
}

func (x *Exec) mkBytesC(b []byte) V {
	a := &Agg{cells: make([]Cell, len(b))}
	for i := range b {
		a.cells[i] = Cell{u: uint64(b[i]), gen: x.gen}
	}
	return V{r: &Slice{a: a, len: len(b), cap: len(b)}}
}

func (x *Exec) sliceVals(v V) []V {
	s, _ := v.r.(*Slice)
	if s == nil {
		return nil
	}
	r := make([]V, s.len)
	for i := range r {
		r[i] = x.load(s.at(i))
	}
	return r
}

func mkStr(b []V) V {
	sym, lazy := false, false
	for i := range b {
		if r := b[i].r; r != nil {
			sym = true
			if _, ok := r.(*LazyDec); ok {
				lazy = true
				break
			}
		}
	}
	if sym {
		return V{r: &SStr{b: b, lazy: lazy}}
	}
	bb := make([]byte, len(b))
	for i := range b {
		bb[i] = byte(b[i].u)
	}
	return cstr(string(bb))
}

func cstr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic("strLen")
}

func strAt(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{u: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strVals(v V) []V {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := range r {
			r[i].u = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic("strVals")
}

func strSub(v V, lo, hi int) V {
	switch s := v.r.(type) {
	case nil:
		return V{}
	case string:
		return cstr(s[lo:hi])
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSub")
}

func strConcat(a, b V) V {
	as, aok := a.r.(string)
	bs, bok := b.r.(string)
	if aok && bok {
		return V{r: as + bs}
	}
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	av, bv := strVals(a), strVals(b)
	r := make([]V, 0, len(av)+len(bv))
	r = append(append(r, av...), bv...)
	return mkStr(r)
}

func concStr(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}
