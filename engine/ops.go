package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func sxi(u uint64, t *TInfo) int64 {
	if t.signed {
		return sx(u, t.w)
	}
	if t.w < 64 {
		return int64(u)
	}
	if u > math.MaxInt64 {
		return -1 // out of range either way
	}
	return int64(u)
}

// idx64 widens an index value to 64 bits (signed semantics kept; huge unsigned become negative).
func (x *Exec) idx64(v V, t *TInfo) *Term {
	if v.r == nil {
		return x.tt.konst(64, uint64(sxi(v.u, t)))
	}
	tm := x.T(v, t.w)
	if t.signed {
		return x.tt.sext(tm, 64)
	}
	return x.tt.zext(tm, 64)
}

// boundsIdx checks 0 <= idx < n (forking into a panic) and returns the index as a term.
func (x *Exec) boundsIdx(v V, t *TInfo, n int) *Term {
	ix := x.idx64(v, t)
	if n == 0 || !x.branch(x.tt.ult(ix, x.tt.konst(64, uint64(n)))) {
		x.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return ix
}

func (x *Exec) indexValue(xt *TInfo, v, iv V, it *TInfo) V {
	if xt.kind == KString {
		v = x.force(v)
		n := strLen(v)
		if iv.r == nil {
			i := sxi(iv.u, it)
			if i < 0 || i >= int64(n) {
				x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
			}
			return strAt(v, int(i))
		}
		t := x.boundsIdx(iv, it, n)
		if t.isC() {
			return strAt(v, int(t.k))
		}
		r := x.selectScalar(strVals(v), t, 8)
		if s, ok := r.r.(*symSel); ok {
			return mkV(x.tt.table(s.u, 8, s.idx))
		}
		return r
	}
	ag, _ := v.r.(*Agg)
	n := len(ag.cells)
	if iv.r == nil {
		i := sxi(iv.u, it)
		if i < 0 || i >= int64(n) {
			x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return V{ag.cells[i].u, ag.cells[i].r}
	}
	t := x.boundsIdx(iv, it, n)
	return x.fixSel(x.loadSym(&SymPtr{a: ag, n: n, idx: t}), xt.elem)
}

// ---- equality

func (x *Exec) eqBytes(a, b V) *Term {
	if a.r == nil && b.r == nil {
		return x.tt.boolc(a.u == b.u)
	}
	return x.tt.eq(x.T(a, 8), x.T(b, 8))
}

func (x *Exec) strEq(a, b V) *Term {
	if sa, ok := concStr(a); ok {
		if sb, ok := concStr(b); ok {
			return x.tt.boolc(sa == sb)
		}
	}
	a, b = x.force(a), x.force(b)
	if strLen(a) != strLen(b) {
		if x.hasOpaque(a) || x.hasOpaque(b) {
			x.unsupported("comparing opaque text")
		}
		return x.tt.False
	}
	r := x.tt.True
	for i, n := 0, strLen(a); i < n; i++ {
		r = x.tt.and(r, x.eqBytes(strAt(a, i), strAt(b, i)))
		if r == x.tt.False {
			return r
		}
	}
	return r
}

func (x *Exec) hasOpaque(a V) bool {
	s, ok := a.r.(*SStr)
	if !ok {
		return false
	}
	for _, b := range s.b {
		if _, ok := b.r.(*Opaque); ok {
			return true
		}
	}
	return false
}

func (x *Exec) strLess(a, b V) *Term {
	if sa, ok := concStr(a); ok {
		if sb, ok := concStr(b); ok {
			return x.tt.boolc(sa < sb)
		}
	}
	av, bv := strVals(x.force(a)), strVals(x.force(b))
	n := len(av)
	if len(bv) < n {
		n = len(bv)
	}
	r := x.tt.boolc(len(av) < len(bv))
	for i := n - 1; i >= 0; i-- {
		p, q := x.T(av[i], 8), x.T(bv[i], 8)
		r = x.tt.or(x.tt.ult(p, q), x.tt.and(x.tt.eq(p, q), r))
	}
	return r
}

// eqV compares values of static type t (Go ==).
func (x *Exec) eqV(t *TInfo, a, b V) *Term {
	switch t.kind {
	case KString:
		return x.strEq(a, b)
	case KFloat32, KFloat64:
		return x.floatEq(t, a, b)
	case KInterface:
		return x.eqIface(a, b)
	case KStruct:
		if t.special {
			x.rtPanic("reflect: comparing reflect.Value")
		}
		if a.r == nil || b.r == nil {
			return x.tt.boolc(a.r == b.r)
		}
		aa, ba := a.r.(*Agg), b.r.(*Agg)
		r := x.tt.True
		st := t.under.(*types.Struct)
		for i, f := range t.fields {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = x.tt.and(r, x.eqV(f, V{aa.cells[i].u, aa.cells[i].r}, V{ba.cells[i].u, ba.cells[i].r}))
		}
		return r
	case KArray:
		aa, ba := a.r.(*Agg), b.r.(*Agg)
		r := x.tt.True
		for i := range aa.cells {
			r = x.tt.and(r, x.eqV(t.elem, V{aa.cells[i].u, aa.cells[i].r}, V{ba.cells[i].u, ba.cells[i].r}))
		}
		return r
	}
	if t.scalar {
		if a.r == nil && b.r == nil {
			return x.tt.boolc(a.u == b.u)
		}
		return x.tt.eq(x.T(a, t.w), x.T(b, t.w))
	}
	if t.kind == KPtr || t.kind == KUnsafePointer {
		if sp, ok := a.r.(*SymPtr); ok {
			a = V{r: x.resolve(sp)}
		}
		if sp, ok := b.r.(*SymPtr); ok {
			b = V{r: x.resolve(sp)}
		}
		if ra, ok := a.r.(*RType); ok {
			if rb, ok := b.r.(*RType); ok {
				return x.tt.boolc(ra.t == rb.t)
			}
		}
	}
	return x.tt.boolc(a.r == b.r)
}

func (x *Exec) eqIface(a, b V) *Term {
	ia, _ := a.r.(*Iface)
	ib, _ := b.r.(*Iface)
	if ia == nil || ib == nil {
		return x.tt.boolc(ia == nil && ib == nil)
	}
	if ia.t != ib.t {
		return x.tt.False
	}
	switch ia.t.kind {
	case KSlice, KMap, KFunc:
		x.rtPanic("comparing uncomparable type " + typeString(ia.t.t))
	}
	return x.eqV(ia.t, ia.v, ib.v)
}

func (x *Exec) floatParts(t *TInfo, v V) (term *Term, isNaN, isZero *Term) {
	term = x.T(v, t.w)
	expMask, sign := uint64(0x7f800000), uint64(1)<<31
	if t.w == 64 {
		expMask, sign = 0x7ff0000000000000, 1<<63
	}
	abs := x.tt.bin(OBand, term, x.tt.konst(t.w, sign-1))
	isNaN = x.tt.ult(x.tt.konst(t.w, expMask), abs)
	isZero = x.tt.eq(abs, x.tt.konst(t.w, 0))
	return
}

func (x *Exec) floatEq(t *TInfo, a, b V) *Term {
	if a.r == nil && b.r == nil {
		return x.tt.boolc(cf(t, a) == cf(t, b))
	}
	ta, na, za := x.floatParts(t, a)
	tb, nb, zb := x.floatParts(t, b)
	return x.tt.and(x.tt.not(x.tt.or(na, nb)), x.tt.or(x.tt.eq(ta, tb), x.tt.and(za, zb)))
}

// floatLess: a < b
func (x *Exec) floatLess(t *TInfo, a, b V) *Term {
	ta, na, za := x.floatParts(t, a)
	tb, nb, zb := x.floatParts(t, b)
	sign := uint64(1) << (t.w - 1)
	key := func(v *Term) *Term { // order preserving map to unsigned
		neg := x.tt.eq(x.tt.extract(v, t.w-1, 1), x.tt.konst(1, 1))
		return x.tt.ite(neg, x.tt.bnot(v), x.tt.bin(OBor, v, x.tt.konst(t.w, sign)))
	}
	return x.tt.and(x.tt.not(x.tt.or(na, nb)), x.tt.and(x.tt.not(x.tt.and(za, zb)), x.tt.ult(key(ta), key(tb))))
}

func cf(t *TInfo, v V) float64 {
	if t.kind == KFloat32 {
		return float64(math.Float32frombits(uint32(v.u)))
	}
	return math.Float64frombits(v.u)
}

func fv(t *TInfo, f float64) V {
	if t.kind == KFloat32 {
		return V{u: uint64(math.Float32bits(float32(f)))}
	}
	return V{u: math.Float64bits(f)}
}

// ---- binary operators

func (p *Prog) binop(op token.Token, t, yt *TInfo) func(x *Exec, a, b V) V {
	switch op {
	case token.EQL:
		if t.scalar && !t.isFloat {
			w := t.w
			return func(x *Exec, a, b V) V {
				if a.r == nil && b.r == nil {
					return bv(a.u == b.u)
				}
				return mkV(x.tt.eq(x.T(a, w), x.T(b, w)))
			}
		}
		if t.kind == KInterface || yt.kind == KInterface {
			return func(x *Exec, a, b V) V { return mkV(x.eqIface(x.toIface(t, a), x.toIface(yt, b))) }
		}
		return func(x *Exec, a, b V) V { return mkV(x.eqV(t, a, b)) }
	case token.NEQ:
		f := p.binop(token.EQL, t, yt)
		return func(x *Exec, a, b V) V {
			v := f(x, a, b)
			if v.r == nil {
				return V{u: 1 - v.u}
			}
			return mkV(x.tt.not(v.r.(*Term)))
		}
	case token.GTR:
		f := p.binop(token.LSS, t, yt)
		return func(x *Exec, a, b V) V { return f(x, b, a) }
	case token.GEQ:
		f := p.binop(token.LEQ, t, yt)
		return func(x *Exec, a, b V) V { return f(x, b, a) }
	case token.LSS:
		switch {
		case t.kind == KString:
			return func(x *Exec, a, b V) V { return mkV(x.strLess(a, b)) }
		case t.isFloat:
			return func(x *Exec, a, b V) V {
				if a.r == nil && b.r == nil {
					return bv(cf(t, a) < cf(t, b))
				}
				return mkV(x.floatLess(t, a, b))
			}
		case t.signed:
			w := t.w
			return func(x *Exec, a, b V) V {
				if a.r == nil && b.r == nil {
					return bv(sx(a.u, w) < sx(b.u, w))
				}
				return mkV(x.tt.slt(x.T(a, w), x.T(b, w)))
			}
		}
		w := t.w
		return func(x *Exec, a, b V) V {
			if a.r == nil && b.r == nil {
				return bv(a.u < b.u)
			}
			return mkV(x.tt.ult(x.T(a, w), x.T(b, w)))
		}
	case token.LEQ:
		switch {
		case t.kind == KString:
			return func(x *Exec, a, b V) V { return mkV(x.tt.not(x.strLess(b, a))) }
		case t.isFloat:
			return func(x *Exec, a, b V) V {
				if a.r == nil && b.r == nil {
					return bv(cf(t, a) <= cf(t, b))
				}
				return mkV(x.tt.or(x.floatLess(t, a, b), x.floatEq(t, a, b)))
			}
		case t.signed:
			w := t.w
			return func(x *Exec, a, b V) V {
				if a.r == nil && b.r == nil {
					return bv(sx(a.u, w) <= sx(b.u, w))
				}
				return mkV(x.tt.sle(x.T(a, w), x.T(b, w)))
			}
		}
		w := t.w
		return func(x *Exec, a, b V) V {
			if a.r == nil && b.r == nil {
				return bv(a.u <= b.u)
			}
			return mkV(x.tt.ule(x.T(a, w), x.T(b, w)))
		}
	case token.ADD:
		if t.kind == KString {
			return func(x *Exec, a, b V) V { return strConcat(a, b) }
		}
	case token.SHL, token.SHR:
		return p.shift(op, t, yt)
	case token.LAND, token.LOR:
		panic("LAND")
	}
	if t.isFloat {
		return func(x *Exec, a, b V) V {
			if a.r != nil || b.r != nil {
				return x.unsupported("symbolic float arithmetic")
			}
			p, q := cf(t, a), cf(t, b)
			if t.kind == KFloat32 {
				p32, q32 := float32(p), float32(q)
				switch op {
				case token.ADD:
					return fv(t, float64(p32+q32))
				case token.SUB:
					return fv(t, float64(p32-q32))
				case token.MUL:
					return fv(t, float64(p32*q32))
				case token.QUO:
					return fv(t, float64(p32/q32))
				}
			}
			switch op {
			case token.ADD:
				return fv(t, p+q)
			case token.SUB:
				return fv(t, p-q)
			case token.MUL:
				return fv(t, p*q)
			case token.QUO:
				return fv(t, p/q)
			}
			return x.unsupported("float op")
		}
	}
	if !t.scalar {
		return func(x *Exec, a, b V) V { return x.unsupported("binop %v on %s", op, typeString(t.t)) }
	}
	if t.kind == KBool {
		return func(x *Exec, a, b V) V {
			ta, tb := x.T(a, 0), x.T(b, 0)
			switch op {
			case token.AND:
				return mkV(x.tt.and(ta, tb))
			case token.OR:
				return mkV(x.tt.or(ta, tb))
			}
			return x.unsupported("bool op %v", op)
		}
	}
	var o Op
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.AND:
		o = OBand
	case token.OR:
		o = OBor
	case token.XOR:
		o = OBxor
	case token.AND_NOT:
		w := t.w
		return func(x *Exec, a, b V) V {
			if a.r == nil && b.r == nil {
				return V{u: a.u &^ b.u}
			}
			return mkV(x.tt.bin(OBand, x.T(a, w), x.tt.bnot(x.T(b, w))))
		}
	case token.QUO, token.REM:
		switch {
		case op == token.QUO && t.signed:
			o = OSdiv
		case op == token.QUO:
			o = OUdiv
		case t.signed:
			o = OSrem
		default:
			o = OUrem
		}
		w := t.w
		return func(x *Exec, a, b V) V {
			if b.r == nil {
				if b.u == 0 {
					x.rtPanic("integer divide by zero")
				}
				if a.r == nil {
					return V{u: evalBin(o, w, a.u, b.u)}
				}
			} else if x.branch(x.tt.eq(x.T(b, w), x.tt.konst(w, 0))) {
				x.rtPanic("integer divide by zero")
			}
			return mkV(x.tt.bin(o, x.T(a, w), x.T(b, w)))
		}
	default:
		return func(x *Exec, a, b V) V { return x.unsupported("binop %v", op) }
	}
	w := t.w
	m := mask(w)
	switch op {
	case token.ADD:
		return func(x *Exec, a, b V) V {
			if a.r == nil && b.r == nil {
				return V{u: (a.u + b.u) & m}
			}
			return mkV(x.tt.bin(OAdd, x.T(a, w), x.T(b, w)))
		}
	case token.SUB:
		return func(x *Exec, a, b V) V {
			if a.r == nil && b.r == nil {
				return V{u: (a.u - b.u) & m}
			}
			return mkV(x.tt.bin(OSub, x.T(a, w), x.T(b, w)))
		}
	}
	return func(x *Exec, a, b V) V {
		if a.r == nil && b.r == nil {
			return V{u: evalBin(o, w, a.u, b.u)}
		}
		return mkV(x.tt.bin(o, x.T(a, w), x.T(b, w)))
	}
}

func (x *Exec) toIface(t *TInfo, v V) V {
	if t.kind == KInterface {
		return v
	}
	return V{r: &Iface{t: t, v: v}}
}

func (p *Prog) shift(op token.Token, t, yt *TInfo) func(x *Exec, a, b V) V {
	w := t.w
	return func(x *Exec, a, b V) V {
		if yt.signed {
			if b.r == nil {
				if sx(b.u, yt.w) < 0 {
					x.rtPanic("negative shift amount")
				}
			} else if x.branch(x.tt.slt(x.T(b, yt.w), x.tt.konst(yt.w, 0))) {
				x.rtPanic("negative shift amount")
			}
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if t.signed {
				o = OAshr
			}
		}
		if a.r == nil && b.r == nil {
			return V{u: evalBin(o, w, a.u, b.u)}
		}
		ta := x.T(a, w)
		tb := x.T(b, yt.w)
		if yt.w < w {
			tb = x.tt.zext(tb, w)
		} else if yt.w > w {
			if tb.isC() {
				k := tb.k
				if k > uint64(w) {
					k = uint64(w)
				}
				tb = x.tt.konst(w, k)
			} else {
				big := x.tt.ule(x.tt.konst(yt.w, uint64(w)), tb)
				tb = x.tt.ite(big, x.tt.konst(w, uint64(w)), x.tt.extract(tb, 0, w))
			}
		}
		return mkV(x.tt.bin(o, ta, tb))
	}
}

// ---- conversions

func (p *Prog) convert(from, to *TInfo) func(fr *Frame, v V) V {
	switch {
	case from.isInt() && to.isInt():
		fw, tw := from.w, to.w
		if tw <= fw {
			m := mask(tw)
			return func(fr *Frame, v V) V {
				if v.r == nil {
					return V{u: v.u & m}
				}
				return mkV(fr.x.tt.extract(fr.x.T(v, fw), 0, tw))
			}
		}
		if from.signed {
			m := mask(tw)
			return func(fr *Frame, v V) V {
				if v.r == nil {
					return V{u: uint64(sx(v.u, fw)) & m}
				}
				return mkV(fr.x.tt.sext(fr.x.T(v, fw), tw))
			}
		}
		return func(fr *Frame, v V) V {
			if v.r == nil {
				return v
			}
			return mkV(fr.x.tt.zext(fr.x.T(v, fw), tw))
		}
	case from.isInt() && to.isFloat:
		return func(fr *Frame, v V) V {
			if v.r != nil {
				v = V{u: fr.x.concretise(v.r.(*Term))}
			}
			if from.signed {
				if to.kind == KFloat32 {
					return V{u: uint64(math.Float32bits(float32(sx(v.u, from.w))))}
				}
				return fv(to, float64(sx(v.u, from.w)))
			}
			if to.kind == KFloat32 {
				return V{u: uint64(math.Float32bits(float32(v.u)))}
			}
			return fv(to, float64(v.u))
		}
	case from.isFloat && to.isInt():
		return func(fr *Frame, v V) V {
			if v.r != nil {
				return fr.x.unsupported("symbolic float to int")
			}
			f := cf(from, v)
			if to.signed {
				return V{u: uint64(int64(f)) & mask(to.w)}
			}
			return V{u: uint64(f) & mask(to.w)}
		}
	case from.isFloat && to.isFloat:
		if from.w == to.w {
			return func(fr *Frame, v V) V { return v }
		}
		return func(fr *Frame, v V) V {
			x := fr.x
			if v.r == nil {
				return fv(to, cf(from, v))
			}
			t := x.T(v, from.w)
			if to.w == 64 {
				return mkV(x.tt.mk(OF32to64, 64, 0, t))
			}
			if t.op == OF32to64 {
				// widen then narrow: identity except that signalling NaNs are quieted
				f := t.args[0]
				abs := x.tt.bin(OBand, f, x.tt.konst(32, 0x7fffffff))
				nan := x.tt.ult(x.tt.konst(32, 0x7f800000), abs)
				return mkV(x.tt.ite(nan, x.tt.bin(OBor, f, x.tt.konst(32, 0x00400000)), f))
			}
			return x.unsupported("symbolic float64 to float32")
		}
	case to.kind == KString:
		switch {
		case from.kind == KString:
			return func(fr *Frame, v V) V { return v }
		case from.isInt():
			return func(fr *Frame, v V) V {
				if v.r == nil {
					r := sx(v.u, from.w)
					if !from.signed {
						r = int64(v.u)
					}
					if r < 0 || r > utf8.MaxRune {
						r = utf8.RuneError
					}
					return cstr(string(rune(r)))
				}
				return fr.x.runeToStr(fr, v, from)
			}
		case from.kind == KSlice && from.elem.kind == KUint8:
			return func(fr *Frame, v V) V { return mkStr(fr.x.sliceVals(v)) }
		case from.kind == KSlice: // []rune
			return func(fr *Frame, v V) V {
				r := V{}
				for _, e := range fr.x.sliceVals(v) {
					if e.r != nil {
						r = strConcat(r, fr.x.runeToStr(fr, e, from.elem))
					} else {
						r = strConcat(r, cstr(string(rune(int32(e.u)))))
					}
				}
				return r
			}
		}
	case from.kind == KString && to.kind == KSlice:
		if to.elem.kind == KUint8 {
			return func(fr *Frame, v V) V {
				b := strVals(fr.x.force(v))
				c := capRound(len(b))
				s := fr.x.mkBytes(b)
				if len(b) > 0 && c > len(b) {
					sl := s.r.(*Slice)
					ag := &Agg{cells: make([]Cell, c)}
					copy(ag.cells, sl.a.cells)
					for i := range ag.cells {
						ag.cells[i].gen = fr.x.gen
					}
					sl.a = ag
					sl.cap = c
				}
				return s
			}
		}
		return func(fr *Frame, v V) V {
			x := fr.x
			var out []V
			it := x.rangeIter(v, from)
			for {
				t := fr.next(it, true).r.(Tuple)
				if t[0].u == 0 {
					break
				}
				out = append(out, t[2])
			}
			return x.mkBytes(out)
		}
	case from.kind == KUnsafePointer || to.kind == KUnsafePointer:
		return func(fr *Frame, v V) V {
			if from.kind == KUnsafePointer && to.kind == KUintptr || from.kind == KUintptr {
				return fr.x.unsupported("unsafe pointer arithmetic in %s < %s", fr.f.fn, callerName(fr))
			}
			return v
		}
	}
	if types.Identical(from.under, to.under) {
		return func(fr *Frame, v V) V { return v }
	}
	if from.kind == to.kind {
		return func(fr *Frame, v V) V { return v }
	}
	if from.kind == KSlice && to.kind == KArray {
		return func(fr *Frame, v V) V {
			vals := fr.x.sliceVals(v)
			if len(vals) < to.alen {
				fr.x.rtPanic("cannot convert slice to array: length too small")
			}
			a := fr.x.zeroArray(to.elem, to.alen)
			for i := range a.cells {
				a.cells[i].u, a.cells[i].r = vals[i].u, vals[i].r
			}
			return V{r: a}
		}
	}
	return func(fr *Frame, v V) V {
		return fr.x.unsupported("conversion %s -> %s", typeString(from.t), typeString(to.t))
	}
}

func (x *Exec) runeToStr(fr *Frame, v V, from *TInfo) V {
	t := x.T(v, from.w)
	var r *Term
	switch {
	case from.w > 32:
		inR := x.tt.ule(t, x.tt.konst(from.w, utf8.MaxRune))
		r = x.tt.ite(inR, x.tt.extract(t, 0, 32), x.tt.konst(32, utf8.RuneError))
	case from.signed:
		r = x.tt.sext(t, 32)
	default:
		r = x.tt.zext(t, 32)
	}
	f := x.P.pkgs["unicode/utf8"].Func("AppendRune")
	if f == nil {
		return x.unsupported("utf8.AppendRune")
	}
	res := x.call(fr, x.P.cfunc(f), []V{{}, mkV(r)}, nil)
	return mkStr(x.sliceVals(res))
}

// ---- slices

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	if n > 32768 {
		return (n + 8191) &^ 8191
	}
	lo, hi := 0, len(sizeClasses)-1
	for lo < hi {
		m := (lo + hi) / 2
		if sizeClasses[m] < n {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return sizeClasses[lo]
}

func capRound(n int) int {
	if n == 0 {
		return 0
	}
	if n <= 32 {
		return 32
	}
	return roundSize(n)
}

func (x *Exec) esize(t *TInfo) int {
	if t.size == 0 {
		implMu.Lock()
		t.size = x.P.sizes.Sizeof(t.t) + 1
		implMu.Unlock()
	}
	return int(t.size - 1)
}

func growCap(oldCap, need, es int) int {
	nc := oldCap
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return nc
	}
	return roundSize(nc*es) / es
}

func (x *Exec) checkAlloc(bytes int) {
	x.allocTotal += int64(bytes)
	if x.allocLimit > 0 && x.allocTotal > x.allocLimit {
		x.violation("allocation limit exceeded: %d bytes allocated, limit %d", x.allocTotal, x.allocLimit)
	}
}

func (x *Exec) makeSlice(t *TInfo, lv V, lt *TInfo, cv V, ct *TInfo) V {
	l, c := x.idx64(lv, lt), x.idx64(cv, ct)
	es := x.esize(t.elem)
	lim := uint64(1) << 47
	if es > 0 {
		lim = lim / uint64(es)
	}
	if !x.branch(x.tt.ule(l, x.tt.konst(64, lim))) {
		x.rtPanic("makeslice: len out of range")
	}
	if c != l {
		if !x.branch(x.tt.and(x.tt.ule(c, x.tt.konst(64, lim)), x.tt.ule(l, c))) {
			x.rtPanic("makeslice: cap out of range")
		}
	}
	if x.allocLimit > 0 {
		left := x.allocLimit - x.allocTotal
		if left < 0 {
			left = 0
		}
		max := uint64(left)
		if es > 0 {
			max /= uint64(es)
		}
		if !x.branch(x.tt.ule(c, x.tt.konst(64, max))) {
			// a size which the replay notices, if there is one
			x.branch(x.tt.and(x.tt.ule(x.tt.konst(64, max+1<<23), c), x.tt.ule(c, x.tt.konst(64, max+1<<24))))
			x.violation("allocation limit exceeded: make of attacker-chosen size > %d bytes", left)
		}
	}
	huge := uint64(x.hugeLimit)
	if !x.branch(x.tt.ule(c, x.tt.konst(64, huge))) {
		x.abort(StHugeAlloc, "make([]T, n) with n > %d", huge)
	}
	n := int(x.concretise(l))
	cc := n
	if c != l {
		cc = int(x.concretise(c))
	}
	x.checkAlloc(cc * es)
	return V{r: &Slice{a: x.zeroArray(t.elem, cc), len: n, cap: cc}}
}

func (x *Exec) slice(xt *TInfo, v V, l, h, m *Term) V {
	var n, cp int
	var s *Slice
	switch xt.kind {
	case KString:
		v = x.force(v)
		n = strLen(v)
		cp = n
	case KSlice:
		s, _ = v.r.(*Slice)
		if s != nil {
			n, cp = s.len, s.cap
		}
	case KPtr:
		var ag *Agg
		switch c := v.r.(type) {
		case nil:
			x.rtPanic("invalid memory address or nil pointer dereference")
		case *Cell:
			ag = c.r.(*Agg)
		case *SymPtr:
			ag = x.resolve(c).r.(*Agg)
		}
		n = len(ag.cells)
		cp = n
		s = &Slice{a: ag, len: n, cap: n}
	default:
		return x.unsupported("slice of %s", typeString(xt.t))
	}
	hi := x.tt.konst(64, uint64(n))
	if h != nil {
		hi = h
	}
	mx := x.tt.konst(64, uint64(cp))
	if m != nil {
		mx = m
		if !x.branch(x.tt.ule(mx, x.tt.konst(64, uint64(cp)))) {
			x.rtPanic(fmt.Sprintf("slice bounds out of range with capacity %d", cp))
		}
	}
	lo := x.tt.konst(64, 0)
	if l != nil {
		lo = l
	}
	if h != nil {
		if !x.branch(x.tt.ule(hi, mx)) {
			x.rtPanic(fmt.Sprintf("slice bounds out of range with length %d", cp))
		}
	}
	if l != nil {
		if !x.branch(x.tt.ule(lo, hi)) {
			x.rtPanic("slice bounds out of range")
		}
	}
	lc, hc := int(x.concretise(lo)), int(x.concretise(hi))
	if xt.kind == KString {
		return strSub(v, lc, hc)
	}
	if s == nil {
		return V{}
	}
	mc := cp
	if m != nil {
		mc = int(x.concretise(mx))
	}
	return V{r: &Slice{a: s.a, off: s.off + lc, len: hc - lc, cap: mc - lc}}
}

func (x *Exec) appendVals(et *TInfo, sv V, add []V) V {
	s, _ := sv.r.(*Slice)
	if len(add) == 0 {
		return sv
	}
	n, cp := 0, 0
	if s != nil {
		n, cp = s.len, s.cap
	}
	need := n + len(add)
	if need <= cp {
		r := &Slice{a: s.a, off: s.off, len: need, cap: cp}
		for i, v := range add {
			x.store(r.at(n+i), v)
		}
		return V{r: r}
	}
	es := x.esize(et)
	nc := growCap(cp, need, es)
	x.checkAlloc(nc * es)
	ag := x.zeroArray(et, nc)
	for i := 0; i < n; i++ {
		c := s.at(i)
		v := x.load(c)
		x.store(&ag.cells[i], v)
	}
	for i, v := range add {
		x.store(&ag.cells[n+i], v)
	}
	return V{r: &Slice{a: ag, len: need, cap: nc}}
}

func (x *Exec) copySlice(dst V, src []V) int {
	d, _ := dst.r.(*Slice)
	n := 0
	if d != nil {
		n = d.len
	}
	if len(src) < n {
		n = len(src)
	}
	for i := 0; i < n; i++ {
		x.store(d.at(i), src[i])
	}
	return n
}

func (fr *Frame) builtin(bi *ssa.Builtin, tys []*TInfo, args []V, rt *TInfo) V {
	x := fr.x
	switch bi.Name() {
	case "len", "cap":
		switch tys[0].kind {
		case KString:
			return iv(strLen(x.force(args[0])))
		case KSlice:
			s, _ := args[0].r.(*Slice)
			if s == nil {
				return V{}
			}
			if bi.Name() == "cap" {
				return iv(s.cap)
			}
			return iv(s.len)
		case KArray:
			return iv(tys[0].alen)
		case KPtr:
			return iv(tys[0].elem.alen)
		case KMap:
			m, _ := args[0].r.(*MapObj)
			if m == nil {
				return V{}
			}
			x.mapRace(m, false)
			return iv(m.live())
		}
	case "append":
		var add []V
		if tys[1].kind == KString {
			add = strVals(x.force(args[1]))
		} else {
			add = x.sliceVals(args[1])
		}
		return x.appendVals(tys[0].elem, args[0], add)
	case "copy":
		var src []V
		if tys[1].kind == KString {
			src = strVals(x.force(args[1]))
		} else {
			src = x.sliceVals(args[1])
		}
		return iv(x.copySlice(args[0], src))
	case "delete":
		x.mapDelete(args[0], tys[0], args[1])
		return V{}
	case "clear":
		if tys[0].kind == KSlice {
			s, _ := args[0].r.(*Slice)
			if s != nil {
				for i := 0; i < s.len; i++ {
					x.store(s.at(i), x.zero(tys[0].elem))
				}
			}
			return V{}
		}
		m, _ := args[0].r.(*MapObj)
		if m != nil {
			x.touchMap(m)
			m.ents = nil
			m.idx = map[string]int{}
		}
		return V{}
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		d := fr.deferredBy
		if d != nil && d.panicking != nil {
			v := d.panicking.v
			d.panicking = nil
			if v.r == nil {
				return V{r: &Iface{t: x.P.tRuntimeErr, v: cstr("panic called with nil argument")}}
			}
			return v
		}
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		r := args[0]
		f := x.P.binop(token.LSS, tys[0], tys[0])
		for i, a := range args[1:] {
			var c V
			if bi.Name() == "min" {
				c = f(x, a, r)
			} else {
				c = f(x, r, a)
			}
			if c.r == nil {
				if c.u != 0 {
					r = a
				}
			} else if tys[i].scalar {
				r = mkV(x.tt.ite(c.r.(*Term), x.T(a, tys[0].w), x.T(r, tys[0].w)))
			} else if x.branch(c.r.(*Term)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			x.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s, _ := args[0].r.(*Slice)
		if s == nil {
			return V{}
		}
		return V{r: s}
	case "StringData":
		return V{r: strData{x.force(args[0])}}
	case "String":
		n := x.concInt(args[1])
		switch s := args[0].r.(type) {
		case nil:
			return V{}
		case *Slice:
			return mkStr(x.sliceVals(V{r: &Slice{a: s.a, off: s.off, len: n, cap: s.cap}}))
		case strData:
			return strSub(s.s, 0, n)
		case *Cell:
			if n == 1 {
				return mkStr([]V{x.load(s)})
			}
		}
	case "Slice":
		n := x.concInt(args[1])
		switch s := args[0].r.(type) {
		case nil:
			return V{}
		case *Slice:
			return V{r: &Slice{a: s.a, off: s.off, len: n, cap: n}}
		case strData:
			return x.mkBytes(append([]V(nil), strVals(strSub(s.s, 0, n))...))
		}
	}
	return x.unsupported("builtin %s", bi.Name())
}

type strData struct{ s V }

// ---- type assertions

func (x *Exec) typeAssert(v V, t *TInfo, ok bool) V {
	i, _ := v.r.(*Iface)
	good := false
	var r V
	if i != nil {
		if t.kind == KInterface {
			good = x.P.implements(i.t, t)
			r = v
		} else {
			good = i.t == t
			r = i.v
		}
	}
	if ok {
		if !good {
			r = x.zero(t)
		}
		return V{r: Tuple{r, bv(good)}}
	}
	if !good {
		d := "nil"
		if i != nil {
			d = typeString(i.t.t)
		}
		x.rtPanic("interface conversion: interface is " + d + ", not " + typeString(t.t))
	}
	return r
}

// ---- range

type strIter struct {
	s   V
	pos int
}
type mapIter struct {
	m    *MapObj
	keys []V
	pos  int
	mt   *TInfo
}

func (x *Exec) rangeIter(v V, t *TInfo) V {
	if t.kind == KString {
		return V{r: &strIter{s: x.force(v)}}
	}
	m, _ := v.r.(*MapObj)
	it := &mapIter{m: m, mt: t}
	if m != nil {
		x.mapRace(m, false)
		for i := range m.ents {
			if !m.ents[i].dead {
				it.keys = append(it.keys, m.ents[i].k)
			}
		}
		x.permute(it.keys)
	}
	return V{r: it}
}

// permute applies a chosen iteration order (map order is unspecified in Go).
func (x *Exec) permute(k []V) {
	if !x.mapOrder || len(k) < 2 {
		return
	}
	x.mapUsed = true
	for i := 0; i < len(k)-1; i++ {
		j := i + x.choose("~maporder", len(k)-i)
		k[i], k[j] = k[j], k[i]
	}
}

func (fr *Frame) next(it V, isStr bool) V {
	x := fr.x
	if isStr {
		si := it.r.(*strIter)
		n := strLen(si.s)
		if si.pos >= n {
			return V{r: Tuple{{}, {}, {}}}
		}
		p := si.pos
		if s, ok := concStr(si.s); ok {
			r, w := utf8.DecodeRuneInString(s[p:])
			si.pos += w
			return V{r: Tuple{bv(true), iv(p), {u: uint64(uint32(r))}}}
		}
		b := strAt(si.s, p)
		if b.r == nil && b.u < utf8.RuneSelf {
			si.pos++
			return V{r: Tuple{bv(true), iv(p), {u: b.u}}}
		}
		f := x.P.cfunc(x.P.pkgs["unicode/utf8"].Func("DecodeRuneInString"))
		r := x.call(fr, f, []V{strSub(si.s, p, n)}, nil).r.(Tuple)
		si.pos += x.concInt(r[1])
		return V{r: Tuple{bv(true), iv(p), r[0]}}
	}
	mi := it.r.(*mapIter)
	for mi.m != nil && mi.pos < len(mi.keys) {
		k := mi.keys[mi.pos]
		mi.pos++
		if v, ok := x.mapGet(V{r: mi.m}, mi.mt, k); ok {
			return V{r: Tuple{bv(true), k, v}}
		}
	}
	return V{r: Tuple{{}, {}, {}}}
}

// ---- maps

type mapEnt struct {
	k, v V
	hk   string
	dead bool
}

type MapObj struct {
	ents []mapEnt
	idx  map[string]int
	nsym int
	gen  uint32
	cell Cell
}

func (x *Exec) newMap() *MapObj { return &MapObj{idx: map[string]int{}, gen: x.gen} }

func (m *MapObj) live() int {
	n := 0
	for i := range m.ents {
		if !m.ents[i].dead {
			n++
		}
	}
	return n
}

func (x *Exec) mapRace(m *MapObj, w bool) {
	if x.race != nil {
		x.race.access(x, &m.cell, w)
	}
}

func (x *Exec) touchMap(m *MapObj) {
	if m.gen == x.gen {
		return
	}
	oe, oi, on, og := m.ents, m.idx, m.nsym, m.gen
	x.trail = append(x.trail, undo{f: func() { m.ents, m.idx, m.nsym, m.gen = oe, oi, on, og }})
	m.ents = append([]mapEnt(nil), oe...)
	m.idx = make(map[string]int, len(oi))
	for k, v := range oi {
		m.idx[k] = v
	}
	m.gen = x.gen
}

// hashKey returns a canonical key for fully concrete keys.
func (x *Exec) hashKey(t *TInfo, v V, sb *[]byte) bool {
	switch t.kind {
	case KString:
		s, ok := concStr(v)
		if !ok {
			return false
		}
		*sb = append(*sb, fmt.Sprintf("s%d:", len(s))...)
		*sb = append(*sb, s...)
		return true
	case KInterface:
		i, _ := v.r.(*Iface)
		if i == nil {
			*sb = append(*sb, 'n')
			return true
		}
		switch i.t.kind {
		case KSlice, KMap, KFunc:
			x.rtPanic("hash of unhashable type " + typeString(i.t.t))
		}
		*sb = append(*sb, fmt.Sprintf("i%d:", i.t.id)...)
		return x.hashKey(i.t, i.v, sb)
	case KStruct, KArray:
		ag := v.r.(*Agg)
		for j := range ag.cells {
			et := t.elem
			if t.kind == KStruct {
				et = t.fields[j]
			}
			if !x.hashKey(et, V{ag.cells[j].u, ag.cells[j].r}, sb) {
				return false
			}
		}
		return true
	}
	if t.scalar {
		if v.r != nil {
			return false
		}
		if t.isFloat {
			if f := cf(t, v); f != f {
				x.unsupported("NaN map key")
			} else if f == 0 {
				v.u = 0
			}
		}
		*sb = append(*sb, fmt.Sprintf("u%d,", v.u)...)
		return true
	}
	if rt, ok := v.r.(*RType); ok {
		*sb = append(*sb, fmt.Sprintf("T%d,", rt.t.id)...)
		return true
	}
	*sb = append(*sb, fmt.Sprintf("p%p,", v.r)...)
	return true
}

func (x *Exec) mapFind(m *MapObj, mt *TInfo, k V) (int, string) {
	var sb []byte
	conc := x.hashKey(mt.key, k, &sb)
	if conc {
		hk := string(sb)
		if i, ok := m.idx[hk]; ok {
			return i, hk
		}
		if m.nsym == 0 {
			return -1, hk
		}
		for i := range m.ents {
			e := &m.ents[i]
			if e.dead || e.hk != "" {
				continue
			}
			if x.branch(x.eqV(mt.key, e.k, k)) {
				return i, hk
			}
		}
		return -1, hk
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if x.branch(x.eqV(mt.key, e.k, k)) {
			return i, ""
		}
	}
	return -1, ""
}

func (x *Exec) mapGet(mv V, mt *TInfo, k V) (V, bool) {
	m, _ := mv.r.(*MapObj)
	if m == nil {
		var sb []byte
		x.hashKey(mt.key, k, &sb)
		return V{}, false
	}
	x.mapRace(m, false)
	i, _ := x.mapFind(m, mt, k)
	if i < 0 {
		return V{}, false
	}
	return m.ents[i].v, true
}

func (x *Exec) mapSet(mv V, mt *TInfo, k, v V) {
	m, _ := mv.r.(*MapObj)
	if m == nil {
		panic(targetPanic{V{r: &Iface{t: x.P.tRuntimeErr, v: V{r: "assignment to entry in nil map"}}}})
	}
	x.mapRace(m, true)
	i, hk := x.mapFind(m, mt, k)
	x.touchMap(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, mapEnt{k: k, v: v, hk: hk})
	if hk != "" {
		m.idx[hk] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (x *Exec) mapDelete(mv V, mt *TInfo, k V) {
	m, _ := mv.r.(*MapObj)
	if m == nil {
		return
	}
	x.mapRace(m, true)
	i, _ := x.mapFind(m, mt, k)
	if i < 0 {
		return
	}
	x.touchMap(m)
	if m.ents[i].hk != "" {
		delete(m.idx, m.ents[i].hk)
	} else {
		m.nsym--
	}
	m.ents[i].dead = true
}

func callerName(fr *Frame) string {
	if fr.caller == nil {
		return "?"
	}
	return fr.caller.f.fn.String()
}
