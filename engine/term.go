package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions.  Width 0 means Bool.
// Every Exec (worker) owns its own term table; terms are never shared.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool not
	OAnd // bool and
	OOr
	OEq // args same sort
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // k = lo ; width = result width
	OConcat
	OF32to64 // float32 bits widened to float64 bits (evaluated exactly; never sent to the solver)
	OTable   // k = table id, arg0 = index (table lookup over constants)
)

type Term struct {
	id   uint32
	op   Op
	w    uint8
	k    uint64
	args [3]*Term
	n    uint8
	name string
	vars *varSet

	genAt uint32
	genV  uint64
	emit  bool
	ubOK  bool
	ub    uint64
	lb    uint64 // a lower bound, for variables
}

type varSet struct{ bits []uint64 }

func (s *varSet) intersects(o *varSet) bool {
	n := len(s.bits)
	if len(o.bits) < n {
		n = len(o.bits)
	}
	for i := 0; i < n; i++ {
		if s.bits[i]&o.bits[i] != 0 {
			return true
		}
	}
	return false
}

func unionVars(a, b *varSet) *varSet {
	if a == b {
		return a
	}
	if len(a.bits) < len(b.bits) {
		a, b = b, a
	}
	sub := true
	for i := range b.bits {
		if b.bits[i]&^a.bits[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := &varSet{bits: append([]uint64(nil), a.bits...)}
	for i := range b.bits {
		r.bits[i] |= b.bits[i]
	}
	return r
}

type termKey struct {
	op         Op
	w          uint8
	k          uint64
	a0, a1, a2 uint32
}

type TermTab struct {
	small   [65]*[256]*Term // small constants
	tab     map[termKey]*Term
	vars    map[string]*Term
	varList []*Term
	next    uint32
	gen     uint32
	empty   *varSet
	tables  [][]uint64 // constant tables
	tblIdx  map[string]int
	tblW    []uint8
	True    *Term
	False   *Term
	reg     *varReg
}

func newTermTab() *TermTab {
	t := &TermTab{tab: map[termKey]*Term{}, vars: map[string]*Term{}, next: 1, empty: &varSet{}, tblIdx: map[string]int{}}
	t.True = t.konst(0, 1)
	t.False = t.konst(0, 0)
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tt *TermTab) mk(op Op, w uint8, k uint64, args ...*Term) *Term {
	key := termKey{op: op, w: w, k: k}
	switch len(args) {
	case 3:
		key.a2 = args[2].id
		fallthrough
	case 2:
		key.a1 = args[1].id
		fallthrough
	case 1:
		key.a0 = args[0].id
	}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{id: tt.next, op: op, w: w, k: k, n: uint8(len(args))}
	tt.next++
	vs := tt.empty
	for i, a := range args {
		t.args[i] = a
		vs = unionVars(vs, a.vars)
	}
	t.vars = vs
	tt.tab[key] = t
	return t
}

func (tt *TermTab) konst(w uint8, v uint64) *Term {
	v &= mask(w)
	if v >= 256 || w > 64 || w == 0 {
		return tt.mk(OConst, w, v)
	}
	c := &tt.small[w]
	if *c == nil {
		*c = new([256]*Term)
	}
	t := (*c)[v]
	if t == nil {
		t = tt.mk(OConst, w, v)
		(*c)[v] = t
	}
	return t
}
func (tt *TermTab) boolc(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func (tt *TermTab) variable(name string, w uint8) *Term {
	key := fmt.Sprintf("%s:%d", name, w)
	if t, ok := tt.vars[key]; ok {
		return t
	}
	idx := tt.reg.get(name, w)
	t := &Term{id: tt.next, op: OVar, w: w, k: uint64(idx), name: name}
	tt.next++
	vs := &varSet{bits: make([]uint64, idx/64+1)}
	vs.bits[idx/64] = 1 << (uint(idx) % 64)
	t.vars = vs
	tt.vars[key] = t
	for len(tt.varList) <= idx {
		tt.varList = append(tt.varList, nil)
	}
	tt.varList[idx] = t
	return t
}

func (t *Term) isC() bool { return t.op == OConst }
func (t *Term) cv(v uint64) bool {
	return t.op == OConst && t.k == v
}

// ---- boolean constructors

func (tt *TermTab) not(a *Term) *Term {
	if a.isC() {
		return tt.boolc(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op {
	case OUlt:
		return tt.ule(a.args[1], a.args[0])
	case OUle:
		return tt.ult(a.args[1], a.args[0])
	case OSlt:
		return tt.sle(a.args[1], a.args[0])
	case OSle:
		return tt.slt(a.args[1], a.args[0])
	}
	return tt.mk(ONot, 0, 0, a)
}

func (tt *TermTab) and(a, b *Term) *Term {
	if a.isC() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, 0, a, b)
}

func (tt *TermTab) or(a, b *Term) *Term {
	if a.isC() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tt.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, 0, a, b)
}

func (tt *TermTab) eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return tt.boolc(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return tt.not(a)
		}
		if b.k < lbound(a) {
			return tt.False
		}
		switch a.op {
		case OZext:
			iw := a.args[0].w
			if b.k > mask(iw) {
				return tt.False
			}
			return tt.eq(a.args[0], tt.konst(iw, b.k))
		case OSext:
			iw := a.args[0].w
			if uint64(sx(b.k&mask(iw), iw))&mask(a.w) != b.k {
				return tt.False
			}
			return tt.eq(a.args[0], tt.konst(iw, b.k))
		case OIte:
			if a.args[1].isC() && a.args[2].isC() {
				t1, t2 := a.args[1].k == b.k, a.args[2].k == b.k
				switch {
				case t1 && t2:
					return tt.True
				case t1:
					return a.args[0]
				case t2:
					return tt.not(a.args[0])
				default:
					return tt.False
				}
			}
			if a.args[1].isC() && a.args[1].k != b.k {
				return tt.and(tt.not(a.args[0]), tt.eq(a.args[2], b))
			}
			if a.args[2].isC() && a.args[2].k != b.k {
				return tt.and(a.args[0], tt.eq(a.args[1], b))
			}
		case OBor:
			if a.args[1].isC() && b.k&a.args[1].k != a.args[1].k {
				return tt.False
			}
		case OBand:
			if a.args[1].isC() && b.k&^a.args[1].k != 0 {
				return tt.False
			}
		case OAdd:
			if a.args[1].isC() {
				return tt.eq(a.args[0], tt.konst(a.w, b.k-a.args[1].k))
			}
		case OBxor:
			if a.args[1].isC() {
				return tt.eq(a.args[0], tt.konst(a.w, b.k^a.args[1].k))
			}
		}
		return tt.mk(OEq, 0, 0, a, b)
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return tt.eq(a.args[0], b.args[0])
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return tt.eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, a, b)
}

func (tt *TermTab) ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isC() {
			if a.k == 1 {
				return tt.or(c, b)
			}
			return tt.and(tt.not(c), b)
		}
		if b.isC() {
			if b.k == 1 {
				return tt.or(tt.not(c), a)
			}
			return tt.and(c, a)
		}
	}
	if c.op == ONot {
		return tt.ite(c.args[0], b, a)
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

// upper bound of unsigned value, cheap
func ubound(t *Term) uint64 {
	if !t.ubOK {
		t.ub = ubound0(t)
		t.ubOK = true
	}
	return t.ub
}

// lower bound of unsigned value, cheap
func lbound(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return t.lb
	case OZext:
		return lbound(t.args[0])
	case OAdd:
		a, b := ubound(t.args[0]), ubound(t.args[1])
		if s := a + b; s >= a && s <= mask(t.w) {
			return lbound(t.args[0]) + lbound(t.args[1])
		}
	case OMul:
		if x, c, ok := mulConst(t); ok {
			return lbound(x) * c
		}
	case OIte:
		return min(lbound(t.args[1]), lbound(t.args[2]))
	}
	return 0
}

func ubound0(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return ubound(t.args[0])
	case OBand:
		a, b := ubound(t.args[0]), ubound(t.args[1])
		if a < b {
			return a
		}
		return b
	case OBor, OBxor:
		a, b := ubound(t.args[0]), ubound(t.args[1])
		n := bits.Len64(a | b)
		return mask2(n)
	case OLshr:
		if t.args[1].isC() {
			if t.args[1].k >= 64 {
				return 0
			}
			return ubound(t.args[0]) >> t.args[1].k
		}
		return ubound(t.args[0])
	case OIte:
		a, b := ubound(t.args[1]), ubound(t.args[2])
		if a > b {
			return a
		}
		return b
	case OUrem:
		if t.args[1].isC() && t.args[1].k > 0 {
			return t.args[1].k - 1
		}
	case OUdiv:
		if t.args[1].isC() && t.args[1].k > 0 {
			return ubound(t.args[0]) / t.args[1].k
		}
	case OShl:
		if t.args[1].isC() {
			u := ubound(t.args[0])
			if t.args[1].k < 64 && bits.Len64(u)+int(t.args[1].k) <= int(t.w) {
				return u << t.args[1].k
			}
		}
	case OMul:
		if t.args[1].isC() || t.args[0].isC() {
			hi, lo := bits.Mul64(ubound(t.args[0]), ubound(t.args[1]))
			if hi == 0 && lo <= mask(t.w) {
				return lo
			}
		}
	case OAdd:
		a, b := ubound(t.args[0]), ubound(t.args[1])
		s := a + b
		if s >= a && s <= mask(t.w) {
			return s
		}
	case OTable:
		return t.kTableMax()
	}
	return mask(t.w)
}

var tableMaxHook func(t *Term) uint64

func (t *Term) kTableMax() uint64 { return mask(t.w) }

func mask2(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func (tt *TermTab) ult(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isC() && b.isC() {
		return tt.boolc(a.k < b.k)
	}
	if b.isC() {
		if b.k == 0 {
			return tt.False
		}
		if ubound(a) < b.k {
			return tt.True
		}
		if lbound(a) >= b.k {
			return tt.False
		}
		if b.k == 1 {
			return tt.eq(a, tt.konst(a.w, 0))
		}
	}
	if a.isC() {
		if a.k == mask(a.w) || ubound(b) <= a.k {
			return tt.False
		}
		if a.k < lbound(b) {
			return tt.True
		}
	}
	if noWrapAdd(a, b) != nil {
		return tt.False
	}
	if d := noWrapAdd(b, a); d != nil {
		return tt.not(tt.eq(d, tt.konst(d.w, 0)))
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return tt.ult(a.args[0], b.args[0])
	}
	if a.op == OZext && b.isC() {
		iw := a.args[0].w
		if b.k <= mask(iw) {
			return tt.ult(a.args[0], tt.konst(iw, b.k))
		}
	}
	if b.op == OZext && a.isC() {
		iw := b.args[0].w
		if a.k <= mask(iw) {
			return tt.ult(tt.konst(iw, a.k), b.args[0])
		}
	}
	return tt.mk(OUlt, 0, 0, a, b)
}

func (tt *TermTab) ule(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isC() && b.isC() {
		return tt.boolc(a.k <= b.k)
	}
	if a.isC() && a.k == 0 {
		return tt.True
	}
	if b.isC() {
		if ubound(a) <= b.k {
			return tt.True
		}
		if lbound(a) > b.k {
			return tt.False
		}
		if b.k == 0 {
			return tt.eq(a, b)
		}
	}
	if a.isC() && ubound(b) < a.k {
		return tt.False
	}
	if a.isC() && a.k <= lbound(b) {
		return tt.True
	}
	if noWrapAdd(b, a) != nil {
		return tt.True
	}
	if d := noWrapAdd(a, b); d != nil {
		return tt.eq(d, tt.konst(d.w, 0))
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return tt.ule(a.args[0], b.args[0])
	}
	if a.op == OZext && b.isC() {
		iw := a.args[0].w
		if b.k <= mask(iw) {
			return tt.ule(a.args[0], tt.konst(iw, b.k))
		}
	}
	if b.op == OZext && a.isC() {
		iw := b.args[0].w
		if a.k <= mask(iw) {
			return tt.ule(tt.konst(iw, a.k), b.args[0])
		}
	}
	return tt.mk(OUle, 0, 0, a, b)
}

func signBit(w uint8) uint64 { return uint64(1) << (w - 1) }

func (tt *TermTab) slt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isC() && b.isC() {
		return tt.boolc(sx(a.k, a.w) < sx(b.k, b.w))
	}
	ua, ub := ubound(a), ubound(b)
	if ua < signBit(a.w) && ub < signBit(b.w) {
		return tt.ult(a, b)
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return tt.slt(a.args[0], b.args[0])
	}
	if a.op == OSext && b.isC() {
		iw := a.args[0].w
		lo, hi := -int64(1)<<(iw-1), int64(1)<<(iw-1)-1
		k := sx(b.k, b.w)
		if k > hi {
			return tt.True
		}
		if k <= lo {
			return tt.False
		}
		return tt.slt(a.args[0], tt.konst(iw, b.k))
	}
	if b.op == OSext && a.isC() {
		iw := b.args[0].w
		lo, hi := -int64(1)<<(iw-1), int64(1)<<(iw-1)-1
		k := sx(a.k, a.w)
		if k < lo {
			return tt.True
		}
		if k >= hi {
			return tt.False
		}
		return tt.slt(tt.konst(iw, a.k), b.args[0])
	}
	return tt.mk(OSlt, 0, 0, a, b)
}

func (tt *TermTab) sle(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isC() && b.isC() {
		return tt.boolc(sx(a.k, a.w) <= sx(b.k, b.w))
	}
	ua, ub := ubound(a), ubound(b)
	if ua < signBit(a.w) && ub < signBit(b.w) {
		return tt.ule(a, b)
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return tt.sle(a.args[0], b.args[0])
	}
	if a.op == OSext && b.isC() {
		iw := a.args[0].w
		lo, hi := -int64(1)<<(iw-1), int64(1)<<(iw-1)-1
		k := sx(b.k, b.w)
		if k >= hi {
			return tt.True
		}
		if k < lo {
			return tt.False
		}
		return tt.sle(a.args[0], tt.konst(iw, b.k))
	}
	if b.op == OSext && a.isC() {
		iw := b.args[0].w
		lo, hi := -int64(1)<<(iw-1), int64(1)<<(iw-1)-1
		k := sx(a.k, a.w)
		if k <= lo {
			return tt.True
		}
		if k > hi {
			return tt.False
		}
		return tt.sle(tt.konst(iw, a.k), b.args[0])
	}
	return tt.mk(OSle, 0, 0, a, b)
}

// ---- bit-vector constructors

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalBin")
}

func (tt *TermTab) bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %d width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isC() && b.isC() {
		return tt.konst(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.isC() {
			a, b = b, a
		} else if !b.isC() && a.id > b.id {
			a, b = b, a
		}
	}
	m := mask(w)
	switch op {
	case OAdd:
		if b.cv(0) {
			return a
		}
		if b.isC() && a.op == OAdd && a.args[1].isC() {
			return tt.bin(OAdd, a.args[0], tt.konst(w, a.args[1].k+b.k))
		}
	case OSub:
		if b.cv(0) {
			return a
		}
		if a == b {
			return tt.konst(w, 0)
		}
		if b.isC() {
			return tt.bin(OAdd, a, tt.konst(w, -b.k))
		}
	case OMul:
		if b.cv(0) {
			return b
		}
		if b.cv(1) {
			return a
		}
		if b.isC() && b.k&(b.k-1) == 0 {
			return tt.bin(OShl, a, tt.konst(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OBand:
		if b.cv(0) {
			return b
		}
		if b.cv(m) || a == b {
			return a
		}
		if b.isC() {
			u := ubound(a)
			um := mask2(bits.Len64(u))
			if b.k&um == um {
				return a
			}
			if b.k&um == 0 {
				return tt.konst(w, 0)
			}
			if a.op == OBand && a.args[1].isC() {
				return tt.bin(OBand, a.args[0], tt.konst(w, a.args[1].k&b.k))
			}
			if a.op == OZext {
				iw := a.args[0].w
				return tt.zext(tt.bin(OBand, a.args[0], tt.konst(iw, b.k)), w)
			}
			if a.op == OBor && a.args[1].isC() {
				if a.args[1].k&b.k == 0 {
					return tt.bin(OBand, a.args[0], b)
				}
			}
			// low mask => zext(extract)
			if (b.k+1)&b.k == 0 {
				n := uint8(bits.Len64(b.k))
				return tt.zext(tt.extract(a, 0, n), w)
			}
		}
	case OBor:
		if b.cv(0) || a == b {
			return a
		}
		if b.cv(m) {
			return b
		}
		if b.isC() && a.op == OBor && a.args[1].isC() {
			return tt.bin(OBor, a.args[0], tt.konst(w, a.args[1].k|b.k))
		}
	case OBxor:
		if b.cv(0) {
			return a
		}
		if a == b {
			return tt.konst(w, 0)
		}
		if b.cv(m) {
			return tt.bnot(a)
		}
	case OShl:
		if b.cv(0) || a.cv(0) {
			return a
		}
		if b.isC() {
			if b.k >= uint64(w) {
				return tt.konst(w, 0)
			}
			if a.op == OShl && a.args[1].isC() {
				return tt.bin(OShl, a.args[0], tt.konst(w, satAdd(a.args[1].k, b.k, uint64(w))))
			}
		}
	case OLshr:
		if b.cv(0) || a.cv(0) {
			return a
		}
		if b.isC() {
			if b.k >= uint64(w) || (ubound(a)>>b.k) == 0 {
				return tt.konst(w, 0)
			}
			if a.op == OLshr && a.args[1].isC() {
				return tt.bin(OLshr, a.args[0], tt.konst(w, satAdd(a.args[1].k, b.k, uint64(w))))
			}
			if a.op == OZext {
				iw := a.args[0].w
				return tt.zext(tt.bin(OLshr, a.args[0], tt.konst(iw, b.k)), w)
			}
		}
	case OAshr:
		if b.cv(0) || a.cv(0) {
			return a
		}
		if ubound(a) < signBit(w) {
			return tt.bin(OLshr, a, b)
		}
		if b.isC() && b.k >= uint64(w) {
			b = tt.konst(w, uint64(w)-1)
		}
	case OUdiv:
		if b.cv(1) {
			return a
		}
		if b.isC() && b.k != 0 && b.k&(b.k-1) == 0 {
			return tt.bin(OLshr, a, tt.konst(w, uint64(bits.TrailingZeros64(b.k))))
		}
		if b.isC() && b.k != 0 {
			if ubound(a) < b.k {
				return tt.konst(w, 0)
			}
			switch a.op {
			case OZext:
				return tt.zext(tt.bin(OUdiv, a.args[0], tt.konst(a.args[0].w, b.k)), w)
			case OUdiv:
				if c := a.args[1]; c.isC() && c.k != 0 {
					if hi, lo := bits.Mul64(c.k, b.k); hi == 0 && lo <= mask(w) {
						return tt.bin(OUdiv, a.args[0], tt.konst(w, lo))
					}
				}
			case OMul:
				if x, c, ok := mulConst(a); ok && c%b.k == 0 {
					return tt.bin(OMul, x, tt.konst(w, c/b.k))
				} else if ok && b.k%c == 0 {
					return tt.bin(OUdiv, x, tt.konst(w, b.k/c))
				}
			}
		}
	case OUrem:
		if b.isC() && b.k != 0 && b.k&(b.k-1) == 0 {
			return tt.bin(OBand, a, tt.konst(w, b.k-1))
		}
		if b.isC() && ubound(a) < b.k {
			return a
		}
		if b.isC() && b.k != 0 {
			switch a.op {
			case OZext:
				return tt.zext(tt.bin(OUrem, a.args[0], tt.konst(a.args[0].w, b.k)), w)
			case OUrem:
				if c := a.args[1]; c.isC() && c.k != 0 && c.k%b.k == 0 {
					return tt.bin(OUrem, a.args[0], b)
				}
			case OMul:
				if x, c, ok := mulConst(a); ok && c%b.k == 0 {
					return tt.konst(w, 0)
				} else if ok && b.k%c == 0 {
					return tt.bin(OMul, tt.bin(OUrem, x, tt.konst(w, b.k/c)), tt.konst(w, c))
				}
			}
		}
	case OSdiv:
		if b.isC() && b.k < signBit(w) && b.k != 0 && ubound(a) < signBit(w) {
			return tt.bin(OUdiv, a, b)
		}
	case OSrem:
		if b.isC() && b.k < signBit(w) && b.k != 0 && ubound(a) < signBit(w) {
			return tt.bin(OUrem, a, b)
		}
	}
	return tt.mk(op, w, 0, a, b)
}

// polynomial: the text of a number being parsed; kept whole, so that it is recognised in another width.
func polynomial(a *Term) bool {
	for _, b := range append([]*Term{a}, a.args[0], a.args[1]) {
		if b.op == OMul && (b.args[0].isC() || b.args[1].isC()) && b.w > 32 {
			return true
		}
	}
	return false
}

// mulConst: a is x*c without overflow.
func mulConst(a *Term) (x *Term, c uint64, ok bool) {
	x, k := a.args[0], a.args[1]
	if x.isC() {
		x, k = k, x
	}
	if !k.isC() || k.k == 0 {
		return nil, 0, false
	}
	hi, lo := bits.Mul64(ubound(x), k.k)
	return x, k.k, hi == 0 && lo <= mask(a.w)
}

// noWrapAdd: if a is b+d without overflow, d.
func noWrapAdd(a, b *Term) *Term {
	if a.op != OAdd {
		return nil
	}
	p, q := a.args[0], a.args[1]
	if p == b {
		p, q = q, p
	}
	if q != b {
		return nil
	}
	if s := ubound(p) + ubound(q); s < ubound(p) || s > mask(a.w) {
		return nil
	}
	return p
}

func satAdd(a, b, lim uint64) uint64 {
	s := a + b
	if s < a || s > lim {
		return lim
	}
	return s
}

func (tt *TermTab) bnot(a *Term) *Term {
	if a.isC() {
		return tt.konst(a.w, ^a.k)
	}
	if a.op == OBnot {
		return a.args[0]
	}
	return tt.mk(OBnot, a.w, 0, a)
}

func (tt *TermTab) neg(a *Term) *Term {
	if a.isC() {
		return tt.konst(a.w, -a.k)
	}
	if a.op == ONeg {
		return a.args[0]
	}
	return tt.mk(ONeg, a.w, 0, a)
}

func (tt *TermTab) zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrows")
	}
	if a.isC() {
		return tt.konst(w, a.k)
	}
	if a.op == OZext {
		return tt.zext(a.args[0], w)
	}
	return tt.mk(OZext, w, 0, a)
}

func (tt *TermTab) sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tt.konst(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OSext {
		return tt.sext(a.args[0], w)
	}
	if ubound(a) < signBit(a.w) {
		return tt.zext(a, w)
	}
	return tt.mk(OSext, w, 0, a)
}

// extract n bits starting at lo
func (tt *TermTab) extract(a *Term, lo, n uint8) *Term {
	if lo == 0 && n == a.w {
		return a
	}
	if a.isC() {
		return tt.konst(n, a.k>>lo)
	}
	switch a.op {
	case OZext:
		iw := a.args[0].w
		if lo >= iw {
			return tt.konst(n, 0)
		}
		if lo+n <= iw {
			return tt.extract(a.args[0], lo, n)
		}
		return tt.zext(tt.extract(a.args[0], lo, iw-lo), n)
	case OSext:
		iw := a.args[0].w
		if lo+n <= iw {
			return tt.extract(a.args[0], lo, n)
		}
		if lo == 0 {
			return tt.sext(a.args[0], n)
		}
	case OExtract:
		return tt.extract(a.args[0], uint8(a.k)+lo, n)
	case OLshr:
		if a.args[1].isC() {
			s := a.args[1].k
			if s+uint64(lo)+uint64(n) <= uint64(a.w) {
				return tt.extract(a.args[0], lo+uint8(s), n)
			}
		}
	case OShl:
		if a.args[1].isC() {
			s := a.args[1].k
			if uint64(lo) >= s {
				return tt.extract(a.args[0], lo-uint8(s), n)
			}
			if uint64(lo)+uint64(n) <= s {
				return tt.konst(n, 0)
			}
		}
	case OBand, OBor, OBxor:
		return tt.bin(a.op, tt.extract(a.args[0], lo, n), tt.extract(a.args[1], lo, n))
	case OBnot:
		return tt.bnot(tt.extract(a.args[0], lo, n))
	case OConcat:
		lw := a.args[1].w
		if lo+n <= lw {
			return tt.extract(a.args[1], lo, n)
		}
		if lo >= lw {
			return tt.extract(a.args[0], lo-lw, n)
		}
	case OAdd, OSub, OMul:
		if lo == 0 && !polynomial(a) {
			return tt.bin(a.op, tt.extract(a.args[0], 0, n), tt.extract(a.args[1], 0, n))
		}
	case OIte:
		return tt.ite(a.args[0], tt.extract(a.args[1], lo, n), tt.extract(a.args[2], lo, n))
	}
	return tt.mk(OExtract, n, uint64(lo), a)
}

// table lookup: vals[idx] (idx assumed < len(vals); out-of-range gives 0)
func (tt *TermTab) table(vals []uint64, w uint8, idx *Term) *Term {
	if idx.isC() {
		if idx.k < uint64(len(vals)) {
			return tt.konst(w, vals[idx.k])
		}
		return tt.konst(w, 0)
	}
	// build as balanced ITE; hash-consed sharing
	ub := ubound(idx)
	n := len(vals)
	if ub < uint64(n-1) {
		n = int(ub) + 1
	}
	return tt.tableRec(vals[:n], 0, w, idx)
}

func (tt *TermTab) tableRec(vals []uint64, base uint64, w uint8, idx *Term) *Term {
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same {
		return tt.konst(w, vals[0])
	}
	h := len(vals) / 2
	return tt.ite(tt.ult(idx, tt.konst(idx.w, base+uint64(h))),
		tt.tableRec(vals[:h], base, w, idx),
		tt.tableRec(vals[h:], base+uint64(h), w, idx))
}

// ---- evaluation

type Model []uint64 // by variable index

func (m Model) get(i int) uint64 {
	if i < len(m) {
		return m[i]
	}
	return 0
}

func (tt *TermTab) newGen() { tt.gen++ }

// eval under model; call newGen whenever the model changes
func (tt *TermTab) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.genAt == tt.gen {
		return t.genV
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m.get(int(t.k)) & mask(t.w)
	case ONot:
		r = 1 - tt.eval(t.args[0], m)
	case OAnd:
		if tt.eval(t.args[0], m) == 1 {
			r = tt.eval(t.args[1], m)
		}
	case OOr:
		r = 1
		if tt.eval(t.args[0], m) == 0 {
			r = tt.eval(t.args[1], m)
		}
	case OEq:
		r = b2u(tt.eval(t.args[0], m) == tt.eval(t.args[1], m))
	case OIte:
		if tt.eval(t.args[0], m) == 1 {
			r = tt.eval(t.args[1], m)
		} else {
			r = tt.eval(t.args[2], m)
		}
	case OUlt:
		r = b2u(tt.eval(t.args[0], m) < tt.eval(t.args[1], m))
	case OUle:
		r = b2u(tt.eval(t.args[0], m) <= tt.eval(t.args[1], m))
	case OSlt:
		w := t.args[0].w
		r = b2u(sx(tt.eval(t.args[0], m), w) < sx(tt.eval(t.args[1], m), w))
	case OSle:
		w := t.args[0].w
		r = b2u(sx(tt.eval(t.args[0], m), w) <= sx(tt.eval(t.args[1], m), w))
	case OBnot:
		r = ^tt.eval(t.args[0], m) & mask(t.w)
	case ONeg:
		r = -tt.eval(t.args[0], m) & mask(t.w)
	case OZext:
		r = tt.eval(t.args[0], m)
	case OSext:
		r = uint64(sx(tt.eval(t.args[0], m), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = (tt.eval(t.args[0], m) >> t.k) & mask(t.w)
	case OF32to64:
		r = math.Float64bits(float64(math.Float32frombits(uint32(tt.eval(t.args[0], m)))))
	case OConcat:
		r = tt.eval(t.args[0], m)<<t.args[1].w | tt.eval(t.args[1], m)
	default:
		r = evalBin(t.op, t.w, tt.eval(t.args[0], m), tt.eval(t.args[1], m))
	}
	t.genAt, t.genV = tt.gen, r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---- SMT-LIB printing

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(depth int) string {
	if t.op == OVar {
		return t.name
	}
	if t.n == 0 {
		return ref(t)
	}
	if depth == 0 {
		return "..."
	}
	s := "(" + opNames[t.op]
	if opNames[t.op] == "" {
		s = fmt.Sprintf("(op%d:%d", t.op, t.k)
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.args[i].show(depth-1)
	}
	return s + ")"
}

func ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	}
	if t.op == OVar {
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit writes definitions for t (and everything it needs) not yet emitted.
func emitDefs(sb *strings.Builder, t *Term, done func(*Term) bool, mark func(*Term)) {
	if t.op == OConst || done(t) {
		return
	}
	for i := 0; i < int(t.n); i++ {
		emitDefs(sb, t.args[i], done, mark)
	}
	mark(t)
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-fun v%d () %s)\n", t.k, sortStr(t.w))
		return
	}
	if t.op == OF32to64 {
		panic(pathAbort{StUnsupported, "symbolic float widening reached the solver"})
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortStr(t.w))
	switch t.op {
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, ref(t.args[0]))
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for i := 0; i < int(t.n); i++ {
			sb.WriteByte(' ')
			sb.WriteString(ref(t.args[i]))
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}
