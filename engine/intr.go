package main

import (
	"encoding/hex"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/bits"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// intrinsics with a fallback to the interpreted body
var maybeIntr = map[string]func(fr *Frame, a []V) (V, bool){}

func regMaybe(name string, f func(fr *Frame, a []V) (V, bool)) { maybeIntr[name] = f }

// LazyDec is a pseudo byte in a string standing for the decimal text of a symbolic integer;
// it is expanded into digits when somebody looks at the text.
type LazyDec struct {
	t      *Term // 64 bit
	signed bool
}

// force expands the lazily formatted numbers of a string.
func (x *Exec) force(v V) V {
	s, ok := v.r.(*SStr)
	if !ok || !s.lazy {
		return v
	}
	var out []V
	for _, b := range s.b {
		if l, ok := b.r.(*LazyDec); ok {
			out = append(out, x.decimal(l.t, l.signed)...)
		} else {
			out = append(out, b)
		}
	}
	return mkStr(out)
}

// setModel changes the model value of one variable on this path.
func (x *Exec) setModel(t *Term, v uint64) {
	i := int(t.k)
	m := make(Model, max(len(x.model), i+1))
	copy(m, x.model)
	m[i] = v
	x.model = m
	x.tt.newGen()
}

// decimal returns the exact decimal digits of a 64 bit term; forks on sign and digit count.
func (x *Exec) decimal(t *Term, signed bool) []V {
	key := decKey{t, signed}
	if d, ok := x.decCache[key]; ok {
		return d
	}
	var out []V
	m := t
	if signed {
		// The digits of the magnitude are the same terms whether it is written as a signed or an unsigned number.
		if x.branch(x.tt.slt(t, x.tt.konst(64, 0))) {
			out = append([]V{{u: '-'}}, x.decimal(x.tt.neg(t), false)...)
		} else {
			out = x.decimal(t, false)
		}
		x.decCache[key] = out
		x.decOrder = append(x.decOrder, key)
		return out
	}
	if m.isC() {
		for _, c := range []byte(strconv.FormatUint(m.k, 10)) {
			out = append(out, V{u: uint64(c)})
		}
		return out
	}
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if x.branch(x.tt.ult(m, x.tt.konst(64, p))) {
			break
		}
		nd++
		p *= 10
	}
	if nd == 1 {
		out = append(out, mkV(x.tt.bin(OAdd, x.tt.extract(m, 0, 8), x.tt.konst(8, '0'))))
	} else {
		x.fresh++
		id := x.fresh
		val := x.tt.eval(m, x.model)
		txt := strconv.FormatUint(val, 10)
		if len(txt) != nd {
			x.abort(StUnsupported, "decimal: digit count mismatch")
		}
		mod := make(Model, len(x.model))
		copy(mod, x.model)
		ds := make([]*Term, nd)
		for i := range ds {
			d := x.tt.variable(fmt.Sprintf("~dec%d.%d.%d", id, nd, i), 8)
			d.ub, d.ubOK = 9, true
			if i == 0 {
				d.lb = 1
			}
			ds[i] = d
			for len(mod) <= int(d.k) {
				mod = append(mod, 0)
			}
			mod[d.k] = uint64(txt[i] - '0')
		}
		x.model = mod
		x.tt.newGen()
		acc := x.tt.zext(ds[0], 64)
		var acc19 *Term
		for i := 1; i < nd; i++ {
			acc = x.tt.bin(OAdd, x.tt.bin(OMul, acc, x.tt.konst(64, 10)), x.tt.zext(ds[i], 64))
			if i == 18 {
				acc19 = acc
			}
		}
		k8 := func(v uint64) *Term { return x.tt.konst(8, v) }
		for _, d := range ds {
			x.pc = append(x.pc, x.tt.mk(OUle, 0, 0, d, k8(9)))
		}
		x.pc = append(x.pc, x.tt.mk(OUle, 0, 0, k8(1), ds[0]))
		if nd == 20 {
			// prevent wrap around of the twenty digit sum: first 19 digits <= 1844674407370955161 (max/10), last digit consistent
			lim := x.tt.konst(64, 1844674407370955161)
			x.addPC(x.tt.ule(acc19, lim))
			x.addPC(x.tt.or(x.tt.ult(acc19, lim), x.tt.ule(ds[19], k8(5))))
		}
		x.addPC(x.tt.eq(acc, m))
		for _, d := range ds {
			out = append(out, mkV(x.tt.bin(OAdd, d, k8('0'))))
		}
	}
	x.decCache[key] = out
	x.decOrder = append(x.decOrder, key)
	return out
}

// parseDecimal finds the number whose decimal text s is, if that text comes from decimal.
func (x *Exec) parseDecimal(s V, name string, signed bool, bits int) (V, bool) {
	b := strVals(x.force(s))
	if bits == 0 {
		bits = 64
	}
	for _, key := range x.decOrder {
		d := x.decCache[key]
		if len(d) != len(b) {
			continue
		}
		eq := true
		for i := range d {
			if d[i] != b[i] {
				eq = false
				break
			}
		}
		if !eq {
			continue
		}
		tt := x.tt
		t := key.t
		ok := tt.boolc(true)
		neg := d[0].r == nil && d[0].u == '-'
		if signed {
			if !key.signed {
				ok = tt.sle(tt.konst(64, 0), t)
			}
			if bits < 64 {
				ok = tt.and(ok, tt.and(tt.sle(tt.konst(64, uint64(-(int64(1)<<(bits-1)))), t), tt.slt(t, tt.konst(64, 1<<(bits-1)))))
			}
		} else {
			if neg {
				ok = tt.boolc(false)
			} else if bits < 64 {
				ok = tt.ult(t, tt.konst(64, 1<<bits))
			}
		}
		if !x.branch(ok) {
			return V{r: Tuple{V{}, x.mkError(cstr("strconv.Parse" + name + ": value out of range"))}}, true
		}
		return V{r: Tuple{mkV(t), V{}}}, true
	}
	return V{}, false
}

type decKey struct {
	t      *Term
	signed bool
}

// ---- text formatting

func strOf(s string) []V {
	r := make([]V, len(s))
	for i := range r {
		r[i].u = uint64(s[i])
	}
	return r
}

func (x *Exec) opq() []V { return []V{{r: opaque}} }

func hexNib(x *Exec, t *Term, upper bool) *Term { // t: 8 bit, <16
	a := uint64('a')
	if upper {
		a = 'A'
	}
	return x.tt.ite(x.tt.ult(t, x.tt.konst(8, 10)), x.tt.bin(OAdd, t, x.tt.konst(8, '0')), x.tt.bin(OAdd, t, x.tt.konst(8, a-10)))
}

func (x *Exec) hexByte(v V, upper bool) []V {
	if v.r == nil {
		if upper {
			return strOf(fmt.Sprintf("%02X", v.u))
		}
		return strOf(fmt.Sprintf("%02x", v.u))
	}
	t := x.T(v, 8)
	hi := x.tt.zext(x.tt.extract(t, 4, 4), 8)
	lo := x.tt.zext(x.tt.extract(t, 0, 4), 8)
	return []V{mkV(hexNib(x, hi, upper)), mkV(hexNib(x, lo, upper))}
}

// goValue converts a concrete scalar for use with the native fmt.
func (x *Exec) goValue(t *TInfo, v V) (any, bool) {
	if t.kind == KString {
		s, ok := concStr(v)
		return s, ok
	}
	if t.scalar {
		if v.r != nil {
			return nil, false
		}
		switch {
		case t.kind == KBool:
			return v.u != 0, true
		case t.kind == KFloat32:
			return float32(cf(t, v)), true
		case t.isFloat:
			return cf(t, v), true
		case t.kind == KUint8:
			return uint8(v.u), true
		case t.signed:
			return sx(v.u, t.w), true
		}
		return v.u, true
	}
	if (t.kind == KSlice || t.kind == KArray) && t.elem.kind == KUint8 {
		var vals []V
		if t.kind == KSlice {
			vals = x.sliceVals(v)
		} else {
			for i := range v.r.(*Agg).cells {
				c := &v.r.(*Agg).cells[i]
				vals = append(vals, V{c.u, c.r})
			}
		}
		b := make([]byte, len(vals))
		for i, e := range vals {
			if e.r != nil {
				return nil, false
			}
			b[i] = byte(e.u)
		}
		return b, true
	}
	return nil, false
}

func (x *Exec) tryMethod(fr *Frame, i *Iface, name string) (r V, ok bool) {
	if rt, is := i.v.r.(*RType); is {
		return cstr(typeString(rt.t.t)), true
	}
	m := x.P.method(i.t, nil, name)
	if m == nil || m.sig.Params().Len() != 0 || m.sig.Results().Len() != 1 {
		return V{}, false
	}
	depth := fr.th.depth
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(targetPanic); is {
				fr.th.depth = depth
				r, ok = V{r: &SStr{b: x.opq()}}, true
				return
			}
			panic(p)
		}
	}()
	return x.call(fr, m, []V{i.v}, nil), true
}

func (x *Exec) fmtArg(fr *Frame, flags string, verb byte, a V) []V {
	i, _ := a.r.(*Iface)
	if i == nil {
		if verb == 'v' {
			return strOf("<nil>")
		}
		return strOf("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return strOf(typeString(i.t.t))
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if !strings.Contains(flags, "#") {
			if x.P.implements(i.t, x.P.tError) {
				if s, ok := x.tryMethod(fr, i, "Error"); ok {
					return strVals(s)
				}
			}
			if s, ok := x.tryMethod(fr, i, "String"); ok {
				return strVals(s)
			}
		}
	}
	if g, ok := x.goValue(i.t, i.v); ok {
		return strOf(fmt.Sprintf("%"+flags+string(verb), g))
	}
	if i.t.kind == KString && (verb == 's' || verb == 'v') && flags == "" {
		return strVals(i.v)
	}
	if i.t.isInt() && i.v.r != nil {
		if flags == "" && (verb == 'd' || verb == 'v') {
			t := x.T(i.v, i.t.w)
			if i.t.signed {
				t = x.tt.sext(t, 64)
			} else {
				t = x.tt.zext(t, 64)
			}
			return []V{{r: &LazyDec{t, i.t.signed}}}
		}
		if i.t.w == 8 && (flags == "02" || flags == "0.2") && (verb == 'x' || verb == 'X') {
			return x.hexByte(i.v, verb == 'X')
		}
	}
	if verb == 'q' && flags == "" {
		v := i.v
		if i.t.kind == KSlice && i.t.elem.kind == KUint8 {
			v = mkStr(x.sliceVals(v))
		} else if i.t.kind != KString {
			return x.opq()
		}
		if q := x.P.pkgs["strconv"]; q != nil && q.Func("Quote") != nil {
			return strVals(x.call(fr, x.P.cfunc(q.Func("Quote")), []V{x.force(v)}, nil))
		}
	}
	if (verb == 'x' || verb == 'X') && flags == "" {
		var vals []V
		switch {
		case i.t.kind == KSlice && i.t.elem.kind == KUint8:
			vals = x.sliceVals(i.v)
		case i.t.kind == KString:
			vals = strVals(x.force(i.v))
		case i.t.kind == KArray && i.t.elem.kind == KUint8:
			for j := range i.v.r.(*Agg).cells {
				c := &i.v.r.(*Agg).cells[j]
				vals = append(vals, V{c.u, c.r})
			}
		default:
			return x.opq()
		}
		var out []V
		for _, b := range vals {
			if _, ok := b.r.(*Opaque); ok {
				return x.opq()
			}
			out = append(out, x.hexByte(b, verb == 'X')...)
		}
		return out
	}
	return x.opq()
}

func (x *Exec) sprintf(fr *Frame, fv V, args []V) []V {
	f, ok := concStr(fv)
	if !ok {
		return x.opq()
	}
	var out []V
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, V{u: uint64(f[i])})
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return append(out, strOf("%!(NOVERB)")...)
		}
		if f[j] == '%' {
			out = append(out, V{u: '%'})
			i = j + 1
			continue
		}
		if f[j] == '*' || f[j] == '[' || f[j] >= utf8.RuneSelf {
			return x.opq()
		}
		if ai >= len(args) {
			out = append(out, strOf("%!"+string(f[j])+"(MISSING)")...)
		} else {
			verb := f[j]
			if verb == 'w' {
				verb = 'v'
			}
			out = append(out, x.fmtArg(fr, f[i+1:j], verb, args[ai])...)
		}
		ai++
		i = j + 1
	}
	if ai < len(args) {
		out = append(out, x.opq()...)
	}
	return out
}

func (x *Exec) sprint(fr *Frame, args []V, ln bool) []V {
	var out []V
	prevStr := true
	for i, a := range args {
		it, _ := a.r.(*Iface)
		isStr := it != nil && it.t.kind == KString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, V{u: ' '})
		}
		out = append(out, x.fmtArg(fr, "", 'v', a)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, V{u: '\n'})
	}
	return out
}

// invoke calls a method on an interface value
func (x *Exec) invoke(fr *Frame, recv V, name string, args ...V) V {
	i, _ := recv.r.(*Iface)
	if i == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if no, ok := i.v.r.(nativeObj); ok {
		return no.invoke(fr, name, args)
	}
	f := x.P.method(i.t, nil, name)
	if f == nil {
		return x.unsupported("no method %s on %s", name, typeString(i.t.t))
	}
	return x.call(fr, f, append([]V{i.v}, args...), nil)
}

// ---- sha256

type shaEnt struct {
	in  []V
	out []V
}

type shaObj struct{ data []V }

func (h *shaObj) invoke(fr *Frame, m string, a []V) V {
	x := fr.x
	switch m {
	case "Write":
		b := x.sliceVals(a[0])
		h.data = append(h.data, b...)
		return V{r: Tuple{iv(len(b)), V{}}}
	case "WriteString":
		b := strVals(fr.x.force(a[0]))
		h.data = append(h.data, b...)
		return V{r: Tuple{iv(len(b)), V{}}}
	case "Sum":
		return x.appendVals(x.P.byType[KUint8], a[0], x.sha256(h.data))
	case "Reset":
		h.data = nil
		return V{}
	case "Size":
		return iv(32)
	case "BlockSize":
		return iv(64)
	}
	return x.unsupported("sha256 method %s", m)
}

func (x *Exec) sha256(in []V) []V {
	c := true
	for _, b := range in {
		if b.r != nil {
			c = false
		}
	}
	if c {
		b := make([]byte, len(in))
		for i := range in {
			b[i] = byte(in[i].u)
		}
		s := sha256.Sum256(b)
		out := make([]V, 32)
		for i := range out {
			out[i].u = uint64(s[i])
		}
		return out
	}
	for _, e := range x.shaCache {
		if len(e.in) == len(in) {
			same := true
			for i := range in {
				if e.in[i] != in[i] {
					same = false
					break
				}
			}
			if same {
				return e.out
			}
		}
	}
	// uninterpreted: an arbitrary digest (the replay is given it, see shaOverlay)
	out := make([]V, 32)
	for i := range out {
		n := fmt.Sprintf("~sha%d[%d]", len(x.shaCache), i)
		t := x.tt.variable(n, 8)
		x.inputs = append(x.inputs, inputRec{n, t})
		out[i] = V{r: t}
	}
	for _, e := range x.shaCache { // a function
		if len(e.in) == len(in) {
			eqIn, eqOut := x.tt.True, x.tt.True
			for i := range in {
				eqIn = x.tt.and(eqIn, x.tt.eq(x.T(e.in[i], 8), x.T(in[i], 8)))
			}
			for i := range out {
				eqOut = x.tt.and(eqOut, x.tt.eq(x.T(e.out[i], 8), x.T(out[i], 8)))
			}
			x.assume(mkV(x.tt.or(x.tt.not(eqIn), eqOut)))
		}
	}
	x.shaCache = append(x.shaCache, shaEnt{in, out})
	return out
}

// ---- synchronisation helpers: state lives in the first scalar leaf of the object

func leaf(c *Cell) *Cell {
	for {
		a, ok := c.r.(*Agg)
		if !ok {
			return c
		}
		found := false
		for i := range a.cells {
			if aa, ok := a.cells[i].r.(*Agg); ok && len(aa.cells) == 0 {
				continue
			}
			c = &a.cells[i]
			found = true
			break
		}
		if !found {
			return c
		}
	}
}

func (x *Exec) rawStore(c *Cell, v V) {
	if c.gen != x.gen {
		x.touch(c)
	}
	c.u, c.r = v.u, v.r
}

func (x *Exec) ptrCell(v V) *Cell {
	switch c := v.r.(type) {
	case *Cell:
		return c
	case *SymPtr:
		return x.resolve(c)
	case nil:
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	x.unsupported("pointer %T", v.r)
	return nil
}

const wrLocked = 1 << 32

// poolNode: what a sync.Pool holds (last in, first out).
type poolNode struct {
	v    V
	next *poolNode
}

func (n *poolNode) nextAny() any {
	if n.next == nil {
		return nil
	}
	return n.next
}

func (x *Exec) fatal(msg string) {
	x.violation("fatal error: %s", msg)
}

func init() {
	// ---- sync
	lock := func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		x.yield(fr, "lock")
		if c.u != 0 {
			if x.sched != nil {
				x.sched.writers[c]++
			}
			x.blockUntil(fr, func() bool { return c.u == 0 })
			x.sched.writers[c]--
		}
		x.rawStore(c, V{u: wrLocked})
		x.acquire(fr, c, true)
		return V{}
	}
	unlock := func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		if c.u != wrLocked {
			x.fatal("sync: unlock of unlocked mutex")
		}
		x.release(fr, c, true)
		x.rawStore(c, V{})
		x.yield(fr, "unlock")
		return V{}
	}
	tryLock := func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		x.yield(fr, "lock")
		if c.u != 0 {
			return bv(false)
		}
		x.rawStore(c, V{u: wrLocked})
		x.acquire(fr, c, true)
		return bv(true)
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", tryLock)
	reg("(*internal/sync.Mutex).Lock", lock)
	reg("(*internal/sync.Mutex).Unlock", unlock)
	reg("(*internal/sync.Mutex).TryLock", tryLock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).TryLock", tryLock)
	reg("(*sync.RWMutex).RLock", func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		x.yield(fr, "rlock")
		// readers that come while a writer waits for other readers wait for the writer
		free := func() bool {
			return c.u == 0 || c.u < wrLocked && (x.sched == nil || x.sched.writers[c] == 0)
		}
		if !free() {
			x.blockUntil(fr, free)
		}
		x.rawStore(c, V{u: c.u + 1})
		x.acquire(fr, c, false)
		return V{}
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		if c.u == 0 || c.u >= wrLocked {
			x.fatal("sync: RUnlock of unlocked RWMutex")
		}
		x.release(fr, c, false)
		x.rawStore(c, V{u: c.u - 1})
		x.yield(fr, "runlock")
		return V{}
	})
	reg("(*sync.Pool).Get", func(fr *Frame, a []V) V {
		x := fr.x
		c := x.ptrCell(a[0])
		ag := c.r.(*Agg)
		if l := leaf(c); l != nil {
			if n, _ := l.r.(*poolNode); n != nil {
				x.acquire(fr, l, true)
				x.rawStore(l, V{r: n.nextAny()})
				return n.v
			}
		}
		pool := x.P.pkgs["sync"].Type("Pool").Type().Underlying().(*types.Struct)
		for i := 0; i < pool.NumFields(); i++ {
			if pool.Field(i).Name() == "New" {
				f := &ag.cells[i]
				if f.r == nil {
					return V{}
				}
				return x.callFn(fr, V{r: f.r}, nil)
			}
		}
		return V{}
	})
	reg("(*sync.Pool).Put", func(fr *Frame, a []V) V {
		x := fr.x
		if a[1].r == nil {
			return V{}
		}
		l := leaf(x.ptrCell(a[0]))
		n, _ := l.r.(*poolNode)
		x.release(fr, l, true)
		x.rawStore(l, V{r: &poolNode{a[1], n}})
		return V{}
	})
	reg("(*sync.WaitGroup).Add", func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		n := int64(c.u) + int64(x.concInt(a[1]))
		if n < 0 {
			x.strPanic("sync: negative WaitGroup counter")
		}
		x.release(fr, c, true)
		x.rawStore(c, V{u: uint64(n)})
		return V{}
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		if c.u == 0 {
			x.strPanic("sync: negative WaitGroup counter")
		}
		x.release(fr, c, true)
		x.rawStore(c, V{u: c.u - 1})
		x.yield(fr, "done")
		return V{}
	})
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, a []V) V {
		x := fr.x
		c := leaf(x.ptrCell(a[0]))
		x.yield(fr, "wait")
		if c.u != 0 {
			x.blockUntil(fr, func() bool { return c.u == 0 })
		}
		x.acquire(fr, c, true)
		return V{}
	})
	// sync.Map as a plain association list kept in a native map keyed by the interpreter's own maps
	mapT := func(x *Exec) *TInfo { return x.P.ti(types.NewMap(x.P.tAny().t, x.P.tAny().t)) }
	syncMap := func(x *Exec, v V) *MapObj {
		c := leaf(x.ptrCell(v))
		m, _ := c.r.(*MapObj)
		if m == nil {
			m = x.newMap()
			x.rawStore(c, V{r: m})
		}
		return m
	}
	reg("(*sync.Map).Load", func(fr *Frame, a []V) V {
		x := fr.x
		m := syncMap(x, a[0])
		var v V
		var ok bool
		x.yield(fr, "atomic")
		x.acquire(fr, &m.cell, true)
		x.withoutRace(func() { v, ok = x.mapGet(V{r: m}, mapT(x), a[1]) })
		return V{r: Tuple{v, bv(ok)}}
	})
	reg("(*sync.Map).Store", func(fr *Frame, a []V) V {
		x := fr.x
		m := syncMap(x, a[0])
		x.yield(fr, "atomic")
		x.release(fr, &m.cell, true)
		x.withoutRace(func() { x.mapSet(V{r: m}, mapT(x), a[1], a[2]) })
		return V{}
	})
	reg("(*sync.Map).LoadOrStore", func(fr *Frame, a []V) V {
		x := fr.x
		m := syncMap(x, a[0])
		var v V
		var ok bool
		x.yield(fr, "atomic")
		x.acquire(fr, &m.cell, true)
		x.withoutRace(func() {
			if v, ok = x.mapGet(V{r: m}, mapT(x), a[1]); !ok {
				v = a[2]
				x.mapSet(V{r: m}, mapT(x), a[1], a[2])
			}
		})
		if !ok {
			x.release(fr, &m.cell, true)
		}
		return V{r: Tuple{v, bv(ok)}}
	})
	reg("(*sync.Map).Delete", func(fr *Frame, a []V) V {
		x := fr.x
		m := syncMap(x, a[0])
		x.yield(fr, "atomic")
		x.release(fr, &m.cell, true)
		x.withoutRace(func() { x.mapDelete(V{r: m}, mapT(x), a[1]) })
		return V{}
	})

	// ---- atomics
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		ty := ty
		reg("sync/atomic.Load"+ty.n, func(fr *Frame, a []V) V {
			c := fr.x.ptrCell(a[0])
			fr.x.yield(fr, "atomic")
			fr.x.acquire(fr, c, true)
			return V{c.u, c.r}
		})
		reg("sync/atomic.Store"+ty.n, func(fr *Frame, a []V) V {
			c := fr.x.ptrCell(a[0])
			fr.x.yield(fr, "atomic")
			fr.x.release(fr, c, true)
			fr.x.rawStore(c, a[1])
			return V{}
		})
		reg("sync/atomic.Swap"+ty.n, func(fr *Frame, a []V) V {
			c := fr.x.ptrCell(a[0])
			fr.x.yield(fr, "atomic")
			old := V{c.u, c.r}
			fr.x.acquire(fr, c, true)
			fr.x.release(fr, c, true)
			fr.x.rawStore(c, a[1])
			return old
		})
		if ty.w > 0 {
			reg("sync/atomic.Add"+ty.n, func(fr *Frame, a []V) V {
				x := fr.x
				c := x.ptrCell(a[0])
				x.yield(fr, "atomic")
				x.acquire(fr, c, true)
				x.release(fr, c, true)
				v := mkV(x.tt.bin(OAdd, x.T(V{c.u, c.r}, ty.w), x.T(a[1], ty.w)))
				x.rawStore(c, v)
				return v
			})
		}
		reg("sync/atomic.CompareAndSwap"+ty.n, func(fr *Frame, a []V) V {
			x := fr.x
			c := x.ptrCell(a[0])
			x.yield(fr, "atomic")
			x.acquire(fr, c, true)
			eq := c.u == a[1].u && c.r == a[1].r
			if _, ok := c.r.(*Term); ok && !eq {
				return x.unsupported("symbolic compare and swap")
			}
			if eq {
				x.release(fr, c, true)
				x.rawStore(c, a[2])
			}
			return bv(eq)
		})
	}
	reg("(*sync/atomic.Pointer[T]).Load", func(fr *Frame, a []V) V {
		c := fr.x.ptrCell(a[0])
		f := ptrField(c)
		fr.x.yield(fr, "atomic")
		fr.x.acquire(fr, f, true)
		return V{f.u, f.r}
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(fr *Frame, a []V) V {
		f := ptrField(fr.x.ptrCell(a[0]))
		fr.x.yield(fr, "atomic")
		fr.x.release(fr, f, true)
		fr.x.rawStore(f, a[1])
		return V{}
	})
	reg("(*sync/atomic.Value).Load", func(fr *Frame, a []V) V {
		f := &fr.x.ptrCell(a[0]).r.(*Agg).cells[0]
		fr.x.yield(fr, "atomic")
		fr.x.acquire(fr, f, true)
		return V{f.u, f.r}
	})
	reg("(*sync/atomic.Value).Store", func(fr *Frame, a []V) V {
		f := &fr.x.ptrCell(a[0]).r.(*Agg).cells[0]
		fr.x.yield(fr, "atomic")
		fr.x.release(fr, f, true)
		fr.x.rawStore(f, a[1])
		return V{}
	})

	// ---- bytealg
	find := func(x *Exec, b []V, c V, from, to, step int) V {
		for i := from; i != to; i += step {
			if x.branch(x.eqBytes(b[i], c)) {
				return iv(i)
			}
		}
		return iv(-1)
	}
	reg("internal/bytealg.IndexByte", func(fr *Frame, a []V) V {
		b := fr.x.sliceVals(a[0])
		return find(fr.x, b, a[1], 0, len(b), 1)
	})
	reg("internal/bytealg.IndexByteString", func(fr *Frame, a []V) V {
		b := strVals(fr.x.force(a[0]))
		return find(fr.x, b, a[1], 0, len(b), 1)
	})
	reg("internal/bytealg.LastIndexByte", func(fr *Frame, a []V) V {
		b := fr.x.sliceVals(a[0])
		return find(fr.x, b, a[1], len(b)-1, -1, -1)
	})
	reg("internal/bytealg.LastIndexByteString", func(fr *Frame, a []V) V {
		b := strVals(fr.x.force(a[0]))
		return find(fr.x, b, a[1], len(b)-1, -1, -1)
	})
	count := func(x *Exec, b []V, c V) V {
		n := 0
		for i := range b {
			if x.branch(x.eqBytes(b[i], c)) {
				n++
			}
		}
		return iv(n)
	}
	reg("internal/bytealg.Count", func(fr *Frame, a []V) V { return count(fr.x, fr.x.sliceVals(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(fr *Frame, a []V) V { return count(fr.x, strVals(fr.x.force(a[0])), a[1]) })
	index := func(x *Exec, h, n []V) V {
		for i := 0; i+len(n) <= len(h); i++ {
			if x.branch(x.strEq(mkStr(h[i:i+len(n)]), mkStr(n))) {
				return iv(i)
			}
		}
		return iv(-1)
	}
	reg("internal/bytealg.Index", func(fr *Frame, a []V) V { return index(fr.x, fr.x.sliceVals(a[0]), fr.x.sliceVals(a[1])) })
	reg("internal/bytealg.IndexString", func(fr *Frame, a []V) V { return index(fr.x, strVals(fr.x.force(a[0])), strVals(fr.x.force(a[1]))) })
	reg("strings.Index", func(fr *Frame, a []V) V { return index(fr.x, strVals(fr.x.force(a[0])), strVals(fr.x.force(a[1]))) })
	reg("bytes.Index", func(fr *Frame, a []V) V { return index(fr.x, fr.x.sliceVals(a[0]), fr.x.sliceVals(a[1])) })
	equal := func(fr *Frame, a []V) V {
		return mkV(fr.x.strEq(mkStr(fr.x.sliceVals(a[0])), mkStr(fr.x.sliceVals(a[1]))))
	}
	reg("internal/bytealg.Equal", equal)
	reg("bytes.Equal", equal)
	compare := func(x *Exec, p, q V) V {
		lt := x.strLess(p, q)
		eq := x.strEq(p, q)
		return mkV(x.tt.ite(eq, x.tt.konst(64, 0), x.tt.ite(lt, x.tt.konst(64, ^uint64(0)), x.tt.konst(64, 1))))
	}
	reg("internal/bytealg.Compare", func(fr *Frame, a []V) V {
		return compare(fr.x, mkStr(fr.x.sliceVals(a[0])), mkStr(fr.x.sliceVals(a[1])))
	})
	reg("bytes.Compare", func(fr *Frame, a []V) V {
		return compare(fr.x, mkStr(fr.x.sliceVals(a[0])), mkStr(fr.x.sliceVals(a[1])))
	})
	reg("internal/bytealg.CompareString", func(fr *Frame, a []V) V { return compare(fr.x, fr.x.force(a[0]), fr.x.force(a[1])) })
	reg("strings.Compare", func(fr *Frame, a []V) V { return compare(fr.x, fr.x.force(a[0]), fr.x.force(a[1])) })
	reg("internal/bytealg.MakeNoZero", func(fr *Frame, a []V) V {
		x := fr.x
		n := x.concInt(a[0])
		c := capRound(n)
		x.checkAlloc(c)
		return V{r: &Slice{a: x.zeroArray(x.P.byType[KUint8], c), len: n, cap: c}}
	})
	reg("internal/bytealg.Cutover", func(fr *Frame, a []V) V { return iv(1 << 30) })

	// ---- math/bits, math
	lenN := func(w uint8) func(fr *Frame, a []V) V {
		return func(fr *Frame, a []V) V {
			x := fr.x
			if a[0].r == nil {
				return iv(bits.Len64(a[0].u))
			}
			t := x.T(a[0], w)
			r := x.tt.konst(64, uint64(w))
			for i := int(w) - 1; i >= 0; i-- {
				r = x.tt.ite(x.tt.ult(t, x.tt.konst(w, 1<<uint(i))), x.tt.konst(64, uint64(i)), r)
			}
			return mkV(r)
		}
	}
	reg("math/bits.Len64", lenN(64))
	reg("math/bits.Len", lenN(64))
	reg("math/bits.Len32", lenN(32))
	reg("math/bits.Len16", lenN(16))
	reg("math/bits.Len8", lenN(8))
	id := func(fr *Frame, a []V) V { return a[0] }
	reg("math.Float64bits", id)
	reg("math.Float64frombits", id)
	reg("math.Float32bits", id)
	reg("math.Float32frombits", id)

	// ---- unicode
	for n, f := range map[string]func(rune) bool{"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsPrint": unicode.IsPrint, "IsNumber": unicode.IsNumber, "IsControl": unicode.IsControl} {
		f := f
		regMaybe("unicode."+n, func(fr *Frame, a []V) (V, bool) {
			if a[0].r == nil {
				return bv(f(rune(int32(a[0].u)))), true
			}
			return V{}, false
		})
	}

	// ---- strconv
	for _, n := range []string{"internal/abi.NoEscape", "strings.Clone", "internal/stringslite.Clone"} {
		reg(n, func(fr *Frame, a []V) V { return a[0] })
	}
	dec := func(x *Exec, v V, signed bool) V {
		return V{r: &SStr{b: []V{{r: &LazyDec{x.T(v, 64), signed}}}, lazy: true}}
	}
	for _, s := range []struct {
		n      string
		signed bool
	}{{"Int", true}, {"Uint", false}} {
		s := s
		regMaybe("strconv.Format"+s.n, func(fr *Frame, a []V) (V, bool) {
			if a[0].r == nil || a[1].r != nil || a[1].u != 10 {
				return V{}, false
			}
			return dec(fr.x, a[0], s.signed), true
		})
		regMaybe("strconv.Append"+s.n, func(fr *Frame, a []V) (V, bool) {
			if a[1].r == nil || a[2].r != nil || a[2].u != 10 {
				return V{}, false
			}
			return fr.x.appendVals(fr.x.P.byType[KUint8], a[0], fr.x.decimal(fr.x.T(a[1], 64), s.signed)), true
		})
	}
	regMaybe("strconv.Itoa", func(fr *Frame, a []V) (V, bool) {
		if a[0].r == nil {
			return V{}, false
		}
		return dec(fr.x, a[0], true), true
	})
	// The decimal text of a symbolic number which was formatted above is not computed again.
	for _, s := range []struct {
		n      string
		signed bool
	}{{"Int", true}, {"Uint", false}} {
		s := s
		regMaybe("strconv.Parse"+s.n, func(fr *Frame, a []V) (V, bool) {
			x := fr.x
			if a[1].r != nil || a[2].r != nil || a[1].u != 10 && a[1].u != 0 || a[2].u > 64 {
				return V{}, false
			}
			return x.parseDecimal(a[0], s.n, s.signed, int(a[2].u))
		})
	}
	regMaybe("strconv.Atoi", func(fr *Frame, a []V) (V, bool) { return fr.x.parseDecimal(a[0], "Int", true, 64) })
	regMaybe("strconv.FormatFloat", func(fr *Frame, a []V) (V, bool) {
		for _, v := range a {
			if v.r != nil {
				return fr.x.unsupported("formatting a symbolic float"), true
			}
		}
		return cstr(strconv.FormatFloat(cf(fr.x.P.byType[KFloat64], a[0]), byte(a[1].u), int(int64(a[2].u)), int(a[3].u))), true
	})
	regMaybe("strconv.AppendFloat", func(fr *Frame, a []V) (V, bool) {
		for _, v := range a[1:] {
			if v.r != nil {
				return fr.x.unsupported("formatting a symbolic float"), true
			}
		}
		s := strconv.FormatFloat(cf(fr.x.P.byType[KFloat64], a[1]), byte(a[2].u), int(int64(a[3].u)), int(a[4].u))
		return fr.x.appendVals(fr.x.P.byType[KUint8], a[0], strOf(s)), true
	})
	regMaybe("strconv.ParseFloat", func(fr *Frame, a []V) (V, bool) {
		v := fr.x.force(a[0])
		s, ok := concStr(v)
		if st, is := v.r.(*SStr); !ok && is {
			var out []byte
			n := 0
			for _, b := range st.b {
				if b.r != nil {
					n++
				}
			}
			if n > 4 {
				return fr.x.unsupported("ParseFloat of a text with more than 4 symbolic bytes"), true
			}
			for _, b := range st.b {
				out = append(out, byte(fr.x.conc(b, 8)))
			}
			s, ok = string(out), true
		}
		if !ok || a[1].r != nil {
			return V{}, false
		}
		f, err := strconv.ParseFloat(s, int(a[1].u))
		e := V{}
		if err != nil {
			e = fr.x.mkError(cstr(err.Error()))
		}
		return V{r: Tuple{fv(fr.x.P.byType[KFloat64], f), e}}, true
	})

	// ---- fmt
	reg("fmt.Sprintf", func(fr *Frame, a []V) V { return mkStr(fr.x.sprintf(fr, a[0], fr.x.sliceVals(a[1]))) })
	reg("fmt.Sprint", func(fr *Frame, a []V) V { return mkStr(fr.x.sprint(fr, fr.x.sliceVals(a[0]), false)) })
	reg("fmt.Sprintln", func(fr *Frame, a []V) V { return mkStr(fr.x.sprint(fr, fr.x.sliceVals(a[0]), true)) })
	reg("fmt.Errorf", func(fr *Frame, a []V) V {
		x := fr.x
		args := x.sliceVals(a[1])
		msg := mkStr(x.sprintf(fr, a[0], args))
		if f, ok := concStr(a[0]); ok && strings.Contains(f, "%w") {
			for _, g := range args {
				if i, _ := g.r.(*Iface); i != nil && x.P.implements(i.t, x.P.tError) {
					if wt := x.P.pkgs["fmt"]; wt != nil && wt.Type("wrapError") != nil {
						t := x.P.ti(types.NewPointer(wt.Type("wrapError").Type()))
						c := x.newCell(t.elem)
						x.store(&c.r.(*Agg).cells[0], msg)
						x.store(&c.r.(*Agg).cells[1], g)
						return V{r: &Iface{t: t, v: V{r: c}}}
					}
				}
			}
		}
		return x.mkError(msg)
	})
	out := func(f func(fr *Frame, a []V) []V) func(fr *Frame, a []V) V {
		return func(fr *Frame, a []V) V {
			n := 0
			if x := fr.x; x.capture != nil {
				vs := f(fr, a)
				*x.capture = append(*x.capture, vs...)
				n = len(vs)
			}
			return V{r: Tuple{iv(n), V{}}}
		}
	}
	reg("fmt.Println", out(func(fr *Frame, a []V) []V { return fr.x.sprint(fr, fr.x.sliceVals(a[0]), true) }))
	reg("fmt.Printf", out(func(fr *Frame, a []V) []V { return fr.x.sprintf(fr, a[0], fr.x.sliceVals(a[1])) }))
	reg("fmt.Print", out(func(fr *Frame, a []V) []V { return fr.x.sprint(fr, fr.x.sliceVals(a[0]), false) }))
	writeOut := func(fr *Frame, vs []V) V {
		x := fr.x
		if x.capture == nil {
			return x.unsupported("writing to a file")
		}
		*x.capture = append(*x.capture, vs...)
		return V{r: Tuple{iv(len(vs)), V{}}}
	}
	reg("(*os.File).Write", func(fr *Frame, a []V) V { return writeOut(fr, fr.x.sliceVals(a[1])) })
	reg("(*os.File).WriteString", func(fr *Frame, a []V) V { return writeOut(fr, strVals(a[1])) })
	// hexadecimal texts that sym.Hex made are decoded again without a case split
	regMaybe("encoding/hex.DecodeString", func(fr *Frame, a []V) (V, bool) {
		x := fr.x
		b := strVals(a[0])
		if len(b)%2 != 0 {
			return V{}, false
		}
		var out []V
		for i := 0; i < len(b); i += 2 {
			if b[i].r == nil && b[i+1].r == nil {
				h, err := hex.DecodeString(string([]byte{byte(b[i].u), byte(b[i+1].u)}))
				if err != nil {
					return V{}, false
				}
				out = append(out, V{u: uint64(h[0])})
				continue
			}
			t, ok := x.hexMade[[2]V{b[i], b[i+1]}]
			if !ok {
				return V{}, false
			}
			out = append(out, t)
		}
		return V{r: Tuple{x.mkBytes(out), V{}}}, true
	})
	fprint := func(f func(fr *Frame, a []V) []V) func(fr *Frame, a []V) V {
		return func(fr *Frame, a []V) V {
			x := fr.x
			s := x.force(mkStr(f(fr, a)))
			return x.invoke(fr, a[0], "Write", x.mkBytes(strVals(s)))
		}
	}
	reg("fmt.Fprintf", fprint(func(fr *Frame, a []V) []V { return fr.x.sprintf(fr, a[1], fr.x.sliceVals(a[2])) }))
	reg("fmt.Fprint", fprint(func(fr *Frame, a []V) []V { return fr.x.sprint(fr, fr.x.sliceVals(a[1]), false) }))
	reg("fmt.Fprintln", fprint(func(fr *Frame, a []V) []V { return fr.x.sprint(fr, fr.x.sliceVals(a[1]), true) }))
	reg("fmt.Appendf", func(fr *Frame, a []V) V {
		s := fr.x.force(mkStr(fr.x.sprintf(fr, a[1], fr.x.sliceVals(a[2]))))
		return fr.x.appendVals(fr.x.P.byType[KUint8], a[0], strVals(s))
	})

	// ---- errors
	unwrap := func(fr *Frame, e V) V {
		i, _ := e.r.(*Iface)
		if i == nil {
			return V{}
		}
		m := fr.x.P.method(i.t, nil, "Unwrap")
		if m == nil || m.sig.Results().Len() != 1 {
			return V{}
		}
		if _, isSlice := m.sig.Results().At(0).Type().Underlying().(*types.Slice); isSlice {
			return fr.x.unsupported("multi-error Unwrap")
		}
		return fr.x.call(fr, m, []V{i.v}, nil)
	}
	reg("errors.Unwrap", func(fr *Frame, a []V) V { return unwrap(fr, a[0]) })
	reg("errors.Is", func(fr *Frame, a []V) V {
		e := a[0]
		for n := 0; n < 100; n++ {
			if i, _ := e.r.(*Iface); i == nil || a[1].r == nil {
				return bv(e.r == nil && a[1].r == nil)
			}
			if t := fr.x.eqIface(e, a[1]); fr.x.branch(t) {
				return bv(true)
			}
			e = unwrap(fr, e)
		}
		return bv(false)
	})
	reg("errors.As", func(fr *Frame, a []V) V {
		e := a[0]
		tp, _ := a[1].r.(*Iface)
		if tp == nil || tp.t.kind != KPtr {
			fr.x.strPanic("errors: target must be a non-nil pointer")
		}
		want := tp.t.elem
		for n := 0; n < 100; n++ {
			i, _ := e.r.(*Iface)
			if i == nil {
				return bv(false)
			}
			if want.kind == KInterface && fr.x.P.implements(i.t, want) {
				fr.x.storePtr(tp.v, e)
				return bv(true)
			}
			if i.t == want {
				fr.x.storePtr(tp.v, i.v)
				return bv(true)
			}
			e = unwrap(fr, e)
		}
		return bv(false)
	})
	reg("github.com/pkg/errors.callers", func(fr *Frame, a []V) V { return V{} })
	reg("runtime.Callers", func(fr *Frame, a []V) V { return V{} })
	reg("runtime.Stack", func(fr *Frame, a []V) V { return V{} })
	reg("runtime/debug.Stack", func(fr *Frame, a []V) V { return V{} })
	reg("runtime/debug.PrintStack", func(fr *Frame, a []V) V { return V{} })
	reg("runtime.GC", func(fr *Frame, a []V) V { return V{} })
	reg("runtime.KeepAlive", func(fr *Frame, a []V) V { return V{} })
	reg("runtime.SetFinalizer", func(fr *Frame, a []V) V { return V{} })
	reg("runtime.Gosched", func(fr *Frame, a []V) V { fr.x.yield(fr, "gosched"); return V{} })
	reg("internal/godebug.New", func(fr *Frame, a []V) V { return V{} })
	reg("(*internal/godebug.Setting).Value", func(fr *Frame, a []V) V { return V{} })
	reg("(*internal/godebug.Setting).IncNonDefault", func(fr *Frame, a []V) V { return V{} })
	reg("os.Exit", func(fr *Frame, a []V) V {
		return V{r: fr.x.exitHook(a[0])}
	})
	for _, n := range []string{"Sdump", "Sprintf", "Sprint"} {
		reg("github.com/davecgh/go-spew/spew."+n, func(fr *Frame, a []V) V { return V{r: &SStr{b: []V{{r: opaque}}}} })
	}

	// ---- crypto/sha256
	reg("crypto/sha256.New", func(fr *Frame, a []V) V {
		x := fr.x
		pk := x.P.pkgs["crypto/sha256"]
		_ = pk
		return V{r: &Iface{t: x.P.tShaObj(), v: V{r: &shaObj{}}}}
	})
	reg("crypto/sha256.Sum256", func(fr *Frame, a []V) V {
		x := fr.x
		s := x.sha256(x.sliceVals(a[0]))
		ag := x.zeroArray(x.P.byType[KUint8], 32)
		for i := range s {
			ag.cells[i].u, ag.cells[i].r = s[i].u, s[i].r
		}
		return V{r: ag}
	})

	// ---- sort: the order of equal elements is that of a stable sort
	sorted := func(fr *Frame, a []V) V {
		x := fr.x
		i, _ := a[0].r.(*Iface)
		s, _ := i.v.r.(*Slice)
		if s == nil {
			return V{}
		}
		for n := 1; n < s.len; n++ {
			for k := n; k > 0 && x.branchV(x.callFn(fr, a[1], []V{{u: uint64(k)}, {u: uint64(k - 1)}})); k-- {
				v, w := x.load(s.at(k)), x.load(s.at(k-1))
				x.store(s.at(k), w)
				x.store(s.at(k-1), v)
			}
		}
		return V{}
	}
	reg("sort.Slice", sorted)
	reg("sort.SliceStable", sorted)

	// ---- encoding/json is modelled in Go (package jsonmodel of the harness module)
	for _, n := range []string{"Marshal", "Unmarshal", "Valid", "Indent", "MarshalIndent", "Compact", "HTMLEscape"} {
		n := n
		reg("encoding/json."+n, func(fr *Frame, a []V) V {
			x := fr.x
			pk := x.P.pkgs["aminoharness/jsonmodel"]
			if pk == nil || pk.Func(n) == nil {
				return x.unsupported("json.%s", n)
			}
			return x.call(fr, x.P.cfunc(pk.Func(n)), a, nil)
		})
	}

	// ---- time
	reg("time.now", func(fr *Frame, a []V) V { return V{r: Tuple{V{u: 1700000000}, V{u: 5}, V{u: 1}}} })
	reg("time.runtimeNano", func(fr *Frame, a []V) V { return V{} })
	reg("time.runtimeNow", func(fr *Frame, a []V) V { return V{r: Tuple{V{u: 1700000000}, V{u: 5}, V{u: 1}}} })
	reg("time.initLocal", func(fr *Frame, a []V) V { return V{} })
}

func ptrField(c *Cell) *Cell {
	ag := c.r.(*Agg)
	return &ag.cells[len(ag.cells)-1]
}

func (p *Prog) tShaObj() *TInfo {
	return p.ti(types.NewPointer(p.pkgs["hash"].Type("Hash").Type()))
}

func (x *Exec) exitHook(v V) any {
	panic(targetPanic{V{r: &Iface{t: x.P.tExit(), v: V{u: v.u, r: v.r}}}})
}

func (p *Prog) tExit() *TInfo { return p.byType[KInt] }
