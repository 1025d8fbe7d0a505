package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type CFunc struct {
	p      *Prog
	fn     *ssa.Function
	name   string
	once   sync.Once
	intr   func(fr *Frame, args []V) V
	maybe  func(fr *Frame, args []V) (V, bool)
	blocks []cblock
	nregs  int
	ndefer bool
	recov  int
	hit    atomic.Int64
	inRepo bool
	nInstr int
	sig    *types.Signature
}

type cblock struct {
	phis []phi
	ins  []instr
	term func(fr *Frame) int
	n    int64
}

type phi struct {
	dst  int
	ops  []opd // by predecessor position
	pred []int
}

type instr func(fr *Frame)

type opd struct {
	k uint8 // 0 reg 1 const 2 global 3 free
	i int
	v V
}

func (fr *Frame) get(o *opd) V {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	case 2:
		return V{r: fr.x.global(o.i)}
	}
	return fr.free[o.i]
}

func (p *Prog) cfunc(fn *ssa.Function) *CFunc {
	if v, ok := p.funcs.Load(fn); ok {
		return v.(*CFunc)
	}
	c := &CFunc{p: p, fn: fn, name: fn.String(), recov: -1, sig: fn.Signature}
	v, _ := p.funcs.LoadOrStore(fn, c)
	return v.(*CFunc)
}

func (c *CFunc) prepare() {
	fn := c.fn
	name := c.name
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if i, ok := intrinsics[name]; ok {
		c.intr = i
		return
	}
	if pk := fnPkg(fn); pk != nil {
		pk.Build()
		pp := pk.Pkg.Path()
		c.inRepo = strings.HasPrefix(pp, "github.com/tendermint/go-amino")
		if bad, ok := opaquePkgs[pp]; ok && bad {
			c.intr = func(fr *Frame, args []V) V { return fr.x.unsupported("call into unmodelled %s", c.name) }
			return
		}
	}
	if len(fn.Blocks) == 0 {
		c.intr = func(fr *Frame, args []V) V { return fr.x.unsupported("no body for %s", c.name) }
		return
	}
	c.compile()
	c.maybe = maybeIntr[name]
}

var opaquePkgs = map[string]bool{"reflect": true, "runtime": true, "syscall": true, "os": true, "internal/poll": true, "sync": false}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil {
		return o.Pkg
	}
	return nil
}

type comp struct {
	c    *CFunc
	p    *Prog
	regs map[ssa.Value]int
	free map[*ssa.FreeVar]int
}

func (c *CFunc) compile() {
	fn := c.fn
	cc := &comp{c: c, p: c.p, regs: map[ssa.Value]int{}, free: map[*ssa.FreeVar]int{}}
	for _, prm := range fn.Params {
		cc.regs[prm] = c.nregs
		c.nregs++
	}
	for i, fv := range fn.FreeVars {
		cc.free[fv] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cc.regs[v] = c.nregs
				c.nregs++
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				c.ndefer = true
			}
			c.nInstr++
		}
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &c.blocks[i]
		cb.n = int64(len(b.Instrs))
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				ph := phi{dst: cc.regs[in]}
				for j, e := range in.Edges {
					ph.ops = append(ph.ops, cc.op(e))
					ph.pred = append(ph.pred, b.Preds[j].Index)
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.If:
				o := cc.op(in.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				cb.term = func(fr *Frame) int {
					v := fr.get(&o)
					if v.r == nil {
						if v.u != 0 {
							return t
						}
						return f
					}
					if fr.x.branch(v.r.(*Term)) {
						return t
					}
					return f
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				cb.term = func(fr *Frame) int { return t }
			case *ssa.Return:
				var ops []opd
				for _, r := range in.Results {
					ops = append(ops, cc.op(r))
				}
				switch len(ops) {
				case 0:
					cb.term = func(fr *Frame) int { fr.result = V{}; return -1 }
				case 1:
					o := ops[0]
					cb.term = func(fr *Frame) int { fr.result = fr.get(&o); return -1 }
				default:
					cb.term = func(fr *Frame) int {
						t := make(Tuple, len(ops))
						for i := range ops {
							t[i] = fr.get(&ops[i])
						}
						fr.result = V{r: t}
						return -1
					}
				}
			case *ssa.Panic:
				o := cc.op(in.X)
				cb.term = func(fr *Frame) int {
					panic(targetPanic{fr.get(&o)})
				}
			default:
				if ci := cc.instr(in); ci != nil {
					cb.ins = append(cb.ins, ci)
				}
			}
		}
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
}

func (cc *comp) op(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{k: 1, v: cc.p.constV(v)}
	case *ssa.Global:
		return opd{k: 2, i: cc.p.gslot(v)}
	case *ssa.Function:
		return opd{k: 1, v: V{r: &Func{f: cc.p.cfunc(v), sig: v.Signature}}}
	case *ssa.Builtin:
		return opd{k: 1}
	case *ssa.FreeVar:
		return opd{k: 3, i: cc.free[v]}
	}
	i, ok := cc.regs[v]
	if !ok {
		panic(fmt.Sprintf("no reg for %T %v", v, v))
	}
	return opd{k: 0, i: i}
}

func (p *Prog) constV(c *ssa.Const) V {
	t := p.ti(c.Type())
	if c.Value == nil {
		switch t.kind {
		case KStruct, KArray:
			x := &Exec{P: p}
			return x.zero(t)
		}
		return V{}
	}
	switch {
	case t.kind == KBool:
		return bv(constant.BoolVal(c.Value))
	case t.kind == KString:
		return cstr(constant.StringVal(c.Value))
	case t.isFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if t.kind == KFloat32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return V{u: uint64(math.Float32bits(f32))}
		}
		return V{u: math.Float64bits(f)}
	case t.scalar:
		iv := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return V{u: u & mask(t.w)}
		}
		i, _ := constant.Int64Val(iv)
		return V{u: uint64(i) & mask(t.w)}
	case t.kind == KInterface: // untyped const to interface should not occur
	}
	return V{r: badConst{}}
}

type badConst struct{}

func (x *Exec) callFn(caller *Frame, fv V, args []V) V {
	f, _ := fv.r.(*Func)
	if f == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.nat != nil {
		return f.nat(caller, args)
	}
	return x.call(caller, f.f, args, f.free)
}

const maxDepth = 3000

func (x *Exec) call(caller *Frame, f *CFunc, args []V, free []V) V {
	return x.callD(caller, f, args, free, nil)
}

func (x *Exec) callD(caller *Frame, f *CFunc, args []V, free []V, deferredBy *Frame) V {
	f.once.Do(f.prepare)
	if f.intr != nil {
		return f.intr(caller, args)
	}
	if f.maybe != nil {
		if v, ok := f.maybe(caller, args); ok {
			return v
		}
	}
	if f.inRepo {
		f.hit.Add(1)
	}
	th := caller.th
	var fr *Frame
	if n := len(x.frames); n > 0 && !f.ndefer {
		fr, x.frames = x.frames[n-1], x.frames[:n-1]
		fr.f, fr.th, fr.free, fr.caller, fr.deferredBy, fr.prev = f, th, free, caller, deferredBy, -1
	} else {
		fr = &Frame{x: x, th: th, f: f, free: free, caller: caller, deferredBy: deferredBy, prev: -1}
	}
	if cap(fr.regs) < f.nregs {
		fr.regs = make([]V, f.nregs, f.nregs+8)
	} else {
		fr.regs = fr.regs[:f.nregs]
	}
	copy(fr.regs, args)
	th.depth++
	if th.depth > maxDepth {
		x.violation("stack overflow (unbounded recursion) in %s", f.name)
	}
	if !f.ndefer {
		fr.run(0)
		th.depth--
		res := fr.result
		clear(fr.regs) // nothing keeps the frames of functions without defers
		fr.free, fr.caller, fr.deferredBy, fr.result = nil, nil, nil, V{}
		x.frames = append(x.frames, fr)
		return res
	}
	fr.runDeferring()
	th.depth--
	return fr.result
}

func (x *Exec) violation(f string, a ...any) {
	panic(pathAbort{StViolation, fmt.Sprintf(f, a...)})
}

func (fr *Frame) run(b int) {
	x := fr.x
	blocks := fr.f.blocks
	var tmp [8]V
	for b >= 0 {
		blk := &blocks[b]
		x.steps += blk.n
		if x.steps > x.budget {
			x.budgetOut(fr)
		}
		if n := len(blk.phis); n > 0 {
			ph := blk.phis
			j := 0
			for ph[0].pred[j] != fr.prev {
				j++
			}
			if n == 1 {
				fr.regs[ph[0].dst] = fr.get(&ph[0].ops[j])
			} else {
				t := tmp[:0]
				for i := range ph {
					t = append(t, fr.get(&ph[i].ops[j]))
				}
				for i := range ph {
					fr.regs[ph[i].dst] = t[i]
				}
			}
		}
		for _, in := range blk.ins {
			in(fr)
		}
		fr.prev = b
		b = blk.term(fr)
	}
}

func (x *Exec) budgetOut(fr *Frame) {
	if x.inBase {
		panic("budget exhausted in base state: " + fr.f.name)
	}
	panic(pathAbort{StBudget, "instruction budget exhausted in " + fr.f.name})
}

func (fr *Frame) runDeferring() {
	depth := fr.th.depth
	fr.protect(func() { fr.run(0) })
	for {
		if fr.panicking == nil {
			return
		}
		fr.th.depth = depth
		fr.runDefers()
		if fr.panicking != nil {
			panic(targetPanic{fr.panicking.v})
		}
		// recovered
		if fr.f.recov >= 0 {
			fr.prev = -1
			fr.protect(func() { fr.run(fr.f.recov) })
			continue
		}
		fr.result = fr.zeroResult()
		return
	}
}

func (fr *Frame) zeroResult() V {
	res := fr.f.sig.Results()
	switch res.Len() {
	case 0:
		return V{}
	case 1:
		return fr.x.zero(fr.x.P.ti(res.At(0).Type()))
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = fr.x.zero(fr.x.P.ti(res.At(i).Type()))
	}
	return V{r: t}
}

// protect runs f and turns a target panic into fr.panicking.
func (fr *Frame) protect(f func()) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if tp, is := r.(targetPanic); is {
			fr.panicking = &panicRec{v: tp.v}
			return
		}
		panic(r)
	}()
	f()
	ok = true
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if fr.panicking != nil {
			fr.protect(func() { fr.runDeferred(d) })
		} else {
			fr.runDeferred(d)
		}
	}
}

func (fr *Frame) runDeferred(d deferred) {
	if d.run != nil {
		d.run()
		return
	}
	f, _ := d.fn.r.(*Func)
	if f == nil {
		fr.x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.nat != nil {
		f.nat(fr, d.args)
		return
	}
	fr.x.callD(fr, f.f, d.args, f.free, fr)
}

// ---- instructions

func (cc *comp) instr(in ssa.Instruction) instr {
	p := cc.p
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cc.regs[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := p.ti(in.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *Frame) { fr.regs[dst] = V{r: fr.x.newCell(t)} }
	case *ssa.BinOp:
		f := p.binop(in.Op, p.ti(in.X.Type()), p.ti(in.Y.Type()))
		a, b := cc.op(in.X), cc.op(in.Y)
		return func(fr *Frame) { fr.regs[dst] = f(fr.x, fr.get(&a), fr.get(&b)) }
	case *ssa.UnOp:
		return cc.unop(in, dst)
	case *ssa.Call:
		f := cc.call(&in.Call, p.ti(in.Type()))
		return func(fr *Frame) { fr.regs[dst] = f(fr) }
	case *ssa.ChangeInterface:
		a := cc.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(&a) }
	case *ssa.ChangeType:
		a := cc.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(&a) }
	case *ssa.Convert:
		f := p.convert(p.ti(in.X.Type()), p.ti(in.Type()))
		a := cc.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = f(fr, fr.get(&a)) }
	case *ssa.MultiConvert:
		f := p.convert(p.ti(in.X.Type()), p.ti(in.Type()))
		a := cc.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = f(fr, fr.get(&a)) }
	case *ssa.Defer:
		cm := &in.Call
		if bi, ok := cm.Value.(*ssa.Builtin); ok {
			var ops []opd
			var tys []*TInfo
			for _, a := range cm.Args {
				ops = append(ops, cc.op(a))
				tys = append(tys, p.ti(a.Type()))
			}
			return func(fr *Frame) {
				args := make([]V, len(ops))
				for i := range ops {
					args[i] = fr.get(&ops[i])
				}
				fr.defers = append(fr.defers, deferred{run: func() { fr.builtin(bi, tys, args, nil) }})
			}
		}
		prep := cc.callPrep(cm)
		return func(fr *Frame) {
			fn, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn: fn, args: args})
		}
	case *ssa.Go:
		prep := cc.callPrep(&in.Call)
		return func(fr *Frame) {
			fn, args := prep(fr)
			fr.x.spawn(fr, fn, args)
		}
	case *ssa.Extract:
		a := cc.op(in.Tuple)
		i := in.Index
		return func(fr *Frame) { fr.regs[dst] = fr.get(&a).r.(Tuple)[i] }
	case *ssa.Field:
		a := cc.op(in.X)
		i := in.Field
		return func(fr *Frame) {
			c := &fr.get(&a).r.(*Agg).cells[i]
			fr.regs[dst] = V{c.u, c.r}
		}
	case *ssa.FieldAddr:
		a := cc.op(in.X)
		i := in.Field
		return func(fr *Frame) {
			switch c := fr.get(&a).r.(type) {
			case *Cell:
				if ag, ok := c.r.(*Agg); ok {
					fr.regs[dst] = V{r: &ag.cells[i]}
					return
				}
				fr.x.unsupported("field address of opaque struct in %s", fr.f.name)
			case *SymPtr:
				fr.regs[dst] = V{r: &fr.x.resolve(c).r.(*Agg).cells[i]}
			case nil:
				fr.x.rtPanic("invalid memory address or nil pointer dereference")
			default:
				fr.x.unsupported("field address of %T in %s", c, fr.f.name)
			}
		}
	case *ssa.Index:
		a, ix := cc.op(in.X), cc.op(in.Index)
		it := p.ti(in.Index.Type())
		xt := p.ti(in.X.Type())
		return func(fr *Frame) {
			v, iv := fr.get(&a), fr.get(&ix)
			fr.regs[dst] = fr.x.indexValue(xt, v, iv, it)
		}
	case *ssa.IndexAddr:
		a, ix := cc.op(in.X), cc.op(in.Index)
		it := p.ti(in.Index.Type())
		isPtr := p.ti(in.X.Type()).kind == KPtr
		return func(fr *Frame) {
			v, iv := fr.get(&a), fr.get(&ix)
			x := fr.x
			var ag *Agg
			off, n := 0, 0
			if isPtr {
				switch c := v.r.(type) {
				case nil:
					x.rtPanic("invalid memory address or nil pointer dereference")
				case *Cell:
					ag = c.r.(*Agg)
				case *SymPtr:
					ag = x.resolve(c).r.(*Agg)
				}
				n = len(ag.cells)
			} else if s, _ := v.r.(*Slice); s != nil {
				ag, off, n = s.a, s.off, s.len
			}
			if iv.r == nil {
				i := sxi(iv.u, it)
				if i < 0 || i >= int64(n) {
					x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
				}
				fr.regs[dst] = V{r: &ag.cells[off+int(i)]}
				return
			}
			t := x.boundsIdx(iv, it, n)
			if t.isC() {
				fr.regs[dst] = V{r: &ag.cells[off+int(t.k)]}
				return
			}
			fr.regs[dst] = V{r: &SymPtr{a: ag, off: off, n: n, idx: t}}
		}
	case *ssa.Lookup:
		a, ix := cc.op(in.X), cc.op(in.Index)
		xt := p.ti(in.X.Type())
		it := p.ti(in.Index.Type())
		ok := in.CommaOk
		if xt.kind == KString {
			return func(fr *Frame) { fr.regs[dst] = fr.x.indexValue(xt, fr.get(&a), fr.get(&ix), it) }
		}
		return func(fr *Frame) {
			v, found := fr.x.mapGet(fr.get(&a), xt, fr.get(&ix))
			if !found {
				v = fr.x.zero(xt.elem)
			}
			if ok {
				fr.regs[dst] = V{r: Tuple{v, bv(found)}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MakeClosure:
		f := p.cfunc(in.Fn.(*ssa.Function))
		var ops []opd
		for _, b := range in.Bindings {
			ops = append(ops, cc.op(b))
		}
		return func(fr *Frame) {
			free := make([]V, len(ops))
			for i := range ops {
				free[i] = fr.get(&ops[i])
			}
			fr.regs[dst] = V{r: &Func{f: f, free: free, sig: f.sig}}
		}
	case *ssa.MakeInterface:
		a := cc.op(in.X)
		t := p.ti(in.X.Type())
		if t.kind == KInterface {
			return func(fr *Frame) { fr.regs[dst] = fr.get(&a) }
		}
		return func(fr *Frame) { fr.regs[dst] = V{r: &Iface{t: t, v: fr.get(&a)}} }
	case *ssa.MakeMap:
		return func(fr *Frame) { fr.regs[dst] = V{r: fr.x.newMap()} }
	case *ssa.MakeSlice:
		l, c := cc.op(in.Len), cc.op(in.Cap)
		lt, ct := p.ti(in.Len.Type()), p.ti(in.Cap.Type())
		t := p.ti(in.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.x.makeSlice(t, fr.get(&l), lt, fr.get(&c), ct) }
	case *ssa.MakeChan:
		return func(fr *Frame) { fr.x.unsupported("channels") }
	case *ssa.MapUpdate:
		m, k, v := cc.op(in.Map), cc.op(in.Key), cc.op(in.Value)
		mt := p.ti(in.Map.Type())
		return func(fr *Frame) { fr.x.mapSet(fr.get(&m), mt, fr.get(&k), fr.get(&v)) }
	case *ssa.Next:
		it := cc.op(in.Iter)
		isStr := in.IsString
		return func(fr *Frame) { fr.regs[dst] = fr.next(fr.get(&it), isStr) }
	case *ssa.Range:
		a := cc.op(in.X)
		xt := p.ti(in.X.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.x.rangeIter(fr.get(&a), xt) }
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Select, *ssa.Send:
		return func(fr *Frame) { fr.x.unsupported("channels") }
	case *ssa.Slice:
		a := cc.op(in.X)
		var lo, hi, mx *opd
		var lt, ht, mt *TInfo
		if in.Low != nil {
			o := cc.op(in.Low)
			lo, lt = &o, p.ti(in.Low.Type())
		}
		if in.High != nil {
			o := cc.op(in.High)
			hi, ht = &o, p.ti(in.High.Type())
		}
		if in.Max != nil {
			o := cc.op(in.Max)
			mx, mt = &o, p.ti(in.Max.Type())
		}
		xt := p.ti(in.X.Type())
		return func(fr *Frame) {
			x := fr.x
			var l, h, m *Term
			if lo != nil {
				l = x.idx64(fr.get(lo), lt)
			}
			if hi != nil {
				h = x.idx64(fr.get(hi), ht)
			}
			if mx != nil {
				m = x.idx64(fr.get(mx), mt)
			}
			fr.regs[dst] = x.slice(xt, fr.get(&a), l, h, m)
		}
	case *ssa.SliceToArrayPointer:
		a := cc.op(in.X)
		n := p.ti(in.Type()).elem.alen
		return func(fr *Frame) {
			s, _ := fr.get(&a).r.(*Slice)
			sl := 0
			if s != nil {
				sl = s.len
			}
			if sl < n {
				fr.x.rtPanic("cannot convert slice to array or pointer to array: length too small")
			}
			if s == nil {
				fr.regs[dst] = V{}
				return
			}
			if s.off == 0 && len(s.a.cells) == n {
				// reuse: need a stable cell for the array
			}
			fr.regs[dst] = V{r: &Cell{r: &Agg{cells: s.a.cells[s.off : s.off+n : s.off+n]}, gen: fr.x.gen}}
		}
	case *ssa.Store:
		a, v := cc.op(in.Addr), cc.op(in.Val)
		return func(fr *Frame) { fr.x.storePtr(fr.get(&a), fr.get(&v)) }
	case *ssa.TypeAssert:
		a := cc.op(in.X)
		t := p.ti(in.AssertedType)
		ok := in.CommaOk
		return func(fr *Frame) { fr.regs[dst] = fr.x.typeAssert(fr.get(&a), t, ok) }
	}
	s := fmt.Sprintf("%T", in)
	return func(fr *Frame) { fr.x.unsupported("instruction %s", s) }
}

func (x *Exec) resolve(c *SymPtr) *Cell {
	i := x.concretise(c.idx)
	return &c.a.cells[c.off+int(i)]
}

func (x *Exec) storePtr(p, v V) {
	switch c := p.r.(type) {
	case *Cell:
		x.store(c, v)
	case nil:
		x.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		x.store(x.resolve(c), v)
	default:
		x.unsupported("store through %T", p.r)
	}
}

func (x *Exec) loadPtr(p V) V {
	switch c := p.r.(type) {
	case *Cell:
		return x.load(c)
	case nil:
		x.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		return x.loadSym(c)
	}
	return x.unsupported("load through %T", p.r)
}

func (x *Exec) loadSym(c *SymPtr) V {
	vals := make([]V, c.n)
	for i := range vals {
		cc := &c.a.cells[c.off+i]
		vals[i] = V{cc.u, cc.r}
		switch cc.r.(type) {
		case nil, *Term:
		default:
			return x.load(x.resolve(c))
		}
	}
	return x.selectScalar(vals, c.idx, 0)
}

// selectScalar builds vals[idx]; w is discovered from terms or passed (0 = infer from max value).
func (x *Exec) selectScalar(vals []V, idx *Term, w uint8) V {
	if w == 0 {
		for _, v := range vals {
			if t, ok := v.r.(*Term); ok {
				w = t.w
				if w == 0 {
					return x.load(&Cell{})
				}
			}
		}
	}
	allC := true
	for _, v := range vals {
		if v.r != nil {
			allC = false
			break
		}
	}
	if allC {
		u := make([]uint64, len(vals))
		for i := range vals {
			u[i] = vals[i].u
		}
		return V{r: &symSel{u: u, idx: idx}}
	}
	r := x.T(vals[len(vals)-1], w)
	for i := len(vals) - 2; i >= 0; i-- {
		r = x.tt.ite(x.tt.eq(idx, x.tt.konst(idx.w, uint64(i))), x.T(vals[i], w), r)
	}
	return mkV(r)
}

// symSel is an intermediate: constant-table select whose width is fixed by the load type.
type symSel struct {
	u   []uint64
	idx *Term
}

func (x *Exec) fixSel(v V, t *TInfo) V {
	if s, ok := v.r.(*symSel); ok {
		if t.kind == KBool {
			r := x.tt.table(s.u, 8, s.idx)
			return mkV(x.tt.not(x.tt.eq(r, x.tt.konst(8, 0))))
		}
		if !t.scalar {
			return x.unsupported("symbolic index into %s elements", typeString(t.t))
		}
		return mkV(x.tt.table(s.u, t.w, s.idx))
	}
	return v
}

func (cc *comp) unop(in *ssa.UnOp, dst int) instr {
	p := cc.p
	a := cc.op(in.X)
	t := p.ti(in.X.Type())
	switch in.Op {
	case token.MUL:
		et := t.elem
		return func(fr *Frame) {
			p := fr.get(&a)
			if c, ok := p.r.(*Cell); ok {
				fr.regs[dst] = fr.x.load(c)
				return
			}
			fr.regs[dst] = fr.x.fixSel(fr.x.loadPtr(p), et)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(&a)
			if v.r == nil {
				fr.regs[dst] = V{u: 1 - v.u}
			} else {
				fr.regs[dst] = mkV(fr.x.tt.not(fr.x.T(v, 0)))
			}
		}
	case token.SUB:
		if t.isFloat {
			return func(fr *Frame) {
				v := fr.get(&a)
				sb := uint64(1) << (t.w - 1)
				if v.r == nil {
					fr.regs[dst] = V{u: v.u ^ sb}
				} else {
					fr.regs[dst] = mkV(fr.x.tt.bin(OBxor, fr.x.T(v, t.w), fr.x.tt.konst(t.w, sb)))
				}
			}
		}
		return func(fr *Frame) {
			v := fr.get(&a)
			if v.r == nil {
				fr.regs[dst] = V{u: (-v.u) & mask(t.w)}
			} else {
				fr.regs[dst] = mkV(fr.x.tt.neg(fr.x.T(v, t.w)))
			}
		}
	case token.XOR:
		return func(fr *Frame) {
			v := fr.get(&a)
			if v.r == nil {
				fr.regs[dst] = V{u: (^v.u) & mask(t.w)}
			} else {
				fr.regs[dst] = mkV(fr.x.tt.bnot(fr.x.T(v, t.w)))
			}
		}
	}
	return func(fr *Frame) { fr.x.unsupported("unary %v", in.Op) }
}

type siteCache struct {
	t *TInfo
	f *CFunc
}

func (cc *comp) callPrep(cm *ssa.CallCommon) func(fr *Frame) (V, []V) {
	var ops []opd
	for _, a := range cm.Args {
		ops = append(ops, cc.op(a))
	}
	fo := cc.op(cm.Value)
	if cm.IsInvoke() {
		m := cm.Method
		return func(fr *Frame) (V, []V) {
			recv := fr.get(&fo)
			args := make([]V, len(ops)+1)
			for i := range ops {
				args[i+1] = fr.get(&ops[i])
			}
			i, _ := recv.r.(*Iface)
			if i == nil {
				fr.x.rtPanic("invalid memory address or nil pointer dereference")
			}
			if no, ok := i.v.r.(nativeObj); ok {
				a2 := args[1:]
				return V{r: &Func{nat: func(fr *Frame, _ []V) V { return no.invoke(fr, m.Name(), a2) }}}, nil
			}
			f := fr.x.P.method(i.t, m.Pkg(), m.Name())
			if f == nil {
				fr.x.unsupported("no method %s on %s", m.Name(), typeString(i.t.t))
			}
			args[0] = i.v
			return V{r: &Func{f: f}}, args
		}
	}
	return func(fr *Frame) (V, []V) {
		args := make([]V, len(ops))
		for i := range ops {
			args[i] = fr.get(&ops[i])
		}
		return fr.get(&fo), args
	}
}

func (cc *comp) call(cm *ssa.CallCommon, rt *TInfo) func(fr *Frame) V {
	p := cc.p
	var ops []opd
	var tys []*TInfo
	for _, a := range cm.Args {
		ops = append(ops, cc.op(a))
		tys = append(tys, p.ti(a.Type()))
	}
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		return func(fr *Frame) V {
			var buf [4]V
			args := buf[:0]
			for i := range ops {
				args = append(args, fr.get(&ops[i]))
			}
			return fr.builtin(bi, tys, args, rt)
		}
	}
	if cm.IsInvoke() {
		fo := cc.op(cm.Value)
		m := cm.Method
		mname, mpkg := m.Name(), m.Pkg()
		var cache atomic.Pointer[siteCache]
		return func(fr *Frame) V {
			recv := fr.get(&fo)
			i, _ := recv.r.(*Iface)
			if i == nil {
				fr.x.rtPanic("invalid memory address or nil pointer dereference")
			}
			args := make([]V, len(ops)+1)
			for j := range ops {
				args[j+1] = fr.get(&ops[j])
			}
			if no, ok := i.v.r.(nativeObj); ok {
				return no.invoke(fr, mname, args[1:])
			}
			sc := cache.Load()
			if sc == nil || sc.t != i.t {
				f := p.method(i.t, mpkg, mname)
				if f == nil {
					fr.x.unsupported("no method %s on %s", mname, typeString(i.t.t))
				}
				sc = &siteCache{i.t, f}
				cache.Store(sc)
			}
			args[0] = i.v
			return fr.x.call(fr, sc.f, args, nil)
		}
	}
	if fn := cm.StaticCallee(); fn != nil {
		if fn.Synthetic == "package initializer" {
			return func(fr *Frame) V { return V{} } // packages are initialised lazily
		}
		if _, isClosure := cm.Value.(*ssa.MakeClosure); !isClosure {
			f := p.cfunc(fn)
			return func(fr *Frame) V {
				args := make([]V, len(ops))
				for i := range ops {
					args[i] = fr.get(&ops[i])
				}
				return fr.x.call(fr, f, args, nil)
			}
		}
	}
	fo := cc.op(cm.Value)
	return func(fr *Frame) V {
		args := make([]V, len(ops))
		for i := range ops {
			args[i] = fr.get(&ops[i])
		}
		return fr.x.callFn(fr, fr.get(&fo), args)
	}
}
