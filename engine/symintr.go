package main

import (
	"fmt"
)

const symPkg = "aminoharness/sym."

func (x *Exec) input(fr *Frame, name V, w uint8) V {
	n, ok := concStr(name)
	if !ok {
		return x.unsupported("symbolic input name")
	}
	n = x.uniq(n)
	return x.inputVar(n, w)
}

func (x *Exec) inputVar(n string, w uint8) V {
	t := x.tt.variable(n, w)
	x.inputs = append(x.inputs, inputRec{n, t})
	return V{r: t}
}

func (x *Exec) assume(c V) {
	if c.r == nil {
		if c.u == 0 {
			x.abort(StAssumed, "assumption")
		}
		return
	}
	t := c.r.(*Term)
	if v, ok := x.known[t]; ok {
		if !v {
			x.abort(StAssumed, "assumption")
		}
		return
	}
	if x.tt.eval(t, x.model) == 1 {
		x.addPC(t)
		return
	}
	// the current model violates the assumption: look for another one
	res, m := x.slv.check(t)
	switch res {
	case resSat:
		x.model = m
		x.tt.newGen()
		x.addPC(t)
	case resUnsat:
		x.abort(StAssumed, "assumption")
	default:
		x.abort(StUnknown, "solver could not decide an assumption")
	}
}

func (x *Exec) assert(fr *Frame, c V, msg string) {
	x.asserts++
	if c.r == nil {
		if c.u == 0 {
			x.violation("%s", msg)
		}
		return
	}
	t := c.r.(*Term)
	if v, ok := x.known[t]; ok {
		if !v {
			x.violation("%s", msg)
		}
		return
	}
	neg := x.tt.not(t)
	if x.tt.eval(t, x.model) == 0 {
		x.violation("%s", msg)
	}
	if x.tri(t, 6) == 1 { // decided by the ranges that the path condition implies
		x.learn(t, true)
		x.proved++
		return
	}
	res, m := x.slv.check(neg)
	switch res {
	case resSat:
		x.model = m
		x.tt.newGen()
		x.violation("%s", msg)
	case resUnsat:
		x.learn(t, true)
		x.proved++
	default:
		x.S.unknown.Add(1)
		x.abort(StUnknown, "solver could not decide: "+msg)
	}
}

func (x *Exec) str(v V) string {
	s, ok := concStr(v)
	if !ok {
		return "<symbolic text>"
	}
	return s
}

func init() {
	r := func(n string, f func(fr *Frame, a []V) V) { reg(symPkg+n, f) }
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "Uint": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64, "Int": 64, "F32": 32, "F64": 64} {
		w := w
		r(n, func(fr *Frame, a []V) V { return fr.x.input(fr, a[0], w) })
	}
	r("Range", func(fr *Frame, a []V) V {
		x := fr.x
		lo, hi := uint64(x.concInt(a[1])), uint64(x.concInt(a[2]))
		n := x.uniq(x.str(a[0]))
		t := x.tt.variable(fmt.Sprintf("%s/%d-%d", n, lo, hi), 8)
		x.inputs = append(x.inputs, inputRec{n, t})
		t.lb, t.ub, t.ubOK = lo, hi, true
		// (the constraints are added as they are: the bounds would simplify them)
		if v := x.tt.eval(t, x.model); v < lo || v > hi {
			x.setModel(t, lo)
		}
		x.pc = append(x.pc, x.tt.mk(OUle, 0, 0, t, x.tt.konst(8, hi)), x.tt.mk(OUle, 0, 0, x.tt.konst(8, lo), t))
		return mkV(t)
	})
	r("Bool", func(fr *Frame, a []V) V {
		v := fr.x.input(fr, a[0], 8)
		x := fr.x
		return mkV(x.tt.eq(x.tt.extract(x.T(v, 8), 0, 1), x.tt.konst(1, 1)))
	})
	bytesOf := func(fr *Frame, a []V) []V {
		x := fr.x
		n := x.uniq(x.str(a[0]))
		k := x.concInt(a[1])
		vals := make([]V, k)
		for i := range vals {
			vals[i] = x.inputVar(fmt.Sprintf("%s[%d]", n, i), 8)
		}
		return vals
	}
	r("Bytes", func(fr *Frame, a []V) V { return fr.x.mkBytes(bytesOf(fr, a)) })
	r("String", func(fr *Frame, a []V) V { return mkStr(bytesOf(fr, a)) })
	r("Choose", func(fr *Frame, a []V) V {
		x := fr.x
		n := x.uniq(x.str(a[0]))
		return iv(x.choose(n, x.concInt(a[1])))
	})
	r("Assume", func(fr *Frame, a []V) V { fr.x.assume(a[0]); return V{} })
	r("Assert", func(fr *Frame, a []V) V { fr.x.assert(fr, a[0], fr.x.str(a[1])); return V{} })
	r("Fail", func(fr *Frame, a []V) V { fr.x.asserts++; fr.x.violation("%s", fr.x.str(a[0])); return V{} })
	r("Known", func(fr *Frame, a []V) V {
		fr.x.knownHit[fr.x.str(a[0])] = true
		fr.x.abort(StKnown, "known finding "+fr.x.str(a[0]))
		return V{}
	})
	r("Same", func(fr *Frame, a []V) V { return mkV(fr.x.deepEqIface(a[0], a[1], 1)) })
	r("And", func(fr *Frame, a []V) V {
		x := fr.x
		t := x.tt.True
		for _, v := range x.sliceVals(a[0]) {
			t = x.tt.and(t, x.T(v, 0))
		}
		return mkV(t)
	})
	r("Or", func(fr *Frame, a []V) V {
		x := fr.x
		t := x.tt.False
		for _, v := range x.sliceVals(a[0]) {
			t = x.tt.or(t, x.T(v, 0))
		}
		return mkV(t)
	})
	r("Not", func(fr *Frame, a []V) V { return mkV(fr.x.tt.not(fr.x.T(a[0], 0))) })
	r("Imp", func(fr *Frame, a []V) V {
		x := fr.x
		return mkV(x.tt.or(x.tt.not(x.T(a[0], 0)), x.T(a[1], 0)))
	})
	r("Iff", func(fr *Frame, a []V) V {
		x := fr.x
		return mkV(x.tt.eq(x.T(a[0], 0), x.T(a[1], 0)))
	})
	r("Eq64", func(fr *Frame, a []V) V {
		x := fr.x
		return mkV(x.tt.eq(x.T(a[0], 64), x.T(a[1], 64)))
	})
	r("IteU64", func(fr *Frame, a []V) V {
		x := fr.x
		return mkV(x.tt.ite(x.T(a[0], 0), x.T(a[1], 64), x.T(a[2], 64)))
	})
	r("IteU8", func(fr *Frame, a []V) V {
		x := fr.x
		return mkV(x.tt.ite(x.T(a[0], 0), x.T(a[1], 8), x.T(a[2], 8)))
	})
	r("Observe", func(fr *Frame, a []V) V {
		fr.x.obs = append(fr.x.obs, Observation{label: fr.x.str(a[0]), v: a[1]})
		return V{}
	})
	r("Cover", func(fr *Frame, a []V) V { fr.x.covers[fr.x.str(a[0])] = true; return V{} })
	r("Bound", func(fr *Frame, a []V) V { fr.x.bounds[fr.x.str(a[0])] = true; return V{} })
	r("Tier", func(fr *Frame, a []V) V { return iv(fr.x.S.tier) })
	r("AllocLimit", func(fr *Frame, a []V) V {
		x := fr.x
		n := int64(x.concInt(a[0]))
		if n == 0 {
			x.allocLimit = 0
		} else {
			x.allocLimit = x.allocTotal + n
		}
		return V{}
	})
	r("Symbolic", func(fr *Frame, a []V) V { return bv(true) })
	r("MapOrder", func(fr *Frame, a []V) V { fr.x.mapOrder = fr.x.branchV(a[0]); return V{} })
	r("Steps", func(fr *Frame, a []V) V {
		// termination budget: from here on at most n further instructions
		x := fr.x
		n := int64(x.concInt(a[0]))
		if n == 0 {
			x.stepLimit = 0
		} else {
			x.stepLimit = x.steps + n
		}
		x.setBudget()
		return V{}
	})
	r("Parallel", func(fr *Frame, a []V) V { fr.x.parallel(fr, fr.x.sliceVals(a[0]), fr.x.concInt(a[1])); return V{} })
	r("HashBytes", func(fr *Frame, a []V) V { return fr.x.mkBytes(fr.x.sha256(strVals(a[0]))) })
	r("Hex", func(fr *Frame, a []V) V {
		x := fr.x
		var out []V
		for _, b := range x.sliceVals(a[0]) {
			h := x.hexByte(b, true)
			if x.hexMade == nil {
				x.hexMade = map[[2]V]V{}
			}
			x.hexMade[[2]V{h[0], h[1]}] = b
			out = append(out, h...)
		}
		return mkStr(out)
	})
	r("Capture", func(fr *Frame, a []V) V {
		x := fr.x
		old := x.capture
		defer func() { x.capture = old }()
		var out []V
		x.capture = &out
		x.callFn(fr, a[0], nil)
		return mkStr(out)
	})
	r("LastLine", func(fr *Frame, a []V) V {
		x := fr.x
		b := strVals(a[0])
		if n := len(b); n == 0 || b[n-1].r != nil || b[n-1].u != '\n' {
			return mkStr(b)
		}
		b = b[:len(b)-1]
		for i := len(b) - 1; i >= 0; i-- {
			if _, ok := b[i].r.(*LazyDec); !ok && x.branch(x.eqBytes(b[i], V{u: '\n'})) {
				return mkStr(b[i+1:])
			}
		}
		return mkStr(b)
	})
	r("Force", func(fr *Frame, a []V) V { return fr.x.force(a[0]) })
}

func (x *Exec) setBudget() {
	x.budget = x.pathBudget
	if x.stepLimit > 0 && x.stepLimit < x.budget {
		x.budget = x.stepLimit
	}
}
