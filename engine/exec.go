package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- global variable registry (shared by workers so that models can be exchanged)

type varReg struct {
	mu    sync.Mutex
	idx   map[varKey]int
	names []string
	w     []uint8
}

func (r *varReg) get(name string, w uint8) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := varKey{name, w}
	if i, ok := r.idx[k]; ok {
		return i
	}
	i := len(r.names)
	r.idx[k] = i
	r.names = append(r.names, name)
	r.w = append(r.w, w)
	return i
}

type varKey struct {
	name string
	w    uint8
}

type Dec struct {
	val     uint64
	kind    uint8 // 0 branch 1 choose 2 concretise-step
	implied bool
}

const (
	dBranch = iota
	dChoose
	dConc
)

type Status uint8

const (
	StOK Status = iota
	StAssumed
	StViolation
	StUnsupported
	StBudget
	StHugeAlloc
	StInfeasible
	StUnknown
	StKnown
)

var statusNames = []string{"ok", "assume", "violation", "unsupported", "budget", "huge-alloc", "infeasible", "solver-unknown", "known-finding"}

type pathAbort struct {
	st  Status
	msg string
}

type needInit struct{ pkg *ssa.Package }

type targetPanic struct {
	v V // interface value
}

type goexit struct{}

type Observation struct {
	label string
	v     V
}

type Exec struct {
	P      *Prog
	tt     *TermTab
	S      *Session
	slv    *Solver
	gen    uint32
	trail  []undo
	gcell  []*Cell
	inited map[*ssa.Package]bool

	// path state
	prefix                []Dec
	decs                  []Dec
	model                 Model
	pc                    []*Term
	pcVars                []*varSet
	known                 map[*Term]bool
	steps                 int64
	budget                int64
	obs                   []Observation
	covers                map[string]bool
	choices               []choice
	names                 map[string]int
	inputs                []inputRec
	inBase                bool
	allocLimit            int64
	allocTotal            int64
	hugeLimit             int64
	mapOrder, mapUsed     bool
	ivl                   map[*Term]interval
	race                  *raceState
	sched                 *scheduler
	cur                   *Thread
	deadline              time.Time
	shaCache              []shaEnt
	capture               *[]V
	hexMade               map[[2]V]V
	fresh                 int
	sib                   []workItem
	notes                 map[string]bool
	violMsg               string
	mapIterPick           bool
	knownHit              map[string]bool
	bounds                map[string]bool
	decCache              map[decKey][]V
	decOrder              []decKey
	frames                []*Frame // for reuse
	asserts, proved       int64
	stepLimit, pathBudget int64
	nextGen               uint32
}

type choice struct {
	name string
	val  uint64
}

type inputRec struct {
	name string
	t    *Term
}

type Thread struct {
	id        int
	depth     int
	panics    []*panicRec
	vc        vclock
	resume    chan struct{}
	done      bool
	blockedOn func() bool
	frames    []*Frame
}

type panicRec struct {
	v         V
	recovered bool
	goex      bool
}

type Frame struct {
	x          *Exec
	th         *Thread
	f          *CFunc
	regs       []V
	free       []V
	prev       int
	defers     []deferred
	result     V
	panicking  *panicRec
	caller     *Frame
	deferredBy *Frame // set when running as a deferred call of a frame
}

type deferred struct {
	fn   V
	args []V
	bi   *ssa.Builtin
	run  func()
}

func newExec(p *Prog, s *Session) *Exec {
	x := &Exec{P: p, S: s, tt: newTermTab(), gen: 1, ivl: map[*Term]interval{}, inited: map[*ssa.Package]bool{}}
	x.tt.reg = s.vars
	x.slv = newSolver(x)
	return x
}

// ---- symbolic branching

func (x *Exec) abort(st Status, f string, a ...any) {
	panic(pathAbort{st, fmt.Sprintf(f, a...)})
}

func (x *Exec) unsupported(f string, a ...any) V {
	panic(pathAbort{StUnsupported, fmt.Sprintf(f, a...)})
}

func (x *Exec) addPC(t *Term) {
	if t.isC() {
		return
	}
	if _, ok := x.known[t]; ok {
		return
	}
	if t.op == OAnd {
		x.addPC(t.args[0])
		x.addPC(t.args[1])
		x.known[t] = true
		return
	}
	x.pc = append(x.pc, t)
	x.known[t] = true
	x.known[x.tt.not(t)] = false
	x.bound(t, true)
}

type interval struct{ lo, hi uint64 }

// bound takes down what a literal says about the range of a term.
func (x *Exec) bound(t *Term, v bool) {
	for t.op == ONot {
		t, v = t.args[0], !v
	}
	if t.op != OUlt && t.op != OUle && t.op != OEq {
		return
	}
	a, b := t.args[0], t.args[1]
	var k uint64
	left := a.isC()
	if left {
		a, k = b, a.k
	} else if b.isC() {
		k = b.k
	} else {
		return
	}
	if a.w == 0 {
		return
	}
	r := x.rng(a)
	switch {
	case t.op == OEq:
		if v {
			r.lo, r.hi = k, k
		} else if r.lo == k && k < r.hi {
			r.lo++
		} else if r.hi == k && k > r.lo {
			r.hi--
		}
	case left == v: // k < a, k <= a, or not a < k, a <= k
		if v == (t.op == OUlt) {
			k++
			if k == 0 {
				return
			}
		}
		r.lo = max(r.lo, k)
	default: // a < k, a <= k, or not k < a, k <= a
		if v == (t.op == OUlt) {
			if k == 0 {
				return
			}
			k--
		}
		r.hi = min(r.hi, k)
	}
	if r.lo > r.hi {
		return
	}
	x.ivl[a] = r
}

func (x *Exec) rng(t *Term) interval {
	r := interval{lbound(t), ubound(t)}
	if i, ok := x.ivl[t]; ok {
		r.lo, r.hi = max(r.lo, i.lo), min(r.hi, i.hi)
	}
	var i interval
	switch t.op {
	case OZext:
		i = x.rng(t.args[0])
	case OAdd:
		a, b := x.rng(t.args[0]), x.rng(t.args[1])
		if s, c := bits.Add64(a.hi, b.hi, 0); c != 0 || s > mask(t.w) {
			return r
		}
		i = interval{a.lo + b.lo, a.hi + b.hi}
	case OMul:
		k, a := t.args[0], t.args[1]
		if !k.isC() {
			k, a = a, k
		}
		if !k.isC() {
			return r
		}
		j := x.rng(a)
		if h, l := bits.Mul64(j.hi, k.k); h != 0 || l > mask(t.w) {
			return r
		}
		i = interval{j.lo * k.k, j.hi * k.k}
	default:
		return r
	}
	r.lo, r.hi = max(r.lo, i.lo), min(r.hi, i.hi)
	return r
}

// geq: a is b plus something, without overflow on this path.
func (x *Exec) geq(a, b *Term) bool {
	if a.op != OAdd {
		return false
	}
	p, q := a.args[0], a.args[1]
	if p == b {
		p, q = q, p
	}
	if q != b {
		return false
	}
	s, c := bits.Add64(x.rng(p).hi, x.rng(q).hi, 0)
	return c == 0 && s <= mask(a.w)
}

// digits: t is h*k+d with d < k, without overflow on this path.
func (x *Exec) digits(t *Term) (h *Term, k uint64, d *Term, ok bool) {
	m := t
	d = x.tt.konst(t.w, 0)
	if t.op == OAdd {
		m, d = t.args[0], t.args[1]
		if m.op != OMul {
			m, d = d, m
		}
	}
	if m.op != OMul {
		return
	}
	c := m.args[0]
	h = m.args[1]
	if !c.isC() {
		c, h = h, c
	}
	if !c.isC() || c.k < 2 {
		return
	}
	k = c.k
	dh := x.rng(d).hi
	hi, lo := bits.Mul64(x.rng(h).hi, k)
	s, carry := bits.Add64(lo, dh, 0)
	ok = hi == 0 && carry == 0 && s <= mask(t.w) && dh < k
	return
}

// rw rewrites comparisons of decimal numbers to comparisons of their digits, which the solver is better at.
func (x *Exec) rw(c *Term, depth int) *Term {
	if depth == 0 {
		return c
	}
	tt := x.tt
	switch c.op {
	case ONot:
		if r := x.rw(c.args[0], depth); r != c.args[0] {
			return tt.not(r)
		}
	case OUlt:
		a, b := c.args[0], c.args[1]
		if a.isC() && a.k != mask(a.w) {
			if r := x.rwLess(b, a.k+1, depth); r != nil {
				return tt.not(r)
			}
		} else if b.isC() {
			if r := x.rwLess(a, b.k, depth); r != nil {
				return r
			}
		} else if a.op == OAdd && (a.args[0] == b || a.args[1] == b) {
			// b+q overflows: b > max-q
			q := a.args[0]
			if q == b {
				q = a.args[1]
			}
			h, k, z, ok := x.digits(b)
			if !ok || !z.isC() || z.k != 0 {
				break
			}
			r := x.rng(q)
			m := mask(a.w)
			lo, hi := (m-r.hi)/k, (m-r.lo)/k
			over := func(v uint64) *Term { // h > v
				n := tt.ult(tt.konst(a.w, v), h)
				return x.rw(n, depth-1)
			}
			if lo == hi {
				return over(lo)
			}
			if hi == lo+1 { // q <= m - hi*k: h > hi, else h > lo
				small := tt.ule(q, tt.konst(a.w, m-hi*k))
				return tt.or(tt.and(small, over(hi)), tt.and(tt.not(small), over(lo)))
			}
		}
	case OUle:
		a, b := c.args[0], c.args[1]
		if a.isC() && a.k > 0 {
			if r := x.rwLess(b, a.k, depth); r != nil {
				return tt.not(r)
			}
		} else if b.isC() && b.k != mask(b.w) {
			if r := x.rwLess(a, b.k+1, depth); r != nil {
				return r
			}
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if a.isC() {
			a, b = b, a
		}
		if !b.isC() || a.w == 0 {
			break
		}
		if h, k, d, ok := x.digits(a); ok {
			return tt.and(x.rw(tt.eq(h, tt.konst(h.w, b.k/k)), depth-1), tt.eq(d, tt.konst(d.w, b.k%k)))
		}
	}
	return c
}

func (x *Exec) rwLess(a *Term, n uint64, depth int) *Term {
	r := x.rng(a)
	if r.hi < n {
		return x.tt.True
	}
	if r.lo >= n {
		return x.tt.False
	}
	h, k, d, ok := x.digits(a)
	if !ok {
		return nil
	}
	tt := x.tt
	q := tt.konst(a.w, n/k)
	lt := x.rw(tt.ult(h, q), depth-1)
	eq := x.rw(tt.eq(h, q), depth-1)
	return tt.or(lt, tt.and(eq, tt.ult(d, tt.konst(a.w, n%k))))
}

// tri decides a condition from the literals and ranges of the path, if that is enough: 1, 0, or -1.
func (x *Exec) tri(t *Term, depth int) int {
	if t.isC() {
		return int(t.k)
	}
	if v, ok := x.known[t]; ok {
		return int(b2u(v))
	}
	if depth == 0 {
		return -1
	}
	switch t.op {
	case ONot:
		if r := x.tri(t.args[0], depth); r >= 0 {
			return 1 - r
		}
	case OAnd, OOr:
		z := 0
		if t.op == OOr {
			z = 1
		}
		p := x.tri(t.args[0], depth-1)
		if p == z {
			return z
		}
		q := x.tri(t.args[1], depth-1)
		if q == z {
			return z
		}
		if p >= 0 && q >= 0 {
			return 1 - z
		}
	case OUlt, OUle, OEq:
		if t.args[0].w == 0 {
			return -1
		}
		a, b := x.rng(t.args[0]), x.rng(t.args[1])
		switch t.op {
		case OUlt:
			if a.hi < b.lo {
				return 1
			}
			if a.lo >= b.hi || x.geq(t.args[0], t.args[1]) {
				return 0
			}
		case OUle:
			if a.hi <= b.lo || x.geq(t.args[1], t.args[0]) {
				return 1
			}
			if a.lo > b.hi {
				return 0
			}
		case OEq:
			if a.hi < b.lo || b.hi < a.lo {
				return 0
			}
		}
	}
	return -1
}

func (x *Exec) learn(t *Term, v bool) {
	if v {
		x.known[t] = true
		x.known[x.tt.not(t)] = false
	} else {
		x.known[t] = false
		x.known[x.tt.not(t)] = true
	}
	x.bound(t, v)
}

// branch decides a symbolic condition on this path.
func (x *Exec) branch(c *Term) bool {
	if c.isC() {
		return c.k == 1
	}
	if x.inBase {
		x.unsupported("symbolic branch in base state")
	}
	if _, ok := x.known[c]; !ok {
		if r := x.rw(c, 24); r != c {
			if os.Getenv("VERIF_CHECKRW") != "" && x.tt.eval(r, x.model) != x.tt.eval(c, x.model) {
				x.unsupported("engine: rewritten condition disagrees with the model")
			}
			v := x.branch(r)
			x.learn(c, v)
			return v
		}
	}
	n := len(x.decs)
	if n < len(x.prefix) {
		d := x.prefix[n]
		if d.kind != dBranch {
			x.abort(StUnsupported, "replay divergence: expected branch")
		}
		x.decs = append(x.decs, d)
		v := d.val == 1
		if d.implied {
			x.learn(c, v)
			return v
		}
		if v {
			x.addPC(c)
		} else {
			x.addPC(x.tt.not(c))
		}
		return v
	}
	if v, ok := x.known[c]; ok {
		x.decs = append(x.decs, Dec{val: b2u(v), kind: dBranch, implied: true})
		return v
	}
	v := x.tt.eval(c, x.model) == 1
	if r := x.tri(c, 6); r >= 0 {
		if (r == 1) != v {
			x.unsupported("engine: range analysis disagrees with the model")
		}
		x.decs = append(x.decs, Dec{val: b2u(v), kind: dBranch, implied: true})
		x.learn(c, v)
		return v
	}
	var lit, neg *Term
	if v {
		lit, neg = c, x.tt.not(c)
	} else {
		lit, neg = x.tt.not(c), c
	}
	res, m := x.slv.check(neg)
	switch res {
	case resUnsat:
		x.decs = append(x.decs, Dec{val: b2u(v), kind: dBranch, implied: true})
		x.learn(c, v)
		return v
	case resSat:
		x.push(Dec{val: b2u(!v), kind: dBranch}, m)
	case resUnknown:
		x.note("solver-unknown")
		x.S.unknown.Add(1)
	}
	x.decs = append(x.decs, Dec{val: b2u(v), kind: dBranch})
	x.addPC(lit)
	return v
}

func (x *Exec) note(s string) {
	if x.notes == nil {
		x.notes = map[string]bool{}
	}
	x.notes[s] = true
}

func (x *Exec) push(d Dec, m Model) {
	p := make([]Dec, len(x.decs)+1)
	copy(p, x.decs)
	p[len(x.decs)] = d
	x.sib = append(x.sib, workItem{prefix: p, model: m})
}

func (x *Exec) branchV(v V) bool {
	if v.r == nil {
		return v.u != 0
	}
	return x.branch(v.r.(*Term))
}

// concretise picks a concrete value for t, forking over all feasible ones.
func (x *Exec) concretise(t *Term) uint64 {
	for it := 0; ; it++ {
		if t.isC() {
			return t.k
		}
		if it > 4096 {
			x.abort(StUnsupported, "concretise: too many values")
		}
		n := len(x.decs)
		var v uint64
		if n < len(x.prefix) {
			d := x.prefix[n]
			if d.kind != dConc {
				x.abort(StUnsupported, "replay divergence: expected concretise")
			}
			v = d.val
		} else {
			v = x.tt.eval(t, x.model)
		}
		x.decs = append(x.decs, Dec{val: v, kind: dConc})
		if x.branch(x.tt.eq(t, x.tt.konst(t.w, v))) {
			return v
		}
	}
}

func (x *Exec) conc(v V, w uint8) uint64 {
	if v.r == nil {
		return v.u
	}
	return x.concretise(v.r.(*Term))
}

// concInt: value of type int (64 bit) as Go int
func (x *Exec) concInt(v V) int { return int(int64(x.conc(v, 64))) }

// choose forks k ways (no solver involved)
func (x *Exec) choose(name string, k int) int {
	if k <= 0 {
		x.abort(StAssumed, "empty choice")
	}
	if k == 1 {
		x.choices = append(x.choices, choice{name, 0})
		return 0
	}
	n := len(x.decs)
	var v uint64
	if n < len(x.prefix) {
		d := x.prefix[n]
		if d.kind != dChoose {
			x.abort(StUnsupported, "replay divergence: expected choice")
		}
		v = d.val
	} else {
		for i := k - 1; i >= 1; i-- {
			x.push(Dec{val: uint64(i), kind: dChoose}, x.model)
		}
	}
	x.decs = append(x.decs, Dec{val: v, kind: dChoose})
	x.choices = append(x.choices, choice{name, v})
	return int(v)
}

func (x *Exec) T(v V, w uint8) *Term {
	switch r := v.r.(type) {
	case nil:
		return x.tt.konst(w, v.u)
	case *Term:
		return r
	case *Opaque:
		x.unsupported("operation on opaque text")
	}
	panic(fmt.Sprintf("T: %T", v.r))
}

func mkV(t *Term) V {
	if t.op == OConst {
		return V{u: t.k}
	}
	return V{r: t}
}

func bv(b bool) V {
	if b {
		return V{u: 1}
	}
	return V{}
}

func iv(i int) V { return V{u: uint64(i)} }

// newVar creates (or reuses) an input variable; the model is extended lazily with 0.
func (x *Exec) newVar(name string, w uint8) *Term { return x.tt.variable(name, w) }

func (x *Exec) uniq(name string) string {
	n := x.names[name]
	x.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

// ---- panics

func (x *Exec) rtPanic(msg string) {
	panic(targetPanic{V{r: &Iface{t: x.P.tRuntimeErr, v: V{r: msg}}}})
}

func (x *Exec) strPanic(msg string) {
	panic(targetPanic{V{r: &Iface{t: x.P.tString, v: cstr(msg)}}})
}

func (x *Exec) mkError(msg V) V {
	c := x.newCell(x.P.tErrorString.elem)
	x.store(&c.r.(*Agg).cells[0], msg)
	return V{r: &Iface{t: x.P.tErrorString, v: V{r: c}}}
}

// ---- globals and lazy package initialisation

func (x *Exec) global(i int) *Cell {
	if i < len(x.gcell) {
		if c := x.gcell[i]; c != nil {
			return c
		}
	}
	g := x.P.gAt(i)
	if g.Name() != "init$guard" && !x.inited[g.Pkg] {
		if !x.inBase {
			panic(needInit{g.Pkg})
		}
		x.initPkg(g.Pkg)
	}
	for len(x.gcell) <= i {
		x.gcell = append(x.gcell, nil)
	}
	if x.gcell[i] == nil {
		saved := x.gen
		x.gen = 1
		x.gcell[i] = x.newCell(x.P.ti(g.Type().(*types.Pointer).Elem()))
		x.gen = saved
	}
	return x.gcell[i]
}

// initPkg runs the variable initialisers and init functions of a package (imports are initialised lazily).
func (x *Exec) initPkg(pkg *ssa.Package) {
	if x.inited[pkg] {
		return
	}
	x.inited[pkg] = true
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	pkg.Build()
	saved := x.cur
	th := &Thread{}
	x.cur = th
	x.S.P.runInit(x, th, f)
	x.cur = saved
}

var skipInit = map[string]bool{"runtime": true, "reflect": true, "internal/cpu": true, "os": true, "syscall": true, "internal/godebug": true, "internal/poll": true, "sync": true, "internal/bytealg": true}

func (p *Prog) runInit(x *Exec, th *Thread, f *ssa.Function) {
	cf := p.cfunc(f)
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case targetPanic:
				panic(fmt.Sprintf("init of %s panicked: %s", f.Pkg.Pkg.Path(), x.panicString(r.v)))
			default:
				panic(r)
			}
		}
	}()
	x.call(&Frame{x: x, th: th}, cf, nil, nil)
}

func (x *Exec) panicString(v V) string {
	i, _ := v.r.(*Iface)
	if i == nil {
		return "nil"
	}
	if s, ok := i.v.r.(string); ok {
		return s
	}
	if i.t.kind == KString {
		if s, ok := concStr(i.v); ok {
			return s
		}
		return "<symbolic string>"
	}
	return "<" + typeString(i.t.t) + ">"
}
