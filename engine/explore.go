package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []Dec
	model  Model
}

// Session is the state shared by the workers of one check run.
type Session struct {
	P            *Prog
	vars         *varReg
	tier         int
	seed         int64
	queryTimeout time.Duration
	crossN       int

	queries, sat, unsat, cacheHits, unknown, solverNanos atomic.Int64
	crossDone, crossBad                                  atomic.Int64
	solverErr                                            atomic.Value
	verbose                                              bool
}

// Harness is one entry point: an exported function of a harness package.
type Harness struct {
	Name string
	fn   *ssa.Function
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Choices map[string]uint64 `json:"choices"`
	Trace   string            `json:"trace,omitempty"`
	Sched   []int             `json:"schedule,omitempty"`
	Kind    string            `json:"kind"`
}

type Trace struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Obs     []string          `json:"obs"`
	Expect  string            `json:"expect"` // ok | violation
	Sched   []int             `json:"sched,omitempty"`
}

type HarnessResult struct {
	Name      string
	Paths     int64
	ByStatus  map[string]int64
	Decisions int64
	Branches  int64
	Steps     int64
	Asserts   int64
	Proved    int64
	Complete  bool
	Why       map[string]int64
	Covers    map[string]bool
	Bounds    map[string]bool
	Known     map[string]bool
	Viol      []Violation
	Samples   []Trace
	Wall      time.Duration
	MaxDepth  int
}

type hrun struct {
	s        *Session
	h        *Harness
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	busy     int
	stop     bool
	res      *HarnessResult
	seen     int64
	rng      *rand.Rand
	maxPaths int64
	deadline time.Time
	violSig  map[string]int
	nSamples int
}

func newSession(p *Prog, tier int, seed int64) *Session {
	return &Session{P: p, vars: &varReg{idx: map[varKey]int{}}, tier: tier, seed: seed, queryTimeout: 20 * time.Second}
}

// explore runs a harness to completion or until the deadline.
func (s *Session) explore(h *Harness, nw int, deadline time.Time, maxPaths int64, nSamples int) *HarnessResult {
	r := &hrun{s: s, h: h, maxPaths: maxPaths, deadline: deadline, violSig: map[string]int{}, nSamples: nSamples}
	r.cond = sync.NewCond(&r.mu)
	r.rng = rand.New(rand.NewSource(s.seed))
	r.res = &HarnessResult{Name: h.Name, ByStatus: map[string]int64{}, Why: map[string]int64{}, Covers: map[string]bool{}, Bounds: map[string]bool{}, Known: map[string]bool{}}
	r.queue = []workItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker()
		}()
	}
	wg.Wait()
	r.res.Wall = time.Since(t0)
	r.res.Complete = !r.stop && len(r.queue) == 0
	if r.stop && len(r.queue) > 0 {
		r.res.Why[fmt.Sprintf("stopped with %d unexplored branches", len(r.queue))]++
	}
	return r.res
}

func (r *hrun) worker() {
	var x *Exec
	defer func() {
		if x != nil {
			x.slv.close()
		}
	}()
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.busy > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.queue) == 0 {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		it := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.busy++
		r.mu.Unlock()

		if x == nil {
			x = r.newBase()
		}
		st, msg := r.runPath(x, it)
		r.finish(x, st, msg)
		if x.tt.next > 3_000_000 || len(x.slv.cache) > 400_000 {
			x.slv.close()
			x = nil
		}
		r.mu.Lock()
		r.busy--
		if !r.deadline.IsZero() && time.Now().After(r.deadline) {
			r.stop = true
		}
		if r.maxPaths > 0 && r.res.Paths >= r.maxPaths && len(r.queue) > 0 {
			r.stop = true
		}
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

// newBase creates an executor with the harness package initialised.
func (r *hrun) newBase() *Exec {
	x := newExec(r.s.P, r.s)
	x.resetPath(workItem{})
	x.inBase = true
	x.gen = 1
	x.budget = 1 << 60
	x.initPkg(r.s.P.harn)
	x.inBase = false
	x.nextGen = 1
	return x
}

func (x *Exec) resetPath(it workItem) {
	x.prefix = it.prefix
	x.decs = make([]Dec, 0, len(it.prefix)+16)
	x.model = it.model
	x.pc = x.pc[:0]
	x.known = map[*Term]bool{}
	clear(x.ivl)
	x.steps = 0
	x.obs = nil
	x.covers = map[string]bool{}
	x.bounds = map[string]bool{}
	x.knownHit = map[string]bool{}
	x.choices = nil
	x.names = map[string]int{}
	x.inputs = nil
	x.allocLimit, x.allocTotal = 0, 0
	x.hugeLimit = 1 << 16
	x.mapOrder, x.mapUsed = false, false
	x.race, x.sched = nil, nil
	x.shaCache = nil
	x.capture, x.hexMade = nil, nil
	x.fresh = 0
	x.sib = nil
	x.notes = nil
	x.decCache = map[decKey][]V{}
	x.decOrder = nil
	x.stepLimit = 0
	x.pathBudget = 40_000_000
	x.asserts, x.proved = 0, 0
	x.setBudget()
	x.tt.newGen()
}

// runPath executes one path of the harness.
func (r *hrun) runPath(x *Exec, it workItem) (st Status, msg string) {
	for try := 0; try < 50; try++ {
		x.nextGen++
		x.gen = x.nextGen
		x.resetPath(it)
		var need *ssa.Package
		st, msg, need = r.once(x)
		if need == nil {
			return
		}
		x.undoAll()
		x.inBase = true
		x.gen = 1
		x.budget = 1 << 60
		x.initPkg(need)
		x.inBase = false
	}
	return StUnsupported, "too many lazy initialisations"
}

func (r *hrun) once(x *Exec) (st Status, msg string, need *ssa.Package) {
	th := &Thread{}
	x.cur = th
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		switch p := p.(type) {
		case pathAbort:
			st, msg = p.st, p.msg
		case needInit:
			need = p.pkg
		case targetPanic:
			st, msg = StViolation, "panic: "+x.panicString(p.v)
		default:
			st, msg = StUnsupported, fmt.Sprintf("engine: %v", p)
			if os.Getenv("VERIF_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "ENGINE PANIC %v\n%s\n", p, debug.Stack())
			}
		}
	}()
	x.call(&Frame{x: x, th: th}, x.P.cfunc(r.h.fn), nil, nil)
	return StOK, "", nil
}

func (x *Exec) modelInputs() map[string]uint64 {
	m := map[string]uint64{}
	for _, in := range x.inputs {
		m[in.name] = x.tt.eval(in.t, x.model)
	}
	for _, c := range x.choices {
		if !strings.HasPrefix(c.name, "~") {
			m[c.name] = c.val
		}
	}
	return m
}

func (r *hrun) finish(x *Exec, st Status, msg string) {
	inputs := map[string]uint64(nil)
	if st == StViolation {
		inputs = x.modelInputs()
	}
	sample := -1
	r.mu.Lock()
	res := r.res
	if st == StOK {
		r.seen++
		if len(res.Samples) < r.nSamples {
			res.Samples = append(res.Samples, Trace{})
			sample = len(res.Samples) - 1
		} else if r.nSamples > 0 {
			if j := r.rng.Int63n(r.seen); j < int64(r.nSamples) {
				sample = int(j)
			}
		}
	}
	r.mu.Unlock()
	var tr Trace
	if sample >= 0 {
		tr = Trace{Harness: r.h.Name, Inputs: x.modelInputs(), Expect: "ok", Obs: x.observed()}
	}
	x.undoAll()

	r.mu.Lock()
	defer r.mu.Unlock()
	if sample >= 0 {
		res.Samples[sample] = tr
	}
	res.Paths++
	res.ByStatus[statusNames[st]]++
	res.Steps += x.steps
	res.Asserts += x.asserts
	res.Proved += x.proved
	for _, d := range x.decs[min(len(x.prefix), len(x.decs)):] {
		res.Decisions++
		if d.kind == dBranch {
			res.Branches++
		}
	}
	if len(x.decs) > res.MaxDepth {
		res.MaxDepth = len(x.decs)
	}
	for c := range x.covers {
		res.Covers[c] = true
	}
	for c := range x.bounds {
		res.Bounds[c] = true
	}
	for c := range x.knownHit {
		res.Known[c] = true
	}
	for n := range x.notes {
		res.Why[n]++
	}
	switch st {
	case StViolation:
		if r.violSig[msg] < 4 && len(res.Viol) < 24 {
			r.violSig[msg]++
			v := Violation{Harness: r.h.Name, Msg: msg, Inputs: inputs}
			if x.mapUsed {
				v.Kind = "maporder"
			}
			if x.sched != nil {
				v.Sched = append([]int(nil), x.sched.hist...)
				v.Kind = "schedule"
			}
			res.Viol = append(res.Viol, v)
		} else {
			r.violSig[msg]++
			if r.violSig[msg] > 200 {
				r.stop = true
			}
		}
	case StUnsupported, StBudget, StHugeAlloc, StUnknown:
		if len(res.Why) < 60 {
			res.Why[statusNames[st]+": "+msg]++
		}
	}
	if r.s.verbose {
		fmt.Fprintf(os.Stderr, "path %d %s %s decs=%d steps=%d\n", res.Paths, statusNames[st], msg, len(x.decs), x.steps)
	}
	r.queue = append(r.queue, x.sib...)
}

// observed renders the observations of a path under its model, in the format of sym.Observe's native twin.
func (x *Exec) observed() []string {
	var out []string
	for _, o := range x.obs {
		s, ok := x.render(o.v)
		if !ok {
			s = "?"
		}
		out = append(out, o.label+"="+s)
	}
	return out
}

func (x *Exec) render(v V) (s string, ok bool) {
	i, _ := v.r.(*Iface)
	if i == nil {
		return "nil", true
	}
	val := func(e V) (uint64, bool) {
		switch t := e.r.(type) {
		case nil:
			return e.u, true
		case *Term:
			return x.tt.eval(t, x.model), true
		}
		return 0, false
	}
	bytesHex := func(b []V) (string, bool) {
		var sb strings.Builder
		for _, e := range b {
			u, ok := val(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%02x", u)
		}
		return sb.String(), true
	}
	switch {
	case i.t.kind == KString:
		return bytesHex(strVals(i.v))
	case i.t.kind == KSlice && i.t.elem.kind == KUint8:
		return bytesHex(x.sliceVals(i.v))
	case i.t.kind == KBool:
		u, ok := val(i.v)
		return fmt.Sprint(u != 0), ok
	case i.t.scalar && i.t.signed:
		u, ok := val(i.v)
		return fmt.Sprint(sx(u, i.t.w)), ok
	case i.t.scalar:
		u, ok := val(i.v)
		return fmt.Sprint(u), ok
	case x.P.implements(i.t, x.P.tError):
		return "err", true
	}
	return "?", true
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
