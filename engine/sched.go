package main

import "strings"

// Threads. sym.Parallel runs functions as threads of the target; one of them runs at a time, each in a goroutine of
// the engine. A thread may be switched for another before an operation on a lock or an atomic in the repository's code,
// when it has to wait and when it ends; which one goes on is a choice that the exploration enumerates, with a bound on
// the switches away from a thread that could have gone on. Between these points other threads cannot be observed except
// through a data race, and a data race shows in any schedule as two accesses not ordered by happens-before.

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		(*v)[i] = max((*v)[i], c)
	}
}

type syncObj struct{ w, r vclock }

type access struct {
	wt    int
	wc    uint32
	reads vclock
}

type raceState struct {
	cells map[*Cell]*access
	off   bool
}

type threadKill struct{}

type scheduler struct {
	hist    []int // the thread that goes on, at every point where another one could
	threads []*Thread
	left    int // switches left
	sync    map[*Cell]*syncObj
	writers map[*Cell]int // writers waiting for readers
	main    chan struct{}
	failure any // what ended the path
	killing bool
}

func (r *raceState) access(x *Exec, c *Cell, w bool) {
	th := x.cur
	if r.off || th.id == 0 {
		return
	}
	a := r.cells[c]
	if a == nil {
		a = &access{}
		r.cells[c] = a
	}
	if a.wt != 0 && a.wt != th.id && a.wc > th.vc.at(a.wt) {
		if w {
			x.violation("data race: two goroutines write a variable unordered")
		}
		x.violation("data race: a goroutine reads what another writes unordered")
	}
	if !w {
		for len(a.reads) <= th.id {
			a.reads = append(a.reads, 0)
		}
		a.reads[th.id] = th.vc[th.id]
		return
	}
	for t, k := range a.reads {
		if t != th.id && k > th.vc.at(t) {
			x.violation("data race: a goroutine reads what another writes unordered")
		}
	}
	a.wt, a.wc, a.reads = th.id, th.vc[th.id], a.reads[:0]
}

// withoutRace runs f without taking accesses down (the innards of a synchronised object).
func (x *Exec) withoutRace(f func()) {
	if x.race == nil {
		f()
		return
	}
	x.race.off = true
	f()
	x.race.off = false
}

func (x *Exec) syncOf(c *Cell) *syncObj {
	o := x.sched.sync[c]
	if o == nil {
		o = &syncObj{}
		x.sched.sync[c] = o
	}
	return o
}

func (x *Exec) acquire(fr *Frame, c *Cell, excl bool) {
	if x.sched == nil || x.cur.id == 0 {
		return
	}
	o := x.syncOf(c)
	x.cur.vc.join(o.w)
	if excl {
		x.cur.vc.join(o.r)
	}
}

func (x *Exec) release(fr *Frame, c *Cell, excl bool) {
	if x.sched == nil || x.cur.id == 0 {
		return
	}
	o := x.syncOf(c)
	if excl {
		o.w.join(x.cur.vc)
	} else {
		o.r.join(x.cur.vc)
	}
	x.cur.vc[x.cur.id]++
}

// inRepoCall: the operation was called by code of the repository, directly or through package sync.
func inRepoCall(fr *Frame) bool {
	for i := 0; fr != nil && fr.f != nil && i < 6; i++ {
		if fr.f.inRepo || strings.HasPrefix(fr.f.name, "aminoharness/") {
			return true
		}
		if !strings.HasPrefix(fr.f.name, "sync.") && !strings.HasPrefix(fr.f.name, "(*sync.") && !strings.HasPrefix(fr.f.name, "(*sync/atomic.") && !strings.HasPrefix(fr.f.name, "(*internal/sync.") {
			return false
		}
		fr = fr.caller
	}
	return false
}

func (th *Thread) ready() bool {
	return !th.done && (th.blockedOn == nil || th.blockedOn())
}

// pick chooses the thread that goes on.
func (x *Exec) pick(cur *Thread) *Thread {
	s := x.sched
	var rs []*Thread
	if cur != nil && cur.ready() {
		rs = append(rs, cur)
		if s.left == 0 {
			s.hist = append(s.hist, cur.id)
			return cur
		}
	}
	for _, t := range s.threads {
		if t != cur && t.ready() {
			rs = append(rs, t)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	n := rs[0]
	if len(rs) > 1 {
		n = rs[x.choose("~thread", len(rs))]
	}
	if cur != nil && rs[0] == cur && n != cur {
		s.left--
	}
	s.hist = append(s.hist, n.id)
	return n
}

// switchTo hands the execution to n and waits until it comes back to cur.
func (x *Exec) switchTo(cur, n *Thread) {
	if n == cur {
		return
	}
	x.cur = n
	n.resume <- struct{}{}
	<-cur.resume
	if x.sched.killing {
		panic(threadKill{})
	}
}

func (x *Exec) yield(fr *Frame, why string) {
	if x.sched == nil || x.cur.id == 0 || why == "unlock" || why == "runlock" || !inRepoCall(fr) {
		return
	}
	cur := x.cur
	x.switchTo(cur, x.pick(cur))
}

func (x *Exec) blockUntil(fr *Frame, cond func() bool) {
	if x.sched == nil || x.cur.id == 0 {
		x.violation("deadlock")
	}
	cur := x.cur
	cur.blockedOn = cond
	n := x.pick(nil)
	if n == nil {
		x.violation("deadlock: every goroutine waits")
	}
	x.switchTo(cur, n)
	cur.blockedOn = nil
}

func (x *Exec) parallel(fr *Frame, fs []V, preempt int) {
	if x.sched != nil {
		x.unsupported("a second Parallel")
	}
	s := &scheduler{left: preempt, sync: map[*Cell]*syncObj{}, writers: map[*Cell]int{}, main: make(chan struct{})}
	main := x.cur
	x.sched, x.race = s, &raceState{cells: map[*Cell]*access{}}
	for _, f := range fs {
		x.addThread(fr, f, nil)
	}
	n := x.pick(nil)
	x.cur = n
	if n != nil {
		n.resume <- struct{}{}
		<-s.main
	}
	x.cur = main
	// end what is left, one after the other
	s.killing = true
	for _, t := range s.threads {
		if !t.done {
			x.cur = t
			t.resume <- struct{}{}
			<-s.main
		}
	}
	x.cur = main
	x.race = nil
	if s.failure != nil {
		panic(s.failure)
	}
	// x.sched stays: a violation is taken down with its schedule
}

func (x *Exec) addThread(fr *Frame, fn V, args []V) {
	s := x.sched
	th := &Thread{id: len(s.threads) + 1, resume: make(chan struct{})}
	th.vc.join(x.cur.vc)
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id] = 1
	if x.cur.id != 0 {
		x.cur.vc[x.cur.id]++
	}
	s.threads = append(s.threads, th)
	go func() {
		<-th.resume
		defer func() {
			p := recover()
			th.done = true
			if _, k := p.(threadKill); k || s.killing {
				s.main <- struct{}{}
				return
			}
			if p != nil {
				if t, ok := p.(targetPanic); ok {
					p = pathAbort{StViolation, "panic in a goroutine: " + x.panicString(t.v)}
				}
				s.failure = p
				s.main <- struct{}{}
				return
			}
			var next *Thread
			func() {
				defer func() {
					if p := recover(); p != nil {
						s.failure = p
					}
				}()
				next = x.pick(nil)
			}()
			if next == nil {
				if s.failure == nil {
					for _, t := range s.threads {
						if !t.done {
							s.failure = pathAbort{StViolation, "deadlock: every goroutine waits"}
						}
					}
				}
				s.main <- struct{}{}
				return
			}
			x.cur = next
			next.resume <- struct{}{}
		}()
		if s.killing {
			panic(threadKill{})
		}
		x.callFn(&Frame{x: x, th: th}, fn, args)
	}()
}

func (x *Exec) spawn(fr *Frame, fn V, args []V) {
	if x.sched == nil || x.cur.id == 0 {
		x.unsupported("go statement")
	}
	if len(x.sched.threads) > 16 {
		x.unsupported("many goroutines")
	}
	x.addThread(fr, fn, args)
}

