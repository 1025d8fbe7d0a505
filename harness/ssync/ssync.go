// Package ssync stands in for package sync in builds that replay a schedule: the goroutines of Run go on one at a
// time, in the recorded order, and hand over where the engine could switch them.
package ssync

import "sync"

type (
	Map       = sync.Map
	Pool      = sync.Pool
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Locker    = sync.Locker
	Cond      = sync.Cond
)

func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }
func NewCond(l Locker) *Cond               { return sync.NewCond(l) }

type thread struct {
	id     int
	resume chan struct{}
	done   bool
	wait   func() bool
	failed any
}

type run struct {
	ts   []*thread
	cur  *thread
	hist []int
	end  chan string
	dead bool
}

var r *run

// next takes the recorded choice, or the first thread that can go on.
func (r *run) next() *thread {
	var first *thread
	ready := func(t *thread) bool { return !t.done && (t.wait == nil || t.wait()) }
	if len(r.hist) > 0 {
		t := r.ts[r.hist[0]-1]
		r.hist = r.hist[1:]
		if ready(t) {
			return t
		}
	}
	if r.cur != nil && ready(r.cur) {
		return r.cur
	}
	for _, t := range r.ts {
		if ready(t) {
			first = t
			break
		}
	}
	return first
}

func (r *run) handOver() {
	cur := r.cur
	n := r.next()
	if n == nil {
		r.end <- "deadlock: every goroutine waits"
		select {}
	}
	if n == cur {
		return
	}
	r.cur = n
	n.resume <- struct{}{}
	<-cur.resume
}

func yield() {
	if r != nil {
		r.handOver()
	}
}

func block(c func() bool) {
	t := r.cur
	t.wait = c
	r.handOver()
	t.wait = nil
}

// Run runs fs in the given order of threads (numbered from 1); msg tells how it got stuck and failed is the first panic.
func Run(fs []func(), hist []int) (msg string, failed any) {
	r = &run{hist: hist, end: make(chan string, 1)}
	for i, f := range fs {
		t := &thread{id: i + 1, resume: make(chan struct{})}
		r.ts = append(r.ts, t)
		go func(f func()) {
			<-t.resume
			defer func() {
				t.failed = recover()
				t.done = true
				if t.failed != nil {
					r.end <- ""
					return
				}
				n := r.next()
				if n == nil {
					m := ""
					for _, t := range r.ts {
						if !t.done {
							m = "deadlock: every goroutine waits"
						}
					}
					r.end <- m
					return
				}
				r.cur = n
				n.resume <- struct{}{}
			}()
			f()
		}(f)
	}
	if n := r.next(); n != nil {
		r.cur = n
		n.resume <- struct{}{}
		msg = <-r.end
	}
	for _, t := range r.ts {
		if t.failed != nil {
			failed = t.failed
		}
	}
	r = nil
	return msg, failed
}

type Mutex struct {
	m    sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if r == nil {
		m.m.Lock()
		return
	}
	yield()
	if m.held {
		block(func() bool { return !m.held })
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if r == nil {
		return m.m.TryLock()
	}
	yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if r == nil {
		m.m.Unlock()
		return
	}
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	m       sync.RWMutex
	held    bool
	readers int
	writers int
}

func (m *RWMutex) Lock() {
	if r == nil {
		m.m.Lock()
		return
	}
	yield()
	free := func() bool { return !m.held && m.readers == 0 }
	if !free() {
		m.writers++
		block(free)
		m.writers--
	}
	m.held = true
}

func (m *RWMutex) TryLock() bool {
	if r == nil {
		return m.m.TryLock()
	}
	yield()
	if m.held || m.readers > 0 {
		return false
	}
	m.held = true
	return true
}

func (m *RWMutex) Unlock() {
	if r == nil {
		m.m.Unlock()
		return
	}
	if !m.held {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.held = false
}

func (m *RWMutex) RLock() {
	if r == nil {
		m.m.RLock()
		return
	}
	yield()
	free := func() bool { return !m.held && (m.readers == 0 || m.writers == 0) }
	if !free() {
		block(free)
	}
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if r == nil {
		m.m.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (m *rlocker) Lock()   { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock() { (*RWMutex)(m).RUnlock() }
