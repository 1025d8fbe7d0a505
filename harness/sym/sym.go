// Package sym is the vocabulary of the harnesses.
//
// Under the symbolic engine every function here is intercepted: inputs become SMT variables,
// Assume/Assert become solver queries. Compiled natively the same functions read concrete values
// from a recorded assignment, so that every counterexample is replayed against the real build.
package sym

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"aminoharness/ssync"
)

// Run is the state of one native execution.
type Run struct {
	Inputs map[string]uint64
	Obs    []string
	Covers map[string]bool
	names  map[string]int
	mu     sync.Mutex
	tier   int
	alloc0 uint64
	limit  uint64
	shaN   int
	shaMap map[string][]byte
	Msgs   []string
	Spin   int   // number of the repetition
	Sched  []int // the order of threads to replay, in builds where package sync is replaced
}

var cur *Run

// Violation is the panic value of a failed assertion.
type Violation struct{ Msg string }

// Assumed is the panic value of a failed assumption.
type Assumed struct{ Msg string }

// Start begins a native run.
func Start(inputs map[string]uint64, tier int) *Run {
	cur = &Run{Inputs: inputs, Covers: map[string]bool{}, names: map[string]int{}, tier: tier, shaMap: map[string][]byte{}}
	return cur
}

func uniq(name string) string {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	n := cur.names[name]
	cur.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func in(name string) uint64 { return cur.Inputs[uniq(name)] }

func U8(name string) uint8    { return uint8(in(name)) }
func U16(name string) uint16  { return uint16(in(name)) }
func U32(name string) uint32  { return uint32(in(name)) }
func U64(name string) uint64  { return in(name) }
func Uint(name string) uint   { return uint(in(name)) }
func I8(name string) int8     { return int8(in(name)) }
func I16(name string) int16   { return int16(in(name)) }
func I32(name string) int32   { return int32(in(name)) }
func I64(name string) int64   { return int64(in(name)) }
func Int(name string) int     { return int(in(name)) }
func F32(name string) float32 { return math.Float32frombits(uint32(in(name))) }
func F64(name string) float64 { return math.Float64frombits(in(name)) }

// Range returns a byte between lo and hi.
func Range(name string, lo, hi int) uint8 {
	v := uint8(in(name))
	Assume(int(v) >= lo && int(v) <= hi)
	return v
}
func Bool(name string) bool { return in(name)&1 != 0 }

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	name = uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(cur.Inputs[fmt.Sprintf("%s[%d]", name, i)])
	}
	return b
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose picks a value in [0,k); the engine explores all of them.
func Choose(name string, k int) int {
	if k <= 0 {
		panic(Assumed{"empty choice"})
	}
	return int(in(name)) % k
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Assumed{"assumption"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Violation{msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(Violation{msg}) }

// Known ends a path that shows the listed known finding id.
func Known(id string) { panic(Assumed{"known finding " + id}) }

func And(c ...bool) bool {
	for _, b := range c {
		if !b {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, b := range c {
		if b {
			return true
		}
	}
	return false
}
func Not(c bool) bool    { return !c }
func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }

func Eq64(a, b uint64) bool { return a == b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

// Observe records a value that the engine's prediction is compared with when sampled paths are
// replayed natively.
func Observe(label string, v any) {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	cur.Obs = append(cur.Obs, label+"="+render(v))
}

func render(v any) string {
	if v == nil {
		return "nil"
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		return hex.EncodeToString([]byte(rv.String()))
	case reflect.Bool:
		return fmt.Sprint(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(rv.Uint())
	case reflect.Float32:
		return fmt.Sprint(math.Float32bits(float32(rv.Float())))
	case reflect.Float64:
		return fmt.Sprint(math.Float64bits(rv.Float()))
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return hex.EncodeToString(rv.Bytes())
		}
	}
	if _, ok := v.(error); ok {
		return "err"
	}
	return "?"
}

// Cover marks a point that must be reachable (guard against vacuous harnesses).
func Cover(label string) { cur.Covers[label] = true }

// Bound records a bound of the harness for the evidence file.
func Bound(text string) {}

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return cur.tier }

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { return false }

// MapOrder makes the engine explore every map iteration order.
func MapOrder(on bool) {}

// Steps bounds the instructions executed from here on (termination budget); 0 lifts the bound.
func Steps(n int) {}

// AllocLimit bounds the bytes allocated from here on; 0 lifts (and checks) the bound.
func AllocLimit(n int) {
	var ms runtime.MemStats
	if n == 0 {
		if cur.limit > 0 {
			runtime.ReadMemStats(&ms)
			if used := ms.TotalAlloc - cur.alloc0; used > cur.limit+1<<20 {
				panic(Violation{fmt.Sprintf("allocated %d bytes", used)})
			}
		}
		cur.limit = 0
		return
	}
	runtime.ReadMemStats(&ms)
	cur.alloc0 = ms.TotalAlloc
	cur.limit = uint64(n)
}

// HashBytes is SHA-256 of s (an uninterpreted function for symbolic s under the engine).
func HashBytes(s string) []byte {
	h := sha256.Sum256([]byte(s))
	return h[:]
}

// Force expands lazily formatted text (engine only).
func Force(s string) string { return s }

// Hex is the hexadecimal text of b.
func Hex(b []byte) string { return fmt.Sprintf("%X", b) }

// Capture runs f and returns what it wrote to the standard output.
func Capture(f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		ch <- string(b)
	}()
	os.Stdout = w
	done := false
	defer func() {
		if !done {
			os.Stdout = old
			w.Close()
			<-ch
		}
	}()
	f()
	done = true
	os.Stdout = old
	w.Close()
	return <-ch
}

// LastLine is the last line of a text, without its end.
func LastLine(s string) string {
	if !strings.HasSuffix(s, "\n") {
		return s
	}
	s = s[:len(s)-1]
	return s[strings.LastIndexByte(s, '\n')+1:]
}

// Parallel runs fs concurrently; the engine explores their interleavings at synchronisation
// points with at most n preemptions and reports data races.
func Parallel(fs []func(), n int) {
	if len(cur.Sched) > 0 {
		msg, failed := ssync.Run(fs, cur.Sched)
		if failed != nil {
			panic(failed)
		}
		if msg != "" {
			panic(Violation{msg})
		}
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first any
	start := make(chan struct{})
	for i, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if first == nil {
						first = r
					}
					mu.Unlock()
				}
			}()
			<-start
			if k := cur.Spin; k > 0 { // vary who comes first
				for j := (i*7 + k*13) % 37; j > 0; j-- {
					spin(j * 20)
				}
			}
			f()
		}(f)
	}
	close(start)
	wg.Wait()
	if first != nil {
		panic(first)
	}
}

//go:noinline
func spin(n int) {
	s := 0
	for i := 0; i < n; i++ {
		s += i ^ s
	}
	if s == 12345 {
		runtime.Gosched()
	}
}

// Try runs f and reports whether it panicked (control panics of this package pass through).
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Violation, Assumed:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Same is structural equality that does not tell nil from empty slices and maps and compares floats by
// their bits; nil pointers differ from non-nil ones.
func Same(a, b any) bool {
	return same(reflect.ValueOf(a), reflect.ValueOf(b))
}

func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		if a.Kind() == reflect.Float32 {
			return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
		}
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !same(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	}
	return false
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
