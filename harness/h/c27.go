package h

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// result of a call: panicked, or an error, or the rest
type result struct {
	panicked, failed bool
	bz               []byte
	n                int64
}

func outcome(f func() ([]byte, int64, error)) (r result) {
	r.panicked = sym.Try(func() {
		bz, n, err := f()
		r.failed, r.bz, r.n = err != nil, bz, n
	})
	return
}

func sameResult(a, b result) bool {
	return sym.And(a.panicked == b.panicked, a.failed == b.failed, sym.EqBytes(a.bz, b.bz), a.n == b.n)
}

// must: the Must variant panics exactly when the other fails or panics
func must(a, m result) bool {
	if a.panicked || a.failed {
		return m.panicked
	}
	return sameResult(a, m)
}

// sealed is what the package's functions stand for.
var sealed = amino.NewCodec().Seal()

// variants of encoding the value
func variants(v any) {
	c := sealed
	w := func(f func(io.Writer, any) (int64, error)) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) {
			var b bytes.Buffer
			n, err := f(&b, v)
			return b.Bytes(), n, err
		}
	}
	e := func(f func(any) ([]byte, error)) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) {
			bz, err := f(v)
			return bz, 0, err
		}
	}
	m := func(f func(any) []byte) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) { return f(v), 0, nil }
	}
	switch sym.Choose("variant", 3) {
	case 0:
		r := outcome(e(c.MarshalBinaryBare))
		sym.Assert(must(r, outcome(m(c.MustMarshalBinaryBare))), "MustMarshalBinaryBare is another function")
		g := outcome(e(amino.MarshalBinaryBare))
		sym.Assert(sameResult(r, g), "the package's MarshalBinaryBare is another function")
		sym.Assert(must(r, outcome(m(amino.MustMarshalBinaryBare))), "the package's MustMarshalBinaryBare is another function")
		note(r)
	case 1:
		r := outcome(e(c.MarshalBinaryLengthPrefixed))
		sym.Assert(must(r, outcome(m(c.MustMarshalBinaryLengthPrefixed))), "MustMarshalBinaryLengthPrefixed is another function")
		g := outcome(e(amino.MarshalBinaryLengthPrefixed))
		sym.Assert(sameResult(r, g), "the package's MarshalBinaryLengthPrefixed is another function")
		sym.Assert(must(r, outcome(m(amino.MustMarshalBinaryLengthPrefixed))), "the package's MustMarshalBinaryLengthPrefixed is another function")
		note(r)
	case 2:
		r := outcome(w(c.MarshalBinaryLengthPrefixedWriter))
		g := outcome(w(amino.MarshalBinaryLengthPrefixedWriter))
		sym.Assert(sameResult(r, g), "the package's MarshalBinaryLengthPrefixedWriter is another function")
		note(r)
	}
}

func note(r result) {
	if r.panicked {
		sym.Cover("panic")
	} else if r.failed {
		sym.Cover("error")
	} else {
		sym.Cover("result")
	}
}

func variantsOf[T any]() {
	sym.Bound(genBound)
	g := newGen()
	g.lens = []int{0, 1, 2}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	variants(v)
}

func C27_ints()    { variantsOf[Ints]() }
func C27_text()    { variantsOf[Text]() }
func C27_nest()    { variantsOf[Nest]() }
func C27_packed()  { variantsOf[PackedLists]() }
func C27_texts()   { variantsOf[TextLists]() }
func C27_structs() { variantsOf[StructLists]() } // nil elements are errors
func C27_times()   { variantsOf[Times]() }
func C27_rich()    { variantsOf[RichLists]() }
func C27_ptrs()    { variantsOf[Ptrs]() }

// values that cannot be encoded
func C27_refused() {
	switch sym.Choose("what", 10) {
	case 0:
		variants(nil)
	case 1:
		variants((*Leaf)(nil))
	case 2:
		variants(Cage{In: Dog{Age: sym.I64("x")}}) // nothing is registered
	case 3:
		variants(struct{ F float64 }{sym.F64("x")})
	case 4:
		variants(struct{ M map[string]int64 }{map[string]int64{"a": sym.I64("x")}})
	case 5:
		variants(struct{ C chan int }{})
	case 6:
		variants(struct{ C complex128 }{})
	case 7:
		variants(struct {
			A []*Leaf `amino:"empty_elements"`
		}{[]*Leaf{nil, {A: sym.I64("x")}}})
	case 8:
		var a Animal = Dog{}
		variants(&a)
	case 9:
		variants(sym.I64("x"))
	}
}

// decode variants of the input
func decoders[T any](bz []byte) {
	c := sealed
	var a, b, m, gm T
	d := func(f func([]byte, any) error, p *T) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) { return nil, 0, f(bz, p) }
	}
	md := func(f func([]byte, any), p *T) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) {
			f(bz, p)
			return nil, 0, nil
		}
	}
	rd := func(f func(io.Reader, any, int64) (int64, error), p *T, max int64) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) {
			r := bytes.NewReader(bz)
			n, err := f(r, p, max)
			rest, _ := io.ReadAll(r)
			return rest, n, err
		}
	}
	var r result
	switch sym.Choose("variant", 3) {
	case 0:
		r = outcome(d(c.UnmarshalBinaryBare, &a))
		g := outcome(d(amino.UnmarshalBinaryBare, &b))
		sym.Assert(sym.And(sameResult(r, g), sym.Same(a, b)), "the package's UnmarshalBinaryBare is another function")
		sym.Assert(must(r, outcome(md(c.MustUnmarshalBinaryBare, &m))), "MustUnmarshalBinaryBare is another function")
		sym.Assert(must(r, outcome(md(amino.MustUnmarshalBinaryBare, &gm))), "the package's MustUnmarshalBinaryBare is another function")
	case 1:
		r = outcome(d(c.UnmarshalBinaryLengthPrefixed, &a))
		g := outcome(d(amino.UnmarshalBinaryLengthPrefixed, &b))
		sym.Assert(sym.And(sameResult(r, g), sym.Same(a, b)), "the package's UnmarshalBinaryLengthPrefixed is another function")
		sym.Assert(must(r, outcome(md(c.MustUnmarshalBinaryLengthPrefixed, &m))), "MustUnmarshalBinaryLengthPrefixed is another function")
		sym.Assert(must(r, outcome(md(amino.MustUnmarshalBinaryLengthPrefixed, &gm))), "the package's MustUnmarshalBinaryLengthPrefixed is another function")
	case 2:
		max := []int64{0, 2, 3, -1}[sym.Choose("max", 4)]
		r = outcome(rd(c.UnmarshalBinaryLengthPrefixedReader, &a, max))
		g := outcome(rd(amino.UnmarshalBinaryLengthPrefixedReader, &b, max))
		sym.Assert(sym.And(sameResult(r, g), sym.Same(a, b)), "the package's UnmarshalBinaryLengthPrefixedReader is another function")
		m, gm = a, a
	}
	if !r.failed && !r.panicked {
		sym.Assert(sym.And(sym.Same(a, m), sym.Same(a, gm)), fmt.Sprintf("%T: a Must function decodes another value", a))
	}
	note(r)
}

func C27_any_ints()    { decoders[Ints](anyBytes(2 + sym.Tier())) }
func C27_any_text()    { decoders[Text](anyBytes(3 + sym.Tier())) }
func C27_any_nest()    { decoders[Nest](anyBytes(3 + sym.Tier())) }
func C27_any_packed()  { decoders[PackedLists](anyBytes(2 + sym.Tier())) }
func C27_any_cage()    { decoders[Cage](anyBytes(3)) }
func C27_any_floats()  { decoders[struct{ F float64 }](anyBytes(3)) }
func C27_any_string()  { decoders[string](anyBytes(3)) }
func C27_mut_nest()    { decoders[Nest](mutant(noreg.encode(smallValue[Nest]()))) }
func C27_mut_structs() { decoders[StructLists](mutant(noreg.encode(smallValue[StructLists]()))) }

// ---- JSON

func jsonVariants(v any) {
	c := sealed
	e := func(f func(any) ([]byte, error)) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) {
			bz, err := f(v)
			return bz, 0, err
		}
	}
	in := func(f func(any, string, string) ([]byte, error), prefix, indent string) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) {
			bz, err := f(v, prefix, indent)
			return bz, 0, err
		}
	}
	switch sym.Choose("variant", 2) {
	case 0:
		r := outcome(e(c.MarshalJSON))
		sym.Assert(must(r, outcome(func() ([]byte, int64, error) { return c.MustMarshalJSON(v), 0, nil })), "MustMarshalJSON is another function")
		sym.Assert(sameResult(r, outcome(e(amino.MarshalJSON))), "the package's MarshalJSON is another function")
		note(r)
	case 1:
		k := sym.Choose("indent", 2)
		prefix, indent := []string{"", ">"}[k], []string{" ", "\t"}[k]
		r := outcome(in(c.MarshalJSONIndent, prefix, indent))
		sym.Assert(sameResult(r, outcome(in(amino.MarshalJSONIndent, prefix, indent))), "the package's MarshalJSONIndent is another function")
		m := outcome(e(c.MarshalJSON))
		sym.Assert(r.panicked == m.panicked && r.failed == m.failed, "MarshalJSONIndent fails where MarshalJSON does not, or the other way round")
		note(r)
	}
}

func jsonVariantsOf[T any]() {
	sym.Bound(jsonBound)
	g := newJGen()
	g.lens = []int{0, 1, 2}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	jsonVariants(v)
}

func C27_json_ints()    { jsonVariantsOf[Ints]() }
func C27_json_text()    { jsonVariantsOf[Text]() }
func C27_json_nest()    { jsonVariantsOf[Nest]() }
func C27_json_structs() { jsonVariantsOf[StructLists]() }
func C27_json_maps()    { jsonVariantsOf[Boxes]() }

func C27_json_refused() {
	switch sym.Choose("what", 9) {
	case 0:
		jsonVariants(nil)
	case 1:
		jsonVariants((*Leaf)(nil))
	case 2:
		jsonVariants(Cage{In: Dog{Age: sym.I64("x")}}) // nothing is registered
	case 3:
		jsonVariants(struct{ F float64 }{1.5})
	case 4:
		jsonVariants(map[int64]string{sym.I64("x"): "a"})
	case 5:
		jsonVariants(struct{ C chan int }{})
	case 6:
		jsonVariants(struct{ C complex128 }{})
	case 7:
		var a Animal = Dog{}
		jsonVariants(&a)
	case 8:
		jsonVariants(sym.I64("x"))
	}
}

// jsonDecoders: variants of decoding the JSON
func jsonDecoders[T any](bz []byte) {
	c := sealed
	var a, b, m T
	d := func(f func([]byte, any) error, p *T) func() ([]byte, int64, error) {
		return func() ([]byte, int64, error) { return nil, 0, f(bz, p) }
	}
	r := outcome(d(c.UnmarshalJSON, &a))
	g := outcome(d(amino.UnmarshalJSON, &b))
	sym.Assert(sym.And(sameResult(r, g), sym.Same(a, b)), "the package's UnmarshalJSON is another function")
	sym.Assert(must(r, outcome(func() ([]byte, int64, error) {
		c.MustUnmarshalJSON(bz, &m)
		return nil, 0, nil
	})), "MustUnmarshalJSON is another function")
	if !r.failed && !r.panicked {
		sym.Assert(sym.Same(a, m), fmt.Sprintf("%T: MustUnmarshalJSON decodes another value", a))
	}
	note(r)
}

func C27_jany_int8()   { jsonDecoders[int8](anyBytes(3)) }
func C27_jany_string() { jsonDecoders[string](anyBytes(3)) }
func C27_jany_ints()   { jsonDecoders[[]uint8](anyBytes(3)) }
func C27_jany_leaf()   { jsonDecoders[Leaf](anyBytes(3)) }
func C27_jany_map()    { jsonDecoders[map[string]bool](anyBytes(3)) }
func C27_jany_cage()   { jsonDecoders[Cage](anyBytes(3)) }
func C27_jhole_leaf()  { jsonDecoders[Leaf]([]byte(`{"A":` + hole(3) + "}")) }
