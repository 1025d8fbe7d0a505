package h

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// Long has a field of every kind that can be long or deep.
type Long struct {
	A int8
	S string
	B []byte
	L []int64
	T []string
	R []Leaf
	P []*Leaf
	K [][]byte
	I []Animal
	J Animal
	N *Long
	F *[300]byte
	G *[40]int16
	M MyStr
	X []int32 `binary:"fixed32"`
	Q []time.Time
	U []bool
	V []*int16
	W struct{ S []string }
	Z int8
}

const longBound = "texts, byte strings and lists of one length out of some between 9 and 17000 (more elements or bytes than any buffer or length byte), nesting to depth 20, three places of which are arbitrary (letters in texts)"

// genLong: one long field.
func genLong(ifaces bool) (v Long) { return genLongOf("", ifaces, sym.Choose("kind", 19)) }

func genLongOf(pre string, ifaces bool, kind int) (v Long) {
	sym.Bound(longBound)
	v.A, v.Z = 1, 2
	bytesOf := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		for i, p := range []int{0, n / 2, n - 1} {
			c := sym.U8(fmt.Sprint(pre, "b", i))
			sym.Assume(sym.And(c|0x20 >= 'a', c|0x20 <= 'z'))
			b[p] = c
		}
		return b
	}
	size := func() int {
		s := []int{130, 1030, 4200, 17000}
		return s[sym.Choose(pre+"size", 3+min(sym.Tier(), 1))]
	}
	count := func() (n, at int) {
		n = []int{9, 17, 40, 130, 1030}[sym.Choose(pre+"count", 4+min(sym.Tier(), 1))]
		return n, []int{0, n - 1}[sym.Choose(pre+"at", 2)]
	}
	x := func() int64 {
		if pre == "j" {
			return int64(sym.I16(pre + "x"))
		}
		return sym.I64(pre + "x")
	}
	n, at := 0, 0
	if kind >= 3 && kind <= 13 {
		n, at = count()
	}
	num := func(i int) int64 {
		if i == at {
			return x()
		}
		return int64(i * 3)
	}
	switch kind {
	case 0:
		v.S = string(bytesOf(size()))
	case 1:
		v.B = bytesOf(size())
	case 2:
		v.M = MyStr(bytesOf(size()))
	case 14:
		if ifaces {
			v.J = Data(bytesOf(size()))
		} else {
			v.W.S = []string{"", string(bytesOf(size())), "z"}
		}
	case 15: // deep
		d := []int{4, 20}[sym.Choose(pre+"depth", 2)]
		w := &v
		for i := 0; i < d; i++ {
			w.N = &Long{A: int8(i), Z: 1}
			w = w.N
		}
		w.S = string(bytesOf(130))
	case 16:
		v.F = new([300]byte)
		copy(v.F[:], bytesOf(300))
	case 17:
		v.G = new([40]int16)
		v.G[0], v.G[39] = int16(x()), 7
	case 18:
		if ifaces {
			v.J = &Cat{7}
			v.I = []Animal{Dog{Name: string(bytesOf(130)), Age: 1}, Fish(3)}
		} else {
			v.K = [][]byte{bytesOf(130), nil, {1}}
		}
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 3:
			v.L = append(v.L, num(i))
		case 4:
			v.T = append(v.T, strings.Repeat("x", int(num(i)&1)))
		case 5:
			v.R = append(v.R, Leaf{A: num(i)})
		case 6:
			v.P = append(v.P, &Leaf{A: num(i), B: "p"})
		case 7:
			v.K = append(v.K, []byte{byte(num(i)), 1})
		case 8:
			if ifaces {
				v.I = append(v.I, Fish(num(i)))
			} else {
				v.L = append(v.L, num(i), -1)
			}
		case 9:
			v.X = append(v.X, int32(num(i)))
		case 10:
			if pre == "j" { // see C18_times
				v.Q = append(v.Q, time.Unix(int64(i)*1e6, 5).UTC())
			} else {
				v.Q = append(v.Q, time.Unix(num(i)&0xffffff, 5).UTC())
			}
		case 11:
			v.U = append(v.U, num(i)&1 == 0)
		case 12:
			c := int16(num(i))
			v.V = append(v.V, &c)
		case 13:
			v.W.S = append(v.W.S, "a"+string([]byte{byte(num(i))&15 + 'A'}))
		}
	}
	return v
}

func C01_long() { roundTripValue(zcdc, genLong(true)) }
func C02_long() {
	v := genLong(false)
	roundTripValue(cdc, v.T)
	roundTripValue(cdc, v.L)
	roundTripValue(cdc, v.R)
	roundTripValue(cdc, v.P)
	roundTripValue(cdc, v.K)
	roundTripValue(cdc, v.U)
	roundTripValue(cdc, v.Q)
	roundTripValue(zcdc, v)
}
func C03_long() {
	c := []*amino.Codec{zcdc, dcdc}[sym.Choose("codec", 2)]
	v := genLongOf("", true, []int{8, 14, 18, 15, 0}[sym.Choose("kind", 5)])
	roundTripValue(c, v)
	if v.J != nil {
		bz, err := c.MarshalBinaryBare(v.J)
		sym.Assert(err == nil, "encode error")
		var u Animal
		sym.Assert(c.UnmarshalBinaryBare(bz, &u) == nil, "cannot decode a long interface value")
		sym.Assert(sym.Same(u, v.J), "a long interface value changed")
	}
}
func C05_long() {
	v := genLong(true)
	conformsValue(zcdc, zreg, v)
	conformsValue(dcdc, dreg, v)
}
func C06_long() {
	v := genLong(true)
	bz, err := zcdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	b, err := zcdc.MarshalBinaryBare(&v)
	sym.Assert(err == nil && sym.EqBytes(b, bz), "the encoding changes behind a pointer")
	c := zoo(false)
	b, err = c.MarshalBinaryBare(v)
	sym.Assert(err == nil && sym.EqBytes(b, bz), "the encoding changes with the history of the codec")
	var u Long
	sym.Assert(c.UnmarshalBinaryBare(bz, &u) == nil, "decode error")
	b, err = c.MarshalBinaryBare(u)
	sym.Assert(err == nil && sym.EqBytes(b, bz), "the encoding changes after a round trip")
	sym.Cover("stable")
}

// cutLong: the encoding of a long value with one byte near an end replaced, inserted or removed.
func cutLong(v Long) []byte {
	sym.Bound("one of the first 6 or last 4 bytes replaced by any byte or removed, or all from there on cut off")
	bz := zreg.encode(v)
	p := sym.Choose("place", 10)
	if p >= 6 {
		p = len(bz) - 10 + p
	}
	switch sym.Choose("mutation", 3) {
	case 0:
		bz[p] = sym.U8("byte")
	case 1:
		bz = append(bz[:p], bz[p+1:]...)
	case 2:
		bz = bz[:p]
	}
	return bz
}

func someLong() Long { // not all kinds, for mutations
	return genLongOf("", true, []int{0, 1, 3, 4, 5, 9, 14, 15}[sym.Choose("kind", 8)])
}

func C07_long() {
	robust[Long](zcdc, cutLong(shortLong()))
}
func C08_long() { refuse[Long](zcdc, zreg, cutLong(shortLong())) }
func C09_long() { agree[Long](zcdc, zreg, cutLong(shortLong())) }

// shortLong has fewer sizes.
func shortLong() (v Long) {
	v.A, v.Z = 1, 2
	b := make([]byte, 140)
	for i := range b {
		b[i] = 'a'
	}
	sym.Bound("texts of 140 letters, lists of 20 elements, nesting to depth 4")
	switch sym.Choose("kind", 8) {
	case 0:
		v.S = string(b)
	case 1:
		v.B = b
	case 2:
		v.J = Data(b)
	case 3:
		for i := range 20 {
			v.L = append(v.L, int64(i*40))
		}
	case 4:
		for i := range 20 {
			v.T = append(v.T, string(b[:i]))
		}
	case 5:
		v.N = &Long{N: &Long{N: &Long{S: string(b)}}}
	case 6:
		v.Z = 0
		v.W.S = []string{string(b), ""}
	case 7:
		v.Z = 0
		for i := range 20 {
			v.V = append(v.V, new(int16))
			*v.V[i] = int16(i)
		}
	}
	return
}

// LongOld knows the first and the last field only.
type LongOld struct{ A int8 }

func C10_long() {
	v := genLong(true)
	bz, err := zcdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	var u LongOld
	sym.Assert(cdc.UnmarshalBinaryBare(bz, &u) == nil, "long unknown fields are refused")
	sym.Assert(u.A == 1, "the known field is lost")
	type in struct {
		A []LongOld
		B int8
	}
	type now struct {
		A []Long
		B int8
	}
	bz, err = zcdc.MarshalBinaryBare(now{[]Long{v, {A: 3}}, 4})
	sym.Assert(err == nil, "encode error")
	var w in
	sym.Assert(cdc.UnmarshalBinaryBare(bz, &w) == nil, "long unknown fields of list elements are refused")
	sym.Assert(sym.Same(w, in{[]LongOld{{1}, {3}}, 4}), "a known field of a list element is lost")
	var full Long
	old, err := cdc.MarshalBinaryBare(LongOld{5})
	sym.Assert(err == nil && zcdc.UnmarshalBinaryBare(old, &full) == nil && full.A == 5, "an old value is refused")
	sym.Cover("skipped")
}

func C12_longs() {
	v := genLong(true)
	bare := zreg.encode(v)
	want := append(putUvarint(nil, uint64(len(bare))), bare...)
	lp, err := zcdc.MarshalBinaryLengthPrefixed(v)
	sym.Assert(err == nil && sym.EqBytes(lp, want), "the length-prefixed encoding isn't the length and the bare encoding")
	s := &sink{max: 1 << 20, quiet: true}
	n, err := zcdc.MarshalBinaryLengthPrefixedWriter(s, &v)
	sym.Assert(err == nil && sym.EqBytes(s.got, want) && n == int64(len(want)), "other bytes were written")
	var u Long
	sym.Assert(zcdc.UnmarshalBinaryLengthPrefixed(want, &u) == nil, "cannot decode")
	sym.Assert(sym.Same(norm(reflect.ValueOf(&v).Elem(), fopt{num: 1}).Interface(), u), "decoded another value")
	sym.Assert(zcdc.UnmarshalBinaryLengthPrefixed(want[:len(want)-1], new(Long)) != nil, "a cut encoding is accepted")
	sym.Assert(zcdc.UnmarshalBinaryLengthPrefixed(append(append([]byte(nil), want...), 0), new(Long)) != nil, "a byte too many is accepted")
	// a writer which fails late
	f := &sink{max: len(want) - 1 - sym.Choose("late", 2)*(len(want)/2)}
	n, err = zcdc.MarshalBinaryLengthPrefixedWriter(f, v)
	sym.Assert(err == errSink && n == int64(len(f.got)) && sym.EqBytes(f.got, want[:len(f.got)]), "a writer which fails late")
	sym.Cover("framed")
}

// chunks is a reader which gives at most n bytes at a time.
type chunks struct {
	data []byte
	n    int
	eof  bool // with the last data
	pos  int
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.pos == len(c.data) {
		return 0, io.EOF
	}
	n := min(len(p), c.n, len(c.data)-c.pos)
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.eof && c.pos == len(c.data) {
		return n, io.EOF
	}
	return n, nil
}

func C13_longs() {
	v := genLongOf("", true, []int{0, 1, 3, 4, 5, 14, 15}[sym.Choose("kind", 7)])
	sym.Bound("readers which give up to 7, 100, 512, 4096 or all bytes at a time")
	frame := zcdc.MustMarshalBinaryLengthPrefixed(v)
	want := norm(reflect.ValueOf(&v).Elem(), fopt{num: 1}).Interface()
	c := &chunks{n: []int{7, 100, 512, 4096, 1 << 20}[sym.Choose("chunk", 5)], eof: sym.Choose("eof", 2) == 1}
	what := sym.Choose("what", 4)
	var u, w Long
	switch what {
	case 0: // three values
		c.data = append(append(append([]byte(nil), frame...), zcdc.MustMarshalBinaryLengthPrefixed(Long{A: 9})...), frame...)
		n, err := zcdc.UnmarshalBinaryLengthPrefixedReader(c, &u, 0)
		sym.Assert(err == nil && n == int64(len(frame)) && c.pos == len(frame), "a long value isn't read")
		sym.Assert(sym.Same(want, u), "another value is read")
		n, err = zcdc.UnmarshalBinaryLengthPrefixedReader(c, &w, 0)
		sym.Assert(err == nil && w.A == 9, "the value behind a long one isn't read")
		w = Long{}
		n, err = zcdc.UnmarshalBinaryLengthPrefixedReader(c, &w, int64(len(frame)))
		sym.Assert(err == nil && n == int64(len(frame)) && c.pos == len(c.data), "a long value isn't read at the end")
		sym.Assert(sym.Same(want, w), "another value is read at the end")
		n, err = zcdc.UnmarshalBinaryLengthPrefixedReader(c, &w, 0)
		sym.Assert(err == io.EOF && n == 0, "no end")
	case 1: // cut
		c.data = frame[:len(frame)-1-sym.Choose("cut", 2)*(len(frame)/2)]
		n, err := zcdc.UnmarshalBinaryLengthPrefixedReader(c, &u, 0)
		sym.Assert(err != nil && err != io.EOF && n == int64(c.pos), "a cut value")
	case 2: // too long
		c.data = frame
		n, err := zcdc.UnmarshalBinaryLengthPrefixedReader(c, &u, int64(len(frame)-1))
		sym.Assert(err != nil && n == int64(c.pos) && c.pos < len(frame), "a value beyond the limit is accepted")
	case 3:
		c.data = frame
		_, err := zcdc.UnmarshalBinaryLengthPrefixedReader(c, &u, int64(len(frame)))
		sym.Assert(err == nil && sym.Same(want, u), "a value of the maximum size is refused")
	}
	sym.Cover("read")
}

// LongRepr's representation is long.
type LongRepr struct{ s string }

func (l LongRepr) MarshalAmino() (reprList, error) { return reprList{strings.Split(l.s, "-")}, nil }
func (l *LongRepr) UnmarshalAmino(s reprList) error {
	l.s = strings.Join(s.A, "-")
	return nil
}

func C17_long() {
	n := []int{20, 130, 300}[sym.Choose("n", 3)]
	sym.Bound("representations of 20, 130 or 300 texts, one of them long with an arbitrary letter; lists and pointers of them")
	r := make([]string, n)
	for i := range r {
		r[i] = string([]byte{byte('a' + i%26)})
	}
	l := sym.U8("l")
	sym.Assume(sym.And(l >= 'a', l <= 'z'))
	r[n/2] = strings.Repeat("y", 140) + string([]byte{l})
	v := LongRepr{strings.Join(r, "-")}
	type T struct {
		A int8
		B LongRepr
		C []LongRepr
		D *LongRepr
		E int8
	}
	type R struct {
		A int8
		B reprList
		C []reprList
		D *reprList
		E int8
	}
	t := T{A: 1, B: v, C: []LongRepr{v, {"x"}}, E: 2}
	w := R{A: 1, B: reprList{r}, C: []reprList{{r}, {[]string{"x"}}}, E: 2}
	if sym.Choose("pointer", 2) == 1 {
		t.D, w.D = &v, &reprList{r}
	}
	bz, err := cdc.MarshalBinaryBare(t)
	sym.Assert(err == nil, "encode error")
	want, err := cdc.MarshalBinaryBare(w)
	sym.Assert(err == nil && sym.EqBytes(bz, want), "a value isn't encoded as its representation")
	var u T
	sym.Assert(cdc.UnmarshalBinaryBare(bz, &u) == nil, "decode error")
	if u.D == nil && t.D == nil || u.D != nil && t.D != nil && u.D.s == t.D.s {
		sym.Cover("same")
	} else {
		sym.Assert(false, "a representation behind a pointer changed")
	}
	sym.Assert(len(u.C) == 2 && sym.And(u.A == 1, u.E == 2, u.B.s == t.B.s, u.C[0].s == t.B.s, u.C[1].s == "x"), "a representation changed")
	js, err := cdc.MarshalJSON(t)
	sym.Assert(err == nil, "encode error")
	wjs, err := cdc.MarshalJSON(w)
	sym.Assert(err == nil && sym.EqBytes(js, wjs), "the JSON isn't that of the representation")
	u = T{}
	sym.Assert(cdc.UnmarshalJSON(js, &u) == nil && u.B.s == t.B.s, "the JSON isn't decoded as its representation")
}

type reprList struct{ A []string }

func jsonLong() Long {
	return genLongOf("j", true, []int{0, 1, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 18}[sym.Choose("kind", 14)])
}

func C18_long() {
	v := jsonLong()
	bz, err := jcdc.MarshalJSON(v)
	sym.Assert(err == nil, "encode error")
	var u Long
	sym.Assert(jcdc.UnmarshalJSON(bz, &u) == nil, "cannot decode what was encoded")
	sym.Assert(sym.Same(jnorm(reflect.ValueOf(&v).Elem()).Interface(), u), "decoded value differs from the encoded one")
	sym.Cover("round trip")
}
func C19_longs() { jsonIsValue(jsonLong()) }
func C21_long()  { apart(genLong(true)) }
func C23_long() {
	untouchedValue(zcdc, genLongOf("", true, []int{0, 1, 3, 4, 5, 7, 8, 9, 14, 15, 16, 18}[sym.Choose("kind", 12)]))
}

func C24_long() {
	kinds := []int{0, 1, 3, 5, 6, 7, 9, 15, 16}
	k := kinds[sym.Choose("kind", len(kinds))]
	v, dirty := genLongOf("", true, k), Long{}
	switch sym.Choose("dirty", 3) {
	case 0:
		dirty = genLongOf("d", true, k)
	case 1:
		v, dirty = Long{}, v
		v.A = 4
	case 2:
		v, dirty = genLongOf("d", true, []int{3, 5, 1}[sym.Choose("other", 3)]), v
	}
	how := k & 1
	bz, err := encodeBy(zcdc, how, v)
	sym.Assert(err == nil, "encode error")
	dropIfaces(reflect.ValueOf(&dirty).Elem())
	reuse(zcdc, how, bz, dirty)
}

func C27_long() {
	v := genLongOf("", false, []int{0, 1, 3, 4, 5, 9, 15, 16}[sym.Choose("kind", 8)])
	type T struct {
		S string
		B []byte
		L []int64
		T []string
		R []Leaf
		X []int32 `binary:"fixed32"`
	}
	w := T{v.S, v.B, v.L, v.T, v.R, v.X}
	switch sym.Choose("what", 3) {
	case 0:
		variants(w)
	case 1:
		decoders[T](cdc.MustMarshalBinaryBare(w))
	case 2:
		decoders[T](cdc.MustMarshalBinaryLengthPrefixed(w))
	}
}
