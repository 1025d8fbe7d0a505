package h

import (
	"errors"
	"fmt"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

var errSink = errors.New("sink")

// sink is a writer which takes up to max bytes and then fails.
type sink struct {
	got   []byte
	max   int
	calls int
	quiet bool // report no error where nothing was cut
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	n := len(p)
	if room := s.max - len(s.got); n > room {
		n = room
	}
	s.got = append(s.got, p[:n]...)
	if n < len(p) || !s.quiet {
		return n, errSink
	}
	return n, nil
}

// framed: length-prefixed encodings are the bare ones with their length in front.
func framed[T any](cdc *amino.Codec, reg *registry, tweak func(g *generator)) {
	sym.Bound(genBound)
	g := newGen()
	if tweak != nil {
		tweak(g)
	}
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gFull)
	bare, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	want := append(putUvarint(nil, uint64(len(bare))), bare...)
	var u, w T
	switch sym.Choose("what", 5) {
	case 0:
		lp, err := cdc.MarshalBinaryLengthPrefixed(v)
		sym.Assert(err == nil && sym.EqBytes(lp, want), fmt.Sprintf("%T: the length-prefixed encoding isn't the length and the bare encoding", v))
		lp, err = cdc.MarshalBinaryLengthPrefixed(&v)
		sym.Assert(err == nil && sym.EqBytes(lp, want), fmt.Sprintf("%T: the length-prefixed encoding differs behind a pointer", v))
	case 1:
		s := &sink{max: 1 << 20, quiet: true}
		n, err := cdc.MarshalBinaryLengthPrefixedWriter(s, v)
		sym.Assert(err == nil, "an error though the writer has none")
		sym.Assert(sym.EqBytes(s.got, want), fmt.Sprintf("%T: other bytes were written", v))
		sym.Assert(n == int64(len(want)), "not the number of bytes written")
	case 2: // the writer fails
		k := len(want) + 1
		if k > 8 {
			k = 8
		}
		s := &sink{max: sym.Choose("room", k)}
		n, err := cdc.MarshalBinaryLengthPrefixedWriter(s, v)
		sym.Assert(err == errSink, "the writer's error was lost")
		sym.Assert(n == int64(len(s.got)), "not the number of bytes written before the error")
		sym.Assert(len(s.got) <= len(want) && sym.EqBytes(s.got, want[:len(s.got)]), "other bytes were written before the error")
	case 3:
		err1 := cdc.UnmarshalBinaryLengthPrefixed(want, &u)
		err2 := cdc.UnmarshalBinaryBare(bare, &w)
		sym.Assert(err1 == nil && err2 == nil, fmt.Sprintf("%T: cannot decode what was encoded", v))
		sym.Assert(sym.Same(u, w), fmt.Sprintf("%T: the length prefix changes the value", v))
	case 4: // values one after another
		s := &sink{max: 1 << 20, quiet: true}
		n1, err := cdc.MarshalBinaryLengthPrefixedWriter(s, v)
		sym.Assert(err == nil, "encode error")
		n2, err := cdc.MarshalBinaryLengthPrefixedWriter(s, v)
		sym.Assert(err == nil && n1 == n2 && n1+n2 == int64(len(s.got)), "not the number of bytes written")
		sym.Assert(sym.EqBytes(s.got, append(want, want...)), "other bytes were written")
	}
	sym.Cover("framed")
}

func C12_ints()     { framed[Ints](cdc, noreg, nil) }
func C12_text()     { framed[Text](cdc, noreg, nil) }
func C12_nest()     { framed[Nest](cdc, noreg, nil) }
func C12_ptrs()     { framed[Ptrs](cdc, noreg, nil) }
func C12_packed()   { framed[PackedLists](cdc, noreg, nil) }
func C12_structs()  { framed[StructLists](cdc, noreg, fullEmpty) }
func C12_uints()    { framed[Uints](cdc, noreg, nil) }
func C12_fixed()    { framed[Fixed](cdc, noreg, nil) }
func C12_floats()   { framed[Floats](cdc, noreg, nil) }
func C12_deep()     { framed[Deep](cdc, noreg, nil) }
func C12_named()    { framed[Named](cdc, noreg, nil) }
func C12_octets()   { framed[Octets](cdc, noreg, nil) }
func C12_embedded() { framed[Embedded](cdc, noreg, nil) }
func C12_tagged()   { framed[Tagged](cdc, noreg, nil) }
func C12_wempty()   { framed[WriteEmpty](cdc, noreg, nil) }
func C12_wide()     { framed[Wide](cdc, noreg, nil) }
func C12_node()     { framed[Node](cdc, noreg, nil) }
func C12_empty()    { framed[HoldsEmpty](cdc, noreg, nil) }
func C12_fixeds()   { framed[FixedLists](cdc, noreg, nil) }
func C12_texts()    { framed[TextLists](cdc, noreg, nil) }
func C12_rich()     { framed[RichLists](cdc, noreg, nil) }
func C12_plists()   { framed[PtrLists](cdc, noreg, nil) }
func C12_alists()   { framed[ArrayLists](cdc, noreg, nil) }
func C12_tlists()   { framed[TimeLists](cdc, noreg, nil) }
func C12_nlists()   { framed[NamedLists](cdc, noreg, nil) }
func C12_arrays()   { framed[Arrays](cdc, noreg, nil) }
func C12_wlists()   { framed[WideLists](cdc, noreg, nil) }
func C12_times()    { framed[Times](cdc, noreg, nil) }
func C12_cage()     { framed[Cage](zcdc, zreg, nil) }
func C12_top() {
	switch sym.Choose("type", 12) {
	case 0:
		framed[int64](cdc, noreg, nil)
	case 1:
		framed[string](cdc, noreg, nil)
	case 2:
		framed[[]byte](cdc, noreg, nil)
	case 3:
		framed[[3]byte](cdc, noreg, nil)
	case 4:
		framed[[]int16](cdc, noreg, nil)
	case 5:
		framed[[]string](cdc, noreg, nil)
	case 6:
		framed[[]Leaf](cdc, noreg, nil)
	case 7:
		framed[Empty](cdc, noreg, nil)
	case 8:
		framed[Dog](zcdc, zreg, nil)
	case 9:
		framed[Fish](zcdc, zreg, nil)
	case 10:
		framed[Blob](zcdc, zreg, nil)
	case 11:
		framed[bool](cdc, noreg, nil)
	}
}

// anyFrame: decoding a frame is decoding its contents, whatever they are.
func anyFrame[T any](cdc *amino.Codec, max int) {
	sym.Bound(fmt.Sprintf("frames around all byte strings up to %d bytes", max))
	bz := sym.Bytes("bz", sym.Choose("len", max+1))
	var u, w T
	err1 := cdc.UnmarshalBinaryBare(append([]byte(nil), bz...), &u)
	err2 := cdc.UnmarshalBinaryLengthPrefixed(append(putUvarint(nil, uint64(len(bz))), bz...), &w)
	sym.Assert((err1 == nil) == (err2 == nil), fmt.Sprintf("%T: decoding depends on the frame", u))
	if err1 == nil {
		sym.Assert(sym.Same(u, w), fmt.Sprintf("%T: the value depends on the frame", u))
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
	}
}

func C12_any_ints() { anyFrame[Ints](cdc, 4) }
func C12_any_text() { anyFrame[Text](cdc, 4) }
func C12_any_zoo()  { anyFrame[Cage](zcdc, 4) }
func C12_any_top() {
	switch sym.Choose("type", 8) {
	case 0:
		anyFrame[int64](cdc, 4)
	case 1:
		anyFrame[string](cdc, 4)
	case 2:
		anyFrame[[]int16](cdc, 4)
	case 3:
		anyFrame[[]string](cdc, 5)
	case 4:
		anyFrame[[2]byte](cdc, 5)
	case 5:
		anyFrame[Fish](zcdc, 6)
	case 6:
		anyFrame[Animal](zcdc, 5)
	case 7:
		anyFrame[Empty](cdc, 4)
	}
}

// long values: the prefix needs more than one byte
func C12_long() {
	sym.Bound("strings of lengths around 127 and 16383")
	n := []int{120, 124, 125, 126, 127, 128, 16378, 16380, 16381, 16384}[sym.Choose("n", 10)]
	b := make([]byte, n)
	b[0], b[n-1] = sym.U8("first"), sym.U8("last")
	v := Text{A: string(b)}
	bare, err := cdc.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	lp, err := cdc.MarshalBinaryLengthPrefixed(v)
	sym.Assert(err == nil && sym.EqBytes(lp, append(putUvarint(nil, uint64(len(bare))), bare...)), "the length-prefixed encoding isn't the length and the bare encoding")
	var u Text
	err = cdc.UnmarshalBinaryLengthPrefixed(lp, &u)
	sym.Assert(err == nil && u.A == v.A, "round trip with a long prefix")
	sym.Cover("long")
}
