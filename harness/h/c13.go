package h

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

var errSource = errors.New("source")

// source is a reader whose every behaviour the io.Reader contract allows is a choice.
type source struct {
	data  []byte
	pos   int
	fail  int   // position of the error, or -1
	err   error // what comes at fail, or at the end of the data
	reads int
	plan  int // reads whose behaviour is chosen
	idle  int // how many empty reads are allowed
	max   int // the longest read asked for
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	end := len(s.data)
	if s.fail >= 0 && s.fail < end {
		end = s.fail
	}
	if len(p) == 0 {
		return 0, nil
	}
	avail := end - s.pos
	if avail > len(p) {
		avail = len(p)
	}
	if avail == 0 {
		if s.fail >= 0 {
			return 0, errSource
		}
		return 0, s.err
	}
	n := avail
	eager := false
	if s.reads <= s.plan {
		k := 3
		if s.idle > 0 {
			k = 4
		}
		switch sym.Choose(fmt.Sprintf("read%d", s.reads), k) {
		case 0: // all there is
		case 1:
			n = 1
		case 2:
			if n > 2 {
				n = (n + 1) / 2
			} else {
				eager = true // the error comes with the last data
			}
		case 3:
			s.idle--
			return 0, nil
		}
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if eager && s.pos == end {
		if s.fail >= 0 {
			return n, errSource
		}
		return n, s.err
	}
	return n, nil
}

func newSource(data []byte) *source {
	s := &source{data: data, fail: -1, err: io.EOF, plan: 5, idle: 1}
	if sym.Tier() > 0 {
		s.plan, s.idle = 8, 2
	}
	sym.Bound("the first 5 (thorough: 8) reads return 1 byte, half, all, or once (twice) nothing; the last data may come with the error")
	return s
}

// stream: v is read back from a stream, and exactly its bytes are consumed.
func stream[T any](cdc *amino.Codec, reg *registry, v T) {
	bare := reg.encode(v)
	frame := append(putUvarint(nil, uint64(len(bare))), bare...)
	rest := []byte{3, 8, 1}
	var u, w T
	switch sym.Choose("what", 5) {
	case 0: // with more to follow
		s := newSource(append(append([]byte(nil), frame...), rest...))
		n, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, 0)
		sym.Assert(err == nil, fmt.Sprintf("%T: cannot read what was written", v))
		sym.Assert(n == int64(len(frame)), "not the number of bytes consumed")
		sym.Assert(s.pos == len(frame), "more or less than the value was consumed")
		err = cdc.UnmarshalBinaryLengthPrefixed(frame, &w)
		sym.Assert(err == nil && sym.Same(u, w), fmt.Sprintf("%T: reading gives another value than decoding", v))
	case 1: // two values one after another, at the end of the stream
		s := newSource(append(append([]byte(nil), frame...), frame...))
		n1, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, 1<<20)
		sym.Assert(err == nil, fmt.Sprintf("%T: cannot read the first value", v))
		n2, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &w, 1<<20)
		sym.Assert(err == nil, fmt.Sprintf("%T: cannot read the second value", v))
		sym.Assert(n1 == n2 && s.pos == len(s.data), "not the number of bytes consumed")
		sym.Assert(sym.Same(u, w), "two equal values are read differently")
		n3, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &w, 0)
		sym.Assert(err == io.EOF && n3 == 0, "the end of the stream isn't reported as io.EOF")
	case 2: // cut short
		k := sym.Choose("cut", len(frame))
		s := newSource(frame[:k])
		n, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, 0)
		sym.Assert(err != nil, fmt.Sprintf("%T: a truncated stream is accepted", v))
		sym.Assert(n == int64(s.pos), "not the number of bytes consumed before the end")
		sym.Assert((err == io.EOF) == (s.pos == 0) || s.pos == lenLen(frame), "io.EOF within a value")
	case 3: // an error
		k := sym.Choose("error at", len(frame))
		s := newSource(append(append([]byte(nil), frame...), rest...))
		s.fail = k
		n, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, 0)
		sym.Assert(err == errSource, "the reader's error was lost")
		sym.Assert(n == int64(s.pos), "not the number of bytes consumed before the error")
	case 4: // the limit
		max := sym.I64("max")
		sym.Assume(max >= 0)
		s := newSource(append(append([]byte(nil), frame...), rest...))
		n, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, max)
		if max == 0 || max >= int64(len(frame)) {
			sym.Assert(err == nil && n == int64(len(frame)), "a value within the limit is refused")
			sym.Cover("within the limit")
		} else {
			sym.Assert(err != nil, "a value beyond the limit is accepted")
			sym.Assert(int64(s.pos) <= max, "more than the limit was read")
			sym.Assert(n == int64(s.pos), "not the number of bytes consumed")
			sym.Cover("beyond the limit")
		}
	}
	sym.Cover("read")
}

// lenLen is the length of the length.
func lenLen(b []byte) int {
	n := 1
	for b[n-1] >= 0x80 {
		n++
	}
	return n
}

func C13_dog()    { stream(zcdc, zreg, Dog{sym.String("s", sym.Choose("n", 2)), int64(sym.U8("a"))}) }
func C13_empty()  { stream(cdc, noreg, Empty{}) }
func C13_int()    { stream(cdc, noreg, sym.U16("i")) }
func C13_text()   { stream(cdc, noreg, "ab") }
func C13_list()   { stream(cdc, noreg, []Leaf{{A: int64(sym.U8("a"))}}) }
func C13_nested() { stream(cdc, noreg, Nest{A: Leaf{1, "x"}, D: sym.I32("d")}) }

// a value with a prefix of two bytes
func C13_long() {
	b := make([]byte, 126)
	b[3] = sym.U8("x")
	v := string(b)
	bare := noreg.encode(v)
	frame := append(putUvarint(nil, uint64(len(bare))), bare...)
	s := newSource(append(frame, 7))
	var u string
	n, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, 0)
	sym.Assert(err == nil && n == int64(len(frame)) && s.pos == len(frame), "a value with a long prefix")
	sym.Assert(u == v, "another value")
	sym.Cover("long")
}

// varintOf is the number that b begins with (0 if there is none), computed without branches.
func varintOf(b []byte) uint64 {
	var l uint64
	more := true
	for i := 0; i < len(b) && i < 10; i++ {
		l |= sym.IteU64(more, uint64(b[i]&0x7f)<<(7*uint(i)), 0)
		more = sym.And(more, b[i] >= 0x80)
	}
	return l
}

// fewLengths leaves out lengths that differ only in how much is missing (quick runs).
func fewLengths(l uint64) {
	if sym.Tier() == 0 {
		sym.Bound("length prefixes up to 8, or 4096 and more")
		sym.Assume(sym.Or(l <= 8, l >= 4096))
	}
}

// any bytes at all: reading agrees with decoding the slice
func anyStream[T any](cdc *amino.Codec, max int) {
	if sym.Tier() > 0 {
		max++
	}
	sym.Bound(fmt.Sprintf("all streams up to %d bytes", max))
	bz := sym.Bytes("bz", sym.Choose("len", max+1))
	fewLengths(varintOf(bz))
	s := &source{data: bz, fail: -1, err: io.EOF}
	var u, w T
	n, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, 0)
	sym.Assert(n == int64(s.pos), "not the number of bytes consumed")
	if err == nil {
		err = cdc.UnmarshalBinaryLengthPrefixed(bz[:n], &w)
		sym.Assert(err == nil, "a value is read that decoding refuses")
		sym.Assert(sym.Same(u, w), "reading gives another value than decoding")
		sym.Cover("accepted")
		return
	}
	for i := 1; i <= len(bz); i++ {
		sym.Assert(cdc.UnmarshalBinaryLengthPrefixed(bz[:i], &w) != nil, "a value is refused that decoding accepts")
	}
	sym.Cover("refused")
}

func C13_any_ints()  { anyStream[Ints](cdc, 4) }
func C13_any_text()  { anyStream[Text](cdc, 4) }
func C13_any_int()   { anyStream[int32](cdc, 5) }
func C13_any_empty() { anyStream[Empty](cdc, 4) }
func C13_any_cage()  { anyStream[Cage](zcdc, 4) }

// any length prefix: nothing is read or allocated that the limit does not allow
func C13_prefix() {
	sym.Bound("all varints up to 11 bytes as the prefix, all limits")
	pre, l, ok := anyVarint()
	fewLengths(l)
	max := sym.I64("max")
	sym.Assume(max >= 0)
	s := &source{data: append(append([]byte(nil), pre...), 1, 2, 3, 4), fail: -1, err: io.EOF}
	var u Leaf
	sym.AllocLimit(1 << 16)
	n, err := cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, max)
	sym.AllocLimit(0)
	sym.Assert(n == int64(s.pos), "not the number of bytes consumed")
	if max > 0 {
		sym.Assert(int64(s.pos) <= max, "more than the limit was read")
	}
	if !ok {
		sym.Assert(err != nil, "a prefix beyond 64 bits is accepted")
		sym.Cover("bad prefix")
		return
	}
	if l != 0 {
		sym.Assert(err != nil, "an invalid value is accepted")
		return
	}
	if max == 0 || int64(len(pre)) <= max {
		sym.Assert(err == nil && n == int64(len(pre)), "an empty value is refused")
		sym.Cover("empty")
	} else {
		sym.Assert(err != nil, "a prefix beyond the limit is accepted")
		sym.Cover("beyond the limit")
	}
}

func C13_negative_limit() {
	sym.Bound("all negative limits")
	max := sym.I64("max")
	sym.Assume(max < 0)
	s := &source{data: []byte{1, 2}, fail: -1, err: io.EOF}
	var u Leaf
	sym.Assert(sym.Try(func() { cdc.UnmarshalBinaryLengthPrefixedReader(s, &u, max) }), "a negative limit is accepted")
	sym.Assert(s.pos == 0, "something was read")
	sym.Assert(reflect.DeepEqual(u, Leaf{}), "something was decoded")
	sym.Cover("refused")
}
