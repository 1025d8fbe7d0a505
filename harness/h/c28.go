package h

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// More kinds of concrete types, for the lengths.
type (
	K8    int8
	K16   int16
	K32   int32
	K64   int64
	KU16  uint16
	KBool bool
	KArr  [3]int16
	KArr0 [2][5]byte
	KMap  map[string]int64
	KInt  int
	KUint uint
	KU8   uint8
	KU32  uint32
	KU64  uint64
	KF32  float32
	KF64  float64
	KArrI [2]int
	KTime struct{ T time.Time }
)

var rowTypes = []struct {
	v      any
	name   string // the Go type's
	length string
}{
	{Dog{}, "Dog", "variable"},
	{&Cat{}, "Cat", "variable"},
	{Fish(0), "Fish", "0x8"},
	{Tag(""), "Tag", "variable"},
	{Blob{}, "Blob", "0x4"},
	{&KArr0{}, "KArr0", "0xA"},
	{K8(1), "K8", "0x1"},
	{K16(1), "K16", "0x2"},
	{K32(1), "K32", "0x4"},
	{K64(0), "K64", "0x8"},
	{KArr{}, "KArr", "0x6"},
	{Nums(nil), "Nums", "variable"},
	{KBool(true), "KBool", "variable"},
	{KU16(2), "KU16", "variable"},
	{Both{}, "Both", "variable"},
	{KMap{}, "KMap", "variable"},
	{KInt(3), "KInt", "variable"},
	{new(KInt), "KInt", "variable"},
	{KUint(3), "KUint", "variable"},
	{KU8(3), "KU8", "variable"},
	{KU32(3), "KU32", "variable"},
	{KU64(3), "KU64", "variable"},
	{KF32(1), "KF32", "0x4"},
	{KF64(1), "KF64", "0x8"},
	{KArrI{}, "KArrI", "0x10"},
	{KTime{}, "KTime", "variable"},
	{MyInt(0), "MyInt", "0x4"},
	{new(MyStr), "MyStr", "variable"},
	{Zoo{}, "Zoo", "variable"},
	{[]byte(nil), "", "variable"},
	{[2]uint16{}, "", "0x4"},
	{[3]byte{}, "", "0x3"},
	{struct{}{}, "", "variable"},
	{[]Leaf{}, "", "variable"},
	{"", "string", "variable"},
	{int8(0), "int8", "0x1"},
	{map[string]int{}, "", "variable"},
	{time.Time{}, "Time", "variable"},
}

func hexDigit(b byte) byte { return sym.IteU8(b < 10, '0'+b, 'A'+b-10) }

func tableRow(t []byte, typ, name string, pb []byte, length string) []byte {
	t = append(t, "| "+typ+" | "+name+" | 0x"...)
	for _, b := range pb {
		t = append(t, hexDigit(b>>4), hexDigit(b&15))
	}
	return append(t, " | "+length+" |  |\n"...)
}

func prefixOf(name string) []byte {
	_, pb := disfix(name)
	return pb
}

const tableHead = "| Type | Name | Prefix | Length | Notes |\n| ---- | ---- | ------ | ----- | ------ |\n"

// table makes a codec by a history of registrations and uses, and gives the table it should print.
func table(n int, same bool) (*amino.Codec, []byte) {
	c := amino.NewCodec()
	want := []byte(tableHead)
	done := map[int]bool{}
	ifaces := map[int]bool{}
	for i := 0; i < n; i++ {
		k := sym.Choose("op", 12)
		switch {
		case k < 4: // a type
			t := (k*5 + i*3 + 1) % 16
			if done[t] {
				sym.Assert(sym.Try(func() { c.RegisterConcrete(rowTypes[t].v, "again", nil) }), "a type is registered twice")
				continue
			}
			name := fmt.Sprintf("n/%d", i)
			if same {
				name = symName(fmt.Sprintf("n%d", i))
				h := sym.HashBytes(name)
				sym.Assume(sym.And(h[0] != 0, h[3] != 0))
			}
			_, pb := disfix(name)
			panicked := sym.Try(func() { c.RegisterConcrete(rowTypes[t].v, name, nil) })
			if panicked { // the same hash or a conflict
				sym.Assert(same && len(ifaces)+len(done) > 0, "cannot register "+rowTypes[t].name)
				return c, want
			}
			done[t] = true
			want = tableRow(want, rowTypes[t].name, name, pb, rowTypes[t].length)
		case k == 4 || k == 5: // an interface
			if ifaces[k] {
				continue
			}
			ifaces[k] = true
			panicked := sym.Try(func() {
				if k == 4 {
					c.RegisterInterface((*Animal)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true})
				} else {
					c.RegisterInterface((*Shape)(nil), nil)
				}
			})
			if panicked { // two types have the same prefix
				sym.Assert(same && len(done) > 1, "cannot register an interface")
				return c, want
			}
		case k == 6: // an unregistered type
			c.MarshalBinaryBare(Leaf{A: 1})
		case k == 7: // a use of a type that may be registered later
			if !done[1] {
				var v Cat
				c.UnmarshalBinaryBare([]byte{8, 1}, &v)
				done[1] = true
				// it is no longer possible to register it
			}
		case k == 8:
			if done[0] {
				c.MarshalBinaryBare(struct{ A []Dog }{A: []Dog{{Age: 1}}})
			}
		case k == 9: // printing is no change
			c.PrintTypes(&bytes.Buffer{})
		case k == 10:
			if done[4] {
				var v Blob
				c.UnmarshalBinaryBare([]byte{1}, &v)
			}
		case k == 11:
			if i == n-1 {
				c.Seal()
			} else if !same && len(done) > 0 { // a registration which fails
				sym.Try(func() { c.RegisterConcrete(Words(nil), "n/0", nil) })
				if bytes.Contains(want, []byte(" n/0 ")) {
					continue
				}
				return c, append(want, tableRow(nil, "Words", "n/0", prefixOf("n/0"), "variable")...)
			}
		}
	}
	return c, want
}

// C28_history: what is printed depends on what was registered, only.
func C28_history() {
	sym.Bound("all histories of 4 (thorough: 5) of 12 operations: registrations of 16 kinds of concrete types and 2 interfaces, uses, printing, sealing")
	c, want := table(4+sym.Tier(), false)
	check28(c, want)
}

// any names and hashes
func C28_names() {
	sym.Bound("all histories of 3 (thorough: 4) of 12 operations, all names of 6 bytes and all their hashes (without leading zeroes, see C15)")
	c, want := table(3+sym.Tier(), true)
	check28(c, want)
}

func check28(c *amino.Codec, want []byte) {
	var b bytes.Buffer
	err := c.PrintTypes(&b)
	sym.Assert(err == nil, "an error though the writer has none")
	sym.Assert(sym.EqBytes(b.Bytes(), want), "another table than one row for each registered concrete type")
	b.Reset()
	sym.Assert(c.PrintTypes(&b) == nil && sym.EqBytes(b.Bytes(), want), "printing again prints something else")
	sym.Cover("printed")
}

// each kind of type by itself
func C28_types() {
	c := amino.NewCodec()
	t := rowTypes[sym.Choose("type", len(rowTypes))]
	rt := reflect.TypeOf(t.v)
	v := t.v
	if rt.Kind() == reflect.Ptr && sym.Choose("value", 2) == 1 {
		v = reflect.Zero(rt.Elem()).Interface()
	}
	c.RegisterConcrete(v, "a name", nil)
	_, pb := disfix("a name")
	check28(c, tableRow([]byte(tableHead), t.name, "a name", pb, t.length))
}

// C28_errors: the writer's errors are returned, wherever they come.
func C28_errors() {
	sym.Bound("tables of 0 to 2 rows, an error at any byte")
	c := amino.NewCodec()
	want := []byte(tableHead)
	for i, n := 0, sym.Choose("rows", 3); i < n; i++ {
		n := fmt.Sprint("row", i)
		c.RegisterConcrete(rowTypes[4*i].v, n, nil)
		_, pb := disfix(n)
		want = tableRow(want, rowTypes[4*i].name, n, pb, rowTypes[4*i].length)
	}
	s := &sink{max: sym.Choose("max", len(want)+1), quiet: true}
	err := c.PrintTypes(s)
	if s.max < len(want) {
		sym.Assert(err == errSink, "the writer's error is lost")
		sym.Cover("error")
	} else {
		sym.Assert(err == nil, "an error though the writer has none")
	}
	sym.Assert(string(s.got) == string(want[:s.max]), "another text is written")
	// the codec can still be used
	sym.Assert(!sym.Try(func() { c.RegisterConcrete(Both{}, "later", nil) }), "the codec is unusable after printing")
}
