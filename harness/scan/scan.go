// Package scan holds the harnesses for aminoscan, which the overlay makes a package of its own.
package scan

import (
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
	aminoscan "github.com/tendermint/go-amino/verifscan"
)

// C29: aminoscan run on any bytes: the program's main function, from the arguments to what it prints.

// Table lists the harnesses by name.
var Table = map[string]func(){
	"C29_struct":   C29_struct,
	"C29_field":    C29_field,
	"C29_long":     C29_long,
	"C29_numbers":  C29_numbers,
	"C29_keys":     C29_keys,
	"C29_color":    C29_color,
	"C29_concrete": C29_concrete,
}

// aminoscanMain runs the program and returns its output.
func run(args ...string) (out string) {
	old := os.Args
	os.Args = append([]string{"aminoscan"}, args...)
	sym.Assert(!sym.Try(func() { out = sym.Capture(aminoscan.Main) }), "aminoscan panics")
	os.Args = old
	return out
}

// plain takes the colours out of a line.
func plain(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for i < len(s) && s[i] != 'm' {
				i++
			}
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

// parse: the bytes of the fields that can be read, and whether that is all.
func parse(b []byte) (n int, ok bool) {
	for n < len(b) {
		k, m := binary.Uvarint(b[n:])
		if m <= 0 {
			return n, false
		}
		n += m
		v := b[n:]
		m = 0
		switch k & 7 {
		case 0:
			if _, m = binary.Uvarint(v); m <= 0 {
				return n, false
			}
		case 1:
			m = 8
		case 2:
			l, k := binary.Uvarint(v)
			if k <= 0 || l > uint64(len(v)-k) {
				return n, false
			}
			m = k + int(l)
		case 5:
			m = 4
		default:
			return n, false
		}
		if m > len(v) {
			return n, false
		}
		n += m
	}
	return n, true
}

// scan runs the program on b and checks its last line.
func scan(b []byte) {
	sym.Steps(1_000_000)
	hex := sym.Hex(b)
	out := run(hex)
	sym.Steps(0)
	n, ok := parse(b)
	s := plain(sym.LastLine(out))
	sym.Assert(len(s) > len(hex) && sym.EqBytes([]byte(s[:len(hex)]), []byte(hex)), "the dump does not repeat the input")
	want := fmt.Sprintf(" %d ", n)
	s = s[len(hex):]
	sym.Assert(strings.HasPrefix(s, want), "another count of bytes than those of the fields parsed")
	s = s[len(want):]
	sym.Assert(ok == (s == "<nil>"), "an error is reported though everything was parsed, or none though not")
	if ok {
		sym.Cover("parsed")
	} else {
		sym.Cover("error")
	}
}

// C29_struct: short inputs, any bytes.
func C29_struct() {
	n := sym.Choose("len", 9+2*sym.Tier())
	scan(sym.Bytes("b", n))
}

// C29_field: one field of every kind, with a body of any length around what it needs.
func C29_field() {
	typ := byte(sym.Choose("typ", 8))
	num := byte(sym.Choose("num", 2))
	n := sym.Choose("len", 13)
	b := append([]byte{num<<3 | typ}, sym.Bytes("b", n)...)
	if typ == 0 {
		sym.Assume(n <= 6+sym.Tier())
	}
	if typ == 2 && n > 0 {
		sym.Assume(n <= 8+sym.Tier())
	}
	// a single field: nothing may follow it
	if typ == 1 && n >= 8 {
		sym.Assume(n <= 12)
	}
	if typ == 5 && n >= 4 {
		sym.Assume(n <= 9)
	}
	scan(b)
}

// C29_long: long variable length integers as keys, values and lengths.
func C29_long() {
	n := 8 + sym.Choose("len", 4)
	b := sym.Bytes("b", n)
	for i := 0; i < n-1; i++ {
		sym.Assume(b[i] >= 0x80)
	}
	switch sym.Choose("where", 3) {
	case 1:
		b = append([]byte{8}, b...)
	case 2:
		b = append([]byte{10}, b...)
	}
	scan(b)
}

// line checks that the dump of bytes b with one field has its key, with the number and the kind, and what follows.
func line(key []byte, typ amino.Typ3, body []byte, rest string) {
	k, n := binary.Uvarint(key)
	sym.Assume(n == len(key) && k&7 == uint64(typ))
	out := plain(run(sym.Hex(append(append([]byte(nil), key...), body...))))
	for _, w := range []string{
		fmt.Sprintf("%X @%d %v\n", key, k>>3, typ),
		fmt.Sprintf("%X%s\n", body, rest),
	} {
		sym.Assert(strings.Contains(out, w), "the dump lacks a field's number or value")
	}
	sym.Cover("numbers")
}

// varint is n bytes that are one variable length integer.
func varint(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume((b[i] >= 0x80) == (i < n-1))
	}
	return b
}

// C29_numbers: the dump shows each field on lines of its own, with its number and what its bytes are as integers.
func C29_numbers() {
	n := 1 + sym.Choose("len", 2)
	v := varint("v", n)
	i, _ := binary.Varint(v)
	u, _ := binary.Uvarint(v)
	line([]byte{sym.Range("key", 8, 127)}, amino.Typ3Varint, v, fmt.Sprintf(" (i64:%d u64:%d)", i, u))
}

// C29_keys: fields with long numbers.
func C29_keys() {
	key := varint("key", 1+sym.Choose("keylen", 3+sym.Tier()))
	switch sym.Choose("kind", 4) {
	case 0:
		line(key, amino.Typ3Varint, []byte{4}, " (i64:2 u64:4)")
	case 1:
		line(key, amino.Typ38Byte, []byte{1, 2, 3, 4, 5, 6, 7, 8}, "")
	case 2:
		line(key, amino.Typ3ByteLength, []byte{2, 7, 8}, " (2 bytes)")
	case 3:
		line(key, amino.Typ3_4Byte, []byte{1, 2, 3, 4}, "")
	}
}

// C29_color: bytes shown one by one.
func C29_color() {
	n := 1 + sym.Choose("len", 3)
	b := sym.Bytes("b", n)
	want := ""
	for _, c := range b {
		if c > 0x20 && c < 0x7f {
			want += string([]byte{c})
		} else {
			want += fmt.Sprintf("%02X", c)
		}
	}
	s := plain(sym.LastLine(run("--color", sym.Hex(b))))
	sym.Assert(s == want, "the bytes are shown otherwise")
	sym.Cover("color")
}

// C29_concrete: the bytes of a name.
func C29_concrete() {
	name := []string{"a", "com.tendermint/TestMessage", "x y"}[sym.Choose("name", 3)]
	db, pb := amino.NameToDisfix(name)
	out := run("--concrete-name", name)
	sym.Assert(strings.Contains(out, fmt.Sprintf("%X", db)) && strings.Contains(out, fmt.Sprintf("%X", pb)), "the bytes of a name are not shown")
	sym.Assert(strings.Contains(run(), "Usage"), "no usage without arguments")
	sym.Cover("concrete")
}
