package h

import (
	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// symName is a name of which nothing is known; its SHA-256 digest is an uninterpreted function.
func symName(n string) string { return "sym:" + sym.String(n, 2) }

// digest of name, which has at most zeros leading zero bytes in either of the two relevant places
func digest(name string, zeros int) (h []byte, i, j int) {
	h = sym.HashBytes(name)
	for i < zeros && h[i] == 0 {
		i++
	}
	sym.Assume(h[i] != 0)
	j = i + 3
	for j < i+3+zeros && h[j] == 0 {
		j++
	}
	sym.Assume(h[j] != 0)
	return
}

func zeros() int {
	if sym.Tier() > 0 {
		sym.Bound("digests with up to 12 zero bytes in either place")
		return 12
	}
	sym.Bound("digests with up to 4 zero bytes in either place")
	return 4
}

func C15_disfix() {
	sym.Bound("all digests")
	name := symName("name")
	h, i, j := digest(name, zeros())
	db, pb := amino.NameToDisfix(name)
	sym.Assert(sym.EqBytes(db.Bytes(), h[i:i+3]), "the disambiguation bytes aren't the first three of the hash from its first non-zero byte")
	sym.Assert(sym.EqBytes(pb.Bytes(), h[j:j+4]), "the prefix bytes aren't the next four from the next non-zero byte")
	sym.Assert(pb.Bytes()[0] != 0 && db.Bytes()[0] != 0, "leading zero byte")
	db2, pb2 := amino.NameToDisfix(name)
	sym.Assert(db == db2 && pb == pb2, "the bytes differ from call to call")
	sym.Cover("derived")
	if i > 0 && j > i+3 {
		sym.Cover("zeros in both places")
	}
}

// a type registered under the name is encoded with these bytes
func C15_encoding() {
	name := symName("name")
	h, i, j := digest(name, 2)
	c := amino.NewCodec()
	always := sym.Choose("disamb", 2) == 1
	c.RegisterInterface((*Animal)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: always})
	c.RegisterConcrete(Dog{}, name, nil)
	bz, err := c.MarshalBinaryBare(Dog{Age: 5})
	sym.Assert(err == nil && sym.EqBytes(bz, append(append([]byte(nil), h[j:j+4]...), 16, 5)), "a registered type isn't encoded with the prefix bytes of its name")
	var d Dog
	sym.Assert(c.UnmarshalBinaryBare(bz, &d) == nil && d.Age == 5, "cannot decode a registered type")
	bz, err = c.MarshalBinaryBare(Cage{In: Dog{Age: 5}})
	sym.Assert(err == nil, "encode error")
	want := []byte{2<<3 | 2, 6}
	if always {
		want = append([]byte{2<<3 | 2, 10, 0}, h[i:i+3]...)
	}
	want = append(append(want, h[j:j+4]...), 16, 5)
	sym.Assert(sym.EqBytes(bz, want), "an interface value isn't encoded with the bytes of its name")
	var u Cage
	sym.Assert(c.UnmarshalBinaryBare(bz, &u) == nil && u.In == Dog{Age: 5}, "cannot decode an interface value")
	sym.Cover("encoded")
}

// two names: conflicts are found exactly when the bytes are the same
func C15_two() {
	n1, n2 := symName("n1"), symName("n2")
	sym.Assume(n1 != n2)
	z := 1
	h1, i1, j1 := digest(n1, z)
	h2, i2, j2 := digest(n2, z)
	samePb := sym.EqBytes(h1[j1:j1+4], h2[j2:j2+4])
	sameDb := sym.EqBytes(h1[i1:i1+3], h2[i2:i2+3])
	c := amino.NewCodec()
	prio := [][]string{nil, {n1, n2}, {n2, n1}, {n2}}[sym.Choose("priority", 4)]
	c.RegisterInterface((*Animal)(nil), &amino.InterfaceOptions{Priority: prio})
	c.RegisterConcrete(Dog{}, n1, nil)
	panicked := sym.Try(func() { c.RegisterConcrete(Fish(0), n2, nil) })
	if sym.And(samePb, sameDb) {
		sym.Assert(panicked, "two names with the same disambiguation and prefix bytes are accepted")
		sym.Cover("same bytes")
		return
	}
	if samePb && len(prio) < 2 {
		sym.Assert(panicked, "two implementers with the same prefix bytes and no priority are accepted")
		sym.Cover("no priority")
		return
	}
	sym.Assert(!panicked, "names with different bytes are refused")
	v := Cage{In: Dog{Age: 5}}
	if sym.Choose("which", 2) == 1 {
		v.In = Fish(7)
	}
	bz, err := c.MarshalBinaryBare(v)
	sym.Assert(err == nil, "encode error")
	want := 4 + 2
	if v.In != (Dog{Age: 5}) {
		want = 4 + 1
	}
	if samePb {
		want += 4
	}
	sym.Assert(len(bz) == 2+want, "disambiguation bytes are there exactly when the prefix bytes are shared")
	var u Cage
	sym.Assert(c.UnmarshalBinaryBare(bz, &u) == nil && sym.Same(u, v), "cannot decode what was encoded")
	if samePb {
		sym.Cover("same prefix")
	} else {
		sym.Cover("other prefix")
	}
}
