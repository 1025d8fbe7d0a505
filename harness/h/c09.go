package h

import (
	"fmt"
	"reflect"
	"time"

	"aminoharness/sym"

	amino "github.com/tendermint/go-amino"
)

// agree: decoding bz into a fresh T gives what the specification says, or an error if it says nothing valid.
func agree[T any](cdc *amino.Codec, reg *registry, bz []byte) {
	in := append([]byte(nil), bz...)
	var u, w T
	err := cdc.UnmarshalBinaryBare(bz, &u)
	d := reg.decode(in, reflect.ValueOf(&w).Elem())
	sym.Observe("err", err)
	if d.unspec {
		return
	}
	if d.bad {
		sym.Assert(err != nil, fmt.Sprintf("%T: accepted an invalid encoding: %s", u, d.why))
		sym.Cover("rejected")
		return
	}
	sym.Assert(err == nil, fmt.Sprintf("%T: rejected a valid encoding", u))
	sym.Assert(sym.Same(w, u), fmt.Sprintf("%T: decoded another value", u))
	sym.Cover("accepted")
}

// anyBytes: a string of up to max arbitrary bytes.
func anyBytes(max int) []byte {
	sym.Bound(fmt.Sprintf("all byte strings up to %d bytes", max))
	return sym.Bytes("bz", sym.Choose("len", max+1))
}

// mutant: a valid encoding changed in one place.
func mutant(bz []byte) []byte {
	w := 1 + sym.Tier()
	sym.Bound(fmt.Sprintf("encodings with up to %d adjacent bytes replaced, inserted, removed or appended, and all truncations", w))
	n := len(bz)
	k := sym.Choose("mut", 5)
	switch k {
	case 0: // replace
		m := 1 + sym.Choose("mut.n", w)
		sym.Assume(n >= m)
		p := sym.Choose("mut.at", n-m+1)
		return append(append(append([]byte(nil), bz[:p]...), sym.Bytes("mut.bytes", m)...), bz[p+m:]...)
	case 1: // insert
		m := 1 + sym.Choose("mut.n", w)
		p := sym.Choose("mut.at", n+1)
		return append(append(append([]byte(nil), bz[:p]...), sym.Bytes("mut.bytes", m)...), bz[p:]...)
	case 2: // remove
		m := 1 + sym.Choose("mut.n", w)
		sym.Assume(n >= m)
		p := sym.Choose("mut.at", n-m+1)
		return append(append([]byte(nil), bz[:p]...), bz[p+m:]...)
	case 3: // truncate
		sym.Assume(n > 0)
		return append([]byte(nil), bz[:sym.Choose("mut.at", n)]...)
	}
	return append(append([]byte(nil), bz...), sym.Bytes("mut.bytes", 1+sym.Choose("mut.n", 3))...)
}

// grafted: a valid encoding with another field put anywhere into one of the values in it, all lengths around it being right.
func grafted[T any](reg *registry, n int) []byte {
	sym.Bound("valid encodings with a field of any number up to 15 and any wire type added anywhere in any value in it")
	key := []byte{sym.U8("graft.key") & 0x7f}
	return graftedWith[T](reg, n, append(key, [][]byte{{1}, {1, 2, 3, 4, 5, 6, 7, 8}, {0}, {1, 'x'}, {1, 2, 3, 4}}[sym.Choose("graft.contents", 5)]...))
}

// graftedBig: with any 64-bit key.
func graftedBig[T any](reg *registry, n int) []byte {
	sym.Bound("valid encodings with a field with any 64-bit key added anywhere in any value in it")
	key := putUvarint(nil, sym.U64("graft.key"))
	return graftedWith[T](reg, n, append(key, [][]byte{{1}, {1, 2, 3, 4, 5, 6, 7, 8}, {1, 'x'}, {1, 2, 3, 4}}[sym.Choose("graft.contents", 4)]...))
}

// graftedWith: with extra, which is a field.
func graftedWith[T any](reg *registry, n int, extra []byte) []byte {
	return graftedFrom[T](newGen(), reg, n, extra)
}

func graftedFrom[T any](g *generator, reg *registry, n int, extra []byte) []byte {
	g.smallN = n
	g.nsec = 7
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gSmall)
	i, total := 0, 0
	count := *reg
	count.hook = func(p []byte) []byte { total++; return p }
	count.encode(v)
	at := sym.Choose("graft.value", total+1) // the last is the whole, if that isn't one of the values
	put := func(p []byte) []byte {
		o := sym.Choose("graft.at", len(p)+1)
		return append(append(append([]byte(nil), p[:o]...), extra...), p[o:]...)
	}
	graft := *reg
	graft.hook = func(p []byte) []byte {
		if i++; i-1 == at {
			return put(p)
		}
		return p
	}
	bz := graft.encode(v)
	if at == total {
		bz = put(bz)
	}
	return bz
}

func agreeGraft[T any](cdc *amino.Codec, reg *registry, n int) {
	agree[T](cdc, reg, grafted[T](reg, n))
}

func agreeBig[T any](cdc *amino.Codec, reg *registry) {
	agree[T](cdc, reg, graftedBig[T](reg, 1))
}

// smallValue has small non-default symbolic values everywhere.
func smallValue[T any]() T {
	g := newGen()
	g.nsec = 7
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gSmall)
	return v
}

func agreeAny[T any](cdc *amino.Codec, reg *registry, max int) {
	if sym.Tier() > 0 {
		max++
	}
	agree[T](cdc, reg, anyBytes(max))
}

func agreeMut[T any](cdc *amino.Codec, reg *registry) {
	agree[T](cdc, reg, mutant(reg.encode(smallValue[T]())))
}

func C09_any_ints()     { agreeAny[Ints](cdc, noreg, 4) }
func C09_any_uints()    { agreeAny[Uints](cdc, noreg, 4) }
func C09_any_fixed()    { agreeAny[Fixed](cdc, noreg, 4) }
func C09_any_text()     { agreeAny[Text](cdc, noreg, 4) }
func C09_any_nest()     { agreeAny[Nest](cdc, noreg, 5) }
func C09_any_times()    { agreeAny[Times](cdc, noreg, 5) }
func C09_any_packed()   { agreeAny[PackedLists](cdc, noreg, 4) }
func C09_any_texts()    { agreeAny[TextLists](cdc, noreg, 4) }
func C09_any_structs()  { agreeAny[StructLists](cdc, noreg, 4) }
func C09_any_embedded() { agreeAny[Embedded](cdc, noreg, 4) }

func C09_mut_ints()     { agreeMut[Ints](cdc, noreg) }
func C09_mut_uints()    { agreeMut[Uints](cdc, noreg) }
func C09_mut_fixed()    { agreeMut[Fixed](cdc, noreg) }
func C09_mut_floats()   { agreeMut[Floats](cdc, noreg) }
func C09_mut_text()     { agreeMut[Text](cdc, noreg) }
func C09_mut_ptrs()     { agreeMut[Ptrs](cdc, noreg) }
func C09_mut_nest()     { agreeMut[Nest](cdc, noreg) }
func C09_mut_deep()     { agreeMut[Deep](cdc, noreg) }
func C09_mut_named()    { agreeMut[Named](cdc, noreg) }
func C09_mut_octets()   { agreeMut[Octets](cdc, noreg) }
func C09_mut_embedded() { agreeMut[Embedded](cdc, noreg) }
func C09_mut_wempty()   { agreeMut[WriteEmpty](cdc, noreg) }
func C09_mut_wide()     { agreeMut[Wide](cdc, noreg) }
func C09_mut_node()     { agreeMut[Node](cdc, noreg) }
func C09_mut_packed()   { agreeMut[PackedLists](cdc, noreg) }
func C09_mut_fixeds()   { agreeMut[FixedLists](cdc, noreg) }
func C09_mut_texts()    { agreeMut[TextLists](cdc, noreg) }
func C09_mut_structs()  { agreeMut[StructLists](cdc, noreg) }
func C09_mut_rich()     { agreeMut[RichLists](cdc, noreg) }
func C09_mut_tagged()   { agreeMut[Tagged](cdc, noreg) }
func C09_mut_arrays()   { agreeMut[Arrays](cdc, noreg) }
func C09_mut_dtimes()   { agreeMut[DeepTimes](cdc, noreg) }
func C09_mut_herd()     { agreeMut[Herd](dcdc, dreg) }

// agreeMut2: with lists of two elements.
func agreeMut2[T any](cdc *amino.Codec, reg *registry) {
	g := newGen()
	g.smallN = 2
	var v T
	g.fill(reflect.ValueOf(&v).Elem(), "v", gSmall)
	agree[T](cdc, reg, mutant(reg.encode(v)))
}

func C09_mut2_packed() {
	agreeMut2[struct {
		A []int8
		B []uint32 `binary:"fixed32"`
		C []bool
		D []*int64
	}](cdc, noreg)
}
func C09_mut2_texts() {
	agreeMut2[struct {
		A []string
		B [][]byte
		C [][2]byte
	}](cdc, noreg)
}
func C09_mut2_structs() {
	agreeMut2[struct {
		A []Leaf
		B []*Leaf
		C []*Leaf `amino:"empty_elements"`
	}](cdc, noreg)
}
func C09_mut2_rich() {
	agreeMut2[struct {
		A []struct {
			P *int8
			L []string
		}
		B int8
	}](cdc, noreg)
}
func C09_mut2_times() {
	agreeMut2[struct {
		A []time.Time
		B []*time.Time
	}](cdc, noreg)
}
func C09_mut2_animals() {
	agreeMut2[struct {
		A []Animal
		B int8
	}](zcdc, zreg)
}

// a field with any key
func C09_keys() {
	sym.Bound("a field with any key of up to 64 bits, after an earlier field or not, with contents of each wire type, before a later field or not")
	bz := []byte{}
	if sym.Choose("pre", 2) == 1 {
		bz = []byte{1 << 3, 5}
	}
	bz = append(putUvarint(bz, sym.U64("key")), [][]byte{{5}, {1, 2, 3, 4, 5, 6, 7, 8}, {2, 8, 1}, {1, 2, 3, 4}, {0}, {1, 'x'}}[sym.Choose("value", 6)]...)
	if sym.Choose("post", 2) == 1 {
		bz = append(bz, 0xf8, 0xff, 0xff, 0xff, 0x0f, 1) // the largest field number
	}
	switch sym.Choose("type", 10) {
	case 0:
		agree[Ints](cdc, noreg, bz)
	case 1:
		agree[Fixed](cdc, noreg, bz)
	case 2:
		agree[Text](cdc, noreg, bz)
	case 3:
		agree[Nest](cdc, noreg, bz)
	case 4:
		agree[Wide](cdc, noreg, bz)
	case 5:
		agree[TextLists](cdc, noreg, bz)
	case 6:
		agree[Node](cdc, noreg, bz)
	case 7:
		agree[Times](cdc, noreg, bz)
	case 8:
		agree[Empty](cdc, noreg, bz)
	case 9:
		agree[struct{ A []Leaf }](cdc, noreg, bz)
	}
}
func C09_mut_ptrlists()  { agreeMut[PtrLists](cdc, noreg) }
func C09_mut_alists()    { agreeMut[ArrayLists](cdc, noreg) }
func C09_mut_timelists() { agreeMut[TimeLists](cdc, noreg) }
func C09_mut_nameds()    { agreeMut[NamedLists](cdc, noreg) }
func C09_mut_lists()     { agreeMut[ListsInLists](cdc, noreg) }
func C09_mut_times()     { agreeMut[Times](cdc, noreg) }
func C09_mut_zoo()       { agreeMut[Zoo](zcdc, zreg) }
func C09_mut_dzoo()      { agreeMut[Zoo](dcdc, dreg) }
func C09_mut_cage()      { agreeMut[Cage](zcdc, zreg) }

// top-level values that are not structs
func C09_top() {
	max := 4
	switch sym.Choose("type", 20) {
	case 0:
		agree[int8](cdc, noreg, anyBytes(max))
	case 1:
		agree[int32](cdc, noreg, anyBytes(max+3))
	case 2:
		agree[int64](cdc, noreg, anyBytes(max+8))
	case 3:
		agree[uint16](cdc, noreg, anyBytes(max))
	case 4:
		agree[uint32](cdc, noreg, anyBytes(max+3))
	case 5:
		agree[uint](cdc, noreg, anyBytes(max+8))
	case 6:
		agree[bool](cdc, noreg, anyBytes(max))
	case 7:
		agree[string](cdc, noreg, anyBytes(max))
	case 8:
		agree[[]byte](cdc, noreg, anyBytes(max))
	case 9:
		agree[[3]byte](cdc, noreg, anyBytes(max+2))
	case 10:
		agree[[]int16](cdc, noreg, anyBytes(max+1))
	case 11:
		agree[[]string](cdc, noreg, anyBytes(max+2))
	case 12:
		agree[[]Leaf](cdc, noreg, anyBytes(max))
	case 13:
		agree[[2]bool](cdc, noreg, anyBytes(max+1))
	case 14:
		agree[[]*Leaf](cdc, noreg, anyBytes(max+1))
	case 15:
		agree[[][]byte](cdc, noreg, anyBytes(max+2))
	case 16:
		agree[uint8](cdc, noreg, anyBytes(max))
	case 17:
		agree[int16](cdc, noreg, anyBytes(max+1))
	case 18:
		agree[*int](cdc, noreg, anyBytes(max))
	case 19:
		agree[*Leaf](cdc, noreg, anyBytes(max))
	}
}

func ifaceMut(a Animal, cdc *amino.Codec, reg *registry) {
	agree[Animal](cdc, reg, mutant(reg.encode(a)))
}

// an interface as the destination
func C09_top_iface() {
	var a Animal
	switch sym.Choose("impl", 9) {
	case 0:
		a = Dog{"ab", 5}
	case 1:
		a = &Cat{9}
	case 2:
		a = Fish(300)
	case 3:
		a = Tag("xy")
	case 4:
		a = Blob{1, 2, 3, 4}
	case 5:
		a = Data{7, 8}
	case 6:
		a = Nums{1, -300}
	case 7:
		a = Words{"a", ""}
	case 8:
		a = Pack{{1, "q"}, {}}
	}
	ifaceMut(a, zcdc, zreg)
}

func C09_graft_ints()    { agreeGraft[Ints](cdc, noreg, 1) }
func C09_graft_text()    { agreeGraft[Text](cdc, noreg, 1) }
func C09_graft_ptrs()    { agreeGraft[Ptrs](cdc, noreg, 1) }
func C09_graft_nest()    { agreeGraft[Nest](cdc, noreg, 1) }
func C09_graft_deep()    { agreeGraft[Deep](cdc, noreg, 1) }
func C09_graft_wempty()  { agreeGraft[WriteEmpty](cdc, noreg, 1) }
func C09_graft_packed()  { agreeGraft[PackedLists](cdc, noreg, 1) }
func C09_graft_texts()   { agreeGraft[TextLists](cdc, noreg, 1) }
func C09_graft_structs() { agreeGraft[StructLists](cdc, noreg, 1) }
func C09_graft_plists()  { agreeGraft[PtrLists](cdc, noreg, 1) }
func C09_graft_alists()  { agreeGraft[ArrayLists](cdc, noreg, 1) }
func C09_graft_tlists()  { agreeGraft[TimeLists](cdc, noreg, 1) }
func C09_graft_dtimes()  { agreeGraft[DeepTimes](cdc, noreg, 1) }
func C09_graft_arrays()  { agreeGraft[Arrays](cdc, noreg, 1) }
func C09_graft_rich()    { agreeGraft[Rich](cdc, noreg, 1) }
func C09_graft_zoo()     { agreeGraft[Zoo](zcdc, zreg, 1) }
func C09_graft_herd()    { agreeGraft[Herd](dcdc, dreg, 1) }

// fields with large numbers where they don't belong
func C09_big_nest()    { agreeBig[Nest](cdc, noreg) }
func C09_big_ints()    { agreeBig[Ints](cdc, noreg) }
func C09_big_text()    { agreeBig[Text](cdc, noreg) }
func C09_big_texts()   { agreeBig[TextLists](cdc, noreg) }
func C09_big_structs() { agreeBig[StructLists](cdc, noreg) }
func C09_big_packed()  { agreeBig[PackedLists](cdc, noreg) }

// graftedKinds: into interface values of every type, with and without disambiguation bytes.
func graftedKinds() (*amino.Codec, *registry, []byte) {
	sym.Bound("encodings of interface values of every kind with a field of any number up to 15 added anywhere in any value in it")
	c, r := zcdc, zreg
	if sym.Choose("codec", 2) == 1 {
		c, r = dcdc, dreg
	}
	g := newGen()
	g.kinds = true
	extra := append([]byte{sym.U8("graft.key") & 0x7f}, [][]byte{{1}, {1, 'x'}}[sym.Choose("graft.contents", 2)]...)
	return c, r, graftedFrom[Cage](g, r, 1, extra)
}

func C09_graft_kinds() {
	c, r, bz := graftedKinds()
	agree[Cage](c, r, bz)
}

func mutKinds() (*amino.Codec, *registry, []byte) {
	c, r := zcdc, zreg
	if sym.Choose("codec", 2) == 1 {
		c, r = dcdc, dreg
	}
	g := newGen()
	g.kinds = true
	g.nsec = 7
	var v Cage
	g.fill(reflect.ValueOf(&v).Elem(), "v", gSmall)
	return c, r, mutant(r.encode(v))
}

func C09_mut_kinds() {
	c, r, bz := mutKinds()
	agree[Cage](c, r, bz)
}
