package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]func(fr *Frame, a []V) V{}

func reg(name string, f func(fr *Frame, a []V) V) { intrinsics[name] = f }

func rvOf(v V) *RV {
	r, _ := v.r.(*RV)
	return r
}

func (x *Exec) needRV(v V, m string) *RV {
	r, _ := v.r.(*RV)
	if r == nil {
		x.strPanic("reflect: call of reflect.Value." + m + " on zero Value")
	}
	return r
}

func (x *Exec) rvGet(r *RV) V {
	if r.c != nil {
		return x.load(r.c)
	}
	return r.v
}

func (x *Exec) rvAgg(r *RV) *Agg {
	if r.c != nil {
		return r.c.r.(*Agg)
	}
	return r.v.r.(*Agg)
}

func mkRV(t *TInfo, v V) V { return V{r: &RV{t: t, v: v}} }

func (x *Exec) kindPanic(m string, r *RV) {
	x.strPanic("reflect: call of reflect.Value." + m + " on " + kindNames[r.t.kind] + " Value")
}

func (x *Exec) mustSet(r *RV, m string) {
	if r.ro {
		x.strPanic("reflect: reflect.Value." + m + " using value obtained using unexported field")
	}
	if r.c == nil {
		x.strPanic("reflect: reflect.Value." + m + " using unaddressable value")
	}
}

func (x *Exec) valueOf(v V) V {
	i, _ := v.r.(*Iface)
	if i == nil {
		return V{}
	}
	return mkRV(i.t, i.v)
}

func (x *Exec) rvIface(r *RV) V {
	if r.ro {
		x.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	v := x.rvGet(r)
	if r.t.kind == KInterface {
		return v
	}
	return V{r: &Iface{t: r.t, v: v}}
}

func (p *Prog) assignable(from, to *TInfo) bool {
	if from == to {
		return true
	}
	if to.kind == KInterface {
		return p.implements(from, to)
	}
	implMu.Lock()
	defer implMu.Unlock()
	return types.AssignableTo(from.t, to.t)
}

// assignTo converts the content of r for storage in type t.
func (x *Exec) assignTo(r *RV, t *TInfo, ctx string) V {
	if r.ro {
		x.strPanic(ctx + ": using value obtained using unexported field")
	}
	if !x.P.assignable(r.t, t) {
		x.strPanic(ctx + ": value of type " + typeString(r.t.t) + " is not assignable to type " + typeString(t.t))
	}
	v := x.rvGet(r)
	if t.kind == KInterface && r.t.kind != KInterface {
		return V{r: &Iface{t: r.t, v: v}}
	}
	return v
}

func (x *Exec) rvElem(v V) V {
	r := x.needRV(v, "Elem")
	switch r.t.kind {
	case KInterface:
		i, _ := x.rvGet(r).r.(*Iface)
		if i == nil {
			return V{}
		}
		return V{r: &RV{t: i.t, v: i.v, ro: r.ro}}
	case KPtr:
		pv := x.rvGet(r)
		switch c := pv.r.(type) {
		case nil:
			return V{}
		case *Cell:
			return V{r: &RV{t: r.t.elem, c: c, ro: r.ro}}
		case *SymPtr:
			return V{r: &RV{t: r.t.elem, c: x.resolve(c), ro: r.ro}}
		}
		return x.unsupported("reflect Elem of %T", pv.r)
	}
	x.kindPanic("Elem", r)
	return V{}
}

func (x *Exec) rvIndex(v V, i int) V {
	r := x.needRV(v, "Index")
	switch r.t.kind {
	case KArray:
		ag := x.rvAgg(r)
		if i < 0 || i >= len(ag.cells) {
			x.strPanic("reflect: array index out of range")
		}
		if r.c != nil {
			return V{r: &RV{t: r.t.elem, c: &ag.cells[i], ro: r.ro}}
		}
		return V{r: &RV{t: r.t.elem, v: V{ag.cells[i].u, ag.cells[i].r}, ro: r.ro}}
	case KSlice:
		s, _ := x.rvGet(r).r.(*Slice)
		if s == nil || i < 0 || i >= s.len {
			x.strPanic("reflect: slice index out of range")
		}
		return V{r: &RV{t: r.t.elem, c: s.at(i), ro: r.ro}}
	case KString:
		sv := x.force(x.rvGet(r))
		if i < 0 || i >= strLen(sv) {
			x.strPanic("reflect: string index out of range")
		}
		return V{r: &RV{t: x.P.byType[KUint8], v: strAt(sv, i), ro: r.ro}}
	}
	x.kindPanic("Index", r)
	return V{}
}

func (x *Exec) rvLen(v V) int {
	r := x.needRV(v, "Len")
	switch r.t.kind {
	case KArray:
		return r.t.alen
	case KSlice:
		s, _ := x.rvGet(r).r.(*Slice)
		if s == nil {
			return 0
		}
		return s.len
	case KString:
		return strLen(x.force(x.rvGet(r)))
	case KMap:
		m, _ := x.rvGet(r).r.(*MapObj)
		if m == nil {
			return 0
		}
		x.mapRace(m, false)
		return m.live()
	case KPtr:
		if r.t.elem.kind == KArray {
			return r.t.elem.alen
		}
	}
	x.kindPanic("Len", r)
	return 0
}

func (x *Exec) rvField(v V, i int) V {
	r := x.needRV(v, "Field")
	if r.t.kind != KStruct || r.t.special {
		x.kindPanic("Field", r)
	}
	if i < 0 || i >= len(r.t.fields) {
		x.strPanic("reflect: Field index out of range")
	}
	ag := x.rvAgg(r)
	f := r.t.under.(*types.Struct).Field(i)
	ro := r.ro || !f.Exported()
	if r.c != nil {
		return V{r: &RV{t: r.t.fields[i], c: &ag.cells[i], ro: ro}}
	}
	return V{r: &RV{t: r.t.fields[i], v: V{ag.cells[i].u, ag.cells[i].r}, ro: ro}}
}

func (x *Exec) rvIsNil(r *RV) bool {
	switch r.t.kind {
	case KPtr, KSlice, KMap, KInterface, KFunc, KChan, KUnsafePointer:
		return x.rvGet(r).r == nil
	}
	x.kindPanic("IsNil", r)
	return false
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (x *Exec) methodByName(r *RV, name string) V {
	for _, sel := range x.P.methods(r.t) {
		if sel.Obj().Name() == name && sel.Obj().Exported() {
			return x.methodVal(r, sel)
		}
	}
	return V{}
}

func (x *Exec) methodVal(r *RV, sel *types.Selection) V {
	sig := sel.Obj().Type().(*types.Signature)
	ft := x.P.ti(sigNoRecv(sig))
	recv := x.rvGet(r)
	rt := r.t
	name := sel.Obj().Name()
	pkg := sel.Obj().Pkg()
	ro := r.ro
	f := &Func{sig: sigNoRecv(sig)}
	f.nat = func(fr *Frame, args []V) V {
		x := fr.x
		rv := recv
		ty := rt
		if rt.kind == KInterface {
			i, _ := rv.r.(*Iface)
			if i == nil {
				x.rtPanic("invalid memory address or nil pointer dereference")
			}
			if no, ok := i.v.r.(nativeObj); ok {
				return no.invoke(fr, name, args)
			}
			rv, ty = i.v, i.t
		}
		m := x.P.method(ty, pkg, name)
		if m == nil {
			return x.unsupported("reflect method %s", name)
		}
		return x.call(fr, m, append([]V{rv}, args...), nil)
	}
	return V{r: &RV{t: ft, v: V{r: f}, ro: ro}}
}

func (x *Exec) rvCall(fr *Frame, r *RV, args []V) V {
	if r.t.kind != KFunc {
		x.kindPanic("Call", r)
	}
	if r.ro {
		x.strPanic("reflect: reflect.Value.Call using value obtained using unexported field")
	}
	f, _ := x.rvGet(r).r.(*Func)
	if f == nil {
		x.strPanic("reflect: call of nil function")
	}
	sig := r.t.under.(*types.Signature)
	if sig.Variadic() {
		return x.unsupported("reflect call of variadic function")
	}
	n := sig.Params().Len()
	if len(args) < n {
		x.strPanic("reflect: Call with too few input arguments")
	}
	if len(args) > n {
		x.strPanic("reflect: Call with too many input arguments")
	}
	in := make([]V, n)
	for i := range in {
		a := rvOf(args[i])
		if a == nil {
			x.strPanic("reflect: Call using zero Value argument")
		}
		in[i] = x.assignTo(a, x.P.ti(sig.Params().At(i).Type()), "reflect.Value.Call")
	}
	res := x.callFn(fr, V{r: f}, in)
	nr := sig.Results().Len()
	var out []V
	switch nr {
	case 0:
	case 1:
		out = append(out, mkRV(x.P.ti(sig.Results().At(0).Type()), res))
	default:
		for i, v := range res.r.(Tuple) {
			out = append(out, mkRV(x.P.ti(sig.Results().At(i).Type()), v))
		}
	}
	return x.mkBytes(out)
}

func (x *Exec) rtypeArg(v V) *TInfo {
	i, _ := v.r.(*Iface)
	if i == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	return i.v.r.(*RType).t
}

func (x *Exec) isZero(t *TInfo, v V) *Term {
	switch t.kind {
	case KStruct:
		if t.special {
			return x.tt.boolc(v.r == nil)
		}
		r := x.tt.True
		ag := v.r.(*Agg)
		for i, f := range t.fields {
			r = x.tt.and(r, x.isZero(f, V{ag.cells[i].u, ag.cells[i].r}))
		}
		return r
	case KArray:
		r := x.tt.True
		ag := v.r.(*Agg)
		for i := range ag.cells {
			r = x.tt.and(r, x.isZero(t.elem, V{ag.cells[i].u, ag.cells[i].r}))
		}
		return r
	case KString:
		return x.tt.boolc(strLen(x.force(v)) == 0)
	}
	if t.scalar {
		return x.tt.eq(x.T(v, t.w), x.tt.konst(t.w, 0))
	}
	return x.tt.boolc(v.r == nil)
}

// deepEq mirrors reflect.DeepEqual without forking.
// mode 0: reflect.DeepEqual; mode 1: nil and empty slices/maps are the same, floats compare by bits.
func (x *Exec) deepEq(t *TInfo, a, b V, mode int, seen map[[2]any]bool) *Term {
	tt := x.tt
	switch t.kind {
	case KPtr:
		if a.r == nil || b.r == nil {
			return tt.boolc(a.r == b.r)
		}
		if a.r == b.r {
			return tt.True
		}
		if ra, ok := a.r.(*RType); ok {
			rb, _ := b.r.(*RType)
			return tt.boolc(rb != nil && ra.t == rb.t)
		}
		k := [2]any{a.r, b.r}
		if seen[k] {
			return tt.True
		}
		seen[k] = true
		return x.deepEq(t.elem, x.loadPtr(a), x.loadPtr(b), mode, seen)
	case KInterface:
		ia, _ := a.r.(*Iface)
		ib, _ := b.r.(*Iface)
		if ia == nil || ib == nil {
			return tt.boolc(ia == nil && ib == nil)
		}
		if ia.t != ib.t {
			return tt.False
		}
		return x.deepEq(ia.t, ia.v, ib.v, mode, seen)
	case KStruct:
		if t.special {
			return tt.boolc(a.r == b.r)
		}
		r := tt.True
		aa, ba := a.r.(*Agg), b.r.(*Agg)
		for i, f := range t.fields {
			r = tt.and(r, x.deepEq(f, V{aa.cells[i].u, aa.cells[i].r}, V{ba.cells[i].u, ba.cells[i].r}, mode, seen))
			if r == tt.False {
				return r
			}
		}
		return r
	case KArray:
		r := tt.True
		aa, ba := a.r.(*Agg), b.r.(*Agg)
		for i := range aa.cells {
			r = tt.and(r, x.deepEq(t.elem, V{aa.cells[i].u, aa.cells[i].r}, V{ba.cells[i].u, ba.cells[i].r}, mode, seen))
			if r == tt.False {
				return r
			}
		}
		return r
	case KSlice:
		sa, _ := a.r.(*Slice)
		sb, _ := b.r.(*Slice)
		if mode == 0 && (sa == nil) != (sb == nil) {
			return tt.False
		}
		la, lb := 0, 0
		if sa != nil {
			la = sa.len
		}
		if sb != nil {
			lb = sb.len
		}
		if la != lb {
			return tt.False
		}
		r := tt.True
		for i := 0; i < la; i++ {
			r = tt.and(r, x.deepEq(t.elem, x.load(sa.at(i)), x.load(sb.at(i)), mode, seen))
			if r == tt.False {
				return r
			}
		}
		return r
	case KMap:
		ma, _ := a.r.(*MapObj)
		mb, _ := b.r.(*MapObj)
		if mode == 0 && (ma == nil) != (mb == nil) {
			return tt.False
		}
		la, lb := 0, 0
		if ma != nil {
			la = ma.live()
		}
		if mb != nil {
			lb = mb.live()
		}
		if la != lb {
			return tt.False
		}
		if la == 0 {
			return tt.True
		}
		r := tt.True
		for i := range ma.ents {
			e := &ma.ents[i]
			if e.dead {
				continue
			}
			v, ok := x.mapGet(b, t, e.k)
			if !ok {
				return tt.False
			}
			r = tt.and(r, x.deepEq(t.elem, e.v, v, mode, seen))
		}
		return r
	case KFunc:
		return tt.boolc(a.r == nil && b.r == nil)
	}
	if t.isFloat && mode == 1 {
		return tt.eq(x.T(a, t.w), x.T(b, t.w))
	}
	return x.eqV(t, a, b)
}

func (x *Exec) deepEqIface(a, b V, mode int) *Term {
	return x.deepEq(x.P.tAny(), a, b, mode, map[[2]any]bool{})
}

func (p *Prog) tAny() *TInfo { return p.ti(types.Universe.Lookup("any").Type()) }

func (x *Exec) structOf(pkg, name string, vals map[string]V) V {
	t := x.P.ti(x.P.pkgs[pkg].Type(name).Type())
	v := x.zero(t)
	st := t.under.(*types.Struct)
	ag := v.r.(*Agg)
	for i := 0; i < st.NumFields(); i++ {
		if fv, ok := vals[st.Field(i).Name()]; ok {
			ag.cells[i].u, ag.cells[i].r = fv.u, fv.r
		}
	}
	return v
}

func (x *Exec) structField(t *TInfo, i int) V {
	st := t.under.(*types.Struct)
	f := st.Field(i)
	pp := ""
	if !f.Exported() {
		pp = f.Pkg().Path()
	}
	return x.structOf("reflect", "StructField", map[string]V{
		"Name": cstr(f.Name()), "PkgPath": cstr(pp), "Type": x.P.rtypeV(t.fields[i]), "Tag": cstr(st.Tag(i)),
		"Index": x.mkBytes([]V{iv(i)}), "Anonymous": bv(f.Anonymous()),
	})
}

func (x *Exec) rmethod(t *TInfo, idx int) V {
	sel := x.P.methods(t)[idx]
	sig := sel.Obj().Type().(*types.Signature)
	var ft *types.Signature
	var fn V
	if t.kind == KInterface {
		ft = sigNoRecv(sig)
	} else {
		ps := []*types.Var{types.NewParam(0, nil, "", t.t)}
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, sig.Params().At(i))
		}
		ft = types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
		if m := x.P.method(t, sel.Obj().Pkg(), sel.Obj().Name()); m != nil {
			fn = V{r: &Func{f: m, sig: ft}}
		}
	}
	fti := x.P.ti(ft)
	return x.structOf("reflect", "Method", map[string]V{"Name": cstr(sel.Obj().Name()), "Type": x.P.rtypeV(fti), "Func": mkRV(fti, fn), "Index": iv(idx)})
}

func (x *Exec) typePkgPath(t *TInfo) string {
	if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// reflect.Type methods
func (r *RType) invoke(fr *Frame, m string, a []V) V {
	x := fr.x
	t := r.t
	p := x.P
	switch m {
	case "Kind":
		return V{u: uint64(t.kind)}
	case "Elem":
		if t.elem == nil {
			x.strPanic("reflect: Elem of invalid type " + typeString(t.t))
		}
		return p.rtypeV(t.elem)
	case "Key":
		if t.kind != KMap {
			x.strPanic("reflect: Key of non-map type " + typeString(t.t))
		}
		return p.rtypeV(t.key)
	case "Len":
		if t.kind != KArray {
			x.strPanic("reflect: Len of non-array type " + typeString(t.t))
		}
		return iv(t.alen)
	case "String":
		return cstr(typeString(t.t))
	case "Name":
		switch n := t.t.(type) {
		case *types.Named:
			return cstr(n.Obj().Name())
		case *types.Basic:
			return cstr(n.Name())
		}
		return V{}
	case "PkgPath":
		return cstr(x.typePkgPath(t))
	case "Size":
		return iv(x.esize(t))
	case "Bits":
		return iv(x.esize(t) * 8)
	case "NumField":
		if t.kind != KStruct {
			x.strPanic("reflect: NumField of non-struct type " + typeString(t.t))
		}
		return iv(len(t.fields))
	case "Field":
		if t.kind != KStruct {
			x.strPanic("reflect: Field of non-struct type " + typeString(t.t))
		}
		i := x.concInt(a[0])
		if i < 0 || i >= len(t.fields) {
			x.strPanic("reflect: Field index out of bounds")
		}
		return x.structField(t, i)
	case "FieldByName":
		n, _ := concStr(a[0])
		if t.kind == KStruct {
			st := t.under.(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return V{r: Tuple{x.structField(t, i), bv(true)}}
				}
			}
		}
		return V{r: Tuple{x.structOf("reflect", "StructField", nil), bv(false)}}
	case "NumMethod":
		return iv(len(p.methods(t)))
	case "Method":
		i := x.concInt(a[0])
		if i < 0 || i >= len(p.methods(t)) {
			x.strPanic("reflect: Method index out of range")
		}
		return x.rmethod(t, i)
	case "MethodByName":
		n, ok := concStr(a[0])
		if !ok {
			return x.unsupported("MethodByName symbolic")
		}
		for i, sel := range p.methods(t) {
			if sel.Obj().Name() == n {
				return V{r: Tuple{x.rmethod(t, i), bv(true)}}
			}
		}
		return V{r: Tuple{x.structOf("reflect", "Method", nil), bv(false)}}
	case "Implements":
		u := x.rtypeArg(a[0])
		if u.kind != KInterface {
			x.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return bv(p.implements(t, u))
	case "AssignableTo":
		return bv(p.assignable(t, x.rtypeArg(a[0])))
	case "ConvertibleTo":
		u := x.rtypeArg(a[0])
		implMu.Lock()
		defer implMu.Unlock()
		return bv(types.ConvertibleTo(t.t, u.t))
	case "Comparable":
		return bv(types.Comparable(t.t))
	case "NumIn":
		return iv(t.under.(*types.Signature).Params().Len())
	case "NumOut":
		return iv(t.under.(*types.Signature).Results().Len())
	case "In":
		return p.rtypeV(p.ti(t.under.(*types.Signature).Params().At(x.concInt(a[0])).Type()))
	case "Out":
		return p.rtypeV(p.ti(t.under.(*types.Signature).Results().At(x.concInt(a[0])).Type()))
	case "IsVariadic":
		return bv(t.under.(*types.Signature).Variadic())
	case "common", "uncommon":
	}
	return x.unsupported("reflect.Type.%s", m)
}

type mapRangeObj struct {
	m    *RV
	keys []V
	pos  int
}

func (x *Exec) copyR(d, s *RV) int {
	var n int
	get := func(r *RV) []V {
		switch r.t.kind {
		case KSlice:
			return x.sliceVals(x.rvGet(r))
		case KString:
			return strVals(x.force(x.rvGet(r)))
		case KArray:
			ag := x.rvAgg(r)
			o := make([]V, len(ag.cells))
			for i := range o {
				o[i] = x.load(&ag.cells[i])
			}
			return o
		}
		x.kindPanic("Copy", r)
		return nil
	}
	src := get(s)
	switch d.t.kind {
	case KArray:
		x.mustSet(d, "Copy")
		ag := x.rvAgg(d)
		n = len(ag.cells)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			x.store(&ag.cells[i], src[i])
		}
	case KSlice:
		n = x.copySlice(x.rvGet(d), src)
	default:
		x.kindPanic("Copy", d)
	}
	if d.t.elem != s.t.elem && !(s.t.kind == KString) {
		if d.t.elem == nil || s.t.elem == nil || !types.Identical(d.t.elem.t, s.t.elem.t) {
			x.strPanic("reflect.Copy: type mismatch")
		}
	}
	return n
}

func init() {
	x := func(fr *Frame) *Exec { return fr.x }
	V0 := V{}
	_ = V0
	reg("reflect.TypeOf", func(fr *Frame, a []V) V {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return V{}
		}
		return fr.x.P.rtypeV(i.t)
	})
	reg("reflect.ValueOf", func(fr *Frame, a []V) V { return fr.x.valueOf(a[0]) })
	reg("reflect.New", func(fr *Frame, a []V) V {
		t := fr.x.rtypeArg(a[0])
		return mkRV(fr.x.P.ptrTo(t), V{r: fr.x.newCell(t)})
	})
	reg("reflect.Zero", func(fr *Frame, a []V) V {
		t := fr.x.rtypeArg(a[0])
		return mkRV(t, fr.x.zero(t))
	})
	ptrTo := func(fr *Frame, a []V) V { return fr.x.P.rtypeV(fr.x.P.ptrTo(fr.x.rtypeArg(a[0]))) }
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.SliceOf", func(fr *Frame, a []V) V { return fr.x.P.rtypeV(fr.x.P.sliceOf(fr.x.rtypeArg(a[0]))) })
	reg("reflect.MapOf", func(fr *Frame, a []V) V {
		return fr.x.P.rtypeV(fr.x.P.ti(types.NewMap(fr.x.rtypeArg(a[0]).t, fr.x.rtypeArg(a[1]).t)))
	})
	reg("reflect.ArrayOf", func(fr *Frame, a []V) V {
		return fr.x.P.rtypeV(fr.x.P.ti(types.NewArray(fr.x.rtypeArg(a[1]).t, int64(fr.x.concInt(a[0])))))
	})
	reg("reflect.MakeSlice", func(fr *Frame, a []V) V {
		t := fr.x.rtypeArg(a[0])
		if t.kind != KSlice {
			fr.x.strPanic("reflect.MakeSlice of non-slice type")
		}
		return mkRV(t, fr.x.makeSlice(t, a[1], fr.x.P.tInt, a[2], fr.x.P.tInt))
	})
	reg("reflect.MakeMap", func(fr *Frame, a []V) V { return mkRV(fr.x.rtypeArg(a[0]), V{r: fr.x.newMap()}) })
	reg("reflect.MakeMapWithSize", func(fr *Frame, a []V) V { return mkRV(fr.x.rtypeArg(a[0]), V{r: fr.x.newMap()}) })
	reg("reflect.Indirect", func(fr *Frame, a []V) V {
		r := rvOf(a[0])
		if r == nil || r.t.kind != KPtr {
			return a[0]
		}
		return fr.x.rvElem(a[0])
	})
	reg("reflect.DeepEqual", func(fr *Frame, a []V) V { return mkV(fr.x.deepEqIface(a[0], a[1], 0)) })
	reg("reflect.Append", func(fr *Frame, a []V) V {
		x := fr.x
		s := x.needRV(a[0], "Append")
		if s.t.kind != KSlice {
			x.kindPanic("Append", s)
		}
		var add []V
		for _, e := range x.sliceVals(a[1]) {
			er := x.needRV(e, "Append")
			add = append(add, x.assignTo(er, s.t.elem, "reflect.Set"))
		}
		return mkRV(s.t, x.appendVals(s.t.elem, x.rvGet(s), add))
	})
	reg("reflect.AppendSlice", func(fr *Frame, a []V) V {
		x := fr.x
		s, t := x.needRV(a[0], "AppendSlice"), x.needRV(a[1], "AppendSlice")
		return mkRV(s.t, x.appendVals(s.t.elem, x.rvGet(s), x.sliceVals(x.rvGet(t))))
	})
	reg("reflect.Copy", func(fr *Frame, a []V) V {
		return iv(fr.x.copyR(fr.x.needRV(a[0], "Copy"), fr.x.needRV(a[1], "Copy")))
	})
	reg("(reflect.Kind).String", func(fr *Frame, a []V) V {
		k := fr.x.conc(a[0], 64)
		if k < uint64(len(kindNames)) {
			return cstr(kindNames[k])
		}
		return cstr(fmt.Sprintf("kind%d", k))
	})
	reg("(reflect.StructTag).Get", func(fr *Frame, a []V) V {
		s, _ := concStr(a[0])
		k, _ := concStr(a[1])
		return cstr(reflect.StructTag(s).Get(k))
	})
	reg("(reflect.StructTag).Lookup", func(fr *Frame, a []V) V {
		s, _ := concStr(a[0])
		k, _ := concStr(a[1])
		v, ok := reflect.StructTag(s).Lookup(k)
		return V{r: Tuple{cstr(v), bv(ok)}}
	})
	reg("(reflect.StructField).IsExported", func(fr *Frame, a []V) V {
		ag := a[0].r.(*Agg)
		return bv(strLen(V{ag.cells[1].u, ag.cells[1].r}) == 0)
	})

	m := func(name string, f func(fr *Frame, a []V) V) { reg("(reflect.Value)."+name, f) }
	m("Kind", func(fr *Frame, a []V) V {
		r := rvOf(a[0])
		if r == nil {
			return V{}
		}
		return V{u: uint64(r.t.kind)}
	})
	m("IsValid", func(fr *Frame, a []V) V { return bv(rvOf(a[0]) != nil) })
	m("Type", func(fr *Frame, a []V) V { return fr.x.P.rtypeV(fr.x.needRV(a[0], "Type").t) })
	m("Elem", func(fr *Frame, a []V) V { return fr.x.rvElem(a[0]) })
	m("IsNil", func(fr *Frame, a []V) V { return bv(fr.x.rvIsNil(fr.x.needRV(a[0], "IsNil"))) })
	m("CanAddr", func(fr *Frame, a []V) V { r := rvOf(a[0]); return bv(r != nil && r.c != nil) })
	m("CanSet", func(fr *Frame, a []V) V { r := rvOf(a[0]); return bv(r != nil && r.c != nil && !r.ro) })
	m("CanInterface", func(fr *Frame, a []V) V { return bv(!fr.x.needRV(a[0], "CanInterface").ro) })
	m("Addr", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "Addr")
		if r.c == nil {
			fr.x.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return V{r: &RV{t: fr.x.P.ptrTo(r.t), v: V{r: r.c}, ro: r.ro}}
	})
	m("Interface", func(fr *Frame, a []V) V { return fr.x.rvIface(fr.x.needRV(a[0], "Interface")) })
	m("Set", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Set")
		x.mustSet(r, "Set")
		s := x.needRV(a[1], "Set")
		x.store(r.c, x.assignTo(s, r.t, "reflect.Set"))
		return V{}
	})
	m("SetZero", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "SetZero")
		x.mustSet(r, "SetZero")
		x.store(r.c, x.zero(r.t))
		return V{}
	})
	setter := func(name string, kinds ...Kind) {
		m(name, func(fr *Frame, a []V) V {
			x := fr.x
			r := x.needRV(a[0], name)
			x.mustSet(r, name)
			for _, k := range kinds {
				if r.t.kind == k {
					v := a[1]
					if r.t.isInt() && r.t.w < 64 {
						if v.r == nil {
							v.u &= mask(r.t.w)
						} else {
							v = mkV(x.tt.extract(x.T(v, 64), 0, r.t.w))
						}
					}
					if r.t.kind == KFloat32 {
						v = x.P.convert(x.P.byType[KFloat64], r.t)(fr, v)
					}
					x.store(r.c, v)
					return V{}
				}
			}
			x.kindPanic(name, r)
			return V{}
		})
	}
	setter("SetInt", KInt, KInt8, KInt16, KInt32, KInt64)
	setter("SetUint", KUint, KUint8, KUint16, KUint32, KUint64, KUintptr)
	setter("SetBool", KBool)
	setter("SetString", KString)
	setter("SetFloat", KFloat32, KFloat64)
	m("SetBytes", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "SetBytes")
		x.mustSet(r, "SetBytes")
		if r.t.kind != KSlice || r.t.elem.kind != KUint8 {
			x.kindPanic("SetBytes", r)
		}
		x.store(r.c, a[1])
		return V{}
	})
	m("SetLen", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "SetLen")
		x.mustSet(r, "SetLen")
		n := x.concInt(a[1])
		s, _ := x.rvGet(r).r.(*Slice)
		if s == nil && n == 0 {
			return V{}
		}
		if s == nil || n < 0 || n > s.cap {
			x.strPanic("reflect: slice length out of range in SetLen")
		}
		x.store(r.c, V{r: &Slice{a: s.a, off: s.off, len: n, cap: s.cap}})
		return V{}
	})
	m("Int", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Int")
		if !r.t.isInt() || !r.t.signed {
			x.kindPanic("Int", r)
		}
		return x.P.convert(r.t, x.P.byType[KInt64])(fr, x.rvGet(r))
	})
	m("Uint", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Uint")
		if !r.t.isInt() || r.t.signed {
			x.kindPanic("Uint", r)
		}
		return x.P.convert(r.t, x.P.byType[KUint64])(fr, x.rvGet(r))
	})
	m("Float", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Float")
		if !r.t.isFloat {
			x.kindPanic("Float", r)
		}
		return x.P.convert(r.t, x.P.byType[KFloat64])(fr, x.rvGet(r))
	})
	m("Bool", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Bool")
		if r.t.kind != KBool {
			x.kindPanic("Bool", r)
		}
		return x.rvGet(r)
	})
	m("String", func(fr *Frame, a []V) V {
		x := fr.x
		r := rvOf(a[0])
		if r == nil {
			return cstr("<invalid Value>")
		}
		if r.t.kind != KString {
			return cstr("<" + typeString(r.t.t) + " Value>")
		}
		return x.rvGet(r)
	})
	m("Bytes", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Bytes")
		if r.t.kind == KSlice && r.t.elem.kind == KUint8 {
			return x.rvGet(r)
		}
		if r.t.kind == KArray && r.t.elem.kind == KUint8 {
			if r.c == nil {
				x.strPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			ag := x.rvAgg(r)
			return V{r: &Slice{a: ag, len: len(ag.cells), cap: len(ag.cells)}}
		}
		x.kindPanic("Bytes", r)
		return V{}
	})
	m("Len", func(fr *Frame, a []V) V { return iv(fr.x.rvLen(a[0])) })
	m("Cap", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "Cap")
		if r.t.kind == KSlice {
			if s, _ := fr.x.rvGet(r).r.(*Slice); s != nil {
				return iv(s.cap)
			}
			return V{}
		}
		return iv(fr.x.rvLen(a[0]))
	})
	m("Index", func(fr *Frame, a []V) V { return fr.x.rvIndex(a[0], fr.x.concInt(a[1])) })
	m("Field", func(fr *Frame, a []V) V { return fr.x.rvField(a[0], fr.x.concInt(a[1])) })
	m("FieldByName", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "FieldByName")
		n, _ := concStr(a[1])
		st := r.t.under.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return x.rvField(a[0], i)
			}
		}
		return V{}
	})
	m("NumField", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "NumField")
		if r.t.kind != KStruct {
			fr.x.kindPanic("NumField", r)
		}
		return iv(len(r.t.fields))
	})
	m("NumMethod", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "NumMethod")
		return iv(len(fr.x.P.methods(r.t)))
	})
	m("Method", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "Method")
		return fr.x.methodVal(r, fr.x.P.methods(r.t)[fr.x.concInt(a[1])])
	})
	m("MethodByName", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "MethodByName")
		n, ok := concStr(a[1])
		if !ok {
			return fr.x.unsupported("MethodByName symbolic")
		}
		return fr.x.methodByName(r, n)
	})
	m("Call", func(fr *Frame, a []V) V {
		return fr.x.rvCall(fr, fr.x.needRV(a[0], "Call"), fr.x.sliceVals(a[1]))
	})
	m("Slice", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Slice")
		lo, hi := x.idx64(a[1], x.P.tInt), x.idx64(a[2], x.P.tInt)
		conv := func() (int, int) { return int(x.concretise(lo)), int(x.concretise(hi)) }
		switch r.t.kind {
		case KArray:
			if r.c == nil {
				x.strPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			l, h := conv()
			ag := x.rvAgg(r)
			if l < 0 || h < l || h > len(ag.cells) {
				x.strPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(x.P.sliceOf(r.t.elem), V{r: &Slice{a: ag, off: l, len: h - l, cap: len(ag.cells) - l}})
		case KSlice:
			l, h := conv()
			s, _ := x.rvGet(r).r.(*Slice)
			cp := 0
			if s != nil {
				cp = s.cap
			}
			if l < 0 || h < l || h > cp {
				x.strPanic("reflect.Value.Slice: slice index out of bounds")
			}
			if s == nil {
				return mkRV(r.t, V{})
			}
			return mkRV(r.t, V{r: &Slice{a: s.a, off: s.off + l, len: h - l, cap: s.cap - l}})
		case KString:
			l, h := conv()
			if l < 0 || h < l || h > strLen(x.force(x.rvGet(r))) {
				x.strPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return mkRV(r.t, strSub(x.force(x.rvGet(r)), l, h))
		}
		x.kindPanic("Slice", r)
		return V{}
	})
	m("IsZero", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "IsZero")
		return mkV(fr.x.isZero(r.t, fr.x.rvGet(r)))
	})
	m("Comparable", func(fr *Frame, a []V) V {
		r := rvOf(a[0])
		return bv(r == nil || types.Comparable(r.t.t))
	})
	m("Equal", func(fr *Frame, a []V) V {
		x := fr.x
		r, s := rvOf(a[0]), rvOf(a[1])
		if r == nil || s == nil {
			return bv(r == nil && s == nil)
		}
		if r.t != s.t {
			return bv(false)
		}
		return mkV(x.eqV(r.t, x.rvGet(r), x.rvGet(s)))
	})
	m("Convert", func(fr *Frame, a []V) V {
		x := fr.x
		r := x.needRV(a[0], "Convert")
		t := x.rtypeArg(a[1])
		if t.kind == KInterface {
			return mkRV(t, x.assignTo(r, t, "reflect.Value.Convert"))
		}
		implMu.Lock()
		ok := types.ConvertibleTo(r.t.t, t.t)
		implMu.Unlock()
		if !ok {
			x.strPanic("reflect.Value.Convert: value of type " + typeString(r.t.t) + " cannot be converted to type " + typeString(t.t))
		}
		return V{r: &RV{t: t, v: x.P.convert(r.t, t)(fr, x.rvGet(r)), ro: r.ro}}
	})
	mapOf := func(fr *Frame, v V, n string) (*RV, *MapObj) {
		r := fr.x.needRV(v, n)
		if r.t.kind != KMap {
			fr.x.kindPanic(n, r)
		}
		mo, _ := fr.x.rvGet(r).r.(*MapObj)
		return r, mo
	}
	keysOf := func(fr *Frame, mo *MapObj) []V {
		var ks []V
		if mo != nil {
			fr.x.mapRace(mo, false)
			for i := range mo.ents {
				if !mo.ents[i].dead {
					ks = append(ks, mo.ents[i].k)
				}
			}
		}
		fr.x.permute(ks)
		return ks
	}
	m("MapKeys", func(fr *Frame, a []V) V {
		r, mo := mapOf(fr, a[0], "MapKeys")
		ks := keysOf(fr, mo)
		for i := range ks {
			ks[i] = mkRV(r.t.key, ks[i])
		}
		if ks == nil {
			ks = []V{}
		}
		return fr.x.mkBytes(ks)
	})
	m("MapIndex", func(fr *Frame, a []V) V {
		r, _ := mapOf(fr, a[0], "MapIndex")
		k := fr.x.assignTo(fr.x.needRV(a[1], "MapIndex"), r.t.key, "reflect.Value.MapIndex")
		v, ok := fr.x.mapGet(fr.x.rvGet(r), r.t, k)
		if !ok {
			return V{}
		}
		return V{r: &RV{t: r.t.elem, v: v, ro: r.ro}}
	})
	m("SetMapIndex", func(fr *Frame, a []V) V {
		x := fr.x
		r, _ := mapOf(fr, a[0], "SetMapIndex")
		if r.ro {
			x.strPanic("reflect: SetMapIndex using value obtained using unexported field")
		}
		k := x.assignTo(x.needRV(a[1], "SetMapIndex"), r.t.key, "reflect.Value.SetMapIndex")
		e := rvOf(a[2])
		if e == nil {
			x.mapDelete(x.rvGet(r), r.t, k)
			return V{}
		}
		x.mapSet(x.rvGet(r), r.t, k, x.assignTo(e, r.t.elem, "reflect.Value.SetMapIndex"))
		return V{}
	})
	m("MapRange", func(fr *Frame, a []V) V {
		r, mo := mapOf(fr, a[0], "MapRange")
		return V{r: &mapRangeObj{m: r, keys: keysOf(fr, mo), pos: -1}}
	})
	reg("(*reflect.MapIter).Next", func(fr *Frame, a []V) V {
		o := a[0].r.(*mapRangeObj)
		o.pos++
		return bv(o.pos < len(o.keys))
	})
	reg("(*reflect.MapIter).Key", func(fr *Frame, a []V) V {
		o := a[0].r.(*mapRangeObj)
		return mkRV(o.m.t.key, o.keys[o.pos])
	})
	reg("(*reflect.MapIter).Value", func(fr *Frame, a []V) V {
		o := a[0].r.(*mapRangeObj)
		v, _ := fr.x.mapGet(fr.x.rvGet(o.m), o.m.t, o.keys[o.pos])
		return mkRV(o.m.t.elem, v)
	})
	over := func(name string, signed bool) {
		m(name, func(fr *Frame, a []V) V {
			x := fr.x
			r := x.needRV(a[0], name)
			if !r.t.isInt() || r.t.signed != signed {
				x.kindPanic(name, r)
			}
			t := x.T(a[1], 64)
			lo := x.tt.extract(t, 0, r.t.w)
			if signed {
				lo = x.tt.sext(lo, 64)
			} else {
				lo = x.tt.zext(lo, 64)
			}
			return mkV(x.tt.not(x.tt.eq(lo, t)))
		})
	}
	over("OverflowInt", true)
	over("OverflowUint", false)
	m("OverflowFloat", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "OverflowFloat")
		if a[1].r != nil {
			return fr.x.unsupported("OverflowFloat of a symbolic float")
		}
		f := math.Abs(cf(fr.x.P.byType[KFloat64], a[1]))
		return bv(r.t.kind == KFloat32 && math.MaxFloat32 < f && f <= math.MaxFloat64)
	})
	m("Pointer", func(fr *Frame, a []V) V {
		r := fr.x.needRV(a[0], "Pointer")
		v := fr.x.rvGet(r)
		if v.r == nil {
			return V{}
		}
		return fr.x.unsupported("reflect.Value.Pointer")
	})
	m("Grow", func(fr *Frame, a []V) V { return fr.x.unsupported("reflect.Value.Grow") })
	_ = x
	var _ *ssa.Function
}
