package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type Prog struct {
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	sizes    types.Sizes
	harn     *ssa.Package
	repo     string
	harnPath string

	tmu   sync.Mutex
	tptr  sync.Map // types.Type -> *TInfo
	tmap  typeutil.Map
	nt    int
	tpend []tpend

	fmu    sync.Mutex
	funcs  sync.Map // *ssa.Function -> *CFunc
	gmu    sync.Mutex
	gidx   map[*ssa.Global]int
	gvars  []*ssa.Global
	byType [32]*TInfo

	tReflectValue *TInfo
	tRtypePtr     *TInfo
	tRuntimeErr   *TInfo
	tError        *TInfo
	tErrorString  *TInfo // *errors.errorString
	tString       *TInfo
	tInt          *TInfo
	tByteSlice    *TInfo

	wantInit sync.Map // *ssa.Package -> bool : packages whose init is run in base mode
}

func loadProg(dir string, env []string, pats []string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Fset: token.NewFileSet(), Overlay: overlay}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, fset: cfg.Fset, pkgs: map[string]*ssa.Package{}, gidx: map[*ssa.Global]int{}}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.harn = spkgs[0]
	p.tmap.SetHasher(typeutil.MakeHasher())
	for k := types.Bool; k <= types.String; k++ {
		ti := p.ti(types.Typ[k])
		if ti.kind < 32 && p.byType[ti.kind] == nil {
			p.byType[ti.kind] = ti
		}
	}
	p.tString = p.ti(types.Typ[types.String])
	p.tInt = p.ti(types.Typ[types.Int])
	p.tByteSlice = p.ti(types.NewSlice(types.Typ[types.Uint8]))
	p.tError = p.ti(types.Universe.Lookup("error").Type())
	if r := p.pkgs["reflect"]; r != nil {
		p.tReflectValue = p.ti(r.Type("Value").Type())
		p.tRtypePtr = p.ti(types.NewPointer(r.Type("rtype").Type()))
	}
	p.tRuntimeErr = p.ti(p.pkgs["runtime"].Type("errorString").Type())
	p.tErrorString = p.ti(types.NewPointer(p.pkgs["errors"].Type("errorString").Type()))
	return p, nil
}

func kindOfBasic(b *types.Basic) (Kind, uint8, bool, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return KBool, 0, false, true
	case types.Int, types.UntypedInt:
		return KInt, 64, true, true
	case types.Int8:
		return KInt8, 8, true, true
	case types.Int16:
		return KInt16, 16, true, true
	case types.Int32, types.UntypedRune:
		return KInt32, 32, true, true
	case types.Int64:
		return KInt64, 64, true, true
	case types.Uint:
		return KUint, 64, false, true
	case types.Uint8:
		return KUint8, 8, false, true
	case types.Uint16:
		return KUint16, 16, false, true
	case types.Uint32:
		return KUint32, 32, false, true
	case types.Uint64:
		return KUint64, 64, false, true
	case types.Uintptr:
		return KUintptr, 64, false, true
	case types.Float32:
		return KFloat32, 32, false, true
	case types.Float64, types.UntypedFloat:
		return KFloat64, 64, false, true
	case types.Complex64:
		return KComplex64, 0, false, false
	case types.Complex128, types.UntypedComplex:
		return KComplex128, 0, false, false
	case types.String, types.UntypedString:
		return KString, 0, false, false
	case types.UnsafePointer:
		return KUnsafePointer, 0, false, false
	}
	return KInvalid, 0, false, false
}

// ti returns the canonical type info.
func (p *Prog) ti(t types.Type) *TInfo {
	if v, ok := p.tptr.Load(t); ok {
		return v.(*TInfo)
	}
	p.tmu.Lock()
	defer p.tmu.Unlock()
	r := p.tiL(t)
	for _, q := range p.tpend {
		p.tptr.Store(q.t, q.ti)
	}
	p.tpend = p.tpend[:0]
	return r
}

type tpend struct {
	t  types.Type
	ti *TInfo
}

func (p *Prog) tiL(t types.Type) *TInfo {
	if v, ok := p.tptr.Load(t); ok {
		return v.(*TInfo)
	}
	t0 := t
	t = types.Unalias(t)
	if v := p.tmap.At(t); v != nil {
		ti := v.(*TInfo)
		p.tpend = append(p.tpend, tpend{t0, ti})
		return ti
	}
	ti := &TInfo{t: t, id: p.nt, under: t.Underlying(), meth: map[string]*CFunc{}, impl: map[*TInfo]bool{}}
	p.nt++
	p.tmap.Set(t, ti)
	p.tpend = append(p.tpend, tpend{t0, ti}, tpend{t, ti})
	switch u := ti.under.(type) {
	case *types.Basic:
		ti.kind, ti.w, ti.signed, ti.scalar = kindOfBasic(u)
		ti.isFloat = ti.kind == KFloat32 || ti.kind == KFloat64
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = p.tiL(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = p.tiL(u.Elem())
	case *types.Array:
		ti.kind = KArray
		ti.elem = p.tiL(u.Elem())
		ti.alen = int(u.Len())
	case *types.Map:
		ti.kind = KMap
		ti.key = p.tiL(u.Key())
		ti.elem = p.tiL(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = p.tiL(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KInterface
	case *types.Struct:
		ti.kind = KStruct
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
			ti.special = true
		}
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, p.tiL(u.Field(i).Type()))
		}
	case *types.Tuple:
		ti.kind = KInvalid
	}
	ti.rt = V{} // set lazily
	return ti
}

func (p *Prog) ptrTo(t *TInfo) *TInfo {
	t.methMu.Lock()
	r := t.ptr
	t.methMu.Unlock()
	if r == nil {
		r = p.ti(types.NewPointer(t.t))
		t.methMu.Lock()
		t.ptr = r
		t.methMu.Unlock()
	}
	return r
}

func (p *Prog) sliceOf(t *TInfo) *TInfo {
	t.methMu.Lock()
	r := t.slice
	t.methMu.Unlock()
	if r == nil {
		r = p.ti(types.NewSlice(t.t))
		t.methMu.Lock()
		t.slice = r
		t.methMu.Unlock()
	}
	return r
}

func (p *Prog) rtypeV(t *TInfo) V {
	t.methMu.Lock()
	defer t.methMu.Unlock()
	if t.rt.r == nil {
		t.rt = V{r: &Iface{t: p.tRtypePtr, v: V{r: &RType{t: t, p: p}}}}
	}
	return t.rt
}

// method lookup on a concrete dynamic type
func (p *Prog) method(t *TInfo, pkg *types.Package, name string) *CFunc {
	key := name
	if !token.IsExported(name) && pkg != nil {
		key = pkg.Path() + "." + name
	}
	t.methMu.Lock()
	f, ok := t.meth[key]
	t.methMu.Unlock()
	if ok {
		return f
	}
	sel := p.prog.MethodSets.MethodSet(t.t).Lookup(pkg, name)
	if sel != nil {
		if fn := p.prog.MethodValue(sel); fn != nil {
			f = p.cfunc(fn)
		}
	}
	t.methMu.Lock()
	t.meth[key] = f
	t.methMu.Unlock()
	return f
}

// exported methods sorted by name
func (p *Prog) methods(t *TInfo) []*types.Selection {
	t.msOnce.Do(func() {
		if it, ok := t.under.(*types.Interface); ok {
			_ = it
			ms := p.prog.MethodSets.MethodSet(t.t)
			for i := 0; i < ms.Len(); i++ {
				t.ms = append(t.ms, ms.At(i))
			}
		} else {
			ms := p.prog.MethodSets.MethodSet(t.t)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					t.ms = append(t.ms, ms.At(i))
				}
			}
		}
		sort.Slice(t.ms, func(i, j int) bool { return t.ms[i].Obj().Name() < t.ms[j].Obj().Name() })
	})
	return t.ms
}

var implMu sync.Mutex

func (p *Prog) implements(t, iface *TInfo) bool {
	t.methMu.Lock()
	b, ok := t.impl[iface]
	t.methMu.Unlock()
	if ok {
		return b
	}
	implMu.Lock()
	b = types.Implements(t.t, iface.under.(*types.Interface))
	implMu.Unlock()
	t.methMu.Lock()
	t.impl[iface] = b
	t.methMu.Unlock()
	return b
}

func (p *Prog) gslot(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	i, ok := p.gidx[g]
	if !ok {
		i = len(p.gvars)
		p.gidx[g] = i
		p.gvars = append(p.gvars, g)
	}
	return i
}

func (p *Prog) gAt(i int) *ssa.Global {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	return p.gvars[i]
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}
