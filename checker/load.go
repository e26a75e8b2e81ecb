package main

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed shapes/*.txt
var shapeFS embed.FS

var repoDir = "/repo"

// Prog is the type-checked program in SSA form.
type Prog struct {
	prog  *ssa.Program
	pkg   *ssa.Package
	tpkg  *types.Package
	sizes types.Sizes
	ppkg  *packages.Package
}

// loadProg loads the package of the repository, together with the shape
// declarations, which exist only in the overlay.
func loadProg() (*Prog, error) {
	overlay := map[string][]byte{}
	ents, _ := shapeFS.ReadDir("shapes")
	for _, e := range ents {
		b, _ := shapeFS.ReadFile("shapes/" + e.Name())
		overlay[filepath.Join(repoDir, "zz_verif_"+strings.TrimSuffix(e.Name(), ".txt")+".go")] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedTypesSizes | packages.NeedDeps | packages.NeedModule,
		Dir:     repoDir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages loaded", len(ps))
	}
	var msgs []string
	for _, e := range ps[0].Errors {
		msgs = append(msgs, e.Error())
	}
	if len(msgs) > 0 {
		return nil, fmt.Errorf("package does not type-check: %s", strings.Join(msgs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pkgs[0].Build()
	return &Prog{prog: prog, pkg: pkgs[0], tpkg: ps[0].Types, sizes: ps[0].TypesSizes, ppkg: ps[0]}, nil
}

func newEng(p *Prog, wordBits int, trace bool) *Eng {
	x := &Eng{prog: p.prog, pkg: p.pkg, fset: p.prog.Fset, sizes: p.sizes, wordBits: wordBits, trace: trace,
		keyObj: map[string]int{}, rootClass: map[*Term]Class{}, infos: map[*ssa.Function]*fnInfo{},
		globalObj: map[*ssa.Global]int{}, globalInit: map[int]Value{}, opaque: map[*types.Named]bool{},
		userTypes: map[*types.Named]bool{}, arrLen: map[*types.Array]*Term{}, keyTypes: map[*Term]types.Type{},
		notes: map[string]int{}, fnSeen: map[*ssa.Function]bool{}, opaqueFn: map[*ssa.Function]bool{}, maxSteps: 40_000_000}
	maxLenHook = x.maxLen
	st := &State{f: newFacts(), heap: map[int]Value{}}
	x.ghost = x.newObj(st, "ghost", mkInt(0))
	x.ghostRd = x.newObj(st, "ghostRd", mkInt(0))
	// package initialisation
	init := p.pkg.Func("init")
	outs := x.call(st, init, nil, nil)
	var ok []*State
	for _, o := range outs {
		if o.pan == nil {
			ok = append(ok, o.st)
		}
	}
	if len(ok) != 1 {
		x.abort("package initialisation has %d outcomes", len(ok))
	}
	x.base = ok[0]
	x.base.trace = nil
	x.base.stack = nil
	// everything that exists now is reachable only through package state
	for o := range x.base.heap {
		if o != x.ghost && o != x.ghostRd {
			x.objs[o].class = clsGlobal
		}
	}
	x.initDone = true
	return x
}

func (x *Eng) state() *State { return x.base.clone() }

// fn finds a function or method of the package: "F" or "T.M".
func (x *Eng) fn(name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		obj := x.pkg.Pkg.Scope().Lookup(name[:i])
		if obj == nil {
			x.abort("type %s not found", name[:i])
		}
		t := obj.Type()
		for _, rt := range []types.Type{t, types.NewPointer(t)} {
			ms := x.prog.MethodSets.MethodSet(rt)
			if sel := ms.Lookup(x.pkg.Pkg, name[i+1:]); sel != nil {
				if _, isPtr := rt.(*types.Pointer); isPtr || sel.Indirect() == false {
					return x.prog.MethodValue(sel)
				}
			}
		}
		x.abort("method %s not found", name)
	}
	f := x.pkg.Func(name)
	if f == nil {
		x.abort("function %s not found", name)
	}
	return f
}

func (x *Eng) typ(name string) types.Type {
	obj := x.pkg.Pkg.Scope().Lookup(name)
	if obj == nil {
		x.abort("type %s not found", name)
	}
	return obj.Type()
}

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

// global is the current value of a package variable.
func (x *Eng) global(st *State, name string) Value {
	g, ok := x.pkg.Members[name].(*ssa.Global)
	if !ok {
		x.abort("variable %s not found", name)
	}
	return x.load(st, x.globalPtr(g))
}
