package main

// Writes to package-level state: a flow analysis over the SSA form of every
// function of the package.  A value is global when it points into memory
// reachable from a package-level variable; values flow through assignments,
// fields (by type and field), parameters, results and closures.  A store, map
// update, copy or known mutating call on a global value outside package
// initialisation is a finding, unless the function holds a lock.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func globalInsts() []Inst {
	return []Inst{{name: "package-level variables", run: runGlobals}}
}

type globalScan struct {
	x      *Eng
	glob   map[ssa.Value]bool
	cells  map[ssa.Value]bool // local variables that hold a global value
	fields map[string]bool    // fields that may hold a global value
	rets   map[*ssa.Function]map[int]bool
	init   map[*ssa.Function]bool
	chg    bool
}

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refLike(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", types.TypeString(t, nil), i)
}

func (g *globalScan) mark(v ssa.Value) {
	if v != nil && !g.glob[v] {
		g.glob[v] = true
		g.chg = true
	}
}

func (g *globalScan) is(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Global:
		return v.Pkg == g.x.pkg && !strings.HasPrefix(v.Name(), "init$")
	}
	return g.glob[v]
}

// holdsLock: the function takes a lock, so its writes are ordered.
func holdsLock(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.Pkg != nil && s.Pkg.Pkg.Path() == "sync" && s.Name() == "Lock" {
						return true
					}
				}
			}
		}
	}
	return false
}

// mutators modify the memory of their first argument or receiver.
func mutates(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "bytes", "strings":
		if r := fn.Signature.Recv(); r != nil {
			n := fn.Name()
			return strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Read") || n == "Reset" || n == "Grow" || n == "Truncate"
		}
	case "encoding/binary":
		return strings.HasPrefix(fn.Name(), "Put")
	case "encoding/hex":
		return fn.Name() == "Encode" || fn.Name() == "Decode"
	case "sort", "slices":
		return strings.HasPrefix(fn.Name(), "S") || fn.Name() == "Reverse"
	case "math/big":
		if r := fn.Signature.Recv(); r != nil {
			switch fn.Name() {
			case "Set", "SetBytes", "SetUint64", "SetInt64", "SetString", "Add", "Sub", "Mul", "Neg", "Abs", "Not", "And", "Or", "Xor", "Lsh", "Rsh", "Div", "Mod", "Quo", "Rem", "Exp", "SetBit":
				return true
			}
		}
	}
	return false
}

func runGlobals(x *Eng, r *Rep) {
	g := &globalScan{x: x, glob: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, fields: map[string]bool{}, rets: map[*ssa.Function]map[int]bool{}, init: map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(x.prog) {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg != x.pkg || strings.HasPrefix(f.Name(), "zz") || fn.Blocks == nil {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil && strings.HasPrefix(namedName(rv.Type()), "zz") {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			g.init[fn] = true
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	// functions called only while initialising, and bodies of sync.Once.Do
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	escapes := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					callee = cc.Value
					if s := cc.StaticCallee(); s != nil {
						if callers[s] == nil {
							callers[s] = map[*ssa.Function]bool{}
						}
						callers[s][fn] = true
						if s.Pkg != nil && s.Pkg.Pkg.Path() == "sync" && s.Name() == "Do" && len(cc.Args) == 2 {
							switch a := cc.Args[1].(type) {
							case *ssa.MakeClosure:
								g.init[a.Fn.(*ssa.Function)] = true
							case *ssa.Function:
								g.init[a] = true
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						escapes[f] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range fns {
			if g.init[fn] || escapes[fn] || token.IsExported(fn.Name()) || len(callers[fn]) == 0 {
				continue
			}
			all := true
			for c := range callers[fn] {
				if !g.init[c] {
					all = false
				}
			}
			if all {
				g.init[fn] = true
				again = true
			}
		}
	}
	for g.chg = true; g.chg; {
		g.chg = false
		for _, fn := range fns {
			g.flow(fn)
		}
	}
	for _, fn := range fns {
		x.fnSeen[fn] = true
		if g.init[fn] {
			continue
		}
		locked := holdsLock(fn)
		n, bad := 0, 0
		report := func(pos token.Pos, what string) {
			bad++
			if !locked {
				r.oblige(kGlobal, true, pos, fmt.Sprintf("%s in %s", what, fn))
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					n++
					if g.is(in.Addr) {
						report(in.Pos(), "package-level state is stored to")
					}
				case *ssa.MapUpdate:
					n++
					if g.is(in.Map) {
						report(in.Pos(), "a package-level map is updated")
					}
				case ssa.CallInstruction:
					cc := in.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear":
							n++
							if g.is(cc.Args[0]) {
								report(in.Pos(), "package-level memory is written by "+bi.Name())
							}
						case "append":
							n++
							if s, ok := cc.Args[0].(*ssa.Slice); ok && g.is(s) && s.High != nil && s.Max == nil {
								report(in.Pos(), "package-level memory is written by append")
							}
						}
						continue
					}
					if s := cc.StaticCallee(); s != nil && len(cc.Args) > 0 && mutates(s) {
						n++
						k := 0
						if s.Pkg.Pkg.Path() == "encoding/binary" && s.Signature.Recv() != nil {
							k = 1
						}
						if k < len(cc.Args) && g.is(cc.Args[k]) {
							report(in.Pos(), "package-level memory is modified by "+s.String())
						}
					} else if cc.IsInvoke() && strings.HasPrefix(cc.Method.Name(), "PutUint") && len(cc.Args) > 0 {
						n++
						if g.is(cc.Args[0]) {
							report(in.Pos(), "package-level memory is modified by "+cc.Method.Name())
						}
					}
				}
			}
		}
		for i := bad; i < n; i++ {
			r.oblige(kGlobal, true, token.NoPos, "")
		}
		r.Outcomes++
	}
}

func (g *globalScan) flow(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			g.step(fn, in)
		}
	}
}

func (g *globalScan) step(fn *ssa.Function, in ssa.Instruction) {
	pass := func(v ssa.Value, from ...ssa.Value) {
		if !refLike(v.Type()) {
			return
		}
		for _, f := range from {
			if g.is(f) {
				g.mark(v)
			}
		}
	}
	switch in := in.(type) {
	case *ssa.FieldAddr:
		pass(in, in.X)
	case *ssa.IndexAddr:
		pass(in, in.X)
	case *ssa.Field:
		pass(in, in.X)
		if refLike(in.Type()) && g.fields[fieldKey(in.X.Type(), in.Field)] {
			g.mark(in)
		}
	case *ssa.Index:
		pass(in, in.X)
	case *ssa.Slice:
		pass(in, in.X)
	case *ssa.Phi:
		pass(in, in.Edges...)
	case *ssa.ChangeType:
		pass(in, in.X)
	case *ssa.ChangeInterface:
		pass(in, in.X)
	case *ssa.MakeInterface:
		pass(in, in.X)
	case *ssa.TypeAssert:
		pass(in, in.X)
	case *ssa.Extract:
		pass(in, in.Tuple)
	case *ssa.Lookup:
		pass(in, in.X)
	case *ssa.Range:
		if g.is(in.X) {
			g.mark(in)
		}
	case *ssa.Next:
		if g.is(in.Iter) {
			g.mark(in)
		}
	case *ssa.UnOp:
		if in.Op != token.MUL || !refLike(in.Type()) {
			return
		}
		pass(in, in.X)
		if g.cells[in.X] {
			g.mark(in)
		}
		if fa, ok := in.X.(*ssa.FieldAddr); ok && g.fields[fieldKey(fa.X.Type(), fa.Field)] {
			g.mark(in)
		}
	case *ssa.Store:
		if !g.is(in.Val) {
			return
		}
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			if k := fieldKey(a.X.Type(), a.Field); !g.fields[k] {
				g.fields[k] = true
				g.chg = true
			}
		default:
			if !g.cells[in.Addr] {
				g.cells[in.Addr] = true
				g.chg = true
			}
		}
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		for i, bv := range in.Bindings {
			if g.is(bv) {
				g.mark(f.FreeVars[i])
			}
			if g.cells[bv] && !g.cells[f.FreeVars[i]] {
				g.cells[f.FreeVars[i]] = true
				g.chg = true
			}
		}
	case *ssa.Return:
		for i, v := range in.Results {
			if g.is(v) && refLike(v.Type()) {
				if g.rets[fn] == nil {
					g.rets[fn] = map[int]bool{}
				}
				if !g.rets[fn][i] {
					g.rets[fn][i] = true
					g.chg = true
				}
			}
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" && in.Value() != nil {
				if s, ok := cc.Args[0].(*ssa.Slice); ok && s.Max == nil {
					pass(in.Value(), cc.Args[0])
				}
			}
			return
		}
		f := cc.StaticCallee()
		if f == nil || f.Pkg != g.x.pkg {
			return
		}
		for i, a := range cc.Args {
			if i < len(f.Params) && g.is(a) && refLike(a.Type()) {
				g.mark(f.Params[i])
			}
		}
		if v := in.Value(); v != nil {
			if rs := g.rets[f]; rs != nil {
				if f.Signature.Results().Len() == 1 {
					if rs[0] {
						g.mark(v)
					}
				} else {
					for _, ref := range *v.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && rs[e.Index] {
							g.mark(e)
						}
					}
				}
			}
		}
	}
}
