package main

// The model of package reflect: reflect.Value is a location or a value with
// its static type, reflect.Type is a go/types type. Misuse panics, as in Go.

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func isIntKind(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Int64 }
func isUintKind(k reflect.Kind) bool  { return k >= reflect.Uint && k <= reflect.Uintptr }
func isFloatKind(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }

func (r *RV) kind() reflect.Kind {
	if r.typ == nil {
		return reflect.Invalid
	}
	return kindOf(r.typ)
}

// rvGet is the current value of a reflect.Value.
func (x *Eng) rvGet(st *State, r *RV) Value {
	if r.canAddr {
		v := x.load(st, r.loc)
		x.symFacts(st, v)
		return v
	}
	x.symFacts(st, r.val)
	return r.val
}

func (x *Eng) mustRV(v Value) *RV {
	r, ok := v.(*RV)
	if !ok {
		x.abort("reflect.Value expected, got %s", valString(v))
	}
	if r.unk {
		x.abort("operation on an unknown reflect.Value")
	}
	return r
}

func (x *Eng) mustRT(v Value) *RT {
	switch r := v.(type) {
	case *RT:
		if r.unk {
			x.abort("operation on an unknown reflect.Type")
		}
		return r
	case *IfaceV:
		if r.nilT == tTrue {
			return &RT{}
		}
	}
	x.abort("reflect.Type expected, got %s", valString(v))
	return nil
}

// valueOf is reflect.ValueOf for an interface value known to be non-nil.
func (x *Eng) rvOfIface(st *State, v Value) *RV {
	switch p := v.(type) {
	case *RT:
		x.abort("reflect.ValueOf of a reflect.Type")
	case *IfaceV:
		if p.typ == nil {
			x.abort("reflection on a value of unknown type %s", valString(p))
		}
		return &RV{typ: p.typ, val: p.val}
	}
	x.abort("reflect.ValueOf of %s", valString(v))
	return nil
}

func (x *Eng) assignable(from, to types.Type) bool { return types.AssignableTo(from, to) }

// toIface wraps a value of type from for storage in a variable of type to.
func (x *Eng) assignTo(v Value, from, to types.Type) Value {
	if types.IsInterface(to) && !types.IsInterface(from) {
		return x.makeIface(v, from)
	}
	return x.retype(v, to)
}

func outs(rs []Res) []Outcome {
	var o []Outcome
	for _, r := range rs {
		if r.pan != nil {
			o = append(o, Outcome{st: r.st, pan: r.pan})
		} else {
			o = append(o, Outcome{st: r.st, vals: []Value{r.v}})
		}
	}
	return o
}

// typeFacts names the fields of the types the model needs.
func (x *Eng) structField(st *State, c *callCtx, t types.Type, i int) Value {
	s := t.Underlying().(*types.Struct)
	f := s.Field(i)
	rt := c.resultTypes().At(0).Type()
	sv := x.zeroVal(rt).(*StructV)
	u := rt.Underlying().(*types.Struct)
	for j := 0; j < u.NumFields(); j++ {
		switch u.Field(j).Name() {
		case "Name":
			sv.f[j] = strConst(f.Name())
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				sv.f[j] = strConst(f.Pkg().Path())
			}
		case "Type":
			sv.f[j] = &RT{typ: f.Type()}
		case "Tag":
			sv.f[j] = strConst(s.Tag(i))
		case "Anonymous":
			sv.f[j] = mkBool(f.Embedded())
		case "Index":
			a := &ArrC{n: mkInt(1), elem: types.Typ[types.Int], log: []Upd{{start: mkInt(0), vals: []Value{mkInt(int64(i))}}}}
			o := x.newObj(st, "index", a)
			sv.f[j] = &SliceV{obj: o, off: mkInt(0), len: mkInt(1), cap: mkInt(1), nilT: tFalse, elem: types.Typ[types.Int]}
		}
	}
	return sv
}

// forkIndex runs f for each feasible concrete value of an index in [0,n).
func (x *Eng) forkIndex(c *callCtx, st *State, idx *Term, n int, what string, f func(st *State, i int) []Outcome) []Outcome {
	idx = st.f.norm(idx)
	if v, ok := idx.constInt(); ok {
		if v < 0 || v >= int64(n) {
			return x.panOut(c, st, "%s out of range", what)
		}
		return f(st, int(v))
	}
	var out []Outcome
	for i := 0; i < n; i++ {
		s2 := st.clone()
		if s2.f.assume(mkEqI(idx, mkInt(int64(i))), true) {
			out = append(out, f(s2, i)...)
		}
	}
	s2 := st.clone()
	if s2.f.assume(mkLt(idx, mkInt(0)), true) {
		out = append(out, x.panOut(c, s2, "%s out of range", what)...)
	}
	if st.f.assume(mkLe(mkInt(int64(n)), idx), true) {
		out = append(out, x.panOut(c, st, "%s out of range", what)...)
	}
	return out
}

func (x *Eng) rtMethod(c *callCtx, r *RT, name string) []Outcome {
	st := c.st
	t := r.typ
	if t == nil {
		return x.panOut(c, st, "method %s of a nil reflect.Type", name)
	}
	k := kindOf(t)
	bad := func() []Outcome { return x.panOut(c, st, "reflect: %s of type %s", name, t) }
	arg := func(i int) Value { return c.args[i] }
	switch name {
	case "Kind":
		return ret(st, mkInt(int64(k)))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Array:
			return ret(st, &RT{typ: u.Elem()})
		case *types.Slice:
			return ret(st, &RT{typ: u.Elem()})
		case *types.Pointer:
			return ret(st, &RT{typ: u.Elem()})
		case *types.Map:
			return ret(st, &RT{typ: u.Elem()})
		case *types.Chan:
			return ret(st, &RT{typ: u.Elem()})
		}
		return bad()
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return ret(st, &RT{typ: u.Key()})
		}
		return bad()
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return ret(st, x.arrayLen(u))
		}
		return bad()
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return ret(st, mkInt(int64(u.NumFields())))
		}
		return bad()
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return bad()
		}
		return x.forkIndex(c, st, arg(0).(*Term), u.NumFields(), "reflect: Field index", func(st *State, i int) []Outcome {
			return ret(st, x.structField(st, c, t, i))
		})
	case "FieldByName":
		u, ok := t.Underlying().(*types.Struct)
		s, cok := arg(0).(*StrV).constStr()
		if !ok || !cok {
			return bad()
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == s {
				return ret(st, x.structField(st, c, t, i), tTrue)
			}
		}
		return ret(st, x.zeroVal(c.resultTypes().At(0).Type()), tFalse)
	case "Name":
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return ret(st, strConst(n.Obj().Name()))
		}
		if b, ok := types.Unalias(t).(*types.Basic); ok {
			return ret(st, strConst(b.Name()))
		}
		return ret(st, strConst(""))
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return ret(st, strConst(n.Obj().Pkg().Path()))
		}
		return ret(st, strConst(""))
	case "String":
		return ret(st, strConst(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
	case "NumMethod":
		return ret(st, mkInt(int64(x.numMethod(t))))
	case "Implements":
		it := x.mustRT(arg(0))
		i, ok := it.typ.Underlying().(*types.Interface)
		if !ok {
			return bad()
		}
		return ret(st, mkBool(types.Implements(t, i)))
	case "AssignableTo":
		return ret(st, mkBool(types.AssignableTo(t, x.mustRT(arg(0)).typ)))
	case "ConvertibleTo":
		return ret(st, mkBool(types.ConvertibleTo(t, x.mustRT(arg(0)).typ)))
	case "Comparable":
		return ret(st, mkBool(types.Comparable(t)))
	case "Size":
		return ret(st, mkInt(x.sizes.Sizeof(t)))
	case "Bits":
		if isIntKind(k) || isUintKind(k) || isFloatKind(k) {
			return ret(st, mkInt(8*x.sizes.Sizeof(t)))
		}
		return bad()
	}
	x.abort("reflect.Type method %s", name)
	return nil
}

func (x *Eng) numMethod(t types.Type) int {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return i.NumMethods()
	}
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

// rvElem is Value.Elem.
func (x *Eng) rvElem(c *callCtx, st *State, r *RV) []Outcome {
	switch r.kind() {
	case reflect.Ptr:
		p, ok := x.rvGet(st, r).(*PtrV)
		if !ok {
			x.abort("Elem of %s", valString(r))
		}
		et := r.typ.Underlying().(*types.Pointer).Elem()
		return x.splitO(st, p.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				return ret(st, &RV{})
			}
			q := *p
			q.nilT = tFalse
			q.elem = et
			return ret(st, &RV{typ: et, loc: &q, canAddr: true, ro: r.ro})
		})
	case reflect.Interface:
		v := x.rvGet(st, r)
		if rt, ok := v.(*RT); ok {
			x.abort("Elem of %s", valString(rt))
		}
		p := v.(*IfaceV)
		return x.splitO(st, p.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				return ret(st, &RV{})
			}
			e := x.rvOfIface(st, p)
			e.ro = r.ro
			return ret(st, e)
		})
	}
	return x.panOut(c, st, "reflect: Elem of %s value", r.kind())
}

func (x *Eng) rvField(st *State, r *RV, i int) *RV {
	s := r.typ.Underlying().(*types.Struct)
	f := s.Field(i)
	ro := r.ro || !f.Exported()
	if r.canAddr {
		return &RV{typ: f.Type(), canAddr: true, ro: ro, loc: &PtrV{nilT: tFalse, obj: r.loc.obj, path: appendPath(r.loc.path, PathEl{fld: i}), elem: f.Type()}}
	}
	sv, ok := r.val.(*StructV)
	if !ok {
		x.abort("field of %s", valString(r.val))
	}
	return &RV{typ: f.Type(), val: sv.f[i], ro: ro}
}

// rvSet is Value.Set and its variants.
func (x *Eng) rvSet(c *callCtx, st *State, r *RV, from types.Type, v Value) []Outcome {
	if r.typ == nil {
		return x.panOut(c, st, "reflect: Set on the zero Value")
	}
	if !r.canAddr || r.ro {
		return x.panOut(c, st, "reflect: Set on an unsettable value of type %s", r.typ)
	}
	if from == nil || !types.AssignableTo(from, r.typ) {
		return x.panOut(c, st, "reflect: %v is not assignable to %s", from, r.typ)
	}
	x.store(st, r.loc, x.assignTo(v, from, r.typ), c.pos, c.caller)
	return ret(st)
}

// rvSetRaw stores a scalar after the settability check.
func (x *Eng) rvSetRaw(c *callCtx, r *RV, v Value) []Outcome {
	if r.typ == nil || !r.canAddr || r.ro {
		return x.panOut(c, c.st, "reflect: Set on an unsettable value")
	}
	x.store(c.st, r.loc, v, c.pos, c.caller)
	return ret(c.st)
}

func (x *Eng) isZeroTerm(st *State, v Value) *Term {
	switch p := v.(type) {
	case *Term:
		switch p.sort {
		case SInt:
			return mkEqI(p, mkInt(0))
		case SBool:
			return mkNot(p)
		}
		if p == floatConst("0") {
			return tTrue
		}
		return mkApp(SBool, "fzero", nil, nil, p)
	case *StrV:
		return mkEqI(strLen(p), mkInt(0))
	case *PtrV:
		return p.nilT
	case *SliceV:
		return p.nilT
	case *MapV:
		return p.nilT
	case *IfaceV:
		return p.nilT
	case *RT:
		return mkBool(x.mustRT(p).typ == nil)
	case *FuncV:
		return p.nilT
	case *StructV:
		r := tTrue
		for _, f := range p.f {
			r = andT(r, x.isZeroTerm(st, f))
		}
		return r
	case *ArrC:
		if n, ok := p.n.constInt(); ok && n <= 64 {
			r := tTrue
			for i := int64(0); i < n; i++ {
				r = andT(r, x.isZeroTerm(st, x.arrGet(st, p, mkInt(i))))
			}
			return r
		}
		return mkApp(SBool, "zeroarr", nil, nil, x.valKey(st, p))
	}
	return freshBool("iszero")
}

func (x *Eng) makeMap(st *State, t types.Type) *MapV {
	mt := t.Underlying().(*types.Map)
	o := x.newObj(st, "map", &MapC{typ: mt, len: mkInt(0)})
	x.objs[o].typ = t
	return &MapV{nilT: tFalse, obj: o, typ: mt}
}

// mapKeys lists the keys of a map as reflect.Values.
func (x *Eng) mapKeys(st *State, m *MapV, sl types.Type) Value {
	elem := sl.Underlying().(*types.Slice).Elem()
	mk := func(a *ArrC) Value {
		o := x.newObj(st, "keys", a)
		return &SliceV{obj: o, off: mkInt(0), len: a.n, cap: a.n, nilT: tFalse, elem: elem}
	}
	if st.f.decide(m.nilT) == 1 || m.obj < 0 {
		return mk(&ArrC{n: mkInt(0), elem: elem})
	}
	c, ok := x.content(st, m.obj).(*MapC)
	if !ok {
		x.abort("keys of %s", valString(m))
	}
	if c.base == nil {
		simple := true
		var vals []Value
		for i, u := range c.log {
			if u.k != nil || u.del {
				simple = false
				break
			}
			for j := 0; j < i; j++ {
				if st.f.decide(x.eqTerm(st, u.key, c.log[j].key)) != 0 {
					simple = false
				}
			}
			vals = append(vals, &RV{typ: c.typ.Key(), val: u.key})
		}
		if simple {
			a := &ArrC{n: mkInt(int64(len(vals))), elem: elem}
			if len(vals) > 0 {
				a.log = []Upd{{start: mkInt(0), vals: vals}}
			}
			return mk(a)
		}
	}
	base := c.base
	n := c.len
	if base == nil || len(c.log) > 0 {
		base = freshOther("map")
		n = x.mapLen(st, m)
	}
	kb := mkApp(SOther, "mapkeys", nil, nil, base, freshOther("order"))
	x.keyTypes[kb] = c.typ.Key()
	return mk(&ArrC{n: st.f.norm(n), elem: elem, base: kb})
}

func (x *Eng) sliceOfRV(c *callCtx, st *State, r *RV) *SliceV {
	switch r.kind() {
	case reflect.Slice:
		s, ok := x.rvGet(st, r).(*SliceV)
		if !ok {
			x.abort("slice expected in %s", valString(r))
		}
		return s
	case reflect.Array:
		at := r.typ.Underlying().(*types.Array)
		if r.canAddr {
			return x.arrayAsSlice(st, r.loc, x.arrayLen(at), at.Elem())
		}
		o := x.newObj(st, "arraycopy", r.val)
		n := x.arrayLen(at)
		return &SliceV{obj: o, off: mkInt(0), len: n, cap: n, nilT: tFalse, elem: at.Elem()}
	}
	return nil
}

type rvFn func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome

func kindErr(name string) func(x *Eng, c *callCtx, r *RV) []Outcome {
	return func(x *Eng, c *callCtx, r *RV) []Outcome {
		return x.panOut(c, c.st, "reflect: call of Value.%s on %s value", name, r.kind())
	}
}

var rvMethods = map[string]rvFn{
	"Kind": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome { return ret(c.st, mkInt(int64(r.kind()))) },
	"IsValid": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		return ret(c.st, mkBool(r.typ != nil))
	},
	"Type": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.typ == nil {
			return kindErr("Type")(x, c, r)
		}
		return ret(c.st, &RT{typ: r.typ})
	},
	"Elem":    func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome { return x.rvElem(c, c.st, r) },
	"CanSet":  func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome { return ret(c.st, mkBool(r.canAddr && !r.ro)) },
	"CanAddr": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome { return ret(c.st, mkBool(r.canAddr)) },
	"CanInterface": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.typ == nil {
			return kindErr("CanInterface")(x, c, r)
		}
		return ret(c.st, mkBool(!r.ro))
	},
	"CanInt":   func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome { return ret(c.st, mkBool(isIntKind(r.kind()))) },
	"CanUint":  func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome { return ret(c.st, mkBool(isUintKind(r.kind()))) },
	"CanFloat": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome { return ret(c.st, mkBool(isFloatKind(r.kind()))) },
	"Addr": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !r.canAddr {
			return x.panOut(c, c.st, "reflect: Addr of unaddressable value")
		}
		return ret(c.st, &RV{typ: types.NewPointer(r.typ), val: r.loc, ro: r.ro})
	},
	"Interface": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.typ == nil || r.ro {
			return x.panOut(c, c.st, "reflect: Interface of an invalid or unexported value")
		}
		v := x.rvGet(c.st, r)
		if types.IsInterface(r.typ) {
			return ret(c.st, v)
		}
		return ret(c.st, x.makeIface(v, r.typ))
	},
	"Len": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		switch r.kind() {
		case reflect.Array:
			return ret(c.st, x.arrayLen(r.typ.Underlying().(*types.Array)))
		case reflect.Slice:
			return ret(c.st, c.st.f.norm(x.rvGet(c.st, r).(*SliceV).len))
		case reflect.String:
			return ret(c.st, c.st.f.norm(strLen(x.rvGet(c.st, r).(*StrV))))
		case reflect.Map:
			return ret(c.st, x.mapLen(c.st, x.rvGet(c.st, r).(*MapV)))
		}
		return kindErr("Len")(x, c, r)
	},
	"Cap": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		switch r.kind() {
		case reflect.Array:
			return ret(c.st, x.arrayLen(r.typ.Underlying().(*types.Array)))
		case reflect.Slice:
			return ret(c.st, c.st.f.norm(x.rvGet(c.st, r).(*SliceV).cap))
		}
		return kindErr("Cap")(x, c, r)
	},
	"Index": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		idx := a[0].(*Term)
		var rs []Res
		switch r.kind() {
		case reflect.Array:
			at := r.typ.Underlying().(*types.Array)
			rs = x.check(c.st, c.caller, andT(mkLe(mkInt(0), idx), mkLt(idx, x.arrayLen(at))), c.pos, "reflect: array index out of range", func(st *State) []Res {
				if r.canAddr {
					return one(st, &RV{typ: at.Elem(), canAddr: true, ro: r.ro, loc: &PtrV{nilT: tFalse, obj: r.loc.obj, path: appendPath(r.loc.path, PathEl{idx: st.f.norm(idx)}), elem: at.Elem()}})
				}
				return one(st, &RV{typ: at.Elem(), ro: r.ro, val: x.arrGet(st, r.val.(*ArrC), idx)})
			})
		case reflect.Slice:
			s := x.rvGet(c.st, r).(*SliceV)
			et := r.typ.Underlying().(*types.Slice).Elem()
			rs = x.check(c.st, c.caller, andT(mkLe(mkInt(0), idx), mkLt(idx, s.len)), c.pos, "reflect: slice index out of range", func(st *State) []Res {
				return one(st, &RV{typ: et, canAddr: true, ro: r.ro, loc: &PtrV{nilT: tFalse, obj: s.obj, path: appendPath(s.path, PathEl{idx: st.f.norm(tAdd(s.off, idx))}), elem: et}})
			})
		case reflect.String:
			s := x.rvGet(c.st, r).(*StrV)
			rs = x.check(c.st, c.caller, andT(mkLe(mkInt(0), idx), mkLt(idx, strLen(s))), c.pos, "reflect: string index out of range", func(st *State) []Res {
				b := x.segsGet(st, s.segs, idx)
				if b == nil {
					b = freshInt("chr", bigZero, byteHi)
				}
				return one(st, &RV{typ: types.Typ[types.Uint8], val: b, ro: r.ro})
			})
		default:
			return kindErr("Index")(x, c, r)
		}
		return outs(rs)
	},
	"Field": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Struct {
			return kindErr("Field")(x, c, r)
		}
		n := r.typ.Underlying().(*types.Struct).NumFields()
		return x.forkIndex(c, c.st, a[0].(*Term), n, "reflect: Field index", func(st *State, i int) []Outcome {
			return ret(st, x.rvField(st, r, i))
		})
	},
	"FieldByName": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Struct {
			return kindErr("FieldByName")(x, c, r)
		}
		s, ok := a[0].(*StrV).constStr()
		if !ok {
			x.abort("FieldByName of a computed name")
		}
		u := r.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == s {
				return ret(c.st, x.rvField(c.st, r, i))
			}
		}
		return ret(c.st, &RV{})
	},
	"NumField": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Struct {
			return kindErr("NumField")(x, c, r)
		}
		return ret(c.st, mkInt(int64(r.typ.Underlying().(*types.Struct).NumFields())))
	},
	"NumMethod": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.typ == nil {
			return kindErr("NumMethod")(x, c, r)
		}
		return ret(c.st, mkInt(int64(x.numMethod(r.typ))))
	},
	"Int": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isIntKind(r.kind()) {
			return kindErr("Int")(x, c, r)
		}
		return ret(c.st, x.rvGet(c.st, r))
	},
	"Uint": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isUintKind(r.kind()) {
			return kindErr("Uint")(x, c, r)
		}
		return ret(c.st, x.rvGet(c.st, r))
	},
	"Float": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isFloatKind(r.kind()) {
			return kindErr("Float")(x, c, r)
		}
		return ret(c.st, x.toFloat(x.rvGet(c.st, r).(*Term), r.typ, false))
	},
	"Bool": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Bool {
			return kindErr("Bool")(x, c, r)
		}
		return ret(c.st, x.rvGet(c.st, r))
	},
	"String": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() == reflect.String {
			return ret(c.st, x.rvGet(c.st, r))
		}
		return ret(c.st, strConst(fmt.Sprintf("<%v Value>", r.typ)))
	},
	"Bytes": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		switch r.kind() {
		case reflect.Slice:
			if isByteType(r.typ.Underlying().(*types.Slice).Elem()) {
				return ret(c.st, x.rvGet(c.st, r))
			}
		case reflect.Array:
			if isByteType(r.typ.Underlying().(*types.Array).Elem()) && r.canAddr {
				return ret(c.st, x.sliceOfRV(c, c.st, r))
			}
		}
		return kindErr("Bytes")(x, c, r)
	},
	"IsNil": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		switch r.kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return ret(c.st, x.isZeroTerm(c.st, x.rvGet(c.st, r)))
		}
		return kindErr("IsNil")(x, c, r)
	},
	"IsZero": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.typ == nil {
			return kindErr("IsZero")(x, c, r)
		}
		return ret(c.st, x.isZeroTerm(c.st, x.rvGet(c.st, r)))
	},
	"Set": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		v := x.mustRV(a[0])
		if v.typ == nil {
			return x.panOut(c, c.st, "reflect: Set with the zero Value")
		}
		if v.ro {
			return x.panOut(c, c.st, "reflect: Set using a value obtained from an unexported field")
		}
		return x.rvSet(c, c.st, r, v.typ, x.rvGet(c.st, v))
	},
	"SetInt": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isIntKind(r.kind()) {
			return kindErr("SetInt")(x, c, r)
		}
		return x.rvSetRaw(c, r, x.wrap(c.st, a[0].(*Term), r.typ))
	},
	"SetUint": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isUintKind(r.kind()) {
			return kindErr("SetUint")(x, c, r)
		}
		return x.rvSetRaw(c, r, x.wrap(c.st, a[0].(*Term), r.typ))
	},
	"SetFloat": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isFloatKind(r.kind()) {
			return kindErr("SetFloat")(x, c, r)
		}
		return x.rvSetRaw(c, r, x.toFloat(a[0].(*Term), types.Typ[types.Float64], r.kind() == reflect.Float32))
	},
	"SetBool": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Bool {
			return kindErr("SetBool")(x, c, r)
		}
		return x.rvSetRaw(c, r, a[0])
	},
	"SetString": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.String {
			return kindErr("SetString")(x, c, r)
		}
		return x.rvSetRaw(c, r, a[0])
	},
	"SetBytes": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Slice || !isByteType(r.typ.Underlying().(*types.Slice).Elem()) {
			return kindErr("SetBytes")(x, c, r)
		}
		return x.rvSetRaw(c, r, a[0])
	},
	"SetZero": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.typ == nil {
			return kindErr("SetZero")(x, c, r)
		}
		return x.rvSetRaw(c, r, x.zeroVal(r.typ))
	},
	"SetLen": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Slice {
			return kindErr("SetLen")(x, c, r)
		}
		s := x.rvGet(c.st, r).(*SliceV)
		n := a[0].(*Term)
		var out []Outcome
		for _, q := range x.check(c.st, c.caller, andT(mkLe(mkInt(0), n), mkLe(n, s.cap)), c.pos, "reflect: slice length out of range in SetLen", func(st *State) []Res { return one(st, TupleV{}) }) {
			if q.pan != nil {
				out = append(out, Outcome{st: q.st, pan: q.pan})
				continue
			}
			m := *s
			m.len = n
			c2 := *c
			c2.st = q.st
			out = append(out, x.rvSetRaw(&c2, r, &m)...)
		}
		return out
	},
	"Grow": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Slice {
			return kindErr("Grow")(x, c, r)
		}
		s := x.rvGet(c.st, r).(*SliceV)
		n := a[0].(*Term)
		x.emit(c.st, &Ev{kind: evAlloc, pos: c.pos, fn: c.caller, n: tAdd(s.len, n), typ: s.elem, what: "Grow"})
		st := c.st
		return x.splitO(st, mkLe(mkInt(0), n), func(st *State, ok bool) []Outcome {
			if !ok {
				return x.panOut(c, st, "reflect: negative Grow")
			}
			return x.splitO(st, mkLe(tAdd(s.len, n), s.cap), func(st *State, fits bool) []Outcome {
				if fits {
					return ret(st)
				}
				nc := freshInt("cap", bigZero, x.maxLen())
				st.f.assume(mkLe(tAdd(s.len, n), nc), true)
				arr := &ArrC{n: nc, elem: s.elem}
				if !st.f.eq(s.len, mkInt(0)) {
					if u, ok := x.updOf(st, mkInt(0), s, s.len); ok {
						arr = arr.with(st, u)
					}
				}
				o := x.newObj(st, "grow", arr)
				c2 := *c
				c2.st = st
				return x.rvSetRaw(&c2, r, &SliceV{obj: o, off: mkInt(0), len: s.len, cap: nc, nilT: tFalse, elem: s.elem})
			})
		})
	},
	"Slice": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		switch r.kind() {
		case reflect.String:
			s := x.rvGet(c.st, r).(*StrV)
			lo, hi := a[0].(*Term), a[1].(*Term)
			return outs(x.check(c.st, c.caller, andT(mkLe(mkInt(0), lo), andT(mkLe(lo, hi), mkLe(hi, strLen(s)))), c.pos, "reflect: string slice out of range", func(st *State) []Res {
				return one(st, &RV{typ: r.typ, val: &StrV{segs: x.subSegs(st, s.segs, lo, tSub(hi, lo))}, ro: r.ro})
			}))
		case reflect.Array:
			if !r.canAddr {
				return x.panOut(c, c.st, "reflect: Slice of unaddressable array")
			}
			fallthrough
		case reflect.Slice:
			s := x.sliceOfRV(c, c.st, r)
			t := r.typ
			if r.kind() == reflect.Array {
				t = types.NewSlice(s.elem)
			}
			var out []Outcome
			for _, q := range x.reslice(c.caller, c.st, s, a[0].(*Term), a[1].(*Term), nil, c.pos) {
				if q.pan != nil {
					out = append(out, Outcome{st: q.st, pan: q.pan})
				} else {
					out = append(out, Outcome{st: q.st, vals: []Value{&RV{typ: t, val: q.v, ro: r.ro}}})
				}
			}
			return out
		}
		return kindErr("Slice")(x, c, r)
	},
	"MapKeys": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Map {
			return kindErr("MapKeys")(x, c, r)
		}
		m := x.rvGet(c.st, r).(*MapV)
		return x.splitO(c.st, m.nilT, func(st *State, isNil bool) []Outcome {
			return ret(st, x.mapKeys(st, m, c.resultTypes().At(0).Type()))
		})
	},
	"MapIndex": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Map {
			return kindErr("MapIndex")(x, c, r)
		}
		m := x.rvGet(c.st, r).(*MapV)
		k := x.mustRV(a[0])
		if k.typ == nil || !types.AssignableTo(k.typ, m.typ.Key()) {
			return x.panOut(c, c.st, "reflect: MapIndex with a key of type %v", k.typ)
		}
		kv := x.assignTo(x.rvGet(c.st, k), k.typ, m.typ.Key())
		var out []Outcome
		for _, q := range x.mapGet(c.st, m, kv) {
			tv := q.v.(TupleV)
			out = append(out, x.splitO(q.st, tv[1].(*Term), func(st *State, in bool) []Outcome {
				if !in {
					return ret(st, &RV{})
				}
				return ret(st, &RV{typ: m.typ.Elem(), val: tv[0], ro: r.ro || k.ro})
			})...)
		}
		return out
	},
	"SetMapIndex": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Map {
			return kindErr("SetMapIndex")(x, c, r)
		}
		m := x.rvGet(c.st, r).(*MapV)
		k, v := x.mustRV(a[0]), x.mustRV(a[1])
		if r.ro || k.ro || v.ro {
			return x.panOut(c, c.st, "reflect: SetMapIndex using an unexported field")
		}
		if k.typ == nil || !types.AssignableTo(k.typ, m.typ.Key()) {
			return x.panOut(c, c.st, "reflect: SetMapIndex with a key of type %v", k.typ)
		}
		if v.typ != nil && !types.AssignableTo(v.typ, m.typ.Elem()) {
			return x.panOut(c, c.st, "reflect: SetMapIndex with a value of type %v", v.typ)
		}
		return x.splitO(c.st, m.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				return x.panOut(c, st, "assignment to entry in nil map")
			}
			kv := x.assignTo(x.rvGet(st, k), k.typ, m.typ.Key())
			if v.typ == nil {
				x.mutEvent(st, m.obj, c.pos, c.caller)
				mc := x.content(st, m.obj).(*MapC)
				st.heap[m.obj] = &MapC{typ: mc.typ, base: mc.base, len: mc.len, log: append(mc.log[:len(mc.log):len(mc.log)], MapUpd{key: kv, del: true})}
				return ret(st)
			}
			x.mapSet(st, m, kv, x.assignTo(x.rvGet(st, v), v.typ, m.typ.Elem()), c.pos, c.caller)
			return ret(st)
		})
	},
	"MapRange": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if r.kind() != reflect.Map {
			return kindErr("MapRange")(x, c, r)
		}
		m := x.rvGet(c.st, r).(*MapV)
		it := x.rangeOver(c.st, m).(*IterV)
		o := x.newObj(c.st, "mapiter", &StructV{f: []Value{it, &RV{}, &RV{}}})
		return ret(c.st, &PtrV{nilT: tFalse, obj: o})
	},
	"Convert": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		t := x.mustRT(a[0])
		if r.typ == nil || t.typ == nil || !types.ConvertibleTo(r.typ, t.typ) {
			return x.panOut(c, c.st, "reflect: value of type %v cannot be converted to type %v", r.typ, t.typ)
		}
		v := x.rvGet(c.st, r)
		var rs []Res
		if types.IsInterface(t.typ) {
			rs = one(c.st, x.assignTo(v, r.typ, t.typ))
		} else {
			rs = x.convert(&frame{fn: c.caller}, c.st, v, r.typ, t.typ, c.pos)
		}
		var out []Outcome
		for _, q := range rs {
			if q.pan != nil {
				out = append(out, Outcome{st: q.st, pan: q.pan})
			} else {
				out = append(out, Outcome{st: q.st, vals: []Value{&RV{typ: t.typ, val: q.v, ro: r.ro}}})
			}
		}
		return out
	},
	"CanConvert": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		return ret(c.st, mkBool(r.typ != nil && types.ConvertibleTo(r.typ, x.mustRT(a[0]).typ)))
	},
	"Comparable": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		return ret(c.st, mkBool(r.typ == nil || types.Comparable(r.typ)))
	},
	"OverflowInt": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isIntKind(r.kind()) {
			return kindErr("OverflowInt")(x, c, r)
		}
		return ret(c.st, x.overflow(r.typ, a[0].(*Term)))
	},
	"OverflowUint": func(x *Eng, c *callCtx, r *RV, a []Value) []Outcome {
		if !isUintKind(r.kind()) {
			return kindErr("OverflowUint")(x, c, r)
		}
		return ret(c.st, x.overflow(r.typ, a[0].(*Term)))
	},
}

func (x *Eng) overflow(t types.Type, v *Term) *Term {
	w, s, _ := x.intInfo(t)
	lo, hi := intRange(w, s)
	return mkNot(andT(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi))))
}

func init() {
	for name, f := range rvMethods {
		f := f
		intrinsics["(reflect.Value)."+name] = func(x *Eng, c *callCtx) []Outcome {
			return f(x, c, x.mustRV(c.args[0]), c.args[1:])
		}
	}
	reg := func(name string, f intrinsic) { intrinsics["reflect."+name] = f }
	reg("ValueOf", func(x *Eng, c *callCtx) []Outcome {
		if p, ok := c.args[0].(*IfaceV); ok {
			return x.splitO(c.st, p.nilT, func(st *State, isNil bool) []Outcome {
				if isNil {
					return ret(st, &RV{})
				}
				return ret(st, x.rvOfIface(st, p))
			})
		}
		return ret(c.st, x.rvOfIface(c.st, c.args[0]))
	})
	reg("TypeOf", func(x *Eng, c *callCtx) []Outcome {
		p, ok := c.args[0].(*IfaceV)
		if !ok {
			x.abort("reflect.TypeOf of %s", valString(c.args[0]))
		}
		return x.splitO(c.st, p.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				return ret(st, &RT{})
			}
			if p.typ == nil {
				x.abort("reflect.TypeOf of a value of unknown type %s", valString(p))
			}
			return ret(st, &RT{typ: p.typ})
		})
	})
	reg("Indirect", func(x *Eng, c *callCtx) []Outcome {
		r := x.mustRV(c.args[0])
		if r.kind() != reflect.Ptr {
			return ret(c.st, r)
		}
		return x.rvElem(c, c.st, r)
	})
	reg("New", func(x *Eng, c *callCtx) []Outcome {
		t := x.mustRT(c.args[0])
		if t.typ == nil {
			return x.panOut(c, c.st, "reflect: New(nil)")
		}
		o := x.newObj(c.st, "New", x.zeroVal(t.typ))
		x.objs[o].typ = t.typ
		return ret(c.st, &RV{typ: types.NewPointer(t.typ), val: &PtrV{nilT: tFalse, obj: o, elem: t.typ}})
	})
	reg("Zero", func(x *Eng, c *callCtx) []Outcome {
		t := x.mustRT(c.args[0])
		if t.typ == nil {
			return x.panOut(c, c.st, "reflect: Zero(nil)")
		}
		return ret(c.st, &RV{typ: t.typ, val: x.zeroVal(t.typ)})
	})
	ptrTo := func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, &RT{typ: types.NewPointer(x.mustRT(c.args[0]).typ)})
	}
	reg("PtrTo", ptrTo)
	reg("PointerTo", ptrTo)
	reg("SliceOf", func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, &RT{typ: types.NewSlice(x.mustRT(c.args[0]).typ)})
	})
	reg("MapOf", func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, &RT{typ: types.NewMap(x.mustRT(c.args[0]).typ, x.mustRT(c.args[1]).typ)})
	})
	reg("MakeSlice", func(x *Eng, c *callCtx) []Outcome {
		t := x.mustRT(c.args[0])
		sl, ok := t.typ.Underlying().(*types.Slice)
		if !ok {
			return x.panOut(c, c.st, "reflect: MakeSlice of non-slice type")
		}
		var out []Outcome
		for _, q := range x.makeSlice(c.st, c.caller, sl.Elem(), c.args[1].(*Term), c.args[2].(*Term), c.pos) {
			if q.pan != nil {
				out = append(out, Outcome{st: q.st, pan: q.pan})
			} else {
				out = append(out, Outcome{st: q.st, vals: []Value{&RV{typ: t.typ, val: q.v}}})
			}
		}
		return out
	})
	mkmap := func(x *Eng, c *callCtx) []Outcome {
		t := x.mustRT(c.args[0])
		if kindOf(t.typ) != reflect.Map {
			return x.panOut(c, c.st, "reflect: MakeMap of non-map type")
		}
		if len(c.args) > 1 {
			x.emit(c.st, &Ev{kind: evAlloc, pos: c.pos, fn: c.caller, n: c.args[1].(*Term), what: "MakeMapWithSize"})
		}
		return ret(c.st, &RV{typ: t.typ, val: x.makeMap(c.st, t.typ)})
	}
	reg("MakeMap", mkmap)
	reg("MakeMapWithSize", mkmap)
	reg("Append", func(x *Eng, c *callCtx) []Outcome {
		r := x.mustRV(c.args[0])
		if r.kind() != reflect.Slice {
			return x.panOut(c, c.st, "reflect: Append to %s", r.kind())
		}
		et := r.typ.Underlying().(*types.Slice).Elem()
		s := x.rvGet(c.st, r).(*SliceV)
		add := c.args[1].(*SliceV)
		n, ok := c.st.f.norm(add.len).constInt()
		if !ok {
			x.abort("reflect.Append of an unknown number of values")
		}
		cur := []Outcome{{st: c.st, vals: []Value{s}}}
		for i := int64(0); i < n; i++ {
			var next []Outcome
			for _, o := range cur {
				e := x.mustRV(x.arrGet(o.st, x.arrOf(o.st, add), tAddI(add.off, i)))
				if e.typ == nil || !types.AssignableTo(e.typ, et) || e.ro {
					next = append(next, x.panOut(c, o.st, "reflect: Append of a value of type %v", e.typ)...)
					continue
				}
				v := x.assignTo(x.rvGet(o.st, e), e.typ, et)
				tmp := x.newObj(o.st, "elem", &ArrC{n: mkInt(1), elem: et, log: []Upd{{start: mkInt(0), vals: []Value{v}}}})
				next = append(next, x.appendOp(c, o.st, o.vals[0].(*SliceV), &SliceV{obj: tmp, off: mkInt(0), len: mkInt(1), cap: mkInt(1), nilT: tFalse, elem: et})...)
			}
			cur = next
		}
		for i := range cur {
			if cur[i].pan == nil {
				cur[i].vals = []Value{&RV{typ: r.typ, val: cur[i].vals[0]}}
			}
		}
		return cur
	})
	reg("AppendSlice", func(x *Eng, c *callCtx) []Outcome {
		r, q := x.mustRV(c.args[0]), x.mustRV(c.args[1])
		if r.kind() != reflect.Slice || q.kind() != reflect.Slice || !types.Identical(r.typ, q.typ) {
			return x.panOut(c, c.st, "reflect: AppendSlice of %s and %s", r.kind(), q.kind())
		}
		out := x.appendOp(c, c.st, x.rvGet(c.st, r).(*SliceV), x.rvGet(c.st, q))
		for i := range out {
			if out[i].pan == nil {
				out[i].vals = []Value{&RV{typ: r.typ, val: out[i].vals[0]}}
			}
		}
		return out
	})
	reg("Copy", func(x *Eng, c *callCtx) []Outcome {
		d, s := x.mustRV(c.args[0]), x.mustRV(c.args[1])
		switch d.kind() {
		case reflect.Array:
			if !d.canAddr || d.ro {
				return x.panOut(c, c.st, "reflect: Copy to an unaddressable array")
			}
		case reflect.Slice:
		default:
			return x.panOut(c, c.st, "reflect: Copy to %s", d.kind())
		}
		dst := x.sliceOfRV(c, c.st, d)
		var src Value
		switch s.kind() {
		case reflect.String:
			if !isByteType(dst.elem) {
				return x.panOut(c, c.st, "reflect: Copy of a string to %s", d.typ)
			}
			src = x.rvGet(c.st, s)
		case reflect.Array, reflect.Slice:
			sv := x.sliceOfRV(c, c.st, s)
			if !types.Identical(sv.elem, dst.elem) {
				return x.panOut(c, c.st, "reflect: Copy between %s and %s", d.typ, s.typ)
			}
			src = sv
		default:
			return x.panOut(c, c.st, "reflect: Copy from %s", s.kind())
		}
		return x.copyOp(c, c.st, dst, src)
	})
	reg("DeepEqual", func(x *Eng, c *callCtx) []Outcome { return ret(c.st, freshBool("deepeq")) })
	intrinsics["(*reflect.MapIter).Next"] = func(x *Eng, c *callCtx) []Outcome {
		p := c.args[0].(*PtrV)
		sv := x.content(c.st, p.obj).(*StructV)
		it := sv.f[0].(*IterV)
		mv := x.content(c.st, it.obj).(*StructV).f[1].(*MapV)
		var out []Outcome
		for _, q := range x.next(nil, c.st, it, nil) {
			if q.pan != nil {
				out = append(out, Outcome{st: q.st, pan: q.pan})
				continue
			}
			tv := q.v.(TupleV)
			if tv[0] == tTrue {
				q.st.heap[p.obj] = &StructV{f: []Value{it, &RV{typ: mv.typ.Key(), val: tv[1]}, &RV{typ: mv.typ.Elem(), val: tv[2]}}}
			}
			out = append(out, Outcome{st: q.st, vals: []Value{tv[0]}})
		}
		return out
	}
	intrinsics["(*reflect.MapIter).Key"] = func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, x.content(c.st, c.args[0].(*PtrV).obj).(*StructV).f[1])
	}
	intrinsics["(*reflect.MapIter).Value"] = func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, x.content(c.st, c.args[0].(*PtrV).obj).(*StructV).f[2])
	}
	intrinsics["(reflect.StructTag).Get"] = func(x *Eng, c *callCtx) []Outcome {
		s, ok := c.args[0].(*StrV).constStr()
		k, ok2 := c.args[1].(*StrV).constStr()
		if !ok || !ok2 {
			return x.pureCall(c)
		}
		return ret(c.st, strConst(reflect.StructTag(s).Get(k)))
	}
	intrinsics["(reflect.StructTag).Lookup"] = func(x *Eng, c *callCtx) []Outcome {
		s, ok := c.args[0].(*StrV).constStr()
		k, ok2 := c.args[1].(*StrV).constStr()
		if !ok || !ok2 {
			return x.pureCall(c)
		}
		v, f := reflect.StructTag(s).Lookup(k)
		return ret(c.st, strConst(v), mkBool(f))
	}
	intrinsics["(reflect.Kind).String"] = func(x *Eng, c *callCtx) []Outcome {
		if k, ok := c.args[0].(*Term).constInt(); ok {
			return ret(c.st, strConst(reflect.Kind(k).String()))
		}
		return x.pureCall(c)
	}
	intrinsics["(reflect.StructField).IsExported"] = func(x *Eng, c *callCtx) []Outcome {
		sv := c.args[0].(*StructV)
		u := sv.typ.Underlying().(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == "PkgPath" {
				return ret(c.st, mkEqI(strLen(sv.f[j].(*StrV)), mkInt(0)))
			}
		}
		return x.pureCall(c)
	}
}

var _ = big.NewInt
var _ ssa.Value
