package main

// The abstract interpreter over SSA: blocks, instructions, outcomes.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Job struct {
	name     string
	maxSteps int
	deadline int64
}

// abortErr is raised when a unit of analysis cannot be completed.
type abortErr struct{ why string }

func (x *Eng) abort(f string, a ...interface{}) { panic(abortErr{fmt.Sprintf(f, a...)}) }

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*Loop
}

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (x *Eng) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var mark func(n *ssa.BasicBlock)
				mark = func(n *ssa.BasicBlock) {
					if l.body[n] {
						return
					}
					l.body[n] = true
					for _, p := range n.Preds {
						mark(p)
					}
				}
				mark(b)
			}
		}
	}
	x.infos[fn] = fi
	x.fnSeen[fn] = true
	return fi
}

type Res struct {
	st  *State
	v   Value
	pan *PanicV
}

type Outcome struct {
	st   *State
	vals []Value
	pan  *PanicV
	pos  token.Pos
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

type item struct {
	st     *State
	env    []Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	phis   bool
}

type exitKind uint8

const (
	exRet exitKind = iota
	exPanic
	exBack
	exLeave
)

type Exit struct {
	kind     exitKind
	st       *State
	env      []Value
	from, to *ssa.BasicBlock
	vals     []Value
	pan      *PanicV
	defers   []deferred
	hcond    *Term
	pos      token.Pos
}

type frame struct {
	fn *ssa.Function
	fi *fnInfo
	hc map[*Loop]*Term // the last condition evaluated at the header of a loop
}

func cloneEnv(e []Value) []Value { return append([]Value(nil), e...) }

// ---- functions ----

func (x *Eng) call(st *State, fn *ssa.Function, args, bind []Value) []Outcome {
	if len(st.stack) > 80 {
		x.abort("call depth exceeded in %s", fn)
	}
	if fn.Blocks == nil {
		x.abort("no body for %s", fn)
	}
	fi := x.info(fn)
	env := make([]Value, fi.n)
	if len(args) != len(fn.Params) {
		x.abort("argument count of %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	copy(env, args)
	copy(env[len(args):], bind)
	saved := st.stack
	st.stack = append(saved[:len(saved):len(saved)], fn)
	fr := &frame{fn: fn, fi: fi}
	exits := x.region(fr, []item{{st: st, env: env, blk: fn.Blocks[0]}}, nil)
	var out []Outcome
	for _, e := range exits {
		switch e.kind {
		case exRet:
			e.st.stack = saved
			out = append(out, Outcome{st: e.st, vals: e.vals, pos: e.pos})
		case exPanic:
			if len(e.defers) == 0 {
				e.st.stack = saved
				out = append(out, Outcome{st: e.st, pan: e.pan})
				continue
			}
			for _, o := range x.unwind(fr, e) {
				o.st.stack = saved
				out = append(out, o)
			}
		}
	}
	return out
}

// unwind runs the deferred calls of a panicking function.
func (x *Eng) unwind(fr *frame, e Exit) []Outcome {
	st := e.st
	saveP, saveR := st.panicking, st.recovered
	st.panicking, st.recovered = e.pan, false
	rs := x.runDefers(fr, st, e.defers)
	var out []Outcome
	for _, r := range rs {
		if r.pan != nil {
			r.st.panicking, r.st.recovered = saveP, saveR
			out = append(out, Outcome{st: r.st, pan: r.pan})
			continue
		}
		rec := r.st.recovered
		r.st.panicking, r.st.recovered = saveP, saveR
		if !rec {
			out = append(out, Outcome{st: r.st, pan: e.pan})
			continue
		}
		if fr.fn.Recover != nil {
			ex := x.region(fr, []item{{st: r.st, env: e.env, blk: fr.fn.Recover}}, nil)
			for _, q := range ex {
				out = append(out, Outcome{st: q.st, vals: q.vals, pan: q.pan})
			}
			continue
		}
		var vals []Value
		res := fr.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			vals = append(vals, x.zeroVal(res.At(i).Type()))
		}
		out = append(out, Outcome{st: r.st, vals: vals})
	}
	return out
}

func (x *Eng) runDefers(fr *frame, st *State, ds []deferred) []Res {
	cur := []Res{{st: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []Res
		for _, c := range cur {
			for _, o := range x.callValue(c.st, fr.fn, ds[i].call, ds[i].fn, ds[i].args, ds[i].pos) {
				p := o.pan
				if p == nil {
					p = c.pan
				}
				next = append(next, Res{st: o.st, pan: p})
			}
		}
		cur = next
	}
	return cur
}

// ---- regions ----

func (x *Eng) region(fr *frame, work []item, within *Loop) []Exit {
	var exits []Exit
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		more, ex := x.runBlock(fr, it, within)
		work = append(work, more...)
		exits = append(exits, ex...)
		if len(exits) > 20000 {
			x.abort("too many paths in %s", fr.fn)
		}
	}
	return exits
}

func (x *Eng) enterBlock(fr *frame, it *item) {
	if it.phis || it.prev == nil {
		return
	}
	pi := -1
	for i, p := range it.blk.Preds {
		if p == it.prev {
			pi = i
			break
		}
	}
	type pv struct {
		i int
		v Value
	}
	var vals []pv
	for _, in := range it.blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, pv{fr.fi.idx[phi], x.val(fr, it.st, it.env, phi.Edges[pi])})
	}
	for _, p := range vals {
		it.env[p.i] = p.v
	}
	it.phis = true
}

// edge continues execution along a control-flow edge.
func (x *Eng) edge(fr *frame, within *Loop, st *State, env []Value, from, to *ssa.BasicBlock, defers []deferred, hc *Term) ([]item, []Exit) {
	if within != nil {
		if to == within.header {
			return nil, []Exit{{kind: exBack, st: st, env: env, from: from, to: to, defers: defers, hcond: hc}}
		}
		if !within.body[to] {
			return nil, []Exit{{kind: exLeave, st: st, env: env, from: from, to: to, defers: defers, hcond: hc}}
		}
	}
	if l := fr.fi.loops[to]; l != nil {
		var items []item
		var exits []Exit
		for _, e := range x.runLoop(fr, st, env, from, l, defers) {
			if e.kind == exLeave {
				i2, e2 := x.edge(fr, within, e.st, e.env, e.from, e.to, e.defers, nil)
				items = append(items, i2...)
				exits = append(exits, e2...)
			} else {
				exits = append(exits, e)
			}
		}
		return items, exits
	}
	return []item{{st: st, env: env, blk: to, prev: from, defers: defers}}, nil
}

func (x *Eng) runBlock(fr *frame, it item, within *Loop) ([]item, []Exit) {
	if it.idx == 0 {
		x.enterBlock(fr, &it)
	}
	st, env := it.st, it.env
	for i := it.idx; i < len(it.blk.Instrs); i++ {
		in := it.blk.Instrs[i]
		x.steps++
		if x.steps > x.maxSteps {
			x.abort("analysis budget exceeded in %s", fr.fn)
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return x.edge(fr, within, st, env, it.blk, it.blk.Succs[0], it.defers, nil)
		case *ssa.If:
			c := x.val(fr, st, env, in.Cond).(*Term)
			c = st.f.norm(c)
			var hc *Term
			if within != nil && it.blk == within.header {
				hc = c
				if fr.hc == nil {
					fr.hc = map[*Loop]*Term{}
				}
				fr.hc[within] = c
			}
			d := st.f.decide(c)
			switch d {
			case 1:
				return x.edge(fr, within, st, env, it.blk, it.blk.Succs[0], it.defers, hc)
			case 0:
				return x.edge(fr, within, st, env, it.blk, it.blk.Succs[1], it.defers, hc)
			}
			var items []item
			var exits []Exit
			s2 := st.clone()
			e2 := cloneEnv(env)
			if s2.branch(c, true) {
				a, b := x.edge(fr, within, s2, e2, it.blk, it.blk.Succs[0], it.defers, hc)
				items, exits = append(items, a...), append(exits, b...)
			}
			if st.branch(c, false) {
				a, b := x.edge(fr, within, st, env, it.blk, it.blk.Succs[1], it.defers, hc)
				items, exits = append(items, a...), append(exits, b...)
			}
			return items, exits
		case *ssa.Return:
			var vals []Value
			for _, r := range in.Results {
				vals = append(vals, x.val(fr, st, env, r))
			}
			return nil, []Exit{{kind: exRet, st: st, env: env, vals: vals, pos: in.Pos()}}
		case *ssa.Panic:
			v := x.val(fr, st, env, in.X)
			return nil, []Exit{{kind: exPanic, st: st, env: env, pan: &PanicV{why: "panic call", pos: in.Pos(), fn: fr.fn, val: v, exp: true}, defers: it.defers}}
		case *ssa.RunDefers:
			if len(it.defers) == 0 {
				continue
			}
			rs := x.runDefers(fr, st, it.defers)
			var items []item
			var exits []Exit
			for _, r := range rs {
				if r.pan != nil {
					exits = append(exits, Exit{kind: exPanic, st: r.st, env: env, pan: r.pan})
					continue
				}
				items = append(items, item{st: r.st, env: cloneEnv(env), blk: it.blk, prev: it.prev, idx: i + 1, phis: true})
			}
			return items, exits
		case *ssa.Defer:
			fv, args := x.callArgs(fr, st, env, &in.Call)
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferred{&in.Call, fv, args, in.Pos()})
			continue
		case *ssa.Store:
			rs := x.deref(fr, st, x.val(fr, st, env, in.Addr), in.Pos())
			v := x.val(fr, st, env, in.Val)
			if len(rs) == 1 && rs[0].pan == nil {
				x.store(rs[0].st, rs[0].v.(*PtrV), v, in.Pos(), fr.fn)
				st = rs[0].st
				continue
			}
			var items []item
			var exits []Exit
			for _, r := range rs {
				if r.pan != nil {
					exits = append(exits, Exit{kind: exPanic, st: r.st, env: env, pan: r.pan, defers: it.defers})
					continue
				}
				x.store(r.st, r.v.(*PtrV), v, in.Pos(), fr.fn)
				items = append(items, item{st: r.st, env: cloneEnv(env), blk: it.blk, prev: it.prev, idx: i + 1, defers: it.defers, phis: true})
			}
			return items, exits
		}
		// instructions that may fork
		rs := x.step(fr, st, env, in)
		slot := -1
		if v, ok := in.(ssa.Value); ok {
			slot = fr.fi.idx[v]
		}
		if len(rs) == 1 && rs[0].pan == nil {
			st = rs[0].st
			if slot >= 0 {
				env[slot] = rs[0].v
			}
			continue
		}
		var items []item
		var exits []Exit
		for n, r := range rs {
			if r.pan != nil {
				exits = append(exits, Exit{kind: exPanic, st: r.st, env: env, pan: r.pan, defers: it.defers})
				continue
			}
			e := env
			if n < len(rs)-1 {
				e = cloneEnv(env)
			}
			if slot >= 0 {
				e = cloneEnv(e)
				e[slot] = r.v
			}
			items = append(items, item{st: r.st, env: e, blk: it.blk, prev: it.prev, idx: i + 1, defers: it.defers, phis: true})
		}
		return items, exits
	}
	return nil, nil
}

func one(st *State, v Value) []Res { return []Res{{st: st, v: v}} }

func (x *Eng) pan(st *State, fn *ssa.Function, pos token.Pos, f string, a ...interface{}) Res {
	return Res{st: st, pan: &PanicV{why: fmt.Sprintf(f, a...), pos: pos, fn: fn}}
}

// ---- values of operands ----

func (x *Eng) val(fr *frame, st *State, env []Value, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Function:
		return &FuncV{nilT: tFalse, fn: v}
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		x.abort("operand %s not found in %s", v, fr.fn)
	}
	r := env[i]
	if r == nil {
		x.abort("operand %s undefined in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Eng) globalPtr(g *ssa.Global) *PtrV {
	o, ok := x.globalObj[g]
	if !ok {
		x.objs = append(x.objs, objInfo{label: g.String(), class: clsGlobal})
		o = len(x.objs) - 1
		x.globalObj[g] = o
		if g.Pkg == x.pkg {
			x.globalInit[o] = x.zeroVal(g.Type().Underlying().(*types.Pointer).Elem())
		} else {
			x.globalInit[o] = x.externGlobal(g)
		}
	}
	return &PtrV{nilT: tFalse, obj: o, elem: g.Type().Underlying().(*types.Pointer).Elem()}
}

// externGlobal is the value of a variable of another package.
func (x *Eng) externGlobal(g *ssa.Global) Value {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.String()
	if types.Identical(t, errorType) {
		// the error variables of other packages are not nil
		return &IfaceV{nilT: tFalse, sym: namedOther("glob:" + name)}
	}
	if v := x.initOf(g); v != nil {
		return v
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return &IfaceV{nilT: tFalse, sym: namedOther("glob:" + name + "?")}
	}
	key := namedOther("glob:" + name + "?")
	x.rootClass[key] = clsGlobal
	return x.symVal(t, key)
}

// initOf is the value the only assignment of a variable gives it, where that is
// a structure without fields, made an interface (such as io.Discard).
func (x *Eng) initOf(g *ssa.Global) Value {
	if g.Pkg == nil {
		return nil
	}
	g.Pkg.Build()
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var val ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if val != nil {
					return nil
				}
				val = s.Val
			}
		}
	}
	m, ok := val.(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	if s, ok := m.X.Type().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return &IfaceV{nilT: tFalse, typ: m.X.Type(), val: x.zeroVal(m.X.Type())}
	}
	return nil
}

var errorType = types.Universe.Lookup("error").Type()

func (x *Eng) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		x.abort("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		bi, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			x.abort("integer constant %s", c)
		}
		return mkBig(bi)
	case b.Info()&types.IsString != 0:
		return strConst(constant.StringVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		return floatConst(c.Value.ExactString())
	}
	return mkApp(SOther, "const:"+c.Value.ExactString(), nil, nil)
}

// deref checks a pointer for nil.
func (x *Eng) deref(fr *frame, st *State, v Value, pos token.Pos) []Res {
	p, ok := v.(*PtrV)
	if !ok {
		x.abort("dereference of %s in %s", valString(v), fr.fn)
	}
	return x.checkNil(st, fr.fn, p.nilT, p, pos, "nil pointer dereference")
}

func (x *Eng) checkNil(st *State, fn *ssa.Function, nilT *Term, v Value, pos token.Pos, what string) []Res {
	x.obls++
	switch st.f.decide(nilT) {
	case 0:
		return one(st, v)
	case 1:
		return []Res{x.pan(st, fn, pos, "%s", what)}
	}
	s2 := st.clone()
	var rs []Res
	if s2.branch(nilT, true) {
		rs = append(rs, x.pan(s2, fn, pos, "%s", what))
	}
	if st.branch(nilT, false) {
		rs = append(rs, Res{st: st, v: v})
	}
	return rs
}

// check forks on a condition that must hold: a panic outcome where it may
// fail, and the continuation where it holds.
func (x *Eng) check(st *State, fn *ssa.Function, ok *Term, pos token.Pos, what string, cont func(st *State) []Res) []Res {
	x.obls++
	switch st.f.decide(ok) {
	case 1:
		return cont(st)
	case 0:
		return []Res{x.pan(st, fn, pos, "%s", what)}
	}
	var rs []Res
	s2 := st.clone()
	if s2.branch(ok, false) {
		rs = append(rs, x.pan(s2, fn, pos, "%s", what))
	}
	if st.branch(ok, true) {
		rs = append(rs, cont(st)...)
	}
	return rs
}

// split forks on an undecided condition.
func (x *Eng) split(st *State, c *Term, f func(st *State, v bool) []Res) []Res {
	switch st.f.decide(c) {
	case 1:
		return f(st, true)
	case 0:
		return f(st, false)
	}
	var rs []Res
	s2 := st.clone()
	if s2.branch(c, true) {
		rs = append(rs, f(s2, true)...)
	}
	if st.branch(c, false) {
		rs = append(rs, f(st, false)...)
	}
	return rs
}

// ---- instructions ----

func (x *Eng) step(fr *frame, st *State, env []Value, in ssa.Instruction) []Res {
	x.instrs++
	get := func(v ssa.Value) Value { return x.val(fr, st, env, v) }
	pos := in.Pos()
	fn := fr.fn
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj(st, in.Comment, x.zeroVal(t))
		x.objs[o].typ = t
		return one(st, &PtrV{nilT: tFalse, obj: o, elem: t})
	case *ssa.UnOp:
		return x.unop(fr, st, in, get(in.X))
	case *ssa.BinOp:
		return x.binop(fr, st, in.Op, get(in.X), get(in.Y), in.X.Type(), in.Y.Type(), in.Type(), pos)
	case *ssa.Call:
		fv, args := x.callArgs(fr, st, env, &in.Call)
		outs := x.callValue(st, fn, &in.Call, fv, args, pos)
		var rs []Res
		for _, o := range outs {
			if o.pan != nil {
				rs = append(rs, Res{st: o.st, pan: o.pan})
				continue
			}
			var v Value
			switch len(o.vals) {
			case 0:
				v = TupleV{}
			case 1:
				v = o.vals[0]
			default:
				v = TupleV(o.vals)
			}
			rs = append(rs, Res{st: o.st, v: v})
		}
		return rs
	case *ssa.ChangeType:
		return one(st, x.retype(get(in.X), in.Type()))
	case *ssa.ChangeInterface:
		return one(st, get(in.X))
	case *ssa.MakeInterface:
		v := get(in.X)
		return one(st, x.makeIface(v, in.X.Type()))
	case *ssa.Convert:
		return x.convert(fr, st, get(in.X), in.X.Type(), in.Type(), pos)
	case *ssa.MultiConvert:
		return x.convert(fr, st, get(in.X), in.X.Type(), in.Type(), pos)
	case *ssa.Extract:
		t, ok := get(in.Tuple).(TupleV)
		if !ok || in.Index >= len(t) {
			x.abort("extract from %s", valString(get(in.Tuple)))
		}
		return one(st, t[in.Index])
	case *ssa.FieldAddr:
		v := get(in.X)
		var rs []Res
		for _, r := range x.deref(fr, st, v, pos) {
			if r.pan == nil {
				p := r.v.(*PtrV)
				stt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				r.v = &PtrV{nilT: tFalse, obj: p.obj, path: appendPath(p.path, PathEl{fld: in.Field}), elem: stt.Field(in.Field).Type()}
			}
			rs = append(rs, r)
		}
		return rs
	case *ssa.Field:
		s, ok := get(in.X).(*StructV)
		if !ok {
			x.abort("field of %s", valString(get(in.X)))
		}
		return one(st, s.f[in.Field])
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, get(in.X), get(in.Index).(*Term), in.X.Type(), pos)
	case *ssa.Index:
		idx := get(in.Index).(*Term)
		switch v := get(in.X).(type) {
		case *ArrC:
			return x.check(st, fn, andT(mkLe(mkInt(0), idx), mkLt(idx, v.n)), pos, "index out of range", func(st *State) []Res {
				return one(st, x.arrGet(st, v, idx))
			})
		case *StrV:
			return x.strIndex(fr, st, v, idx, pos)
		}
		x.abort("index of %s", valString(get(in.X)))
	case *ssa.Slice:
		return x.sliceOp(fr, st, env, in)
	case *ssa.MakeSlice:
		l, c := get(in.Len).(*Term), get(in.Cap).(*Term)
		return x.makeSlice(st, fn, in.Type().Underlying().(*types.Slice).Elem(), l, c, pos)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		if in.Reserve != nil {
			n := get(in.Reserve).(*Term)
			x.emit(st, &Ev{kind: evAlloc, pos: pos, fn: fn, n: n, what: "make(map)"})
		}
		o := x.newObj(st, "map", &MapC{typ: mt, len: mkInt(0)})
		return one(st, &MapV{nilT: tFalse, obj: o, typ: mt})
	case *ssa.MakeClosure:
		f := &FuncV{nilT: tFalse, fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, get(b))
		}
		return one(st, f)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, get(in.X), in)
	case *ssa.Lookup:
		return x.lookup(fr, st, get(in.X), get(in.Index), in.CommaOk, in.X.Type(), pos)
	case *ssa.MapUpdate:
		m, ok := get(in.Map).(*MapV)
		if !ok {
			x.abort("map update of %s", valString(get(in.Map)))
		}
		k, v := get(in.Key), get(in.Value)
		var rs []Res
		for _, r := range x.checkNil(st, fn, m.nilT, m, pos, "assignment to entry in nil map") {
			if r.pan == nil {
				x.mapSet(r.st, m, k, v, pos, fn)
				r.v = TupleV{}
			}
			rs = append(rs, r)
		}
		return rs
	case *ssa.Range:
		return one(st, x.rangeOver(st, get(in.X)))
	case *ssa.Next:
		return x.next(fr, st, get(in.Iter).(*IterV), in)
	case *ssa.SliceToArrayPointer:
		s := get(in.X).(*SliceV)
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := x.arrayLen(at)
		return x.check(st, fn, mkLe(n, s.len), pos, "slice too short for array", func(st *State) []Res {
			x.abort("slice to array pointer conversion")
			return nil
		})
	case *ssa.Select, *ssa.Send, *ssa.Go, *ssa.MakeChan:
		x.emit(st, &Ev{kind: evUnknown, pos: pos, fn: fn, what: fmt.Sprintf("%T", in)})
		x.abort("unsupported instruction %T in %s", in, fn)
	}
	x.abort("unsupported instruction %T in %s", in, fn)
	return nil
}

func appendPath(p []PathEl, e PathEl) []PathEl {
	return append(p[:len(p):len(p)], e)
}

func andT(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse || b == tFalse {
		return tFalse
	}
	if a == b {
		return a
	}
	return mkApp(SBool, "and", nil, nil, a, b)
}

func orT(a, b *Term) *Term { return mkNot(andT(mkNot(a), mkNot(b))) }

// retype changes the type recorded in a value without changing it.
func (x *Eng) retype(v Value, t types.Type) Value {
	switch p := v.(type) {
	case *StructV:
		return &StructV{typ: t, f: p.f}
	case *PtrV:
		n := *p
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			n.elem = pt.Elem()
		}
		return &n
	}
	return v
}

func (x *Eng) makeIface(v Value, t types.Type) Value {
	if _, ok := v.(*RT); ok && (isReflectType(t) || isRTypePtr(t)) {
		return v
	}
	if types.IsInterface(t) {
		return v
	}
	return &IfaceV{nilT: tFalse, typ: t, val: v}
}

func isRTypePtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isNamed(p.Elem(), "reflect", "rtype")
}

func (x *Eng) unop(fr *frame, st *State, in *ssa.UnOp, v Value) []Res {
	switch in.Op {
	case token.MUL:
		var rs []Res
		for _, r := range x.deref(fr, st, v, in.Pos()) {
			if r.pan == nil {
				r.v = x.loadTraced(r.st, r.v.(*PtrV))
			}
			rs = append(rs, r)
		}
		return rs
	case token.NOT:
		return one(st, mkNot(v.(*Term)))
	case token.SUB:
		t := v.(*Term)
		if t.sort == SInt {
			return one(st, x.wrap(st, tScale(t, bigM1), in.Type()))
		}
		return one(st, mkApp(SOther, "fneg", nil, nil, t))
	case token.XOR:
		t := v.(*Term)
		w, s, _ := x.intInfo(in.Type())
		bits := st.f.bitsOf(t, w)
		out := make([]Bit, w)
		for i := range bits {
			out[i] = bits[i].not()
		}
		return one(st, st.f.mkBits(out, s))
	}
	x.abort("unary operator %s in %s", in.Op, fr.fn)
	return nil
}

func (x *Eng) loadTraced(st *State, p *PtrV) Value {
	v := x.load(st, p)
	x.symFacts(st, v)
	return v
}

// ---- integers ----

// wrap reduces an integer to the range of a type.
func (x *Eng) wrap(st *State, t *Term, typ types.Type) *Term {
	w, s, ok := x.intInfo(typ)
	if !ok {
		return t
	}
	return x.wrapW(st, t, w, s)
}

func (x *Eng) wrapW(st *State, t *Term, w int, s bool) *Term {
	lo, hi := intRange(w, s)
	if st.f.inRange(t, lo, hi) {
		return t
	}
	n := st.f.norm(t)
	if n != t && st.f.inRange(n, lo, hi) {
		return n
	}
	return st.f.mkBits(st.f.bitsOf(n, w), s)
}

func (x *Eng) binop(fr *frame, st *State, op token.Token, a, b Value, ta, tb, tr types.Type, pos token.Pos) []Res {
	switch op {
	case token.EQL, token.NEQ:
		return x.equal(fr, st, a, b, ta, pos, op == token.NEQ)
	}
	if s, ok := a.(*StrV); ok {
		q, ok := b.(*StrV)
		if !ok {
			x.abort("string operator on %s", valString(b))
		}
		switch op {
		case token.ADD:
			return one(st, &StrV{segs: concatSegs(s.segs, q.segs)})
		case token.LSS:
			return one(st, x.strLess(st, s, q))
		case token.GTR:
			return one(st, x.strLess(st, q, s))
		case token.LEQ:
			return one(st, mkNot(x.strLess(st, q, s)))
		case token.GEQ:
			return one(st, mkNot(x.strLess(st, s, q)))
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.abort("operator %s on %s and %s", op, valString(a), valString(b))
	}
	if p.sort == SBool || q.sort == SBool {
		switch op {
		case token.AND:
			return one(st, andT(p, q))
		case token.OR:
			return one(st, orT(p, q))
		}
	}
	if p.sort != SInt || q.sort != SInt {
		switch op {
		case token.LSS:
			return one(st, mkApp(SBool, "flt", nil, nil, p, q))
		case token.GTR:
			return one(st, mkApp(SBool, "flt", nil, nil, q, p))
		case token.LEQ:
			return one(st, mkApp(SBool, "fle", nil, nil, p, q))
		case token.GEQ:
			return one(st, mkApp(SBool, "fle", nil, nil, q, p))
		}
		return one(st, mkApp(SOther, "f"+op.String(), nil, nil, p, q))
	}
	switch op {
	case token.LSS:
		return one(st, mkLt(p, q))
	case token.LEQ:
		return one(st, mkLe(p, q))
	case token.GTR:
		return one(st, mkLt(q, p))
	case token.GEQ:
		return one(st, mkLe(q, p))
	case token.ADD:
		return one(st, x.wrap(st, tAdd(p, q), tr))
	case token.SUB:
		return one(st, x.wrap(st, tSub(p, q), tr))
	case token.MUL:
		p, q = st.f.norm(p), st.f.norm(q)
		if q.isConst() {
			return one(st, x.wrap(st, tScale(p, q.c), tr))
		}
		if p.isConst() {
			return one(st, x.wrap(st, tScale(q, p.c), tr))
		}
		return one(st, x.opaqueInt("mul", tr, p, q))
	case token.QUO, token.REM:
		return x.check(st, fr.fn, mkNot(mkEqI(q, mkInt(0))), pos, "integer divide by zero", func(st *State) []Res {
			quo, rem := x.divMod(st, p, q, tr)
			if op == token.QUO {
				return one(st, quo)
			}
			return one(st, rem)
		})
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return one(st, x.bitop(st, op, p, q, tr))
	case token.SHL, token.SHR:
		return x.shift(fr, st, op, p, q, tb, tr, pos)
	}
	x.abort("operator %s in %s", op, fr.fn)
	return nil
}

func (x *Eng) opaqueInt(f string, t types.Type, args ...*Term) *Term {
	w, s, _ := x.intInfo(t)
	lo, hi := intRange(w, s)
	return mkApp(SInt, fmt.Sprintf("%s%d%v", f, w, s), lo, hi, args...)
}

func (x *Eng) divMod(st *State, p, q *Term, t types.Type) (quo, rem *Term) {
	p, q = st.f.norm(p), st.f.norm(q)
	if p.isConst() && q.isConst() {
		a, b := new(big.Int).QuoRem(p.c, q.c, new(big.Int))
		return x.wrap(st, mkBig(a), t), mkBig(b)
	}
	if q.isConst() && q.c.Sign() > 0 && st.f.ge0(p) {
		n := q.c.BitLen() - 1
		if q.c.Cmp(pow2(n)) == 0 && p.op == OBits {
			w, s, _ := x.intInfo(t)
			bits := st.f.bitsOf(p, w)
			hi := append(append([]Bit(nil), bits[n:]...), make([]Bit, n)...)
			for i := w - n; i < w; i++ {
				hi[i] = bit0
			}
			lo := append([]Bit(nil), bits[:n]...)
			lo = append(lo, bit0)
			return st.f.mkBits(hi, s), st.f.mkBits(lo, false)
		}
		if d, ok := divExact(p, q.c.Int64()); ok && q.c.IsInt64() {
			return d, mkInt(0)
		}
		var hi *big.Int
		if p.hi != nil {
			hi = new(big.Int).Quo(p.hi, q.c)
		}
		quo = mkApp(SInt, "div", bigZero, hi, p, q)
		rem = tSub(p, tScale(quo, q.c))
		// 0 <= p - c*q <= c-1
		st.f.assume(mkLe(mkInt(0), rem), true)
		st.f.assume(mkLe(rem, mkBig(new(big.Int).Sub(q.c, bigOne))), true)
		return quo, rem
	}
	return x.opaqueInt("quo", t, p, q), x.opaqueInt("rem", t, p, q)
}

func (x *Eng) bitop(st *State, op token.Token, p, q *Term, t types.Type) *Term {
	w, s, _ := x.intInfo(t)
	a, b := st.f.bitsOf(p, w), st.f.bitsOf(q, w)
	out := make([]Bit, w)
	for i := range out {
		u, v := a[i], b[i]
		switch op {
		case token.AND_NOT:
			v = v.not()
			fallthrough
		case token.AND:
			switch {
			case u == bit0 || v == bit0:
				out[i] = bit0
			case u == bit1:
				out[i] = v
			case v == bit1 || u == v:
				out[i] = u
			case u == v.not():
				out[i] = bit0
			default:
				out[i] = opaqueBit("and", u, v)
			}
		case token.OR:
			switch {
			case u == bit1 || v == bit1:
				out[i] = bit1
			case u == bit0:
				out[i] = v
			case v == bit0 || u == v:
				out[i] = u
			case u == v.not():
				out[i] = bit1
			default:
				out[i] = opaqueBit("or", u, v)
			}
		case token.XOR:
			switch {
			case u.konst():
				out[i] = v
				if u.i == 1 {
					out[i] = v.not()
				}
			case v.konst():
				out[i] = u
				if v.i == 1 {
					out[i] = u.not()
				}
			case u == v:
				out[i] = bit0
			case u == v.not():
				out[i] = bit1
			default:
				out[i] = opaqueBit("xor", u, v)
			}
		}
	}
	return st.f.mkBits(out, s)
}

func bitTerm(b Bit) *Term { return mkBits([]Bit{b}, false) }

func opaqueBit(f string, u, v Bit) Bit {
	a, b := bitTerm(u), bitTerm(v)
	if a.id > b.id {
		a, b = b, a
	}
	return Bit{a: mkApp(SInt, "b"+f, bigZero, bigOne, a, b), i: 0}
}

func (x *Eng) shift(fr *frame, st *State, op token.Token, p, q *Term, tq, tr types.Type, pos token.Pos) []Res {
	cont := func(st *State) []Res {
		w, s, _ := x.intInfo(tr)
		qn := st.f.norm(q)
		c, ok := qn.constInt()
		if !ok {
			if qn.op != OConst {
				f := "shl"
				if op == token.SHR {
					f = "shr"
				}
				return one(st, x.opaqueInt(f, tr, p, qn))
			}
			c = 1 << 20
		}
		n := int(c)
		if c > int64(w) {
			n = w
		}
		if op == token.SHL {
			if st.f.norm(p).op != OBits {
				t := tScale(p, pow2(n))
				lo, hi := intRange(w, s)
				if st.f.inRange(t, lo, hi) {
					return one(st, t)
				}
			}
			bits := st.f.bitsOf(p, w)
			out := make([]Bit, w)
			for i := range out {
				out[i] = bit0
				if i >= n {
					out[i] = bits[i-n]
				}
			}
			return one(st, st.f.mkBits(out, s))
		}
		bits := st.f.bitsOf(p, w)
		out := make([]Bit, w)
		for i := range out {
			switch {
			case i+n < w:
				out[i] = bits[i+n]
			case s:
				out[i] = bits[w-1]
			default:
				out[i] = bit0
			}
		}
		return one(st, st.f.mkBits(out, s))
	}
	if _, signed, _ := x.intInfo(tq); signed {
		return x.check(st, fr.fn, mkLe(mkInt(0), q), pos, "negative shift amount", cont)
	}
	return cont(st)
}

// ---- conversions ----

func (x *Eng) convert(fr *frame, st *State, v Value, from, to types.Type, pos token.Pos) []Res {
	fu, tu := from.Underlying(), to.Underlying()
	if _, _, ok := x.intInfo(to); ok {
		if _, _, ok := x.intInfo(from); ok {
			return one(st, x.wrap(st, v.(*Term), to))
		}
		if t, ok := v.(*Term); ok {
			return one(st, x.opaqueInt("f2i", to, t))
		}
	}
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsFloat != 0:
			return one(st, x.toFloat(v.(*Term), from, tb.Kind() == types.Float32))
		case tb.Info()&types.IsString != 0:
			switch s := v.(type) {
			case *StrV:
				return one(st, s)
			case *SliceV:
				if isByteType(s.elem) {
					return one(st, &StrV{segs: x.sliceSegs(st, s)})
				}
				// []rune
				if rs, ok := x.varargs(st, s); ok && len(rs) < 64 {
					out := &StrV{}
					for _, r := range rs {
						out.segs = concatSegs(out.segs, x.runeStr(st, r.(*Term)).segs)
					}
					return one(st, out)
				}
				return one(st, x.freshVal(st, types.Typ[types.String], "runes"))
			case *Term:
				// string(rune)
				return one(st, x.runeStr(st, s))
			}
		case tb.Kind() == types.UnsafePointer:
			return one(st, freshOther("unsafe"))
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*StrV); ok {
			if isByteType(sl.Elem()) {
				n := strLen(s)
				a := &ArrC{n: n, elem: sl.Elem()}
				if len(s.segs) > 0 {
					a.log = []Upd{{start: mkInt(0), segs: s.segs, n: n}}
				}
				o := x.newObj(st, "[]byte(string)", a)
				return one(st, &SliceV{obj: o, off: mkInt(0), len: n, cap: n, nilT: tFalse, elem: sl.Elem()})
			}
			// []rune(string)
			return one(st, x.runesOf(st, s, sl.Elem()))
		}
		if s, ok := v.(*SliceV); ok {
			n := *s
			n.elem = sl.Elem()
			return one(st, &n)
		}
	}
	if _, ok := fu.(*types.Basic); ok {
		if _, ok := tu.(*types.Pointer); ok {
			x.emit(st, &Ev{kind: evUnknown, pos: pos, fn: fr.fn, what: "unsafe pointer conversion"})
			return one(st, x.freshVal(st, to, "unsafe"))
		}
	}
	return one(st, x.retype(v, to))
}

func (x *Eng) runesOf(st *State, s *StrV, elem types.Type) *SliceV {
	if c, ok := s.constStr(); ok {
		rs := []rune(c)
		a := &ArrC{n: mkInt(int64(len(rs))), elem: elem}
		var vals []Value
		for _, r := range rs {
			vals = append(vals, mkInt(int64(r)))
		}
		if len(vals) > 0 {
			a.log = []Upd{{start: mkInt(0), vals: vals}}
		}
		o := x.newObj(st, "runes", a)
		return &SliceV{obj: o, off: mkInt(0), len: a.n, cap: a.n, nilT: tFalse, elem: elem}
	}
	if rs, ok := x.charsOf(st, s.segs); ok && x.hasChars(st, s.segs) {
		a := &ArrC{n: mkInt(int64(len(rs))), elem: elem}
		var vals []Value
		for _, r := range rs {
			vals = append(vals, r)
		}
		a.log = []Upd{{start: mkInt(0), vals: vals}}
		o := x.newObj(st, "runes", a)
		return &SliceV{obj: o, off: mkInt(0), len: a.n, cap: a.n, nilT: tFalse, elem: elem}
	}
	key := mkApp(SOther, "runes", nil, nil, s.key())
	n := mkApp(SInt, "runecount", bigZero, x.maxLen(), s.key())
	st.f.assume(mkLe(n, strLen(s)), true)
	o := x.newObj(st, "runes", &ArrC{n: n, elem: elem, base: key})
	return &SliceV{obj: o, off: mkInt(0), len: n, cap: n, nilT: tFalse, elem: elem}
}

func (x *Eng) toFloat(t *Term, from types.Type, to32 bool) *Term {
	fb := from.Underlying().(*types.Basic)
	if fb.Info()&types.IsInteger != 0 {
		if to32 {
			return mkApp(SOther, "i2f32", nil, nil, t)
		}
		return mkApp(SOther, "i2f64", nil, nil, t)
	}
	f32 := fb.Kind() == types.Float32
	switch {
	case f32 == to32:
		return t
	case to32:
		if t.op == OApp && t.str == "f64of32" {
			return t.args[0]
		}
		return mkApp(SOther, "f32of64", nil, nil, t)
	}
	return mkApp(SOther, "f64of32", nil, nil, t)
}
