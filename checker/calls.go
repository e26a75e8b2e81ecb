package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	st     *State
	caller *ssa.Function
	fn     *ssa.Function
	args   []Value
	pos    token.Pos
	sig    *types.Signature
}

type intrinsic func(x *Eng, c *callCtx) []Outcome

func ret(st *State, vals ...Value) []Outcome { return []Outcome{{st: st, vals: vals}} }

func (x *Eng) panOut(c *callCtx, st *State, f string, a ...interface{}) []Outcome {
	return []Outcome{{st: st, pan: &PanicV{why: fmt.Sprintf(f, a...), pos: c.pos, fn: c.caller}}}
}

// splitO forks on a condition.
func (x *Eng) splitO(st *State, c *Term, f func(st *State, v bool) []Outcome) []Outcome {
	switch st.f.decide(c) {
	case 1:
		return f(st, true)
	case 0:
		return f(st, false)
	}
	var rs []Outcome
	s2 := st.clone()
	if s2.branch(c, true) {
		rs = append(rs, f(s2, true)...)
	}
	if st.branch(c, false) {
		rs = append(rs, f(st, false)...)
	}
	return rs
}

func (x *Eng) callArgs(fr *frame, st *State, env []Value, cc *ssa.CallCommon) (Value, []Value) {
	fv := x.val(fr, st, env, cc.Value)
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, env, a))
	}
	return fv, args
}

func (x *Eng) callValue(st *State, caller *ssa.Function, cc *ssa.CallCommon, fv Value, args []Value, pos token.Pos) []Outcome {
	x.callSites++
	c := &callCtx{st: st, caller: caller, args: args, pos: pos, sig: cc.Signature()}
	if cc.IsInvoke() {
		return x.invoke(c, fv, cc.Method)
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		return x.builtin(c, f, cc)
	case *FuncV:
		if f.fn != nil {
			c.fn = f.fn
			return x.callFn(c, f.bind)
		}
		return x.splitO(st, f.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				return x.panOut(c, st, "call of nil function")
			}
			return x.unknownCall(c, st, "function value")
		})
	}
	x.abort("call of %s", valString(fv))
	return nil
}

func (x *Eng) invoke(c *callCtx, recv Value, m *types.Func) []Outcome {
	switch r := recv.(type) {
	case *RT:
		return x.rtMethod(c, x.mustRT(r), m.Name())
	case *IfaceV:
		return x.splitO(c.st, r.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				return x.panOut(c, st, "method %s called on a nil interface", m.Name())
			}
			c2 := *c
			c2.st = st
			if r.typ != nil {
				fn := x.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
				if fn == nil {
					x.abort("method %s of %s not found", m.Name(), r.typ)
				}
				c2.fn = fn
				c2.args = append([]Value{r.val}, c.args...)
				return x.callFn(&c2, nil)
			}
			if f, ok := invokeIntrinsics[m.Name()]; ok {
				c2.args = append([]Value{r}, c.args...)
				return f(x, &c2)
			}
			return x.unknownCall(&c2, st, "method "+m.Name())
		})
	}
	x.abort("invoke on %s", valString(recv))
	return nil
}

var inlinePkgs = map[string]bool{
	"bytes": true, "strings": true, "slices": true, "unicode/utf8": true, "math/bits": true,
	"encoding/binary": true, "io": true, "sort": true, "maps": true, "cmp": true, "internal/byteorder": true,
	"bufio": true,
}

func (x *Eng) callFn(c *callCtx, bind []Value) []Outcome {
	fn := c.fn
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	if x.opaqueFn[fn] {
		var ks []*Term
		for _, a := range c.args {
			ks = append(ks, x.valKey(c.st, a))
		}
		var vals []Value
		res := c.resultTypes()
		for i := 0; i < res.Len(); i++ {
			v := x.symVal(res.At(i).Type(), mkApp(SOther, fmt.Sprintf("fn%d:%s", i, fn.Name()), nil, nil, ks...))
			x.symFacts(c.st, v)
			vals = append(vals, v)
		}
		return ret(c.st, vals...)
	}
	if f, ok := intrinsics[name]; ok {
		return f(x, c)
	}
	if o.Name() == "init" && o.Pkg != x.pkg {
		return ret(c.st)
	}
	pkg := o.Pkg
	if pkg == nil && o.Parent() != nil {
		for p := o; p != nil; p = p.Parent() {
			if p.Pkg != nil {
				pkg = p.Pkg
			}
		}
	}
	if pkg == x.pkg || (pkg == nil && fn.Blocks != nil) {
		return x.call(c.st, fn, c.args, bind)
	}
	path := ""
	if pkg != nil {
		path = pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	// methods of types of other packages reached through wrappers
	if strings.HasPrefix(name, "(go.uber.org/zap") || strings.HasPrefix(name, "(*go.uber.org/zap") || strings.HasPrefix(path, "go.uber.org/zap") || strings.HasPrefix(path, "github.com/streamingfast/logging") {
		return x.pureCall(c)
	}
	if inlinePkgs[path] {
		if fn.Blocks == nil && pkg != nil {
			pkg.Build()
		}
		if fn.Blocks != nil {
			return x.call(c.st, fn, c.args, bind)
		}
	}
	if purePkgs[path] {
		return x.pureCall(c)
	}
	return x.unknownCall(c, c.st, name)
}

var purePkgs = map[string]bool{
	"fmt": true, "errors": true, "strconv": true, "unicode": true, "unicode/utf8": true, "strings": true,
	"encoding/hex": true, "math": true, "reflect": false, "time": true, "bytes": true, "math/bits": true,
}

// pureCall: fresh results, no effects.
func (x *Eng) pureCall(c *callCtx) []Outcome {
	var vals []Value
	res := c.resultTypes()
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, x.freshVal(c.st, res.At(i).Type(), "r"))
	}
	return ret(c.st, vals...)
}

func (c *callCtx) resultTypes() *types.Tuple {
	if c.fn != nil {
		return c.fn.Signature.Results()
	}
	return c.sig.Results()
}

// unknownCall: fresh results; memory reachable through the arguments is lost.
func (x *Eng) unknownCall(c *callCtx, st *State, what string) []Outcome {
	x.note("call of " + what)
	x.emit(st, &Ev{kind: evUnknown, pos: c.pos, fn: c.caller, what: what})
	for _, a := range c.args {
		x.havoc(st, a, map[int]bool{})
	}
	c2 := *c
	c2.st = st
	return x.pureCall(&c2)
}

func (x *Eng) havoc(st *State, v Value, seen map[int]bool) {
	hv := func(obj int) {
		if obj < 0 || seen[obj] {
			return
		}
		seen[obj] = true
		c := x.content(st, obj)
		if x.objs[obj].class == clsGlobal {
			return
		}
		x.havoc(st, c, seen)
		switch a := c.(type) {
		case *ArrC:
			st.heap[obj] = &ArrC{n: a.n, elem: a.elem, base: freshOther("havoc")}
		case *StructV:
			if a.typ != nil {
				st.heap[obj] = x.freshVal(st, a.typ, "havoc")
			}
		case *MapC:
			st.heap[obj] = &MapC{typ: a.typ, base: freshOther("havoc"), len: freshInt("len", bigZero, x.maxLen())}
		case *Term:
			if x.objs[obj].typ != nil {
				st.heap[obj] = x.freshVal(st, x.objs[obj].typ, "havoc")
			}
		default:
			if x.objs[obj].typ != nil {
				st.heap[obj] = x.freshVal(st, x.objs[obj].typ, "havoc")
			}
		}
	}
	switch p := v.(type) {
	case *PtrV:
		hv(p.obj)
	case *SliceV:
		hv(p.obj)
	case *MapV:
		hv(p.obj)
	case *IfaceV:
		x.havoc(st, p.val, seen)
	case *StructV:
		for _, f := range p.f {
			x.havoc(st, f, seen)
		}
	case *RV:
		if p.loc != nil {
			hv(p.loc.obj)
		}
		x.havoc(st, p.val, seen)
	}
}

// ---- builtins ----

func (x *Eng) builtin(c *callCtx, b *ssa.Builtin, cc *ssa.CallCommon) []Outcome {
	st, args := c.st, c.args
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return ret(st, st.f.norm(v.len))
		case *StrV:
			return ret(st, st.f.norm(strLen(v)))
		case *MapV:
			return ret(st, x.mapLen(st, v))
		case *ArrC:
			return ret(st, v.n)
		case *PtrV:
			if at, ok := v.elem.Underlying().(*types.Array); ok {
				return ret(st, x.arrayLen(at))
			}
		}
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			return ret(st, st.f.norm(v.cap))
		case *ArrC:
			return ret(st, v.n)
		}
	case "append":
		if s, ok := args[0].(*SliceV); ok {
			if len(args) == 1 {
				return ret(st, s)
			}
			return x.appendOp(c, st, s, args[1])
		}
	case "copy":
		if d, ok := args[0].(*SliceV); ok {
			return x.copyOp(c, st, d, args[1])
		}
	case "delete":
		m := args[0].(*MapV)
		if st.f.decide(m.nilT) != 1 && m.obj >= 0 {
			x.mutEvent(st, m.obj, c.pos, c.caller)
			mc := x.content(st, m.obj).(*MapC)
			st.heap[m.obj] = &MapC{typ: mc.typ, base: mc.base, len: mc.len, log: append(mc.log[:len(mc.log):len(mc.log)], MapUpd{key: args[1], del: true})}
		}
		return ret(st)
	case "recover":
		if st.panicking != nil && !st.recovered {
			st.recovered = true
			v := st.panicking.val
			if iv, ok := v.(*IfaceV); ok {
				return ret(st, iv)
			}
			return ret(st, &IfaceV{nilT: tFalse, sym: freshOther("recovered")})
		}
		return ret(st, nilIface())
	case "print", "println":
		return ret(st)
	case "min", "max":
		r := args[0].(*Term)
		outs := []Outcome{{st: st, vals: []Value{r}}}
		for _, a := range args[1:] {
			var next []Outcome
			for _, o := range outs {
				cur := o.vals[0].(*Term)
				t := a.(*Term)
				if cur.sort != SInt {
					return x.pureCall(c)
				}
				next = append(next, x.splitO(o.st, mkLe(cur, t), func(st *State, le bool) []Outcome {
					if le == (b.Name() == "min") {
						return ret(st, cur)
					}
					return ret(st, t)
				})...)
			}
			outs = next
		}
		return outs
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v.obj >= 0 && st.f.decide(v.nilT) != 1 {
				x.mutEvent(st, v.obj, c.pos, c.caller)
				st.heap[v.obj] = &MapC{typ: v.typ, len: mkInt(0)}
			}
			return ret(st)
		case *SliceV:
			if a := x.arrOf(st, v); a != nil {
				x.setArr(st, v, a.with(st, Upd{start: v.off, src: &ArrC{n: v.len, elem: v.elem}, srcOff: mkInt(0), n: v.len}), c.pos, c.caller)
			}
			return ret(st)
		}
	case "ssa:wrapnilchk":
		p, ok := args[0].(*PtrV)
		if ok {
			var out []Outcome
			for _, r := range x.checkNil(st, c.caller, p.nilT, p, c.pos, "value method called through a nil pointer") {
				out = append(out, Outcome{st: r.st, vals: []Value{r.v}, pan: r.pan})
			}
			return out
		}
		return ret(st, args[0])
	}
	x.abort("builtin %s on %s", b.Name(), valString(TupleV(args)))
	return nil
}

// updOf describes the copying of n cells of a slice or string to a position.
func (x *Eng) updOf(st *State, start *Term, src Value, n *Term) (Upd, bool) {
	switch s := src.(type) {
	case *StrV:
		return Upd{start: start, segs: x.subSegs(st, s.segs, mkInt(0), n), n: n}, true
	case *SliceV:
		a := x.arrOf(st, s)
		if a == nil {
			return Upd{}, false
		}
		if c, ok := st.f.norm(n).constInt(); ok && c <= 64 {
			vals := []Value{}
			for i := int64(0); i < c; i++ {
				vals = append(vals, x.arrGet(st, a, tAddI(s.off, i)))
			}
			return Upd{start: start, vals: vals}, true
		}
		return Upd{start: start, src: a, srcOff: s.off, n: n}, true
	}
	return Upd{}, false
}

func valLen(v Value) *Term {
	switch s := v.(type) {
	case *StrV:
		return strLen(s)
	case *SliceV:
		return s.len
	}
	return nil
}

func (x *Eng) appendOp(c *callCtx, st *State, s *SliceV, add Value) []Outcome {
	n := st.f.norm(valLen(add))
	if st.f.eq(n, mkInt(0)) {
		return ret(st, s)
	}
	nl := st.f.norm(tAdd(s.len, n))
	fits := -1
	if s.obj < 0 {
		fits = 0
	} else {
		fits = st.f.decide(mkLe(nl, s.cap))
	}
	class := clsLocal
	if s.obj >= 0 {
		class = x.objs[s.obj].class
	}
	if fits == 1 {
		a := x.arrOf(st, s)
		u, ok := x.updOf(st, st.f.norm(tAdd(s.off, s.len)), add, n)
		if a == nil || !ok {
			x.abort("append to %s", valString(s))
		}
		x.setArr(st, s, a.with(st, u), c.pos, c.caller)
		r := *s
		r.len = nl
		return ret(st, &r)
	}
	if fits < 0 && (class == clsInput || class == clsGlobal || x.written(st, s)) {
		// may write behind the slice in shared memory
		return x.splitO(st, mkLe(nl, s.cap), func(st *State, in bool) []Outcome {
			return x.appendOp(c, st, s, add)
		})
	}
	return x.appendNew(st, s, add, n, nl)
}

// written: the array of a slice was written behind the end of the slice.
func (x *Eng) written(st *State, s *SliceV) bool {
	if s.obj < 0 {
		return false
	}
	a := x.arrOf(st, s)
	if a == nil || len(a.log) == 0 {
		return false
	}
	end := st.f.norm(tAdd(s.off, s.len))
	for _, u := range a.log {
		if n := u.size(); n == nil || !st.f.le(tAdd(u.start, n), end) {
			return true
		}
	}
	return false
}

func (x *Eng) appendNew(st *State, s *SliceV, add Value, n, nl *Term) []Outcome {
	nc := freshInt("cap", bigZero, x.maxLen())
	st.f.assume(mkLe(nl, nc), true)
	a := &ArrC{n: nc, elem: s.elem}
	if !st.f.eq(s.len, mkInt(0)) {
		u, ok := x.updOf(st, mkInt(0), s, s.len)
		if !ok {
			x.abort("append to %s", valString(s))
		}
		a = a.with(st, u)
	}
	u, ok := x.updOf(st, s.len, add, n)
	if !ok {
		x.abort("append of %s", valString(add))
	}
	a = a.with(st, u)
	o := x.newObj(st, "append", a)
	return ret(st, &SliceV{obj: o, off: mkInt(0), len: nl, cap: nc, nilT: tFalse, elem: s.elem})
}

func (x *Eng) copyOp(c *callCtx, st *State, d *SliceV, src Value) []Outcome {
	ls := valLen(src)
	return x.splitO(st, mkLe(d.len, ls), func(st *State, le bool) []Outcome {
		n := ls
		if le {
			n = d.len
		}
		n = st.f.norm(n)
		if st.f.eq(n, mkInt(0)) {
			return ret(st, mkInt(0))
		}
		a := x.arrOf(st, d)
		u, ok := x.updOf(st, d.off, src, n)
		if a == nil || !ok {
			x.abort("copy to %s", valString(d))
		}
		x.setArr(st, d, a.with(st, u), c.pos, c.caller)
		return ret(st, n)
	})
}

// errVal is a fresh non-nil error.
func (x *Eng) errVal(name string) *IfaceV {
	return &IfaceV{nilT: tFalse, sym: freshOther(name)}
}

// symErr is an error value that is nil or not.
func symErr(key *Term) *IfaceV {
	return &IfaceV{nilT: mkApp(SBool, "nil", nil, nil, key), sym: key}
}

// ghost state: the number of bytes accepted by writers, the number of
// failed operations.
func (x *Eng) ghostAdd(st *State, n *Term) {
	cur, _ := st.heap[x.ghost].(*Term)
	if cur == nil {
		cur = mkInt(0)
	}
	t := tAdd(cur, n)
	// no run writes more bytes than an int counts
	st.f.assume(mkLe(t, mkBig(x.maxLen())), true)
	st.heap[x.ghost] = t
}

var byteHi = big.NewInt(255)

var invokeIntrinsics = map[string]intrinsic{
	// io.Writer
	"Write": func(x *Eng, c *callCtx) []Outcome {
		st := c.st
		s, ok := c.args[1].(*SliceV)
		if !ok {
			x.abort("Write of %s", valString(c.args[1]))
		}
		n := freshInt("wn", bigZero, x.maxLen())
		key := freshOther("werr")
		st.f.assume(mkLe(n, s.len), true)
		e := symErr(key)
		ev := &Ev{kind: evWrite, pos: c.pos, fn: c.caller, segs: x.sliceSegs(st, s), n: n, err: e}
		x.emit(st, ev)
		x.ghostAdd(st, n)
		// a short count comes with an error
		return x.splitO(st, e.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				st.f.assume(mkEqI(n, s.len), true)
				return ret(st, s.len, nilIface())
			}
			return ret(st, n, e)
		})
	},
	// io.ByteReader
	"ReadByte": func(x *Eng, c *callCtx) []Outcome {
		st := c.st
		pos, _ := st.heap[x.ghostRd].(*Term)
		if pos == nil {
			pos = mkInt(0)
		}
		r := c.args[0].(*IfaceV)
		e := symErr(mkApp(SOther, "rderr", nil, nil, r.sym, pos))
		ev := &Ev{kind: evByteRead, pos: c.pos, fn: c.caller, err: e, n: pos}
		x.emit(st, ev)
		b := byteCell(r.sym, pos)
		return x.splitO(st, e.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				st.heap[x.ghostRd] = tAddI(pos, 1)
				return ret(st, b, nilIface())
			}
			return ret(st, mkInt(0), e)
		})
	},
	"Error":  func(x *Eng, c *callCtx) []Outcome { return x.pureCall(c) },
	"String": func(x *Eng, c *callCtx) []Outcome { return x.pureCall(c) },
	"Enabled": func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, mkBool(x.trace))
	},
	"Unwrap": func(x *Eng, c *callCtx) []Outcome { return x.pureCall(c) },
}
