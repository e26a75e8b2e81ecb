package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- indexing and slicing ----

func (x *Eng) indexAddr(fr *frame, st *State, v Value, idx *Term, t types.Type, pos token.Pos) []Res {
	switch p := v.(type) {
	case *SliceV:
		return x.check(st, fr.fn, andT(mkLe(mkInt(0), idx), mkLt(idx, p.len)), pos, "index out of range", func(st *State) []Res {
			return one(st, &PtrV{nilT: tFalse, obj: p.obj, path: appendPath(p.path, PathEl{idx: st.f.norm(tAdd(p.off, idx))}), elem: p.elem})
		})
	case *PtrV:
		at := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		var rs []Res
		for _, r := range x.deref(fr, st, v, pos) {
			if r.pan != nil {
				rs = append(rs, r)
				continue
			}
			q := r.v.(*PtrV)
			rs = append(rs, x.check(r.st, fr.fn, andT(mkLe(mkInt(0), idx), mkLt(idx, x.arrayLen(at))), pos, "index out of range", func(st *State) []Res {
				return one(st, &PtrV{nilT: tFalse, obj: q.obj, path: appendPath(q.path, PathEl{idx: idx}), elem: at.Elem()})
			})...)
		}
		return rs
	}
	x.abort("index address of %s", valString(v))
	return nil
}

func (x *Eng) strIndex(fr *frame, st *State, s *StrV, idx *Term, pos token.Pos) []Res {
	return x.check(st, fr.fn, andT(mkLe(mkInt(0), idx), mkLt(idx, strLen(s))), pos, "string index out of range", func(st *State) []Res {
		if b := x.segsGet(st, s.segs, idx); b != nil {
			return one(st, b)
		}
		return one(st, freshInt("chr", bigZero, big.NewInt(255)))
	})
}

func (x *Eng) sliceOp(fr *frame, st *State, env []Value, in *ssa.Slice) []Res {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.val(fr, st, env, v).(*Term)
	}
	lo, hi, max := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = mkInt(0)
	}
	pos := in.Pos()
	switch v := x.val(fr, st, env, in.X).(type) {
	case *StrV:
		n := strLen(v)
		if hi == nil {
			hi = n
		}
		ok := andT(mkLe(mkInt(0), lo), andT(mkLe(lo, hi), mkLe(hi, n)))
		return x.check(st, fr.fn, ok, pos, "string slice bounds out of range", func(st *State) []Res {
			return one(st, &StrV{segs: x.normSegs(st, x.subSegs(st, v.segs, lo, tSub(hi, lo)))})
		})
	case *SliceV:
		if hi == nil {
			hi = v.len
		}
		return x.reslice(fr.fn, st, v, lo, hi, max, pos)
	case *PtrV:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		var rs []Res
		for _, r := range x.deref(fr, st, v, pos) {
			if r.pan != nil {
				rs = append(rs, r)
				continue
			}
			p := r.v.(*PtrV)
			n := x.arrayLen(at)
			h := hi
			if h == nil {
				h = n
			}
			s := x.arrayAsSlice(r.st, p, n, at.Elem())
			rs = append(rs, x.reslice(fr.fn, r.st, s, lo, h, max, pos)...)
		}
		return rs
	}
	x.abort("slice of %s", valString(x.val(fr, st, env, in.X)))
	return nil
}

// arrayAsSlice views an array in memory as a slice.
func (x *Eng) arrayAsSlice(st *State, p *PtrV, n *Term, elem types.Type) *SliceV {
	return &SliceV{obj: p.obj, path: p.path, off: mkInt(0), len: n, cap: n, nilT: tFalse, elem: elem}
}

func (x *Eng) reslice(fn *ssa.Function, st *State, v *SliceV, lo, hi, max *Term, pos token.Pos) []Res {
	lim := max
	if lim == nil {
		lim = v.cap
	}
	ok := andT(mkLe(mkInt(0), lo), andT(mkLe(lo, hi), mkLe(hi, lim)))
	if max != nil {
		ok = andT(ok, mkLe(max, v.cap))
	}
	return x.check(st, fn, ok, pos, "slice bounds out of range", func(st *State) []Res {
		n := *v
		n.off = st.f.norm(tAdd(v.off, lo))
		n.len = st.f.norm(tSub(hi, lo))
		n.cap = st.f.norm(tSub(lim, lo))
		return one(st, &n)
	})
}

func (x *Eng) makeSlice(st *State, fn *ssa.Function, elem types.Type, l, c *Term, pos token.Pos) []Res {
	x.emit(st, &Ev{kind: evAlloc, pos: pos, fn: fn, n: c, typ: elem, what: "make"})
	ok := andT(mkLe(mkInt(0), l), mkLe(l, c))
	return x.check(st, fn, ok, pos, "makeslice: len out of range", func(st *State) []Res {
		o := x.newObj(st, "make", &ArrC{n: c, elem: elem})
		return one(st, &SliceV{obj: o, off: mkInt(0), len: l, cap: c, nilT: tFalse, elem: elem})
	})
}

// ---- equality ----

func (x *Eng) equal(fr *frame, st *State, a, b Value, t types.Type, pos token.Pos, neg bool) []Res {
	if p, ok := a.(*Term); ok && p.sort == SBool {
		q := b.(*Term)
		return x.split(st, p, func(st *State, v bool) []Res {
			r := q
			if v == neg {
				r = mkNot(q)
			}
			return one(st, r)
		})
	}
	e := x.eqTerm(st, a, b)
	if neg {
		e = mkNot(e)
	}
	return one(st, e)
}

func isnan(t *Term) *Term {
	for t.op == OApp && (t.str == "f64of32" || t.str == "f32of64") {
		t = t.args[0]
	}
	if t.op == OApp && len(t.str) > 7 && t.str[:7] == "fconst:" {
		return tFalse
	}
	return mkApp(SBool, "isnan", nil, nil, t)
}

// eqTerm is the truth value of a == b.
func (x *Eng) eqTerm(st *State, a, b Value) *Term {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			return freshBool("eq")
		}
		if p.sort == SInt && q.sort == SInt {
			return mkEqI(p, q)
		}
		if p.sort == SBool || q.sort == SBool {
			if p == q {
				return tTrue
			}
			return orT(andT(p, q), andT(mkNot(p), mkNot(q)))
		}
		if p == q {
			return mkNot(isnan(p))
		}
		if p.id > q.id {
			p, q = q, p
		}
		return mkApp(SBool, "feq", nil, nil, p, q)
	case *StrV:
		q, ok := b.(*StrV)
		if !ok {
			return freshBool("eq")
		}
		return x.strEq(st, p, q)
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok {
			return freshBool("eq")
		}
		if q.nilT == tTrue {
			return p.nilT
		}
		if p.nilT == tTrue {
			return q.nilT
		}
		if x.eqVal(st, p, q) {
			return tTrue
		}
		if p.obj != q.obj && (x.objs[p.obj].key == nil || x.objs[q.obj].key == nil) {
			return tFalse
		}
		if p.obj == q.obj && len(p.path) > 0 && len(q.path) > 0 && p.path[0].idx == nil && q.path[0].idx == nil && p.path[0].fld != q.path[0].fld {
			return tFalse
		}
		return mkApp(SBool, "ptreq", nil, nil, x.valKey(st, p), x.valKey(st, q))
	case *IfaceV:
		if q, ok := b.(*RT); ok {
			return x.eqTerm(st, q, p)
		}
		q, ok := b.(*IfaceV)
		if !ok {
			return freshBool("eq")
		}
		if q.nilT == tTrue {
			return p.nilT
		}
		if p.nilT == tTrue {
			return q.nilT
		}
		if p == q {
			return tTrue
		}
		if p.typ != nil && q.typ != nil {
			if !types.Identical(p.typ, q.typ) {
				return andT(p.nilT, q.nilT)
			}
			return andT(andT(mkNot(p.nilT), mkNot(q.nilT)), x.eqTerm(st, p.val, q.val))
		}
		if p.sym != nil && q.sym != nil {
			if p.sym == q.sym {
				return tTrue
			}
			return mkEqO(p.sym, q.sym)
		}
		return mkApp(SBool, "ifeq", nil, nil, x.valKey(st, p), x.valKey(st, q))
	case *RT:
		switch q := b.(type) {
		case *RT:
			if p.unk || q.unk {
				return freshBool("eq")
			}
			return mkBool(sameType(p.typ, q.typ))
		case *IfaceV:
			if q.nilT == tTrue && !p.unk {
				return mkBool(p.typ == nil)
			}
		}
		return freshBool("eq")
	case *RV:
		q, ok := b.(*RV)
		if !ok || p.unk || q.unk {
			return freshBool("eq")
		}
		if p.typ == nil || q.typ == nil {
			return mkBool(p.typ == nil && q.typ == nil)
		}
		if !types.Identical(p.typ, q.typ) {
			return tFalse
		}
		if x.eqVal(st, p, q) {
			return tTrue
		}
		return freshBool("rveq")
	case *SliceV:
		if q, ok := b.(*SliceV); ok {
			if q.nilT == tTrue {
				return p.nilT
			}
			return q.nilT
		}
	case *MapV:
		if q, ok := b.(*MapV); ok {
			if q.nilT == tTrue {
				return p.nilT
			}
			return q.nilT
		}
	case *FuncV:
		if q, ok := b.(*FuncV); ok {
			if q.nilT == tTrue {
				return p.nilT
			}
			return q.nilT
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			r := tTrue
			for i := range p.f {
				r = andT(r, x.eqTerm(st, p.f[i], q.f[i]))
			}
			return r
		}
	case *ArrC:
		if q, ok := b.(*ArrC); ok {
			if x.eqVal(st, p, q) {
				return tTrue
			}
			if c, ok := p.n.constInt(); ok && c <= 64 {
				r := tTrue
				for i := int64(0); i < c; i++ {
					r = andT(r, x.eqTerm(st, x.arrGet(st, p, mkInt(i)), x.arrGet(st, q, mkInt(i))))
				}
				return r
			}
			return mkApp(SBool, "arreq", nil, nil, x.valKey(st, p), x.valKey(st, q))
		}
	}
	return freshBool("eq")
}

func (x *Eng) strEq(st *State, p, q *StrV) *Term {
	if x.eqSegs(st, p.segs, q.segs) {
		return tTrue
	}
	a, aok := p.constStr()
	b, bok := q.constStr()
	if aok && bok {
		return mkBool(a == b)
	}
	lp, lq := strLen(p), strLen(q)
	if st.f.decide(mkEqI(lp, lq)) == 0 {
		return tFalse
	}
	if bok && b == "" {
		return mkEqI(lp, mkInt(0))
	}
	if aok && a == "" {
		return mkEqI(lq, mkInt(0))
	}
	// equal lengths and equal bytes, when the bytes are all explicit
	pn, qn := x.normSegs(st, p.segs), x.normSegs(st, q.segs)
	if len(pn) == len(qn) {
		r := tTrue
		ok := true
		for i := range pn {
			if pn[i].kind != segByte || qn[i].kind != segByte {
				ok = false
				break
			}
			r = andT(r, mkEqI(pn[i].b, qn[i].b))
		}
		if ok {
			return r
		}
	}
	// a differing byte
	if bok || aok {
		c, o := b, pn
		if !bok {
			c, o = a, qn
		}
		for i := 0; i < len(c) && i < len(o) && o[i].kind == segByte; i++ {
			if st.f.decide(mkEqI(o[i].b, mkInt(int64(c[i])))) == 0 {
				return tFalse
			}
		}
	}
	ka, kb := segsKey(pn), segsKey(qn)
	if ka.id > kb.id {
		ka, kb = kb, ka
	}
	return mkApp(SBool, "streq", nil, nil, ka, kb)
}

func (x *Eng) strLess(st *State, p, q *StrV) *Term {
	a, aok := p.constStr()
	b, bok := q.constStr()
	if aok && bok {
		return mkBool(a < b)
	}
	ka, kb := segsKey(x.normSegs(st, p.segs)), segsKey(x.normSegs(st, q.segs))
	if ka == kb {
		return tFalse
	}
	if ka.id > kb.id {
		return andT(mkNot(mkApp(SBool, "strlt", nil, nil, kb, ka)), mkNot(x.strEq(st, p, q)))
	}
	return mkApp(SBool, "strlt", nil, nil, ka, kb)
}

// valKey names a value by a term.
func (x *Eng) valKey(st *State, v Value) *Term {
	switch p := v.(type) {
	case *Term:
		return st.f.norm(p)
	case *StrV:
		return segsKey(x.normSegs(st, p.segs))
	case *StructV:
		var a []*Term
		for _, f := range p.f {
			a = append(a, x.valKey(st, f))
		}
		return mkApp(SOther, "struct", nil, nil, a...)
	case *ArrC:
		if len(p.log) == 0 && p.base != nil {
			return p.base
		}
		if c, ok := p.n.constInt(); ok && c <= 64 {
			var a []*Term
			for i := int64(0); i < c; i++ {
				a = append(a, x.valKey(st, x.arrGet(st, p, mkInt(i))))
			}
			return mkApp(SOther, "array", nil, nil, a...)
		}
	case *PtrV:
		if p.obj >= 0 {
			a := []*Term{namedOther(fmt.Sprintf("obj%d", p.obj))}
			if k := x.objs[p.obj].key; k != nil {
				a[0] = k
			}
			f := "ptr"
			for _, e := range p.path {
				if e.idx != nil {
					f += "[]"
					a = append(a, st.f.norm(e.idx))
				} else {
					f += fmt.Sprintf(".%d", e.fld)
				}
			}
			return mkApp(SOther, f, nil, nil, a...)
		}
		return namedOther("nilptr")
	case *IfaceV:
		if p.sym != nil {
			return p.sym
		}
		if p.typ != nil {
			return mkApp(SOther, "if:"+types.TypeString(p.typ, nil), nil, nil, x.valKey(st, p.val))
		}
		return namedOther("niliface")
	case *RT:
		if p.unk {
			return freshOther("type?")
		}
		return namedOther("type:" + fmt.Sprint(p.typ))
	case *RV:
		if p.unk {
			return freshOther("rv?")
		}
		if p.typ == nil {
			return namedOther("zerorv")
		}
		if p.canAddr {
			return mkApp(SOther, "rvloc", nil, nil, x.valKey(st, p.loc))
		}
		return x.valKey(st, p.val)
	case *SliceV:
		k := namedOther(fmt.Sprintf("obj%d", p.obj))
		if p.obj >= 0 && x.objs[p.obj].key != nil {
			k = x.objs[p.obj].key
		}
		return mkApp(SOther, "slice", nil, nil, k, st.f.norm(p.off), st.f.norm(p.len))
	case *MapV:
		if p.obj >= 0 && x.objs[p.obj].key != nil {
			return x.objs[p.obj].key
		}
		return namedOther(fmt.Sprintf("obj%d", p.obj))
	}
	return freshOther("val")
}

// ---- type assertions ----

func (x *Eng) typeAssert(fr *frame, st *State, v Value, in *ssa.TypeAssert) []Res {
	at := in.AssertedType
	fail := func(st *State) []Res {
		if in.CommaOk {
			return one(st, TupleV{x.zeroVal(at), tFalse})
		}
		return []Res{x.pan(st, fr.fn, in.Pos(), "interface conversion: type assertion to %s fails", at)}
	}
	succ := func(st *State, v Value) []Res {
		if in.CommaOk {
			return one(st, TupleV{v, tTrue})
		}
		return one(st, v)
	}
	if rt, ok := v.(*RT); ok {
		rt = x.mustRT(rt)
		if rt.typ == nil {
			return fail(st)
		}
		return succ(st, v)
	}
	p, ok := v.(*IfaceV)
	if !ok {
		x.abort("type assertion of %s", valString(v))
	}
	return x.split(st, p.nilT, func(st *State, isNil bool) []Res {
		if isNil {
			return fail(st)
		}
		if p.typ != nil {
			if types.IsInterface(at) {
				if x.implements(p.typ, at.Underlying().(*types.Interface)) {
					return succ(st, p)
				}
				return fail(st)
			}
			if types.Identical(p.typ, at) {
				return succ(st, p.val)
			}
			return fail(st)
		}
		// unknown dynamic type
		key := p.sym
		if key == nil {
			key = freshOther("dyn")
		}
		c := mkApp(SBool, "typeis:"+types.TypeString(at, nil), nil, nil, key)
		return x.split(st, c, func(st *State, is bool) []Res {
			if !is {
				return fail(st)
			}
			if types.IsInterface(at) {
				n := *p
				n.nilT = tFalse
				return succ(st, &n)
			}
			return succ(st, x.symVal(at, mkApp(SOther, "as:"+types.TypeString(at, nil), nil, nil, key)))
		})
	})
}

func (x *Eng) implements(t types.Type, i *types.Interface) bool {
	return types.Implements(t, i)
}

// ---- maps ----

func (x *Eng) lookup(fr *frame, st *State, v, k Value, commaOk bool, t types.Type, pos token.Pos) []Res {
	if s, ok := v.(*StrV); ok {
		return x.strIndex(fr, st, s, k.(*Term), pos)
	}
	m, ok := v.(*MapV)
	if !ok {
		x.abort("lookup in %s", valString(v))
	}
	var rs []Res
	for _, r := range x.mapGet(st, m, k) {
		tv := r.v.(TupleV)
		if commaOk {
			rs = append(rs, r)
		} else {
			rs = append(rs, Res{st: r.st, v: tv[0]})
		}
	}
	return rs
}

// mapGet returns (value, found) pairs.
func (x *Eng) mapGet(st *State, m *MapV, k Value) []Res {
	if st.f.decide(m.nilT) == 1 {
		return one(st, TupleV{x.zeroVal(m.typ.Elem()), tFalse})
	}
	c, ok := x.content(st, m.obj).(*MapC)
	if !ok {
		x.abort("content of map %s", valString(m))
	}
	return x.mapGetC(st, c, k, len(c.log)-1)
}

func (x *Eng) mapGetC(st *State, c *MapC, k Value, i int) []Res {
	for ; i >= 0; i-- {
		u := c.log[i]
		if u.k != nil {
			// one of a repeated series of insertions: unknown which
			b := freshBool("inmap")
			return x.split(st, b, func(st *State, v bool) []Res {
				if v {
					return one(st, TupleV{x.freshVal(st, c.typ.Elem(), "mapval"), tTrue})
				}
				return x.mapGetC(st, c, k, i-1)
			})
		}
		e := x.eqTerm(st, u.key, k)
		switch st.f.decide(e) {
		case 1:
			if u.del {
				return one(st, TupleV{x.zeroVal(c.typ.Elem()), tFalse})
			}
			return one(st, TupleV{u.val, tTrue})
		case 0:
			continue
		}
		return x.split(st, e, func(st *State, v bool) []Res {
			if v {
				if u.del {
					return one(st, TupleV{x.zeroVal(c.typ.Elem()), tFalse})
				}
				return one(st, TupleV{u.val, tTrue})
			}
			return x.mapGetC(st, c, k, i-1)
		})
	}
	if c.base == nil {
		return one(st, TupleV{x.zeroVal(c.typ.Elem()), tFalse})
	}
	kk := x.valKey(st, k)
	if raw := rawKey(k); raw != nil && x.isMapKey(raw, c.base) {
		kk = raw
	}
	val := func() Value { return x.symVal(c.typ.Elem(), mkApp(SOther, "mapval", nil, nil, c.base, kk)) }
	if root := kk; root.op == OApp {
		// a key obtained from the map itself is present
		if x.isMapKey(kk, c.base) {
			return one(st, TupleV{val(), tTrue})
		}
	}
	return x.split(st, mkApp(SBool, "mapin", nil, nil, c.base, kk), func(st *State, v bool) []Res {
		if v {
			return one(st, TupleV{val(), tTrue})
		}
		return one(st, TupleV{x.zeroVal(c.typ.Elem()), tFalse})
	})
}

// rawKey names a key by the expression it came from.
func rawKey(k Value) *Term {
	switch p := k.(type) {
	case *Term:
		return p
	case *StrV:
		if len(p.segs) == 1 && p.segs[0].kind == segBlob && p.segs[0].off == mkInt(0) {
			return p.segs[0].base
		}
	}
	return nil
}

// isMapKey reports whether a key term stems from the key list of a map.
func (x *Eng) isMapKey(k, base *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OApp && t.str == "mapkeys" && t.args[0] == base {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		for _, b := range t.bits {
			if walk(b.a) {
				return true
			}
		}
		return false
	}
	return walk(k)
}

func (x *Eng) mapSet(st *State, m *MapV, k, v Value, pos token.Pos, fn *ssa.Function) {
	x.mutEvent(st, m.obj, pos, fn)
	c := x.content(st, m.obj).(*MapC)
	st.heap[m.obj] = &MapC{typ: c.typ, base: c.base, len: c.len, log: append(c.log[:len(c.log):len(c.log)], MapUpd{key: k, val: v})}
}

func (x *Eng) mutEvent(st *State, obj int, pos token.Pos, fn *ssa.Function) {
	if obj < 0 {
		return
	}
	if o := x.objs[obj]; o.class == clsInput {
		x.emit(st, &Ev{kind: evMut, pos: pos, fn: fn, what: o.label})
	} else if o.class == clsGlobal && x.initDone && st.locked <= 0 {
		x.emit(st, &Ev{kind: evGlobal, pos: pos, fn: fn, what: o.label})
	}
}

// mapLen is the number of entries.
func (x *Eng) mapLen(st *State, m *MapV) *Term {
	if st.f.decide(m.nilT) == 1 || m.obj < 0 {
		return mkInt(0)
	}
	c := x.content(st, m.obj).(*MapC)
	if len(c.log) == 0 {
		if c.base == nil {
			return mkInt(0)
		}
		return c.len
	}
	// distinct keys known?
	n := 0
	for i, u := range c.log {
		if u.k != nil || u.del {
			n = -1
			break
		}
		for j := 0; j < i; j++ {
			if st.f.decide(x.eqTerm(st, u.key, c.log[j].key)) != 0 {
				n = -1
			}
		}
		if n < 0 {
			break
		}
		n++
	}
	if n >= 0 && c.base == nil {
		return mkInt(int64(n))
	}
	return freshInt("maplen", bigZero, x.maxLen())
}

// ---- iteration ----

func (x *Eng) rangeOver(st *State, v Value) Value {
	switch p := v.(type) {
	case *StrV:
		o := x.newObj(st, "iter", &StructV{f: []Value{mkInt(0), p}})
		return &IterV{obj: o}
	case *MapV:
		o := x.newObj(st, "iter", &StructV{f: []Value{mkInt(0), p}})
		return &IterV{obj: o}
	}
	x.abort("range over %s", valString(v))
	return nil
}

func (x *Eng) next(fr *frame, st *State, it *IterV, in *ssa.Next) []Res {
	c := x.content(st, it.obj).(*StructV)
	n := c.f[0].(*Term)
	set := func(st *State, n *Term) {
		st.heap[it.obj] = &StructV{f: []Value{n, c.f[1]}}
	}
	switch p := c.f[1].(type) {
	case *StrV:
		if explicit(p.segs) {
			p = &StrV{segs: x.normSegs(st, p.segs)}
		}
		if s, ok := p.constStr(); ok {
			if i, ok := st.f.norm(n).constInt(); ok && i >= 0 {
				if i >= int64(len(s)) {
					return one(st, TupleV{tFalse, mkInt(0), mkInt(0)})
				}
				r, w := utf8.DecodeRuneInString(s[i:])
				set(st, mkInt(i+int64(w)))
				return one(st, TupleV{tTrue, mkInt(i), mkInt(int64(r))})
			}
		}
		if i, ok := st.f.norm(n).constInt(); ok && x.hasChars(st, p.segs) {
			if int(i) >= len(p.segs) {
				return one(st, TupleV{tFalse, mkInt(0), mkInt(0)})
			}
			if r, w, ok := x.charAt(st, p.segs, int(i)); ok {
				set(st, mkInt(i+int64(w)))
				return one(st, TupleV{tTrue, mkInt(i), r})
			}
		}
		l := strLen(p)
		key := p.key()
		return x.split(st, mkLt(n, l), func(st *State, v bool) []Res {
			if !v {
				return one(st, TupleV{tFalse, mkInt(0), mkInt(0)})
			}
			w := mkApp(SInt, "runew", bigOne, big.NewInt(4), key, n)
			st.f.assume(mkLe(tAdd(n, w), l), true)
			r := mkApp(SInt, "rune", bigZero, big.NewInt(0x10ffff), key, n)
			set(st, tAdd(n, w))
			return one(st, TupleV{tTrue, n, r})
		})
	case *MapV:
		if st.f.decide(p.nilT) == 1 {
			return one(st, TupleV{tFalse, x.zeroVal(p.typ.Key()), x.zeroVal(p.typ.Elem())})
		}
		m := x.content(st, p.obj).(*MapC)
		if m.base == nil {
			// concrete insertions: delivered in order
			i, ok := st.f.norm(n).constInt()
			simple := ok
			for _, u := range m.log {
				if u.k != nil || u.del {
					simple = false
				}
			}
			if simple {
				if int(i) >= len(m.log) {
					return one(st, TupleV{tFalse, x.zeroVal(p.typ.Key()), x.zeroVal(p.typ.Elem())})
				}
				set(st, mkInt(i+1))
				return one(st, TupleV{tTrue, m.log[i].key, m.log[i].val})
			}
		}
		if m.base == nil || len(m.log) > 0 {
			return x.split(st, freshBool("more"), func(st *State, v bool) []Res {
				if !v {
					return one(st, TupleV{tFalse, x.zeroVal(p.typ.Key()), x.zeroVal(p.typ.Elem())})
				}
				return one(st, TupleV{tTrue, x.freshVal(st, p.typ.Key(), "key"), x.freshVal(st, p.typ.Elem(), "val")})
			})
		}
		kb := mkApp(SOther, "mapkeys", nil, nil, m.base, namedOther(fmt.Sprintf("iter%d", it.obj)))
		return x.split(st, mkLt(n, m.len), func(st *State, v bool) []Res {
			if !v {
				return one(st, TupleV{tFalse, x.zeroVal(p.typ.Key()), x.zeroVal(p.typ.Elem())})
			}
			k := x.symVal(p.typ.Key(), mkApp(SOther, "idx", nil, nil, kb, n))
			val := x.symVal(p.typ.Elem(), mkApp(SOther, "mapval", nil, nil, m.base, x.valKey(st, k)))
			set(st, tAddI(n, 1))
			return one(st, TupleV{tTrue, k, val})
		})
	}
	x.abort("next of %s", valString(c.f[1]))
	return nil
}
