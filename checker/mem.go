package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- engine and state ----

type Class uint8

const (
	clsLocal  Class = iota
	clsInput        // the decoder's input buffer, or the value being encoded
	clsTarget       // the target of a decode
	clsGlobal
)

type objInfo struct {
	generic bool
	label   string
	class   Class
	key     *Term  // symbolic objects
	kind    string // arr, ptr, map
	typ     types.Type
}

type Eng struct {
	lost       int // reads of cells that could not be told apart
	hidden     map[string]int
	base       *State
	prog       *ssa.Program
	pkg        *ssa.Package
	fset       *token.FileSet
	sizes      types.Sizes
	wordBits   int
	objs       []objInfo
	keyObj     map[string]int
	rootClass  map[*Term]Class
	infos      map[*ssa.Function]*fnInfo
	globalObj  map[*ssa.Global]int
	globalInit map[int]Value
	initDone   bool
	opaque     map[*types.Named]bool
	userTypes  map[*types.Named]bool
	arrLen     map[*types.Array]*Term
	keyTypes   map[*Term]types.Type
	trace      bool // value of the tracing switch
	steps      int
	maxSteps   int
	ghost      int // bytes accepted by writers
	ghostRd    int // bytes delivered by readers
	job        *Job
	notes      map[string]int // unsupported constructs met
	fnSeen     map[*ssa.Function]bool
	opaqueFn   map[*ssa.Function]bool
	instrs     int
	loopsSum   int
	callSites  int
	obls       int
}

type State struct {
	f         *Facts
	heap      map[int]Value
	trace     []*Ev
	stack     []*ssa.Function
	panicking *PanicV
	recovered bool
	locked    int
}

type PanicV struct {
	why string
	pos token.Pos
	fn  *ssa.Function
	val Value
	exp bool // explicit panic call
}

func (s *State) clone() *State {
	n := &State{f: s.f.clone(), trace: s.trace[:len(s.trace):len(s.trace)], stack: s.stack, panicking: s.panicking, recovered: s.recovered, locked: s.locked}
	n.heap = make(map[int]Value, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

type EvKind uint8

const (
	evWrite EvKind = iota
	evUser
	evLoop
	evMut    // write to the input
	evGlobal // write to package state
	evAlloc
	evUnknown
	evSort
	evByteRead // io.ByteReader.ReadByte
	evTrip
)

type Ev struct {
	kind EvKind
	pos  token.Pos
	fn   *ssa.Function

	segs []Seg
	n    *Term
	err  *IfaceV

	enc        bool
	typ        types.Type
	val        Value
	loc        *PtrV
	res        *Term
	pos0, pos1 *Term
	method     string

	k     *Term
	count *Term
	alts  []Alt

	what string
	ok   bool
}

type Alt struct {
	first bool
	evs   []*Ev
	st    *State
}

func (x *Eng) emit(st *State, e *Ev) {
	if e.kind == evUnknown {
		st.f.fuzzy = true
	}
	st.trace = append(st.trace[:len(st.trace):len(st.trace)], e)
}

func (x *Eng) newObj(st *State, label string, content Value) int {
	x.objs = append(x.objs, objInfo{label: label})
	id := len(x.objs) - 1
	st.heap[id] = content
	return id
}

func rootOf(t *Term) *Term {
	for t.op == OApp && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

// symObj returns the object of a symbolic reference.
func (x *Eng) symObj(kind string, typ types.Type, key *Term) int {
	k := fmt.Sprintf("%s:%d", kind, key.id)
	if o, ok := x.keyObj[k]; ok {
		return o
	}
	x.objs = append(x.objs, objInfo{label: key.String(), key: key, kind: kind, typ: typ, class: x.rootClass[rootOf(key)]})
	id := len(x.objs) - 1
	x.keyObj[k] = id
	return id
}

func (x *Eng) content(st *State, obj int) Value {
	if v, ok := st.heap[obj]; ok {
		return v
	}
	if obj < 0 || obj >= len(x.objs) {
		return nil
	}
	if v, ok := x.globalInit[obj]; ok {
		return v
	}
	o := x.objs[obj]
	if o.key == nil {
		return nil
	}
	var v Value
	switch o.kind {
	case "arr":
		v = &ArrC{n: mkApp(SInt, "cap", bigZero, x.maxLen(), o.key), elem: o.typ, base: o.key}
	case "ptr":
		v = x.symVal(o.typ, o.key)
	case "map":
		v = &MapC{typ: o.typ.Underlying().(*types.Map), base: o.key, len: mkApp(SInt, "len", bigZero, x.maxLen(), o.key)}
	}
	return v
}

func (x *Eng) maxLen() *big.Int {
	if x.wordBits == 32 {
		return new(big.Int).Sub(pow2(31), bigOne)
	}
	return pow2(47)
}

// ---- types ----

func (x *Eng) intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		w = 8
	case types.Int16, types.Uint16:
		w = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		w = 32
	case types.Int64, types.Uint64:
		w = 64
	default:
		w = x.wordBits
	}
	return w, signed, true
}

func intRange(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), bigOne)
	}
	return bigZero, new(big.Int).Sub(pow2(w), bigOne)
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// symVal is the unknown value of a type identified by key.
func (x *Eng) symVal(t types.Type, key *Term) Value {
	if n, ok := t.(*types.Named); ok {
		if x.opaque[n] {
			return key
		}
		if isReflectValue(t) {
			return &RV{unk: true}
		}
		if isNamed(t, "math/big", "Int") {
			return &BigV{mkApp(SInt, "bigint", nil, nil, key)}
		}
	}
	if isReflectType(t) {
		return &RT{unk: true}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkApp(SBool, "bool", nil, nil, key)
		case u.Info()&types.IsInteger != 0:
			w, s, _ := x.intInfo(t)
			if w == 8 && !s && key.op == OApp && key.str == "idx" {
				return byteCell(key.args[0], key.args[1])
			}
			lo, hi := intRange(w, s)
			return mkApp(SInt, fmt.Sprintf("int%d%v", w, s), lo, hi, key)
		case u.Info()&types.IsString != 0:
			b := mkApp(SOther, "str", nil, nil, key)
			return &StrV{segs: []Seg{{kind: segBlob, base: b, off: mkInt(0), n: mkApp(SInt, "len", bigZero, x.maxLen(), b)}}}
		case u.Kind() == types.UnsafePointer:
			return key
		}
		return mkApp(SOther, "num", nil, nil, key)
	case *types.Struct:
		sv := &StructV{typ: t, f: make([]Value, u.NumFields())}
		for i := range sv.f {
			sv.f[i] = x.symVal(u.Field(i).Type(), mkApp(SOther, fmt.Sprintf("fld%d", i), nil, nil, key))
		}
		return sv
	case *types.Array:
		return &ArrC{n: x.arrayLen(u), elem: u.Elem(), base: key}
	case *types.Slice:
		o := x.symObj("arr", u.Elem(), key)
		l := mkApp(SInt, "len", bigZero, x.maxLen(), key)
		return &SliceV{obj: o, off: mkInt(0), len: l, cap: mkApp(SInt, "cap", bigZero, x.maxLen(), key), nilT: mkApp(SBool, "nilslice", nil, nil, key), elem: u.Elem()}
	case *types.Pointer:
		o := x.symObj("ptr", u.Elem(), mkApp(SOther, "deref", nil, nil, key))
		return &PtrV{nilT: mkApp(SBool, "nil", nil, nil, key), obj: o, elem: u.Elem()}
	case *types.Map:
		o := x.symObj("map", t, key)
		return &MapV{nilT: mkApp(SBool, "nilmap", nil, nil, key), obj: o, typ: u}
	case *types.Interface:
		return &IfaceV{nilT: mkApp(SBool, "nil", nil, nil, key), sym: key}
	case *types.Signature:
		return &FuncV{nilT: mkApp(SBool, "nil", nil, nil, key), sym: key}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = x.symVal(u.At(i).Type(), mkApp(SOther, fmt.Sprintf("tup%d", i), nil, nil, key))
		}
		return tv
	}
	return key
}

// symFacts adds the definitional facts of a symbolic slice (len <= cap).
func (x *Eng) symFacts(st *State, v Value) {
	switch v := v.(type) {
	case *SliceV:
		if v.obj < 0 {
			return
		}
		if o := x.objs[v.obj]; o.key != nil && v.len.op == OApp && v.cap.op == OApp && v.cap.str == "cap" {
			st.f.assume(mkLe(v.len, v.cap), true)
		}
	case *StructV:
		for _, f := range v.f {
			x.symFacts(st, f)
		}
	}
}

func (x *Eng) freshVal(st *State, t types.Type, name string) Value {
	v := x.symVal(t, freshOther(name))
	x.symFacts(st, v)
	return v
}

func (x *Eng) arrayLen(a *types.Array) *Term {
	if t, ok := x.arrLen[a]; ok {
		return t
	}
	return mkInt(a.Len())
}

func (x *Eng) zeroVal(t types.Type) Value {
	if n, ok := t.(*types.Named); ok {
		if x.opaque[n] {
			return mkApp(SOther, "zero:"+n.Obj().Name(), nil, nil)
		}
		if isReflectValue(t) {
			return &RV{}
		}
		if isNamed(t, "math/big", "Int") {
			return &BigV{mkInt(0)}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return &StrV{}
		case u.Kind() == types.UntypedNil:
			return nilIface()
		}
		return floatConst("0")
	case *types.Struct:
		sv := &StructV{typ: t, f: make([]Value, u.NumFields())}
		for i := range sv.f {
			sv.f[i] = x.zeroVal(u.Field(i).Type())
		}
		return sv
	case *types.Array:
		return &ArrC{n: x.arrayLen(u), elem: u.Elem()}
	case *types.Slice:
		return &SliceV{obj: -1, off: mkInt(0), len: mkInt(0), cap: mkInt(0), nilT: tTrue, elem: u.Elem()}
	case *types.Pointer:
		return &PtrV{nilT: tTrue, obj: -1, elem: u.Elem()}
	case *types.Map:
		return &MapV{nilT: tTrue, obj: -1, typ: u}
	case *types.Interface:
		return nilIface()
	case *types.Signature:
		return &FuncV{nilT: tTrue}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = x.zeroVal(u.At(i).Type())
		}
		return tv
	}
	return mkApp(SOther, "zero", nil, nil)
}

func floatConst(s string) *Term { return mkApp(SOther, "fconst:"+s, nil, nil) }

// ---- paths ----

func (x *Eng) getPath(st *State, v Value, path []PathEl) Value {
	for _, p := range path {
		switch c := v.(type) {
		case *StructV:
			if p.idx != nil || p.fld >= len(c.f) {
				return nil
			}
			v = c.f[p.fld]
		case *ArrC:
			if p.idx == nil {
				return nil
			}
			v = x.arrGet(st, c, p.idx)
		default:
			return nil
		}
	}
	return v
}

func (x *Eng) setPath(st *State, v Value, path []PathEl, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch c := v.(type) {
	case *StructV:
		n := &StructV{typ: c.typ, f: append([]Value(nil), c.f...)}
		if p.idx == nil && p.fld < len(n.f) {
			n.f[p.fld] = x.setPath(st, n.f[p.fld], path[1:], nv)
		}
		return n
	case *ArrC:
		if p.idx == nil {
			return v
		}
		if len(path) > 1 {
			nv = x.setPath(st, x.arrGet(st, c, p.idx), path[1:], nv)
		}
		return c.with(st, Upd{start: p.idx, vals: []Value{nv}})
	}
	return v
}

func (c *ArrC) with(st *State, u Upd) *ArrC {
	log := c.log
	// overwrite an earlier explicit update of exactly the same cells
	if u.vals != nil {
		for i := len(log) - 1; i >= 0; i-- {
			if log[i].vals == nil {
				break
			}
			if len(log[i].vals) == len(u.vals) && log[i].start == u.start {
				nl := append([]Upd(nil), log...)
				nl[i] = u
				return &ArrC{n: c.n, elem: c.elem, base: c.base, log: nl}
			}
			d := tSub(log[i].start, u.start)
			if dc, ok := d.constInt(); !ok || (dc < int64(len(u.vals)) && -dc < int64(len(log[i].vals))) {
				break
			}
		}
	}
	return &ArrC{n: c.n, elem: c.elem, base: c.base, log: append(log[:len(log):len(log)], u)}
}

func (x *Eng) load(st *State, p *PtrV) Value {
	v := x.content(st, p.obj)
	r := x.getPath(st, v, p.path)
	if r == nil {
		x.note("load of unknown content")
		if p.elem != nil {
			return x.freshVal(st, p.elem, "unk")
		}
		return freshOther("unk")
	}
	return r
}

func (x *Eng) store(st *State, p *PtrV, v Value, pos token.Pos, fn *ssa.Function) {
	if p.obj < 0 {
		return
	}
	x.mutEvent(st, p.obj, pos, fn)
	st.heap[p.obj] = x.setPath(st, x.content(st, p.obj), p.path, v)
}

func (x *Eng) note(s string) {
	if x.notes != nil {
		x.notes[s]++
	}
}

// ---- arrays ----

func (x *Eng) cellVal(a *ArrC, idx *Term) Value {
	if a.base == nil {
		return x.zeroVal(a.elem)
	}
	if isReflectValue(a.elem) {
		if t := x.keyTypeOf(a.base); t != nil {
			return &RV{typ: t, val: x.symVal(t, mkApp(SOther, "idx", nil, nil, a.base, idx))}
		}
	}
	return x.symVal(a.elem, mkApp(SOther, "idx", nil, nil, a.base, idx))
}

// keyTypeOf is the key type of a list of map keys.
func (x *Eng) keyTypeOf(base *Term) types.Type {
	for b := base; b != nil && b.op == OApp; {
		if t, ok := x.keyTypes[b]; ok {
			return t
		}
		if len(b.args) == 0 {
			break
		}
		b = b.args[0]
	}
	return nil
}

// arrGet reads one cell.
func (x *Eng) arrGet(st *State, a *ArrC, idx *Term) Value {
	idx = st.f.norm(idx)
	for i := len(a.log) - 1; i >= 0; i-- {
		u := a.log[i]
		end := tAdd(u.start, u.size())
		if st.f.le(u.start, idx) && st.f.lt(idx, end) {
			off := st.f.norm(tSub(idx, u.start))
			switch {
			case u.vals != nil:
				if c, ok := off.constInt(); ok {
					return u.vals[c]
				}
				same := true
				for _, v := range u.vals[1:] {
					if !x.eqVal(st, v, u.vals[0]) {
						same = false
					}
				}
				if same {
					return u.vals[0]
				}
				return x.someCell(st, a)
			case u.rep != nil:
				w := int64(len(u.rep))
				for r := int64(0); r < w; r++ {
					if q, ok := divExact(tAddI(off, -r), w); ok {
						return x.substVal(st, u.rep[r], map[*Term]*Term{u.k: q})
					}
				}
				return x.someCell(st, a)
			case u.segs != nil:
				if b := x.segsGet(st, u.segs, off); b != nil {
					return b
				}
				return x.someCell(st, a)
			default:
				return x.arrGet(st, u.src, tAdd(u.srcOff, off))
			}
		}
		if st.f.lt(idx, u.start) || st.f.le(end, idx) {
			continue
		}
		return x.someCell(st, a)
	}
	return x.cellVal(a, idx)
}

// someCell is the value of a cell of which only the array is known.
func (x *Eng) someCell(st *State, a *ArrC) Value {
	if isReflectValue(a.elem) {
		// still a value of the type that all cells have, if they do
		var typ types.Type
		one := x.eachCell(a, 0, func(v Value) bool {
			r, ok := v.(*RV)
			if !ok || r.typ == nil || r.canAddr || r.ro || r.unk || typ != nil && !types.Identical(typ, r.typ) {
				return false
			}
			typ = r.typ
			return true
		})
		if one && typ != nil {
			x.lost++
			return &RV{typ: typ, val: x.freshVal(st, typ, "cell?")}
		}
	}
	x.lost++
	return x.freshVal(st, a.elem, "cell?")
}

// eachCell visits every value a cell of a was given; false when f rejects one
// or the values are not listed.
func (x *Eng) eachCell(a *ArrC, depth int, f func(Value) bool) bool {
	if depth > 40 {
		return false
	}
	for _, u := range a.log {
		switch {
		case u.vals != nil:
			for _, v := range u.vals {
				if !f(v) {
					return false
				}
			}
		case u.rep != nil:
			for _, v := range u.rep {
				if !f(v) {
					return false
				}
			}
		case u.segs != nil:
			return false
		default:
			if u.src == nil || !x.eachCell(u.src, depth+1, f) {
				return false
			}
		}
	}
	return true
}

// divExact divides an affine term by w when that is exact.
func divExact(t *Term, w int64) (*Term, bool) {
	if w == 1 {
		return t, true
	}
	bw := big.NewInt(w)
	l := toLin(t)
	n := newLin()
	m := new(big.Int)
	n.c.QuoRem(l.c, bw, m)
	if m.Sign() != 0 {
		return nil, false
	}
	for a, k := range l.m {
		q, r := new(big.Int).QuoRem(k, bw, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		n.m[a] = q
	}
	return n.term(), true
}

func (x *Eng) segsGet(st *State, segs []Seg, off *Term) *Term {
	pos := mkInt(0)
	for _, g := range segs {
		end := tAdd(pos, g.size())
		if st.f.le(pos, off) && st.f.lt(off, end) {
			o := st.f.norm(tSub(off, pos))
			switch g.kind {
			case segByte:
				return g.b
			case segBlob:
				return byteCell(g.base, st.f.norm(tAdd(g.off, o)))
			case segRep:
				w := int64(len(g.body))
				for r := int64(0); r < w; r++ {
					if g.body[r].kind != segByte {
						return nil
					}
					if q, ok := divExact(tAddI(o, -r), w); ok {
						return substTerm(g.body[r].b, map[*Term]*Term{g.k: q}, map[*Term]*Term{})
					}
				}
			}
			return nil
		}
		if !st.f.le(end, off) {
			return nil
		}
		pos = end
	}
	return nil
}

// subSegs is the part [off,off+n) of a sequence.
func (x *Eng) subSegs(st *State, segs []Seg, off, n *Term) []Seg {
	total := segsLen(segs)
	if st.f.eq(off, mkInt(0)) && st.f.eq(n, total) {
		return segs
	}
	end := tAdd(off, n)
	var out []Seg
	pos := mkInt(0)
	for _, g := range segs {
		ge := tAdd(pos, g.size())
		switch {
		case st.f.le(ge, off) || st.f.le(end, pos):
		case st.f.le(off, pos) && st.f.le(ge, end):
			out = append(out, g)
		case g.kind == segBlob:
			lo, hi := pos, ge
			if st.f.le(pos, off) {
				lo = off
			} else if !st.f.le(off, pos) {
				return []Seg{{kind: segTop, n: n}}
			}
			if st.f.le(end, ge) {
				hi = end
			} else if !st.f.le(ge, end) {
				return []Seg{{kind: segTop, n: n}}
			}
			out = append(out, Seg{kind: segBlob, base: g.base, off: tAdd(g.off, tSub(lo, pos)), n: tSub(hi, lo)})
		default:
			return []Seg{{kind: segTop, n: n}}
		}
		pos = ge
	}
	return out
}

// arrSegs is the byte sequence in cells [off,off+n).
func (x *Eng) arrSegs(st *State, a *ArrC, off, n *Term) []Seg {
	f := st.f
	off, n = f.norm(off), f.norm(n)
	end := f.norm(tAdd(off, n))
	cur := off
	var out []Seg
	for iter := 0; iter < 400; iter++ {
		if f.eq(cur, end) {
			return x.normSegs(st, out)
		}
		// the newest update covering cur
		hit := -1
		unknown := false
		for i := len(a.log) - 1; i >= 0; i-- {
			u := a.log[i]
			ue := tAdd(u.start, u.size())
			if f.eq(u.size(), mkInt(0)) {
				continue
			}
			if f.le(u.start, cur) && f.lt(cur, ue) {
				hit = i
				break
			}
			if f.eq(u.start, cur) {
				// possibly empty, but if it is not it covers cur
				hit = i
				break
			}
			if f.le(cur, u.start) || f.le(ue, cur) {
				continue
			}
			unknown = true
			break
		}
		if unknown {
			out = append(out, Seg{kind: segTop, n: tSub(end, cur)})
			return out
		}
		limit := end
		// newer updates that start after cur limit the usable run
		if hit >= 0 {
			u := a.log[hit]
			ue := tAdd(u.start, u.size())
			if f.le(ue, limit) {
				limit = ue
			} else if !f.le(limit, ue) {
				out = append(out, Seg{kind: segTop, n: tSub(end, cur)})
				return out
			}
		}
		bad := false
		for j := len(a.log) - 1; j > hit; j-- {
			u := a.log[j]
			if f.eq(u.size(), mkInt(0)) {
				continue
			}
			if f.le(tAdd(u.start, u.size()), cur) || f.le(limit, u.start) {
				continue
			}
			if f.le(cur, u.start) && f.le(u.start, limit) {
				limit = u.start
				continue
			}
			bad = true
		}
		if bad {
			// cell by cell
			if f.lt(cur, end) {
				if b, ok := x.arrGet(st, a, cur).(*Term); ok {
					out = append(out, Seg{kind: segByte, b: b})
					cur = f.norm(tAddI(cur, 1))
					continue
				}
			}
			out = append(out, Seg{kind: segTop, n: tSub(end, cur)})
			return out
		}
		run := f.norm(tSub(limit, cur))
		if hit < 0 {
			if a.base == nil {
				if c, ok := run.constInt(); ok && c <= 256 {
					for i := int64(0); i < c; i++ {
						out = append(out, Seg{kind: segByte, b: mkInt(0)})
					}
				} else {
					k := freshInt("z", bigZero, nil)
					out = append(out, Seg{kind: segRep, k: k, n: run, body: []Seg{{kind: segByte, b: mkInt(0)}}})
				}
			} else {
				out = append(out, Seg{kind: segBlob, base: a.base, off: cur, n: run})
			}
			cur = f.norm(limit)
			continue
		}
		u := a.log[hit]
		o := f.norm(tSub(cur, u.start))
		switch {
		case u.vals != nil:
			c, ok := o.constInt()
			r, ok2 := run.constInt()
			if !ok || !ok2 {
				out = append(out, Seg{kind: segTop, n: tSub(end, cur)})
				return out
			}
			for i := c; i < c+r && i < int64(len(u.vals)); i++ {
				b, _ := u.vals[i].(*Term)
				if b == nil {
					out = append(out, Seg{kind: segTop, n: tSub(end, cur)})
					return out
				}
				out = append(out, Seg{kind: segByte, b: b})
			}
		case u.rep != nil:
			if f.eq(o, mkInt(0)) && f.eq(run, u.size()) {
				var body []Seg
				for _, v := range u.rep {
					b, _ := v.(*Term)
					if b == nil {
						b = freshInt("b?", bigZero, big.NewInt(255))
					}
					body = append(body, Seg{kind: segByte, b: b})
				}
				out = append(out, Seg{kind: segRep, k: u.k, n: u.count, body: body})
			} else {
				out = append(out, Seg{kind: segTop, n: tSub(end, cur)})
				return out
			}
		case u.segs != nil:
			out = append(out, x.subSegs(st, u.segs, o, run)...)
		default:
			out = append(out, x.arrSegs(st, u.src, tAdd(u.srcOff, o), run)...)
		}
		cur = f.norm(limit)
	}
	return append(out, Seg{kind: segTop, n: tSub(end, cur)})
}

// sliceSegs is the byte content of a slice.
func (x *Eng) sliceSegs(st *State, s *SliceV) []Seg {
	if s.obj < 0 || st.f.eq(s.len, mkInt(0)) {
		return nil
	}
	a := x.arrOf(st, s)
	if a == nil {
		return []Seg{{kind: segTop, n: s.len}}
	}
	return x.arrSegs(st, a, s.off, s.len)
}

// arrOf is the backing array of a slice.
func (x *Eng) arrOf(st *State, s *SliceV) *ArrC {
	if s.obj < 0 {
		return &ArrC{n: mkInt(0), elem: s.elem}
	}
	a, _ := x.getPath(st, x.content(st, s.obj), s.path).(*ArrC)
	return a
}

// setArr replaces the backing array of a slice.
func (x *Eng) setArr(st *State, s *SliceV, a *ArrC, pos token.Pos, fn *ssa.Function) {
	if s.obj < 0 {
		return
	}
	x.mutEvent(st, s.obj, pos, fn)
	st.heap[s.obj] = x.setPath(st, x.content(st, s.obj), s.path, a)
}

func samePath(st *State, p, q []PathEl) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i].fld != q[i].fld || (p[i].idx == nil) != (q[i].idx == nil) {
			return false
		}
		if p[i].idx != nil && !st.f.eq(p[i].idx, q[i].idx) {
			return false
		}
	}
	return true
}

// normSegs merges blobs, drops empty pieces and unfolds small constant ones.
func (x *Eng) normSegs(st *State, in []Seg) []Seg {
	f := st.f
	var out []Seg
	for _, g := range in {
		switch g.kind {
		case segByte, segUv, segSv:
			g.b = f.norm(g.b)
			if g.kind == segUv {
				if e := uvBytes(f, g.b); e != nil {
					out = append(out, e...)
					continue
				}
			}
		case segBlob:
			g.n = f.norm(g.n)
			g.off = f.norm(g.off)
			g.base = f.norm(g.base)
			if f.eq(g.n, mkInt(0)) {
				continue
			}
			if len(out) > 0 {
				p := &out[len(out)-1]
				if p.kind == segBlob && p.base == g.base && f.eq(tAdd(p.off, p.n), g.off) {
					p.n = f.norm(tAdd(p.n, g.n))
					continue
				}
			}
		case segRep:
			g.n = f.norm(g.n)
			if f.eq(g.n, mkInt(0)) {
				continue
			}
			// a run of consecutive cells is a blob
			if len(g.body) == 1 && g.body[0].kind == segByte {
				b := g.body[0].b
				if b.op == OApp && b.str == "cell" && !mentions(b.args[0], map[*Term]bool{g.k: true}, map[*Term]bool{}) {
					d := tSub(b.args[1], g.k)
					if !mentions(d, map[*Term]bool{g.k: true}, map[*Term]bool{}) {
						g = Seg{kind: segBlob, base: f.norm(b.args[0]), off: f.norm(d), n: g.n}
					}
				}
			}
			if c, ok := g.n.constInt(); ok && c <= 64 && g.kind == segRep {
				for i := int64(0); i < c; i++ {
					out = append(out, x.normSegs(st, substSegs(g.body, map[*Term]*Term{g.k: mkInt(i)}))...)
				}
				continue
			}
		}
		if g.kind == segBlob {
			if c, ok := g.n.constInt(); ok && c <= 64 {
				for i := int64(0); i < c; i++ {
					out = append(out, Seg{kind: segByte, b: byteCell(g.base, f.norm(tAddI(g.off, i)))})
				}
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// eqSegs compares two byte sequences under the facts.
func (x *Eng) eqSegs(st *State, a, b []Seg) bool {
	fuel := 64
	return x.eqSegsN(st, x.normSegs(st, a), x.normSegs(st, b), &fuel)
}

func (x *Eng) eqSegsN(st *State, a, b []Seg, fuel *int) bool {
	f := st.f
	rep := func(s []Seg) bool { return len(s) > 0 && s[0].kind == segRep }
	for len(a) > 0 && len(b) > 0 {
		p, q := a[0], b[0]
		if p.kind != segRep && q.kind != segRep || p.kind == q.kind && f.eq(p.n, q.n) {
			if !x.eqSeg(st, p, q) {
				return false
			}
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	switch {
	case len(a) == 0 && len(b) == 0:
		return true
	case *fuel <= 0:
		return false
	}
	*fuel--
	if rep(a) && rep(b) {
		// of two repetitions, the longer one is taken apart
		d, ok := f.norm(tSub(a[0].n, b[0].n)).constInt()
		switch {
		case !ok:
			return false
		case d < 0:
			a, b = b, a
		}
		if f.le(mkInt(1), a[0].n) {
			if x.eqSegsN(st, x.normSegs(st, unrepLast(a)), b, fuel) {
				return true
			}
			return x.eqSegsN(st, x.normSegs(st, unrepFirst(a)), b, fuel)
		}
		return false
	}
	if rep(b) {
		a, b = b, a
	}
	if !rep(a) {
		return false
	}
	switch {
	case f.le(a[0].n, mkInt(0)):
		return x.eqSegsN(st, a[1:], b, fuel)
	case f.le(mkInt(1), a[0].n):
		return x.eqSegsN(st, x.normSegs(st, unrepFirst(a)), b, fuel)
	}
	return false
}

// unrepFirst takes the first round off a leading repetition.
func unrepFirst(a []Seg) []Seg {
	g := a[0]
	out := append([]Seg(nil), substSegs(g.body, map[*Term]*Term{g.k: mkInt(0)})...)
	k := freshInt("k", bigZero, nil)
	r := g
	r.k, r.n, r.body = k, tAddI(g.n, -1), substSegs(g.body, map[*Term]*Term{g.k: tAddI(k, 1)})
	return append(append(out, r), a[1:]...)
}

// unrepLast takes the last round off a leading repetition.
func unrepLast(a []Seg) []Seg {
	g := a[0]
	r := g
	r.n = tAddI(g.n, -1)
	out := append([]Seg{r}, substSegs(g.body, map[*Term]*Term{g.k: r.n})...)
	return append(out, a[1:]...)
}

func (x *Eng) eqSeg(st *State, p, q Seg) bool {
	f := st.f
	if p.kind != q.kind {
		return false
	}
	switch p.kind {
	case segByte, segUv, segSv:
		return x.eqInt(st, p.b, q.b)
	case segBlob:
		if p.base != q.base {
			// the same number has the same text
			d := mkInt(0)
			dec := func(t *Term) bool { return t.op == OApp && t.str == "dec" }
			whole := func(g Seg) bool {
				return g.off == d && g.n == mkApp(SInt, "declen", bigOne, big.NewInt(60), g.base.args[0])
			}
			return dec(p.base) && dec(q.base) && whole(p) && whole(q) && x.eqInt(st, p.base.args[0], q.base.args[0])
		}
		return f.eq(p.off, q.off) && f.eq(p.n, q.n)
	case segRep:
		if !f.eq(p.n, q.n) {
			return false
		}
		k := freshInt("k", bigZero, nil)
		s2 := st.clone()
		s2.f.assume(mkLt(k, p.n), true)
		return x.eqSegs(s2, substSegs(p.body, map[*Term]*Term{p.k: k}), substSegs(q.body, map[*Term]*Term{q.k: k}))
	}
	return false
}

func (x *Eng) eqInt(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	a, b = st.f.norm(a), st.f.norm(b)
	if a == b || st.f.eq(a, b) {
		return true
	}
	if a.sort == SInt && b.sort == SInt && a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		p, q := st.f.bitsOf(a, 136), st.f.bitsOf(b, 136)
		same := true
		for i := range p {
			if p[i] != q[i] {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	return bitLin(st, a) == bitLin(st, b)
}

// bitLin rewrites an integer as a linear form over single bits.
func bitLin(st *State, t *Term) *Term {
	l := toLin(t)
	out := newLin()
	out.c.Set(l.c)
	for a, k := range l.m {
		if a.op != OBits {
			out.addTerm(a, k)
			continue
		}
		for i, b := range a.bits {
			v := new(big.Int).Mul(k, pow2(i))
			if a.signed && i == len(a.bits)-1 {
				v.Neg(v)
			}
			if c, ok := st.f.knownBit(b); ok {
				b = c
			}
			switch {
			case b.a == nil:
				if b.i == 1 {
					out.c.Add(out.c, v)
				}
			case b.neg:
				out.c.Add(out.c, v)
				out.addTerm(bitTerm(Bit{a: b.a, i: b.i}), new(big.Int).Neg(v))
			default:
				out.addTerm(bitTerm(b), v)
			}
		}
	}
	return out.term()
}

// ---- value equality and substitution ----

func (x *Eng) eqVal(st *State, a, b Value) bool {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			return false
		}
		if p.sort == SInt && q.sort == SInt {
			return x.eqInt(st, p, q)
		}
		p, q = st.f.norm(p), st.f.norm(q)
		if p == q {
			return true
		}
		if p.sort == SBool {
			dp, dq := st.f.decide(p), st.f.decide(q)
			if dp >= 0 || dq >= 0 {
				return dp == dq
			}
			// equivalent under both truth values
			for _, v := range []bool{true, false} {
				f := st.f.clone()
				if f.assume(p, v) && (f.decide(q) == 1) != v {
					return false
				}
				if f.decide(q) < 0 && !f.dead {
					return false
				}
			}
			return true
		}
		return st.f.eq(p, q)
	case *StrV:
		q, ok := b.(*StrV)
		return ok && x.eqSegs(st, p.segs, q.segs)
	case *SliceV:
		q, ok := b.(*SliceV)
		if !ok {
			return false
		}
		if st.f.eq(p.len, mkInt(0)) && st.f.eq(q.len, mkInt(0)) {
			return true
		}
		return p.obj == q.obj && samePath(st, p.path, q.path) && st.f.eq(p.off, q.off) && st.f.eq(p.len, q.len)
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok {
			return false
		}
		np, nq := st.f.decide(p.nilT), st.f.decide(q.nilT)
		if np == 1 && nq == 1 {
			return true
		}
		return p.obj == q.obj && np == nq && samePath(st, p.path, q.path)
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !x.eqVal(st, p.f[i], q.f[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		np, nq := st.f.decide(p.nilT), st.f.decide(q.nilT)
		if np == 1 && nq == 1 {
			return true
		}
		if p == q {
			return true
		}
		if np != nq && st.f.norm(p.nilT) != st.f.norm(q.nilT) {
			return false
		}
		if p.typ != nil && q.typ != nil && types.Identical(p.typ, q.typ) {
			return x.eqVal(st, p.val, q.val)
		}
		return p.sym != nil && p.sym == q.sym
	case *RV:
		q, ok := b.(*RV)
		if !ok || p.unk || q.unk {
			return false
		}
		if p.typ == nil || q.typ == nil {
			return p.typ == nil && q.typ == nil
		}
		if p.canAddr && q.canAddr {
			return x.eqVal(st, p.loc, q.loc)
		}
		return p.canAddr == q.canAddr && x.eqVal(st, p.val, q.val)
	case *RT:
		q, ok := b.(*RT)
		return ok && !p.unk && !q.unk && sameType(p.typ, q.typ)
	case *ArrC:
		q, ok := b.(*ArrC)
		if !ok || !st.f.eq(p.n, q.n) {
			return false
		}
		if p == q {
			return true
		}
		if p.base == q.base && len(p.log) == 0 && len(q.log) == 0 {
			return true
		}
		if c, ok := p.n.constInt(); ok && c <= 64 {
			for i := int64(0); i < c; i++ {
				if !x.eqVal(st, x.arrGet(st, p, mkInt(i)), x.arrGet(st, q, mkInt(i))) {
					return false
				}
			}
			return true
		}
		k := freshInt("i", bigZero, nil)
		s2 := st.clone()
		s2.f.assume(mkLt(k, p.n), true)
		return x.eqVal(s2, x.arrGet(s2, p, k), x.arrGet(s2, q, k))
	case *MapV:
		q, ok := b.(*MapV)
		return ok && p.obj == q.obj
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !x.eqVal(st, p[i], q[i]) {
				return false
			}
		}
		return true
	case *FuncV:
		q, ok := b.(*FuncV)
		return ok && p.fn == q.fn && p.sym == q.sym
	case *MapC:
		q, ok := b.(*MapC)
		return ok && (p == q || (p.base == q.base && len(p.log) == 0 && len(q.log) == 0))
	case *BigV:
		q, ok := b.(*BigV)
		return ok && x.eqInt(st, p.t, q.t)
	case nil:
		return b == nil
	}
	return a == b
}

func substPath(p []PathEl, s func(*Term) *Term) []PathEl {
	var out []PathEl
	for _, e := range p {
		if e.idx != nil {
			e.idx = s(e.idx)
		}
		out = append(out, e)
	}
	return out
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == b
	}
	return types.Identical(a, b)
}

func (x *Eng) substObj(obj int, m map[*Term]*Term) int {
	if obj < 0 || x.objs[obj].key == nil {
		return obj
	}
	o := x.objs[obj]
	k := substTerm(o.key, m, map[*Term]*Term{})
	if k == o.key {
		return obj
	}
	return x.symObj(o.kind, o.typ, k)
}

func (x *Eng) substVal(st *State, v Value, m map[*Term]*Term) Value {
	if len(m) == 0 {
		return v
	}
	memo := map[*Term]*Term{}
	s := func(t *Term) *Term { return substTerm(t, m, memo) }
	switch p := v.(type) {
	case *Term:
		return s(p)
	case *StrV:
		return &StrV{segs: substSegs(p.segs, m)}
	case *SliceV:
		return &SliceV{obj: x.substObj(p.obj, m), path: substPath(p.path, s), off: s(p.off), len: s(p.len), cap: s(p.cap), nilT: s(p.nilT), elem: p.elem}
	case *PtrV:
		return &PtrV{nilT: s(p.nilT), obj: x.substObj(p.obj, m), path: substPath(p.path, s), elem: p.elem}
	case *BigV:
		return &BigV{s(p.t)}
	case *StructV:
		n := &StructV{typ: p.typ, f: make([]Value, len(p.f))}
		for i, f := range p.f {
			n.f[i] = x.substVal(st, f, m)
		}
		return n
	case *IfaceV:
		n := *p
		n.nilT = s(p.nilT)
		if p.sym != nil {
			n.sym = s(p.sym)
		}
		if p.val != nil {
			n.val = x.substVal(st, p.val, m)
		}
		return &n
	case *RV:
		n := *p
		if p.loc != nil {
			n.loc = x.substVal(st, p.loc, m).(*PtrV)
		}
		if p.val != nil {
			n.val = x.substVal(st, p.val, m)
		}
		return &n
	case *MapV:
		return &MapV{nilT: s(p.nilT), obj: x.substObj(p.obj, m), typ: p.typ}
	case TupleV:
		n := make(TupleV, len(p))
		for i := range p {
			n[i] = x.substVal(st, p[i], m)
		}
		return n
	case *FuncV:
		n := *p
		n.bind = nil
		for _, b := range p.bind {
			n.bind = append(n.bind, x.substVal(st, b, m))
		}
		return &n
	case *ArrC:
		n := &ArrC{n: s(p.n), elem: p.elem, base: s(p.base)}
		for _, u := range p.log {
			n.log = append(n.log, x.substUpd(st, u, m))
		}
		return n
	case *MapC:
		n := &MapC{typ: p.typ, base: s(p.base), len: s(p.len)}
		for _, u := range p.log {
			u.key, u.val = x.substVal(st, u.key, m), x.substVal(st, u.val, m)
			if u.count != nil {
				u.count = s(u.count)
			}
			n.log = append(n.log, u)
		}
		return n
	}
	return v
}

func (x *Eng) substUpd(st *State, u Upd, m map[*Term]*Term) Upd {
	memo := map[*Term]*Term{}
	s := func(t *Term) *Term { return substTerm(t, m, memo) }
	n := u
	n.start, n.n, n.srcOff, n.count = s(u.start), s(u.n), s(u.srcOff), s(u.count)
	if u.vals != nil {
		n.vals = make([]Value, len(u.vals))
		for i, v := range u.vals {
			n.vals[i] = x.substVal(st, v, m)
		}
	}
	if u.rep != nil {
		n.rep = make([]Value, len(u.rep))
		for i, v := range u.rep {
			n.rep[i] = x.substVal(st, v, m)
		}
	}
	if u.segs != nil {
		n.segs = substSegs(u.segs, m)
	}
	if u.src != nil {
		n.src = x.substVal(st, u.src, m).(*ArrC)
	}
	return n
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func isReflectValue(t types.Type) bool { return isNamed(t, "reflect", "Value") }
func isReflectType(t types.Type) bool  { return isNamed(t, "reflect", "Type") }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// uvBytes is the LEB128 form of a value whose length is known.
func uvBytes(f *Facts, v *Term) []Seg {
	if !f.ge0(v) {
		return nil
	}
	for k := 1; k <= 10; k++ {
		if !f.le(v, mkBig(new(big.Int).Sub(pow2(7*k), bigOne))) {
			continue
		}
		if k > 1 && !f.le(mkBig(pow2(7*(k-1))), v) {
			return nil
		}
		if k == 1 {
			return []Seg{{kind: segByte, b: v}}
		}
		bits := f.bitsOf(v, 7*k)
		var segs []Seg
		for i := 0; i < k; i++ {
			top := Bit{}
			if i < k-1 {
				top.i = 1
			}
			segs = append(segs, Seg{kind: segByte, b: mkBits(append(append([]Bit(nil), bits[7*i:7*i+7]...), top), false)})
		}
		return segs
	}
	return nil
}
