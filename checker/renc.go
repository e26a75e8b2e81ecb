package main

// Rules about writing.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

// floatBits is the IEEE representation of a float.
func (x *Eng) floatBits(v *Term, w int) *Term {
	tag := fmt.Sprintf("f%d", w)
	if v.op == OApp && v.str == tag+"frombits" {
		return v.args[0]
	}
	return mkApp(SInt, tag+"bits", bigZero, new(big.Int).Sub(pow2(w), bigOne), v)
}

// lessTerm orders two map keys.
func (x *Eng) lessTerm(st *State, a, b Value) *Term {
	switch p := a.(type) {
	case *StrV:
		return x.strLess(st, p, b.(*StrV))
	case *Term:
		q := b.(*Term)
		if p.sort == SInt {
			return mkLt(p, q)
		}
	}
	return nil
}

// encoderOn is an encoder over an unknown writer.
func (x *Eng) encoderOn(enc int, k func(st *State, e *PtrV)) {
	st := x.state()
	fn := x.fn("zzEnc")
	w := x.freshVal(st, fn.Params[1].Type(), "w").(*IfaceV)
	st.f.assume(w.nilT, false)
	for _, o := range x.call(st, fn, []Value{mkInt(int64(enc)), w}, nil) {
		if o.pan != nil {
			continue
		}
		o.st.trace = nil
		k(o.st, o.vals[0].(*PtrV))
	}
}

// builder makes the value to be written.
type builder struct {
	x     *Eng
	lens  []int64
	nils  bool // pointers are not nil
	n     int
	count int
}

func (b *builder) next() (int64, bool) {
	if len(b.lens) == 0 {
		return 0, false
	}
	n := b.lens[b.n%len(b.lens)]
	b.n++
	return n, true
}

// value makes an unknown value; slices and maps get the next given length.
func (b *builder) value(st *State, t types.Type) Value {
	x := b.x
	if containsMap(t, map[types.Type]bool{}) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			v := &StructV{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				v.f = append(v.f, b.value(st, u.Field(i).Type()))
			}
			return v
		case *types.Map:
			n, ok := b.next()
			if !ok {
				break
			}
			b.count++
			key := freshOther("map")
			x.rootClass[key] = clsInput
			mc := &MapC{typ: u, len: mkInt(0)}
			for i := int64(0); i < n; i++ {
				k, v := b.value(st, u.Key()), b.value(st, u.Elem())
				for _, e := range mc.log {
					ne := mkNot(x.eqTerm(st, k, e.key))
					if !st.f.assume(ne, true) {
						x.abort("keys cannot differ")
					}
					for _, s := range []Value{k, e.key} {
						if sv, ok := s.(*StrV); ok {
							st.f.assume(mkLe(mkInt(1), strLen(sv)), true)
						}
					}
				}
				mc.log = append(mc.log, MapUpd{key: k, val: v})
			}
			m := &MapV{nilT: tFalse, typ: u}
			m.obj = x.newObj(st, "map", mc)
			x.objs[m.obj].class = clsInput
			if n == 0 {
				m.nilT = mkApp(SBool, "nilmap", nil, nil, key)
			}
			return m
		case *types.Pointer:
			o := x.newObj(st, "ptr", b.value(st, u.Elem()))
			x.objs[o].class = clsInput
			return &PtrV{nilT: tFalse, obj: o, elem: u.Elem()}
		}
	}
	key := freshOther("v")
	x.rootClass[key] = clsInput
	v := x.symVal(t, key)
	x.symFacts(st, v)
	b.force(st, v, t, 0)
	return v
}

// force gives the slices inside a value their lengths.
func (b *builder) force(st *State, v Value, t types.Type, depth int) {
	x := b.x
	if depth > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if sv, ok := v.(*StructV); ok {
			for i := 0; i < u.NumFields() && i < len(sv.f); i++ {
				b.force(st, sv.f[i], u.Field(i).Type(), depth+1)
			}
		}
	case *types.Pointer:
		if p, ok := v.(*PtrV); ok {
			if b.nils {
				st.f.assume(p.nilT, false)
			}
			if hasSlice(u.Elem(), 0) {
				b.force(st, x.load(st, p), u.Elem(), depth+1)
			}
		}
	case *types.Array:
		if a, ok := v.(*ArrC); ok && hasSlice(u.Elem(), 0) {
			for i := int64(0); i < u.Len() && i < 4; i++ {
				b.force(st, x.arrGet(st, a, mkInt(i)), u.Elem(), depth+1)
			}
		}
	case *types.Slice:
		sl, ok := v.(*SliceV)
		if !ok || isByteType(u.Elem()) && namedName(u.Elem()) == "" {
			return
		}
		n, ok := b.next()
		if !ok {
			return
		}
		st.f.assume(mkEqI(sl.len, mkInt(n)), true)
		if n > 0 {
			st.f.assume(sl.nilT, false)
		}
		if hasSlice(u.Elem(), 0) {
			a := x.arrOf(st, sl)
			for i := int64(0); i < n; i++ {
				e := x.arrGet(st, a, tAddI(sl.off, i))
				x.symFacts(st, e)
				b.force(st, e, u.Elem(), depth+1)
			}
		}
	}
}

func hasSlice(t types.Type, d int) bool {
	if d > 5 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Pointer:
		return hasSlice(u.Elem(), d+1)
	case *types.Array:
		return hasSlice(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasSlice(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func containsMap(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Pointer:
		return containsMap(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if containsMap(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// written is what a trace hands to the writer.
type written struct {
	segs   []Seg  // accepted or not, in order
	evs    []*Ev  // the writes outside loops
	loops  int    // loops that write
	failed int    // index in evs of the first write that fails, or -1
	late   *Ev    // a write after a failed one
	fuzzy  string // not described exactly
}

func hasWrite(evs []*Ev) bool {
	for _, e := range evs {
		switch e.kind {
		case evWrite:
			return true
		case evLoop:
			for _, a := range e.alts {
				if hasWrite(a.evs) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Eng) collect(st *State, evs []*Ev) written {
	w := written{failed: -1}
	for _, e := range evs {
		switch e.kind {
		case evUnknown:
			w.fuzzy = e.what
		case evWrite:
			if w.failed >= 0 && w.late == nil {
				w.late = e
			}
			if st.f.decide(e.err.nilT) != 1 && w.failed < 0 {
				w.failed = len(w.evs)
			}
			w.evs = append(w.evs, e)
			w.segs = append(w.segs, e.segs...)
		case evLoop:
			writes := false
			for _, a := range e.alts {
				writes = writes || hasWrite(a.evs)
			}
			if !writes {
				continue
			}
			w.loops++
			var gen []Alt
			for _, a := range e.alts {
				aw := x.collect(a.st, a.evs)
				if aw.failed >= 0 && w.late == nil {
					w.late = aw.evs[aw.failed]
				}
				if !a.first {
					gen = append(gen, a)
				}
			}
			// one body that describes all
			var best []Seg
			var bodies []written
			for i, g := range gen {
				b := x.collect(g.st, g.evs)
				if b.fuzzy != "" {
					w.fuzzy = b.fuzzy
				}
				bodies = append(bodies, b)
				if i == 0 || len(b.segs) > len(best) {
					best = b.segs
				}
			}
			if len(gen) == 1 {
				best = x.normSegs(gen[0].st, best)
			}
			for i, g := range gen {
				if !x.eqSegs(g.st, bodies[i].segs, best) {
					w.fuzzy = fmt.Sprintf("loop with %d bodies", len(gen))
				}
			}
			w.segs = append(w.segs, Seg{kind: segRep, k: e.k, n: e.count, body: best})
		}
	}
	return w
}

// wrote compares one outcome of a write with the specification.
func (r *Rep) wrote(st *State, isNil bool, w written, ers []ER, alts func(i int) []ER) {
	x := r.x
	if w.late != nil {
		r.oblige(kErr, !st.f.fuzzy && w.fuzzy == "", w.late.pos, "a write follows after the writer reported an error")
	}
	if isNil {
		m := ""
		pos := token.NoPos
		if w.failed >= 0 {
			m = "success is reported although the writer failed"
			pos = w.evs[w.failed].pos
		}
		r.oblige(kErr, !st.f.fuzzy, pos, m)
	}
	for _, er := range ers {
		if er.st.f.dead {
			continue
		}
		if er.unk {
			r.Outside++
			continue
		}
		sure := !er.st.f.fuzzy && w.fuzzy == ""
		switch {
		case isNil && !er.ok:
			r.oblige(kAccept, sure, token.NoPos, "succeeds although the value cannot be written: "+er.why)
		case isNil:
			ok := x.eqSegs(er.st, w.segs, er.segs)
			if !ok && alts != nil {
				for i := 0; !ok; i++ {
					as := alts(i)
					if as == nil {
						break
					}
					for _, a := range as {
						if a.ok && !a.st.f.dead && x.eqSegs(er.st, w.segs, a.segs) {
							ok = true
						}
					}
				}
			}
			m := ""
			if !ok {
				m = fmt.Sprintf("writes %s instead of %s", clip(segsString(x.normSegs(er.st, w.segs))), clip(segsString(x.normSegs(er.st, er.segs)))) + r.factsFor(er.st)
			}
			r.oblige(kBytes, sure && !impreciseSegs(x.normSegs(er.st, w.segs)), token.NoPos, m)
		case er.ok && w.failed < 0 && w.late == nil:
			r.oblige(kReject, sure && !er.st.f.lossy, token.NoPos, "reports an error although every write succeeded"+r.factsFor(er.st))
		default:
			// what was handed over before the failure is a prefix
			if w.loops > 0 || w.fuzzy != "" || alts != nil {
				r.oblige(kReject, true, token.NoPos, "")
				continue
			}
			a, b := x.normSegs(er.st, w.segs), x.normSegs(er.st, er.segs)
			m := ""
			if er.ok {
				if len(a) > len(b) || !x.eqSegs(er.st, a, b[:len(a)]) {
					if len(b) > 0 && len(a) > 0 && (a[len(a)-1].kind == segBlob || hasRep(b)) {
						continue
					}
					m = fmt.Sprintf("writes %s before it fails, which does not begin %s", clip(segsString(a)), clip(segsString(b)))
				}
			}
			r.oblige(kBytes, sure && !impreciseSegs(a), token.NoPos, m)
		}
	}
}

func hasRep(s []Seg) bool {
	for _, g := range s {
		if g.kind == segRep || g.kind == segBlob {
			return true
		}
	}
	return false
}

// counted checks Written against what the writer accepted.
func (r *Rep) counted(st *State, e *PtrV) {
	x := r.x
	n := x.query(st, "Encoder.Written", e).(*Term)
	g, _ := st.heap[x.ghost].(*Term)
	if g == nil {
		g = mkInt(0)
	}
	m := ""
	if !x.eqInt(st, n, g) {
		m = fmt.Sprintf("Written reports %s after %s bytes were accepted", clip(st.f.norm(n).String()), clip(st.f.norm(g).String()))
	}
	r.oblige(kCount, !st.f.fuzzy && !imprecise(st.f.norm(n)) && !imprecise(st.f.norm(g)), token.NoPos, m)
}

// encOp describes one write operation.
type encOp struct {
	name  string
	order int
	args  []string
	typ   []types.Type
	recv  string
	spec  func(s *ESpec, c ecur, a []Value, k ekont) []ER
}

func encOps() []encOp {
	var ops []encOp
	add := func(o encOp) { ops = append(ops, o) }
	num := func(w int, be bool) func(*ESpec, ecur, []Value, ekont) []ER {
		return func(s *ESpec, c ecur, a []Value, k ekont) []ER {
			return k(c.add(bytesOf(c.st, a[0].(*Term), w, be)...))
		}
	}
	flag := func(w int) func(*ESpec, ecur, []Value, ekont) []ER {
		return func(s *ESpec, c ecur, a []Value, k ekont) []ER {
			return s.fork(c, a[0].(*Term), func(c ecur) []ER { return k(c.add(bytesOf(c.st, mkInt(1), w, false)...)) },
				func(c ecur) []ER { return k(c.add(bytesOf(c.st, mkInt(0), w, false)...)) })
		}
	}
	one := []string{"v"}
	add(encOp{name: "WriteByte", args: one, spec: num(1, false)})
	add(encOp{name: "WriteUint8", args: one, spec: num(1, false)})
	add(encOp{name: "WriteInt8", args: one, spec: num(1, false)})
	add(encOp{name: "WriteBool", args: one, spec: flag(1)})
	add(encOp{name: "WriteOption", args: one, spec: flag(1)})
	add(encOp{name: "WriteCOption", args: one, spec: flag(4)})
	for ord := 1; ord <= 2; ord++ {
		be := ord == 2
		for w := 2; w <= 8; w *= 2 {
			add(encOp{name: fmt.Sprintf("WriteUint%d", w*8), order: ord, args: one, spec: num(w, be)})
			add(encOp{name: fmt.Sprintf("WriteInt%d", w*8), order: ord, args: one, spec: num(w, be)})
		}
		fl := func(w int) func(*ESpec, ecur, []Value, ekont) []ER {
			return func(s *ESpec, c ecur, a []Value, k ekont) []ER { return s.float(c, a[0].(*Term), w, be, k) }
		}
		add(encOp{name: "WriteFloat32", order: ord, args: one, spec: fl(4)})
		add(encOp{name: "WriteFloat64", order: ord, args: one, spec: fl(8)})
		for _, n := range []string{"Uint128", "Int128"} {
			n := n
			add(encOp{name: "Write" + n, order: ord, args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
				return s.val(c, s.x.typ(n), a[0], sopt{big: be}, k)
			}})
		}
	}
	add(encOp{name: "WriteLength", args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		return s.length(c, a[0].(*Term), k)
	}})
	add(encOp{name: "WriteUVarInt", args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		n := a[0].(*Term)
		return s.fork(c, mkLe(mkInt(0), n), func(c ecur) []ER { return k(c.add(Seg{kind: segUv, b: n})) }, func(c ecur) []ER { return s.unk(c, "negative") })
	}})
	add(encOp{name: "WriteVarInt", args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		return k(c.add(Seg{kind: segSv, b: a[0].(*Term)}))
	}})
	add(encOp{name: "WriteCompactU16", args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		return s.compact(c, a[0].(*Term), k)
	}})
	add(encOp{name: "WriteCompactU16Length", args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		return s.compact(c, a[0].(*Term), k)
	}})
	add(encOp{name: "WriteBytes", args: []string{"b", "writeLength"}, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		sl := a[0].(*SliceV)
		body := func(c ecur) []ER { return k(c.add(s.x.sliceSegs(c.st, sl)...)) }
		return s.fork(c, a[1].(*Term), func(c ecur) []ER { return s.length(c, sl.len, body) }, body)
	}})
	add(encOp{name: "WriteString", args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		return s.length(c, strLen(a[0].(*StrV)), func(c ecur) []ER { return k(c.add(a[0].(*StrV).segs...)) })
	}})
	add(encOp{name: "WriteRustString", args: one, spec: func(s *ESpec, c ecur, a []Value, k ekont) []ER {
		v := a[0].(*StrV)
		return k(c.add(bytesOf(c.st, strLen(v), 8, false)...).add(v.segs...))
	}})
	return ops
}

func erDone(c ecur) []ER { return []ER{{st: c.st, ok: true, segs: c.segs}} }

// writeEffects checks the events of an outcome of a write.
func (r *Rep) writeEffects(st *State, evs []*Ev) { r.effects(st, evs, nil) }

func runEncOp(op encOp, enc int) func(x *Eng, r *Rep) {
	return func(x *Eng, r *Rep) {
		x.encoderOn(enc, func(st *State, e *PtrV) {
			fn := x.fn("Encoder." + op.name)
			args := []Value{e}
			var extra []Value
			b := &builder{x: x}
			for i := range op.args {
				v := b.value(st, fn.Params[i+1].Type())
				extra = append(extra, v)
				args = append(args, v)
			}
			if op.order > 0 {
				args = append(args, x.order(st, op.order))
			}
			for _, q := range x.call(st, fn, args, nil) {
				r.Outcomes++
				if r.panicked(q) {
					continue
				}
				r.writeEffects(q.st, q.st.trace)
				x.forkNil(q.st, q.vals[len(q.vals)-1], func(st *State, isNil bool) {
					r.counted(st, e)
					w := x.collect(st, st.trace)
					s := &ESpec{x: x, enc: enc}
					r.wrote(st, isNil, w, op.spec(s, ecur{st: st.clone()}, extra, erDone), nil)
				})
			}
		})
	}
}

// encShape checks the encoding of a type.
type encShape struct {
	typ  string
	encs []int
	lens []int64
	deep bool
	ptr  bool // encode a pointer to the value
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			out = append(out, append(append(q, n-1), p[i:]...))
		}
	}
	return out
}

func runEncode(sh encShape, enc int) func(x *Eng, r *Rep) {
	return func(x *Eng, r *Rep) {
		t := x.debugType(sh.typ)
		x.encoderOn(enc, func(st *State, e *PtrV) {
			b := &builder{x: x, lens: sh.lens}
			val := b.value(st, t)
			nilIfaces(st, val)
			v := x.makeIface(val, t)
			if sh.ptr {
				o := x.newObj(st, "arg", val)
				x.objs[o].class = clsInput
				v = x.makeIface(&PtrV{nilT: tFalse, obj: o, elem: t}, types.NewPointer(t))
			}
			for _, q := range x.call(st, x.fn("Encoder.Encode"), []Value{e, v}, nil) {
				r.Outcomes++
				if r.panicked(q) {
					continue
				}
				r.writeEffects(q.st, q.st.trace)
				x.forkNil(q.st, q.vals[0], func(st *State, isNil bool) {
					r.counted(st, e)
					w := x.collect(st, st.trace)
					s := &ESpec{x: x, enc: enc}
					ers := s.val(ecur{st: st.clone()}, t, val, sopt{}, erDone)
					var alts func(i int) []ER
					if s.free {
						var n int64
						for _, l := range sh.lens {
							if l > n {
								n = l
							}
						}
						ps := permutations(int(n))
						alts = func(i int) []ER {
							if i >= len(ps) {
								return nil
							}
							s := &ESpec{x: x, enc: enc, perm: ps[i]}
							return s.val(ecur{st: st.clone()}, t, val, sopt{}, erDone)
						}
					}
					r.wrote(st, isNil, w, ers, alts)
				})
			}
		})
	}
}

func encOpInsts(ks map[string]bool, pick func(op encOp, enc int) bool) []Inst {
	var out []Inst
	for _, op := range encOps() {
		for enc := encBin; enc <= encBorsh; enc++ {
			if pick != nil && !pick(op, enc) {
				continue
			}
			out = append(out, Inst{name: fmt.Sprintf("%s.%s%s", encNames[enc], op.name, orderNames[op.order]), kinds: ks, run: runEncOp(op, enc)})
		}
	}
	return out
}

func encShapeInsts(ks map[string]bool, shapes []encShape, pick func(sh encShape, enc int) bool) []Inst {
	var out []Inst
	for _, sh := range shapes {
		for enc := encBin; enc <= encBorsh; enc++ {
			if sh.encs != nil && !hasInt(sh.encs, enc) || pick != nil && !pick(sh, enc) {
				continue
			}
			n := fmt.Sprintf("%s.Encode(%s)", encNames[enc], sh.typ)
			if sh.ptr {
				n = fmt.Sprintf("%s.Encode(&%s)", encNames[enc], sh.typ)
			}
			if sh.lens != nil {
				n += fmt.Sprint(sh.lens)
			}
			out = append(out, Inst{name: n, kinds: ks, deep: sh.deep, run: runEncode(sh, enc)})
		}
	}
	return out
}
