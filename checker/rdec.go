package main

// Rules about reading.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
)

var tBytes = types.NewSlice(types.Typ[types.Uint8])

// decoderAt calls k with a decoder over unknown input at an unknown
// position inside it.
func (x *Eng) decoderAt(enc int, k func(st *State, d *PtrV, s *Spec, pos *Term)) {
	st := x.state()
	data := x.inputBytes(st, "data")
	pos := freshInt("p", bigZero, x.maxLen())
	for _, o := range x.call(st, x.fn("zzDecAt"), []Value{mkInt(int64(enc)), data, pos}, nil) {
		if o.pan != nil {
			continue
		}
		d := o.vals[0].(*PtrV)
		if o.st.f.decide(d.nilT) == 1 {
			continue
		}
		if !o.st.f.assume(mkLe(pos, data.len), true) {
			continue
		}
		o.st.trace = nil
		k(o.st, d, &Spec{x: x, enc: enc, base: x.baseOf(o.st, data), n: data.len}, pos)
	}
}

// baseOf is the identity of the bytes of an unknown slice.
func (x *Eng) baseOf(st *State, s *SliceV) *Term {
	if a := x.arrOf(st, s); a != nil && a.base != nil {
		return a.base
	}
	x.abort("input without identity")
	return nil
}

// query calls an observer of an object; it must have exactly one outcome.
func (x *Eng) query(st *State, fn string, args ...Value) Value {
	outs := x.call(st.clone(), x.fn(fn), args, nil)
	if len(outs) != 1 || outs[0].pan != nil || len(outs[0].vals) != 1 {
		x.abort("%s has %d outcomes", fn, len(outs))
	}
	return outs[0].vals[0]
}

// effects checks the events of an outcome of a read.
func (r *Rep) effects(st *State, evs []*Ev, n *Term) {
	x := r.x
	for _, e := range evs {
		switch e.kind {
		case evMut:
			r.oblige(kMut, !st.f.fuzzy, e.pos, fmt.Sprintf("memory of the caller is modified (%s)", e.what))
		case evGlobal:
			if e.fn != nil && holdsLock(e.fn) {
				continue
			}
			r.oblige(kGlobal, true, e.pos, fmt.Sprintf("package-level state is modified (%s)", e.what))
		case evAlloc:
			if n == nil {
				continue
			}
			_, c := e.n.constInt()
			ok := c || st.f.le(e.n, n)
			msg := ""
			if !ok {
				msg = fmt.Sprintf("%s of %s elements is not bounded by the input", e.what, clip(e.n.String()))
			}
			r.oblige(kAlloc, !st.f.fuzzy && !imprecise(st.f.norm(e.n)), e.pos, msg)
		case evLoop:
			if n != nil && e.count != nil {
				_, c := e.count.constInt()
				ok := c || st.f.le(e.count, tAddI(n, 1))
				msg := ""
				if !ok {
					msg = fmt.Sprintf("a loop of %s iterations is not bounded by the input", clip(e.count.String()))
				}
				r.oblige(kAlloc, !st.f.fuzzy && !imprecise(st.f.norm(e.count)), e.pos, msg)
			}
			for _, a := range e.alts {
				r.effects(a.st, a.evs, n)
			}
		}
	}
	_ = x
}

// cursor checks the position after an operation.
func (r *Rep) cursor(st *State, d *PtrV, s *Spec, p0 *Term) *Term {
	x := r.x
	pos := x.query(st, "Decoder.Position", d).(*Term)
	rem := x.query(st, "Decoder.Remaining", d).(*Term)
	ln := x.query(st, "Decoder.Len", d).(*Term)
	imp := imprecise(st.f.norm(pos))
	m := ""
	switch {
	case !st.f.le(p0, pos):
		m = fmt.Sprintf("the position moves from %s to %s", clip(p0.String()), clip(pos.String()))
	case !st.f.le(pos, s.n):
		m = fmt.Sprintf("the position %s may lie beyond the input", clip(pos.String()))
	}
	r.oblige(kCursor, !st.f.fuzzy && !imp, token.NoPos, m)
	m = ""
	if !x.eqInt(st, tAdd(pos, rem), s.n) || !x.eqInt(st, ln, s.n) {
		m = fmt.Sprintf("position %s, remaining %s and length %s do not agree", clip(pos.String()), clip(rem.String()), clip(ln.String()))
	}
	r.oblige(kCursor, !st.f.fuzzy && !imp, token.NoPos, m)
	return pos
}

// forkNil splits a state on whether an error is nil.
func (x *Eng) forkNil(st *State, e Value, k func(st *State, isNil bool)) {
	iv, ok := e.(*IfaceV)
	if !ok {
		x.abort("error value %s", valString(e))
	}
	switch st.f.decide(iv.nilT) {
	case 1:
		k(st, true)
		return
	case 0:
		k(st, false)
		return
	}
	a := st.clone()
	if a.branch(iv.nilT, true) {
		k(a, true)
	}
	if st.branch(iv.nilT, false) {
		k(st, false)
	}
}

// against compares one outcome of a read with the specification.
func (r *Rep) against(st *State, isNil bool, pos *Term, srs []SR, p0 *Term, fixed bool, cmp func(sr SR) (string, bool)) {
	x := r.x
	for _, sr := range srs {
		if sr.st.f.dead {
			continue
		}
		if sr.unk {
			r.Outside++
			continue
		}
		sure := !sr.st.f.fuzzy
		switch {
		case isNil && !sr.ok:
			r.oblige(kAccept, sure && !imprecise(sr.st.f.norm(pos)), token.NoPos, "succeeds although the input is not valid: "+sr.why)
		case !isNil && sr.ok:
			r.oblige(kReject, sure && !sr.st.f.lossy, token.NoPos, "reports an error for valid input"+r.factsFor(sr.st))
		case isNil:
			m := ""
			if !x.eqInt(sr.st, pos, sr.pos) {
				m = fmt.Sprintf("ends at position %s instead of %s", clip(sr.st.f.norm(pos).String()), clip(sr.st.f.norm(sr.pos).String()))
			}
			r.oblige(kCursor, sure && !imprecise(sr.st.f.norm(pos)), token.NoPos, m)
			d, prec := cmp(sr)
			r.oblige(kValue, sure && prec, token.NoPos, d)
		default:
			if fixed {
				m := ""
				if !x.eqInt(sr.st, pos, p0) {
					m = fmt.Sprintf("a failed read moves the position to %s", clip(pos.String()))
				}
				r.oblige(kCursor, sure && !imprecise(sr.st.f.norm(pos)), token.NoPos, m)
			} else {
				r.oblige(kAccept, true, token.NoPos, "")
			}
		}
	}
}

// decOp describes one read operation.
type decOp struct {
	name  string
	order int // 0: none, 1: little, 2: big
	fixed bool
	args  []string // names of integer arguments
	encs  []int
	spec  func(s *Spec, c cur, a []Value, k skont) []SR
	typ   types.Type
	alias bool
}

func (s *Spec) num(w int, big, signed bool) func(*Spec, cur, []Value, skont) []SR {
	return func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.uint(c, w, big, signed, func(c cur, v *Term) []SR { return k(c, v) })
	}
}

func decOps() []decOp {
	var ops []decOp
	none := (*Spec)(nil)
	add := func(o decOp) { ops = append(ops, o) }
	add(decOp{name: "ReadByte", fixed: true, spec: none.num(1, false, false)})
	add(decOp{name: "ReadUint8", fixed: true, spec: none.num(1, false, false)})
	add(decOp{name: "ReadInt8", fixed: true, spec: none.num(1, false, true)})
	flag := func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.uint(c, 1, false, false, func(c cur, v *Term) []SR { return k(c, mkNot(mkEqI(v, mkInt(0)))) })
	}
	add(decOp{name: "ReadBool", fixed: true, spec: flag})
	add(decOp{name: "ReadOption", fixed: true, spec: flag})
	add(decOp{name: "ReadCOption", spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.uint(c, 4, false, false, func(c cur, v *Term) []SR {
			return s.fork(c, mkLe(v, mkInt(1)), func(c cur) []SR { return k(c, mkEqI(v, mkInt(1))) }, func(c cur) []SR { return s.fail(c, "flag beyond 1") })
		})
	}})
	for ord := 1; ord <= 2; ord++ {
		big := ord == 2
		for w := 2; w <= 8; w *= 2 {
			add(decOp{name: fmt.Sprintf("ReadUint%d", w*8), order: ord, fixed: true, spec: none.num(w, big, false)})
			add(decOp{name: fmt.Sprintf("ReadInt%d", w*8), order: ord, fixed: true, spec: none.num(w, big, true)})
		}
		fl := func(w int) func(*Spec, cur, []Value, skont) []SR {
			return func(s *Spec, c cur, a []Value, k skont) []SR { return s.float(c, w, big, k) }
		}
		add(decOp{name: "ReadFloat32", order: ord, spec: fl(4)})
		add(decOp{name: "ReadFloat64", order: ord, spec: fl(8)})
		for _, n := range []string{"Uint128", "Int128", "Float128"} {
			n := n
			add(decOp{name: "Read" + n, order: ord, fixed: true, spec: func(s *Spec, c cur, a []Value, k skont) []SR {
				return s.val(c, s.x.typ(n), sopt{big: big}, k)
			}})
		}
	}
	raw := func(consume bool) func(s *Spec, c cur, a []Value, k skont) []SR {
		return func(s *Spec, c cur, a []Value, k skont) []SR {
			n := a[0].(*Term)
			return s.fork(c, mkLe(mkInt(0), n), func(c cur) []SR {
				// longer runs than 2^31-1 may be refused
				return s.fork(c, mkLe(n, mkInt(0x7fffffff)), func(c cur) []SR {
					p := c.pos
					return s.bytes(c, n, func(c cur, v Value) []SR {
						if !consume {
							c.pos = p
						}
						return k(c, v)
					})
				}, func(c cur) []SR { return s.unk(c, "more than 2^31-1 bytes") })
			}, func(c cur) []SR { return s.fail(c, "negative count") })
		}
	}
	add(decOp{name: "ReadNBytes", args: []string{"n"}, fixed: true, typ: tBytes, alias: true, spec: raw(true)})
	add(decOp{name: "ReadBytes", args: []string{"n"}, fixed: true, typ: tBytes, alias: true, spec: raw(true)})
	add(decOp{name: "Peek", args: []string{"n"}, fixed: true, typ: tBytes, alias: true, spec: raw(false)})
	add(decOp{name: "Discard", args: []string{"n"}, fixed: true, spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return raw(true)(s, c, a, func(c cur, v Value) []SR { return k(c, xAny{}) })
	}})
	add(decOp{name: "SkipBytes", args: []string{"n"}, fixed: true, spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.bytes(c, a[0].(*Term), func(c cur, v Value) []SR { return k(c, xAny{}) })
	}})
	disc := func(consume bool) func(s *Spec, c cur, a []Value, k skont) []SR {
		return func(s *Spec, c cur, a []Value, k skont) []SR {
			p := c.pos
			return s.need(c, mkInt(8), "discriminator", func(c cur) []SR {
				var v xArr
				for i := int64(0); i < 8; i++ {
					v.vals = append(v.vals, s.cell(c, i))
				}
				if consume {
					c.pos = tAddI(p, 8)
				}
				return k(c, v)
			})
		}
	}
	add(decOp{name: "ReadTypeID", fixed: true, spec: disc(true)})
	add(decOp{name: "ReadDiscriminator", fixed: true, spec: disc(true)})
	add(decOp{name: "PeekDiscriminator", fixed: true, spec: disc(false)})
	add(decOp{name: "ReadLength", spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.length(c, func(c cur, n *Term) []SR {
			return k(c, n)
		})
	}})
	add(decOp{name: "ReadByteSlice", typ: tBytes, alias: true, spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.length(c, func(c cur, n *Term) []SR {
			return s.limit(c, n, func(c cur) []SR { return s.bytes(c, n, k) })
		})
	}})
	str := func(s *Spec, c cur, n *Term, k skont) []SR {
		return s.limit(c, n, func(c cur) []SR {
			return s.need(c, n, "string", func(c cur) []SR {
				v := &StrV{segs: []Seg{{kind: segBlob, base: s.base, off: c.pos, n: n}}}
				c.pos = tAdd(c.pos, n)
				return k(c, v)
			})
		})
	}
	add(decOp{name: "ReadString", spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.length(c, func(c cur, n *Term) []SR { return str(s, c, n, k) })
	}})
	add(decOp{name: "ReadRustString", spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.uint(c, 8, false, false, func(c cur, n *Term) []SR { return str(s, c, n, k) })
	}})
	add(decOp{name: "SafeReadUTF8String", spec: func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.length(c, func(c cur, n *Term) []SR {
			return str(s, c, n, func(c cur, v Value) []SR { return k(c, xAny{}) })
		})
	}})
	cu := func(s *Spec, c cur, a []Value, k skont) []SR {
		return s.compact(c, func(c cur, v *Term) []SR { return k(c, v) })
	}
	add(decOp{name: "ReadCompactU16", spec: cu})
	add(decOp{name: "ReadCompactU16Length", spec: cu})
	for _, w := range []int{16, 32, 64} {
		w := w
		for _, signed := range []bool{false, true} {
			signed := signed
			n := "ReadUvarint"
			if signed {
				n = "ReadVarint"
			}
			add(decOp{name: fmt.Sprintf("%s%d", n, w), spec: func(s *Spec, c cur, a []Value, k skont) []SR {
				return s.varw(c, w, signed, func(c cur, v *Term) []SR { return k(c, v) })
			}})
		}
	}
	return ops
}

var orderNames = []string{"", "/LE", "/BE"}

func (x *Eng) order(st *State, o int) Value {
	if o == 2 {
		return x.global(st, "BE")
	}
	return x.global(st, "LE")
}

// runDecOp checks one read operation in one encoding.
func runDecOp(op decOp, enc int) func(x *Eng, r *Rep) {
	return func(x *Eng, r *Rep) {
		x.decoderAt(enc, func(st *State, d *PtrV, s *Spec, p0 *Term) {
			fn := x.fn("Decoder." + op.name)
			args := []Value{d}
			var extra []Value
			for i, n := range op.args {
				v := x.freshVal(st, fn.Params[i+1].Type(), n)
				extra = append(extra, v)
				args = append(args, v)
			}
			if op.order > 0 {
				args = append(args, x.order(st, op.order))
			}
			for _, q := range x.call(st, fn, args, nil) {
				r.Outcomes++
				if r.panicked(q) {
					continue
				}
				r.effects(q.st, q.st.trace, s.n)
				var val Value = nil
				if len(q.vals) == 2 {
					val = q.vals[0]
				}
				x.forkNil(q.st, q.vals[len(q.vals)-1], func(st *State, isNil bool) {
					pos := r.cursor(st, d, s, p0)
					srs := op.spec(s, cur{st: st.clone(), pos: p0}, extra, func(c cur, v Value) []SR { return s.done(c, v) })
					t := op.typ
					if t == nil && len(q.vals) == 2 {
						t = fn.Signature.Results().At(0).Type()
					}
					r.against(st, isNil, pos, srs, p0, op.fixed, func(sr SR) (string, bool) {
						if val == nil {
							return "", true
						}
						n := x.lost
						m := x.match(sr.st, sr.v, t, val, nil, "the result")
						return m, m == "" || n == x.lost && !x.impreciseVal(sr.st, val)
					})
					if isNil && op.alias {
						r.aliasing(st, s, val, "the result")
					}
				})
			}
		})
	}
}

// aliasing: a slice that shares the input's memory has no spare capacity.
func (r *Rep) aliasing(st *State, s *Spec, v Value, what string) {
	x := r.x
	switch v := v.(type) {
	case *SliceV:
		if v.obj < 0 {
			return
		}
		a := x.arrOf(st, v)
		if a == nil {
			return
		}
		if a.base == s.base && a.base != nil {
			m := ""
			if !x.eqInt(st, v.len, v.cap) {
				m = fmt.Sprintf("%s shares the input's memory and has capacity %s for length %s", what, clip(v.cap.String()), clip(v.len.String()))
			}
			r.oblige(kAlias, !st.f.fuzzy, token.NoPos, m)
			return
		}
		if n, ok := st.f.norm(v.len).constInt(); ok && n <= 4 && !isByteType(v.elem) {
			for i := int64(0); i < n; i++ {
				r.aliasing(st, s, x.arrGet(st, a, tAddI(v.off, i)), what)
			}
		}
	case *StructV:
		for _, f := range v.f {
			r.aliasing(st, s, f, what)
		}
	case *PtrV:
		if v.obj >= 0 && st.f.decide(v.nilT) == 0 {
			r.aliasing(st, s, x.load(st, v), what)
		}
	}
}

var _ = big.NewInt

// decShape checks the decode of a type.
type decShape struct {
	typ   string
	encs  []int
	force []int64
	unb   bool // lengths left open
	deep  bool
	ptr   bool // decode through **T
}

// runDecode checks Decode of a shape against the specification.
func runDecode(sh decShape, enc int) func(x *Eng, r *Rep) {
	return func(x *Eng, r *Rep) {
		t := x.debugType(sh.typ)
		x.decoderAt(enc, func(st *State, d *PtrV, s *Spec, p0 *Term) {
			states := []*State{st}
			if sh.force != nil {
				pre := *s
				pre.pre, pre.force = true, sh.force
				states = nil
				for _, sr := range pre.val(cur{st: st.clone(), pos: p0}, t, sopt{}, func(c cur, v Value) []SR { return s.done(c, v) }) {
					if !sr.st.f.dead {
						states = append(states, sr.st)
					}
				}
			}
			for _, st := range states {
				key := freshOther("target")
				x.rootClass[key] = clsTarget
				obj := x.symObj("ptr", t, key)
				init := x.content(st, obj)
				nilIfaces(st, init)
				tgt := &PtrV{nilT: tFalse, obj: obj, elem: t}
				v := x.makeIface(tgt, types.NewPointer(t))
				for _, q := range x.call(st, x.fn("Decoder.Decode"), []Value{d, v}, nil) {
					r.Outcomes++
					if r.panicked(q) {
						continue
					}
					r.effects(q.st, q.st.trace, s.n)
					x.forkNil(q.st, q.vals[0], func(st *State, isNil bool) {
						pos := r.cursor(st, d, s, p0)
						s2 := *s
						srs := s2.val(cur{st: st.clone(), pos: p0}, t, sopt{}, func(c cur, v Value) []SR { return s.done(c, v) })
						obs := x.content(st, obj)
						r.against(st, isNil, pos, srs, p0, false, func(sr SR) (string, bool) {
							n := x.lost
							m := x.match(sr.st, sr.v, t, obs, init, "the target")
							if os.Getenv("CK_DBGP") != "" && m != "" {
								fmt.Println(m, x.deepString(sr.st, obs, 0), sr.st.f)
							}
							return m, m == "" || n == x.lost && !x.impreciseVal(sr.st, obs)
						})
						if isNil {
							r.aliasing(st, s, obs, "a slice in the target")
						}
					})
				}
			}
		})
	}
}

// nilIfaces: fields of interface type hold nil.
func nilIfaces(st *State, v Value) {
	switch v := v.(type) {
	case *IfaceV:
		st.f.assume(v.nilT, true)
	case *StructV:
		for _, f := range v.f {
			nilIfaces(st, f)
		}
	}
}

func decOpInsts(ks map[string]bool, pick func(op decOp, enc int) bool) []Inst {
	var out []Inst
	for _, op := range decOps() {
		for enc := encBin; enc <= encBorsh; enc++ {
			if pick != nil && !pick(op, enc) {
				continue
			}
			out = append(out, Inst{name: fmt.Sprintf("%s.%s%s", encNames[enc], op.name, orderNames[op.order]), kinds: ks, run: runDecOp(op, enc)})
		}
	}
	return out
}

func decShapeInsts(ks map[string]bool, shapes []decShape, pick func(sh decShape, enc int) bool) []Inst {
	var out []Inst
	for _, sh := range shapes {
		for enc := encBin; enc <= encBorsh; enc++ {
			if sh.encs != nil && !hasInt(sh.encs, enc) || pick != nil && !pick(sh, enc) {
				continue
			}
			n := fmt.Sprintf("%s.Decode(%s)", encNames[enc], sh.typ)
			if sh.force != nil {
				n += fmt.Sprint(sh.force)
			}
			out = append(out, Inst{name: n, kinds: ks, deep: sh.deep, run: runDecode(sh, enc)})
		}
	}
	return out
}

func hasInt(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (r *Rep) factsFor(st *State) string {
	if verbose {
		return " " + st.f.String()
	}
	return ""
}

var verbose bool
