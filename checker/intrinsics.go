package main

// Models of the standard-library functions the analysed code calls.

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// textInfo remembers what a derived text stands for.
type textInfo struct {
	dec  *Term // decimal text of an integer
	hex  []Seg // hexadecimal text of these bytes
	isHx bool
}

var texts = map[*Term]textInfo{}

func (x *Eng) blobStr(base *Term, n *Term) *StrV {
	return &StrV{segs: []Seg{{kind: segBlob, base: base, off: mkInt(0), n: n}}}
}

// decText is the decimal text of an integer.
func (x *Eng) decText(st *State, t *Term) *StrV {
	t = st.f.norm(t)
	if t.isConst() {
		return strConst(t.c.String())
	}
	b := mkApp(SOther, "dec", nil, nil, t)
	n := mkApp(SInt, "declen", bigOne, big.NewInt(60), t)
	return x.blobStr(b, n)
}

// textBase is the text a base stands for.
func textBase(b *Term) (textInfo, bool) {
	if b.op == OApp && b.str == "dec" {
		return textInfo{dec: b.args[0]}, true
	}
	ti, ok := texts[b]
	return ti, ok
}

// coalesce joins runs of consecutive bytes of one base.
func (x *Eng) coalesce(st *State, segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		if g.kind == segByte && g.b.op == OApp && g.b.str == "cell" {
			g = Seg{kind: segBlob, base: g.b.args[0], off: g.b.args[1], n: mkInt(1)}
		}
		if g.kind == segBlob && len(out) > 0 {
			p := &out[len(out)-1]
			if p.kind == segBlob && p.base == g.base && st.f.eq(tAdd(p.off, p.n), g.off) {
				p.n = st.f.norm(tAdd(p.n, g.n))
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// textOf recognises a sequence that is exactly one derived text.
func (x *Eng) textOf(st *State, segs []Seg) (textInfo, bool) {
	segs = x.normSegs(st, segs)
	if s, ok := (&StrV{segs: segs}).constStr(); ok {
		if v, ok := new(big.Int).SetString(s, 10); ok && v.String() == s {
			return textInfo{dec: mkBig(v)}, true
		}
	}
	segs = x.coalesce(st, segs)
	if len(segs) == 1 && segs[0].kind == segBlob && st.f.eq(segs[0].off, mkInt(0)) {
		ti, ok := textBase(segs[0].base)
		if ok && ti.isHx && !st.f.eq(segs[0].n, tScale(segsLen(ti.hex), big.NewInt(2))) {
			return textInfo{}, false
		}
		if ok && ti.dec != nil && !st.f.eq(segs[0].n, mkApp(SInt, "declen", bigOne, big.NewInt(60), ti.dec)) {
			return textInfo{}, false
		}
		return ti, ok
	}
	return textInfo{}, false
}

func (x *Eng) bytesArg(st *State, v Value) []Seg {
	switch s := v.(type) {
	case *SliceV:
		return x.sliceSegs(st, s)
	case *StrV:
		return s.segs
	}
	x.abort("bytes expected, got %s", valString(v))
	return nil
}

func (x *Eng) newBytes(st *State, label string, segs []Seg) *SliceV {
	n := segsLen(segs)
	a := &ArrC{n: n, elem: types.Typ[types.Uint8]}
	if len(segs) > 0 {
		a.log = []Upd{{start: mkInt(0), segs: segs, n: n}}
	}
	o := x.newObj(st, label, a)
	return &SliceV{obj: o, off: mkInt(0), len: n, cap: n, nilT: tFalse, elem: types.Typ[types.Uint8]}
}

func (x *Eng) failErr(st *State, name string, args []Value) *IfaceV {
	return x.errVal(name)
}

// okErr forks into success and failure on an uninterpreted condition.
func (x *Eng) okErr(st *State, ok *Term, succ func(st *State) []Value, fail func(st *State) []Value) []Outcome {
	return x.splitO(st, ok, func(st *State, v bool) []Outcome {
		if v {
			return ret(st, succ(st)...)
		}
		return ret(st, fail(st)...)
	})
}

// ---- byte order ----

func byteOrderFns(name string, little bool) {
	for _, w := range []int{2, 4, 8} {
		w := w
		bits := 8 * w
		at := func(i int) int { // byte index of the i-th least significant byte
			if little {
				return i
			}
			return w - 1 - i
		}
		intrinsics[fmt.Sprintf("(encoding/binary.%s).Uint%d", name, bits)] = func(x *Eng, c *callCtx) []Outcome {
			s := c.args[1].(*SliceV)
			return outs(x.check(c.st, c.caller, mkLe(mkInt(int64(w)), s.len), c.pos, "index out of range in "+name, func(st *State) []Res {
				a := x.arrOf(st, s)
				if a == nil {
					return one(st, freshInt("word", bigZero, new(big.Int).Sub(pow2(bits), bigOne)))
				}
				out := make([]Bit, 0, bits)
				for i := 0; i < w; i++ {
					b, ok := x.arrGet(st, a, tAddI(s.off, int64(at(i)))).(*Term)
					if !ok {
						x.abort("byte expected")
					}
					out = append(out, st.f.bitsOf(b, 8)...)
				}
				return one(st, st.f.mkBits(out, false))
			}))
		}
		put := func(x *Eng, c *callCtx, st *State, s *SliceV, v *Term) {
			a := x.arrOf(st, s)
			if a == nil {
				x.abort("PutUint to %s", valString(s))
			}
			bv := st.f.bitsOf(v, bits)
			vals := make([]Value, w)
			for i := 0; i < w; i++ {
				vals[at(i)] = st.f.mkBits(bv[8*i:8*i+8], false)
			}
			x.setArr(st, s, a.with(st, Upd{start: st.f.norm(s.off), vals: vals}), c.pos, c.caller)
		}
		intrinsics[fmt.Sprintf("(encoding/binary.%s).PutUint%d", name, bits)] = func(x *Eng, c *callCtx) []Outcome {
			s := c.args[1].(*SliceV)
			v := c.args[2].(*Term)
			var out []Outcome
			for _, r := range x.check(c.st, c.caller, mkLe(mkInt(int64(w)), s.len), c.pos, "index out of range in "+name, func(st *State) []Res {
				put(x, c, st, s, v)
				return one(st, TupleV{})
			}) {
				out = append(out, Outcome{st: r.st, pan: r.pan})
			}
			return out
		}
		intrinsics[fmt.Sprintf("(encoding/binary.%s).AppendUint%d", name, bits)] = func(x *Eng, c *callCtx) []Outcome {
			s := c.args[1].(*SliceV)
			o := x.newObj(c.st, "word", &ArrC{n: mkInt(int64(w)), elem: types.Typ[types.Uint8]})
			t := &SliceV{obj: o, off: mkInt(0), len: mkInt(int64(w)), cap: mkInt(int64(w)), nilT: tFalse, elem: types.Typ[types.Uint8]}
			put(x, c, c.st, t, c.args[2].(*Term))
			return x.appendOp(c, c.st, s, t)
		}
	}
	intrinsics[fmt.Sprintf("(encoding/binary.%s).String", name)] = func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, strConst(name))
	}
}

// ---- varints ----

func (x *Eng) uvarintApps(base, off *Term) (val, n *Term) {
	return mkApp(SInt, "uvval", bigZero, new(big.Int).Sub(pow2(64), bigOne), base, off),
		mkApp(SInt, "uvn", big.NewInt(-11), big.NewInt(10), base, off)
}

func (x *Eng) svarintApps(base, off *Term) (val, n *Term) {
	lo, hi := intRange(64, true)
	_, n = x.uvarintApps(base, off)
	return mkApp(SInt, "svval", lo, hi, base, off), n
}

// varintRead models binary.Uvarint and binary.Varint.
func (x *Eng) varintRead(c *callCtx, signed bool) []Outcome {
	st := c.st
	s := c.args[0].(*SliceV)
	if st.f.eq(s.len, mkInt(0)) {
		return ret(st, mkInt(0), mkInt(0))
	}
	a := x.arrOf(st, s)
	if a == nil {
		x.abort("varint read of %s", valString(s))
	}
	if a.base != nil && len(a.log) == 0 {
		base, off := a.base, st.f.norm(s.off)
		end := tAdd(s.off, s.len)
		if !st.f.eq(end, mkApp(SInt, "len", bigZero, x.maxLen(), base)) {
			base = mkApp(SOther, "prefix", nil, nil, base, st.f.norm(end))
		}
		val, n := x.uvarintApps(base, off)
		if signed {
			val, n = x.svarintApps(base, off)
		}
		st.f.assume(mkLe(n, s.len), true)
		return x.splitO(st, mkLt(mkInt(0), n), func(st *State, ok bool) []Outcome {
			if ok {
				return ret(st, val, n)
			}
			return ret(st, mkInt(0), n)
		})
	}
	segs := x.normSegs(st, x.arrSegs(st, a, s.off, s.len))
	if len(segs) > 0 && !signed && segs[0].kind == segUv {
		return ret(st, segs[0].b, uvLen(segs[0].b))
	}
	if len(segs) > 0 && signed && segs[0].kind == segSv {
		return ret(st, segs[0].b, svLen(segs[0].b))
	}
	if signed {
		x.abort("varint read of a computed buffer")
	}
	// byte by byte
	var out []Outcome
	var acc []Bit
	cur := st
	for i := 0; i < 10; i++ {
		if i >= len(segs) {
			if st.f.le(segsLen(segs), mkInt(int64(i))) {
				return append(out, Outcome{st: cur, vals: []Value{mkInt(0), mkInt(0)}})
			}
		}
		if i >= len(segs) || segs[i].kind != segByte {
			x.abort("uvarint read of a computed buffer")
		}
		b := segs[i].b
		bits := cur.f.bitsOf(b, 8)
		small := mkLt(b, mkInt(0x80))
		full := append(append([]Bit(nil), acc...), bits[:7]...)
		done := func(s2 *State) {
			if i == 9 {
				// at most one more bit
				s3 := s2.clone()
				if s3.f.assume(mkLt(mkInt(1), b), true) {
					out = append(out, Outcome{st: s3, vals: []Value{mkInt(0), mkInt(-10)}})
				}
				if !s2.f.assume(mkLe(b, mkInt(1)), true) {
					return
				}
				full = full[:64]
			}
			out = append(out, Outcome{st: s2, vals: []Value{s2.f.mkBits(full, false), mkInt(int64(i + 1))}})
		}
		switch cur.f.decide(small) {
		case 1:
			done(cur)
			return out
		case -1:
			s2 := cur.clone()
			if s2.f.assume(small, true) {
				done(s2)
			}
			if !cur.f.assume(small, false) {
				return out
			}
			bits = cur.f.bitsOf(b, 8)
		}
		acc = append(acc, bits[:7]...)
	}
	return append(out, Outcome{st: cur, vals: []Value{mkInt(0), mkInt(-11)}})
}

func (x *Eng) varintPut(c *callCtx, signed bool) []Outcome {
	s := c.args[0].(*SliceV)
	v := c.st.f.norm(c.args[1].(*Term))
	segs := []Seg{{kind: segUv, b: v}}
	n := uvLen(v)
	if signed {
		segs = []Seg{{kind: segSv, b: v}}
		n = svLen(v)
		if k, ok := v.constInt(); ok {
			segs = constUv(zigzag(k))
			n = segsLen(segs)
		}
	} else if v.isConst() && v.c.IsUint64() {
		segs = constUv(v.c.Uint64())
		n = segsLen(segs)
	} else if c.st.f.ge0(v) && c.st.f.le(v, mkInt(1<<32-1)) {
		// by length
		return x.uvByLen(c, s, v, 1)
	}
	return outs(x.check(c.st, c.caller, mkLe(n, s.len), c.pos, "index out of range in PutVarint", func(st *State) []Res {
		a := x.arrOf(st, s)
		x.setArr(st, s, a.with(st, Upd{start: st.f.norm(s.off), segs: segs, n: n}), c.pos, c.caller)
		return one(st, n)
	}))
}

// uvByLen writes the LEB128 form of a small value, one outcome per length.
func (x *Eng) uvByLen(c *callCtx, s *SliceV, v *Term, k int) []Outcome {
	fits := mkLe(v, mkBig(new(big.Int).Sub(pow2(7*k), bigOne)))
	return x.splitO(c.st, fits, func(st *State, in bool) []Outcome {
		c2 := *c
		c2.st = st
		if !in {
			return x.uvByLen(&c2, s, v, k+1)
		}
		segs := uvBytes(st.f, v)
		n := mkInt(int64(k))
		return outs(x.check(st, c.caller, mkLe(n, s.len), c.pos, "index out of range in PutVarint", func(st *State) []Res {
			a := x.arrOf(st, s)
			x.setArr(st, s, a.with(st, Upd{start: st.f.norm(s.off), segs: segs, n: n}), c.pos, c.caller)
			return one(st, n)
		}))
	})
}

func zigzag(v int64) uint64 { return uint64(v)<<1 ^ uint64(v>>63) }

func constUv(v uint64) []Seg {
	var out []Seg
	for v >= 0x80 {
		out = append(out, Seg{kind: segByte, b: mkInt(int64(v&0x7f | 0x80))})
		v >>= 7
	}
	return append(out, Seg{kind: segByte, b: mkInt(int64(v))})
}

// ---- buffers and builders ----

// bufField finds the []byte field of strings.Builder and bytes.Buffer.
func (x *Eng) bufPtr(p *PtrV) (*PtrV, *PtrV) {
	st := p.elem.Underlying().(*types.Struct)
	var buf, off *PtrV
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		q := &PtrV{nilT: tFalse, obj: p.obj, path: appendPath(p.path, PathEl{fld: i}), elem: f.Type()}
		switch f.Name() {
		case "buf":
			buf = q
		case "off":
			off = q
		}
	}
	return buf, off
}

// onBuf runs f with the receiver checked for nil.
func (x *Eng) onBuf(c *callCtx, f func(st *State, buf, off *PtrV) []Outcome) []Outcome {
	p, ok := c.args[0].(*PtrV)
	if !ok {
		x.abort("buffer expected, got %s", valString(c.args[0]))
	}
	return x.splitO(c.st, p.nilT, func(st *State, isNil bool) []Outcome {
		if isNil {
			return x.panOut(c, st, "nil buffer")
		}
		b, o := x.bufPtr(p)
		return f(st, b, o)
	})
}

func (x *Eng) bufAppend(c *callCtx, v Value, res func(st *State) []Value) []Outcome {
	return x.onBuf(c, func(st *State, buf, off *PtrV) []Outcome {
		var out []Outcome
		for _, o := range x.appendOp(c, st, x.load(st, buf).(*SliceV), v) {
			if o.pan == nil {
				x.store(o.st, buf, o.vals[0], c.pos, c.caller)
				o.vals = res(o.st)
			}
			out = append(out, o)
		}
		return out
	})
}

func (x *Eng) bufSlice(st *State, buf, off *PtrV) *SliceV {
	s := x.load(st, buf).(*SliceV)
	if off != nil {
		o := x.load(st, off).(*Term)
		if o != mkInt(0) {
			n := *s
			n.off, n.len, n.cap = tAdd(s.off, o), tSub(s.len, o), tSub(s.cap, o)
			return &n
		}
	}
	return s
}

func (x *Eng) runeStr(st *State, r *Term) *StrV {
	r = st.f.norm(r)
	if c, ok := r.constInt(); ok {
		return strConst(string(rune(c)))
	}
	if isChar(r) {
		return &StrV{segs: charSegs(r)}
	}
	if st.f.inRange(r, bigZero, big.NewInt(0x7f)) {
		return &StrV{segs: []Seg{{kind: segByte, b: r}}}
	}
	b := mkApp(SOther, "runestr", nil, nil, r)
	n := mkApp(SInt, "runelen", bigOne, big.NewInt(4), r)
	return x.blobStr(b, n)
}

func strFn(name string, f func(a []string) []interface{}) {
	intrinsics[name] = func(x *Eng, c *callCtx) []Outcome {
		var as []string
		for _, a := range c.args {
			switch v := a.(type) {
			case *StrV:
				s, ok := v.constStr()
				if !ok {
					return x.textApp(c, name)
				}
				as = append(as, s)
			case *Term:
				k, ok := v.constInt()
				if !ok {
					return x.textApp(c, name)
				}
				as = append(as, fmt.Sprint(k))
			default:
				return x.textApp(c, name)
			}
		}
		var vals []Value
		for _, r := range f(as) {
			switch r := r.(type) {
			case string:
				vals = append(vals, strConst(r))
			case bool:
				vals = append(vals, mkBool(r))
			case int:
				vals = append(vals, mkInt(int64(r)))
			case []string:
				var vs []Value
				for _, s := range r {
					vs = append(vs, strConst(s))
				}
				a := &ArrC{n: mkInt(int64(len(r))), elem: types.Typ[types.String]}
				if len(vs) > 0 {
					a.log = []Upd{{start: mkInt(0), vals: vs}}
				}
				o := x.newObj(c.st, "strings", a)
				vals = append(vals, &SliceV{obj: o, off: mkInt(0), len: a.n, cap: a.n, nilT: mkBool(r == nil), elem: types.Typ[types.String]})
			}
		}
		return ret(c.st, vals...)
	}
}

// textApp: results are uninterpreted functions of the arguments.
func (x *Eng) textApp(c *callCtx, name string) []Outcome {
	var keys []*Term
	for _, a := range c.args {
		if f, ok := a.(*FuncV); ok {
			keys = append(keys, namedOther("fn:"+fmt.Sprint(f.fn)))
			continue
		}
		keys = append(keys, x.valKey(c.st, a))
	}
	var vals []Value
	res := c.resultTypes()
	for i := 0; i < res.Len(); i++ {
		v := x.symVal(res.At(i).Type(), mkApp(SOther, fmt.Sprintf("%s/%d", name, i), nil, nil, keys...))
		x.symFacts(c.st, v)
		vals = append(vals, v)
	}
	return ret(c.st, vals...)
}

func appFn(names ...string) {
	for _, n := range names {
		n := n
		intrinsics[n] = func(x *Eng, c *callCtx) []Outcome { return x.textApp(c, n) }
	}
}

func pureFn(names ...string) {
	for _, n := range names {
		intrinsics[n] = func(x *Eng, c *callCtx) []Outcome { return x.pureCall(c) }
	}
}

func itoa(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// format models fmt.Sprintf where the verbs are simple.
func (x *Eng) format(st *State, f string, args []Value) (*StrV, bool) {
	out := &StrV{}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out.segs = append(out.segs, Seg{kind: segByte, b: mkInt(int64(f[i]))})
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out.segs = append(out.segs, Seg{kind: segByte, b: mkInt('%')})
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		iv, ok := args[ai].(*IfaceV)
		ai++
		if !ok || iv.typ == nil {
			return nil, false
		}
		if _, named := types.Unalias(iv.typ).(*types.Named); named {
			return nil, false
		}
		switch v := iv.val.(type) {
		case *StrV:
			if f[i] != 's' && f[i] != 'v' {
				return nil, false
			}
			out.segs = append(out.segs, v.segs...)
		case *Term:
			if v.sort != SInt || (f[i] != 'd' && f[i] != 'v') {
				return nil, false
			}
			out.segs = append(out.segs, x.decText(st, v).segs...)
		default:
			return nil, false
		}
	}
	return out, ai == len(args)
}

func (x *Eng) varargs(st *State, v Value) ([]Value, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	n, ok := st.f.norm(s.len).constInt()
	if !ok {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	a := x.arrOf(st, s)
	var out []Value
	for i := int64(0); i < n; i++ {
		out = append(out, x.arrGet(st, a, tAddI(s.off, i)))
	}
	return out, true
}

// nonNil: fresh results that are not nil.
func nonNil(x *Eng, c *callCtx) []Outcome {
	o := x.pureCall(c)
	for i := range o {
		for j, v := range o[i].vals {
			o[i].vals[j] = notNil(v)
		}
	}
	return o
}

func notNil(v Value) Value {
	switch p := v.(type) {
	case *PtrV:
		n := *p
		n.nilT = tFalse
		return &n
	case *IfaceV:
		n := *p
		n.nilT = tFalse
		return &n
	}
	return v
}

// bigAt returns the integer held by a *big.Int.
func (x *Eng) bigOn(c *callCtx, ptrs []int, f func(st *State, v []*Term) []Outcome) []Outcome {
	var step func(st *State, i int, acc []*Term) []Outcome
	step = func(st *State, i int, acc []*Term) []Outcome {
		if i == len(ptrs) {
			return f(st, acc)
		}
		p, ok := c.args[ptrs[i]].(*PtrV)
		if !ok {
			x.abort("big.Int expected, got %s", valString(c.args[ptrs[i]]))
		}
		return x.splitO(st, p.nilT, func(st *State, isNil bool) []Outcome {
			if isNil {
				return x.panOut(c, st, "nil *big.Int")
			}
			b, ok := x.load(st, p).(*BigV)
			if !ok {
				x.abort("big.Int content %s", valString(x.load(st, p)))
			}
			return step(st, i+1, append(acc[:len(acc):len(acc)], b.t))
		})
	}
	return step(c.st, 0, nil)
}

func (x *Eng) bigSet(c *callCtx, st *State, t *Term) []Outcome {
	p := c.args[0].(*PtrV)
	x.store(st, p, &BigV{t}, c.pos, c.caller)
	return ret(st, p)
}

// bigOfBytes is the integer whose big-endian bytes are given.
func (x *Eng) bigOfBytes(st *State, segs []Seg) *Term {
	segs = x.normSegs(st, segs)
	if len(segs) == 1 && segs[0].kind == segBlob && segs[0].base.op == OApp && segs[0].base.str == "bigbytes" && st.f.eq(segs[0].off, mkInt(0)) {
		return segs[0].base.args[0]
	}
	var bits []Bit
	for i := len(segs) - 1; i >= 0; i-- {
		if segs[i].kind != segByte {
			return mkApp(SInt, "bigofbytes", bigZero, nil, segsKey(segs))
		}
		bits = append(bits, st.f.bitsOf(segs[i].b, 8)...)
	}
	if len(bits) == 0 {
		return mkInt(0)
	}
	return st.f.mkBits(bits, false)
}

func (x *Eng) bigByteSlice(st *State, abs *Term) *SliceV {
	b := mkApp(SOther, "bigbytes", nil, nil, abs)
	n := mkApp(SInt, "bigbyteslen", bigZero, big.NewInt(1<<20), abs)
	return x.newBytes(st, "bigbytes", []Seg{{kind: segBlob, base: b, off: mkInt(0), n: n}})
}

func init() {
	byteOrderFns("littleEndian", true)
	byteOrderFns("bigEndian", false)
	intrinsics["encoding/binary.Uvarint"] = func(x *Eng, c *callCtx) []Outcome { return x.varintRead(c, false) }
	intrinsics["encoding/binary.Varint"] = func(x *Eng, c *callCtx) []Outcome { return x.varintRead(c, true) }
	intrinsics["encoding/binary.PutUvarint"] = func(x *Eng, c *callCtx) []Outcome { return x.varintPut(c, false) }
	intrinsics["encoding/binary.PutVarint"] = func(x *Eng, c *callCtx) []Outcome { return x.varintPut(c, true) }
	for _, sg := range []bool{false, true} {
		sg := sg
		name := "encoding/binary.AppendUvarint"
		if sg {
			name = "encoding/binary.AppendVarint"
		}
		intrinsics[name] = func(x *Eng, c *callCtx) []Outcome {
			k := segUv
			if sg {
				k = segSv
			}
			return x.appendOp(c, c.st, c.args[0].(*SliceV), &StrV{segs: []Seg{{kind: k, b: c.args[1].(*Term)}}})
		}
	}

	// math
	fb := func(name string, w int, from bool) {
		tag := fmt.Sprintf("f%d", w)
		intrinsics[name] = func(x *Eng, c *callCtx) []Outcome {
			t := c.st.f.norm(c.args[0].(*Term))
			if from {
				if t.op == OApp && t.str == tag+"bits" {
					return ret(c.st, t.args[0])
				}
				return ret(c.st, mkApp(SOther, tag+"frombits", nil, nil, t))
			}
			if t.op == OApp && t.str == tag+"frombits" {
				return ret(c.st, t.args[0])
			}
			return ret(c.st, mkApp(SInt, tag+"bits", bigZero, new(big.Int).Sub(pow2(w), bigOne), t))
		}
	}
	fb("math.Float32bits", 32, false)
	fb("math.Float64bits", 64, false)
	fb("math.Float32frombits", 32, true)
	fb("math.Float64frombits", 64, true)
	intrinsics["math.IsNaN"] = func(x *Eng, c *callCtx) []Outcome { return ret(c.st, isnan(c.args[0].(*Term))) }
	appFn("math.IsInf", "math.Inf", "math.NaN", "math.Abs", "math.Signbit", "math.Floor", "math.Trunc")

	// fmt, errors
	intrinsics["fmt.Errorf"] = func(x *Eng, c *callCtx) []Outcome {
		e := x.errVal("errorf")
		if f, ok := c.args[0].(*StrV).constStr(); ok {
			if !strings.Contains(f, "%w") {
				e.made = true
			} else if as, ok := x.varargs(c.st, c.args[1]); ok {
				e.made, e.wrap = true, as
			}
		}
		return ret(c.st, e)
	}
	intrinsics["errors.New"] = func(x *Eng, c *callCtx) []Outcome {
		e := x.errVal("errnew")
		e.made = true
		return ret(c.st, e)
	}
	intrinsics["errors.As"] = func(x *Eng, c *callCtx) []Outcome { return x.errorsAs(c) }
	pureFn("errors.Is", "errors.Unwrap", "fmt.Sprint", "fmt.Sprintln", "fmt.Println", "fmt.Printf", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln")
	intrinsics["fmt.Sprintf"] = func(x *Eng, c *callCtx) []Outcome {
		f, ok := c.args[0].(*StrV).constStr()
		if ok {
			if as, ok := x.varargs(c.st, c.args[1]); ok {
				if s, ok := x.format(c.st, f, as); ok {
					return ret(c.st, s)
				}
				keys := []*Term{}
				for _, a := range as {
					keys = append(keys, x.valKey(c.st, a))
				}
				return ret(c.st, x.symVal(types.Typ[types.String], mkApp(SOther, "sprintf:"+f, nil, nil, keys...)))
			}
		}
		return x.pureCall(c)
	}

	// strings
	intrinsics["strings.HasPrefix"] = func(x *Eng, c *callCtx) []Outcome {
		s, p := c.args[0].(*StrV), c.args[1].(*StrV)
		ps, ok := p.constStr()
		if ss, ok2 := s.constStr(); ok && ok2 {
			return ret(c.st, mkBool(strings.HasPrefix(ss, ps)))
		}
		if !ok {
			return x.textApp(c, "strings.HasPrefix")
		}
		n := mkInt(int64(len(ps)))
		return x.splitO(c.st, mkLe(n, strLen(s)), func(st *State, long bool) []Outcome {
			if !long {
				return ret(st, tFalse)
			}
			r := tTrue
			for i := 0; i < len(ps); i++ {
				b := x.segsGet(st, s.segs, mkInt(int64(i)))
				if b == nil {
					return x.textApp(c, "strings.HasPrefix")
				}
				r = andT(r, mkEqI(b, mkInt(int64(ps[i]))))
			}
			return ret(st, r)
		})
	}
	strFn("strings.HasSuffix", func(a []string) []interface{} { return []interface{}{strings.HasSuffix(a[0], a[1])} })
	strFn("strings.Split", func(a []string) []interface{} { return []interface{}{strings.Split(a[0], a[1])} })
	strFn("strings.SplitN", func(a []string) []interface{} { return []interface{}{strings.SplitN(a[0], a[1], itoa(a[2]))} })
	strFn("strings.Fields", func(a []string) []interface{} { return []interface{}{strings.Fields(a[0])} })
	strFn("strings.TrimSpace", func(a []string) []interface{} { return []interface{}{strings.TrimSpace(a[0])} })
	strFn("strings.TrimPrefix", func(a []string) []interface{} { return []interface{}{strings.TrimPrefix(a[0], a[1])} })
	strFn("strings.TrimSuffix", func(a []string) []interface{} { return []interface{}{strings.TrimSuffix(a[0], a[1])} })
	strFn("strings.Trim", func(a []string) []interface{} { return []interface{}{strings.Trim(a[0], a[1])} })
	strFn("strings.TrimLeft", func(a []string) []interface{} { return []interface{}{strings.TrimLeft(a[0], a[1])} })
	strFn("strings.TrimRight", func(a []string) []interface{} { return []interface{}{strings.TrimRight(a[0], a[1])} })
	strFn("strings.ToUpper", func(a []string) []interface{} { return []interface{}{strings.ToUpper(a[0])} })
	strFn("strings.ToLower", func(a []string) []interface{} { return []interface{}{strings.ToLower(a[0])} })
	strFn("strings.Contains", func(a []string) []interface{} { return []interface{}{strings.Contains(a[0], a[1])} })
	strFn("strings.EqualFold", func(a []string) []interface{} { return []interface{}{strings.EqualFold(a[0], a[1])} })
	strFn("strings.Index", func(a []string) []interface{} { return []interface{}{strings.Index(a[0], a[1])} })
	strFn("strings.IndexByte", func(a []string) []interface{} { return []interface{}{strings.IndexByte(a[0], byte(itoa(a[1])))} })
	strFn("strings.IndexRune", func(a []string) []interface{} { return []interface{}{strings.IndexRune(a[0], rune(itoa(a[1])))} })
	strFn("strings.Replace", func(a []string) []interface{} { return []interface{}{strings.Replace(a[0], a[1], a[2], itoa(a[3]))} })
	strFn("strings.ReplaceAll", func(a []string) []interface{} { return []interface{}{strings.ReplaceAll(a[0], a[1], a[2])} })
	strFn("strings.Repeat", func(a []string) []interface{} { return []interface{}{strings.Repeat(a[0], itoa(a[1]))} })
	intrinsics["strings.Cut"] = func(x *Eng, c *callCtx) []Outcome {
		s, ok := c.args[0].(*StrV).constStr()
		p, ok2 := c.args[1].(*StrV).constStr()
		if !ok || !ok2 {
			return x.textApp(c, "strings.Cut")
		}
		a, b, f := strings.Cut(s, p)
		return ret(c.st, strConst(a), strConst(b), mkBool(f))
	}
	intrinsics["strings.Compare"] = func(x *Eng, c *callCtx) []Outcome {
		p, q := c.args[0].(*StrV), c.args[1].(*StrV)
		return x.splitO(c.st, x.strLess(c.st, p, q), func(st *State, lt bool) []Outcome {
			if lt {
				return ret(st, mkInt(-1))
			}
			return x.splitO(st, x.strEq(st, p, q), func(st *State, eq bool) []Outcome {
				if eq {
					return ret(st, mkInt(0))
				}
				return ret(st, mkInt(1))
			})
		})
	}
	intrinsics["strings.Join"] = func(x *Eng, c *callCtx) []Outcome {
		if as, ok := x.varargs(c.st, c.args[0]); ok {
			out := &StrV{}
			for i, a := range as {
				if i > 0 {
					out.segs = concatSegs(out.segs, c.args[1].(*StrV).segs)
				}
				out.segs = concatSegs(out.segs, a.(*StrV).segs)
			}
			return ret(c.st, out)
		}
		return x.pureCall(c)
	}
	callback := func(name string) {
		intrinsics[name] = func(x *Eng, c *callCtx) []Outcome {
			// the callback is run on an arbitrary character
			fi, si := 0, 1
			if _, ok := c.args[0].(*FuncV); !ok {
				fi, si = 1, 0
			}
			f := c.args[fi].(*FuncV)
			var pans []Outcome
			if f.fn != nil {
				r := freshInt("rune", bigZero, big.NewInt(0x10ffff))
				c2 := *c
				c2.st = c.st.clone()
				c2.fn = f.fn
				c2.args = []Value{r}
				for _, o := range x.callFn(&c2, f.bind) {
					if o.pan != nil {
						pans = append(pans, o)
					}
				}
			}
			key := mkApp(SOther, name, nil, nil, namedOther("fn:"+fmt.Sprint(f.fn)), x.valKey(c.st, c.args[si]))
			v := x.symVal(c.resultTypes().At(0).Type(), key)
			x.symFacts(c.st, v)
			return append(pans, Outcome{st: c.st, vals: []Value{v}})
		}
	}
	for _, n := range []string{"strings.Map", "strings.FieldsFunc", "strings.IndexFunc", "strings.TrimFunc", "strings.ToTitle"} {
		callback(n)
	}
	for name, f := range map[string]func(rune) bool{"IsLower": unicode.IsLower, "IsUpper": unicode.IsUpper, "IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsNumber": unicode.IsNumber, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsTitle": unicode.IsTitle, "IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol, "IsGraphic": unicode.IsGraphic} {
		name, f := name, f
		intrinsics["unicode."+name] = func(x *Eng, c *callCtx) []Outcome {
			r := c.st.f.norm(c.args[0].(*Term))
			if k, ok := r.constInt(); ok {
				return ret(c.st, mkBool(f(rune(k))))
			}
			if v, ok := charPred(name, r); ok {
				return ret(c.st, mkBool(v))
			}
			return ret(c.st, mkApp(SBool, "u."+name, nil, nil, r))
		}
	}
	appFn("unicode/utf8.ValidString", "unicode/utf8.Valid", "unicode/utf8.ValidRune", "unicode/utf8.RuneLen", "unicode/utf8.RuneCountInString")

	// bytes
	intrinsics["bytes.Equal"] = func(x *Eng, c *callCtx) []Outcome {
		return ret(c.st, x.strEq(c.st, &StrV{x.bytesArg(c.st, c.args[0])}, &StrV{x.bytesArg(c.st, c.args[1])}))
	}
	intrinsics["bytes.Compare"] = func(x *Eng, c *callCtx) []Outcome {
		c2 := *c
		c2.args = []Value{&StrV{x.bytesArg(c.st, c.args[0])}, &StrV{x.bytesArg(c.st, c.args[1])}}
		return intrinsics["strings.Compare"](x, &c2)
	}
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		intrinsics[t+".Write"] = func(x *Eng, c *callCtx) []Outcome {
			s := c.args[1].(*SliceV)
			return x.bufAppend(c, s, func(st *State) []Value { return []Value{s.len, nilIface()} })
		}
		intrinsics[t+".WriteString"] = func(x *Eng, c *callCtx) []Outcome {
			s := c.args[1].(*StrV)
			return x.bufAppend(c, s, func(st *State) []Value { return []Value{strLen(s), nilIface()} })
		}
		intrinsics[t+".WriteByte"] = func(x *Eng, c *callCtx) []Outcome {
			return x.bufAppend(c, &StrV{segs: []Seg{{kind: segByte, b: c.args[1].(*Term)}}}, func(st *State) []Value { return []Value{nilIface()} })
		}
		intrinsics[t+".WriteRune"] = func(x *Eng, c *callCtx) []Outcome {
			s := x.runeStr(c.st, c.args[1].(*Term))
			return x.bufAppend(c, s, func(st *State) []Value { return []Value{strLen(s), nilIface()} })
		}
		intrinsics[t+".Grow"] = func(x *Eng, c *callCtx) []Outcome { return ret(c.st) }
		intrinsics[t+".Reset"] = func(x *Eng, c *callCtx) []Outcome {
			return x.onBuf(c, func(st *State, buf, off *PtrV) []Outcome {
				s := *x.load(st, buf).(*SliceV)
				s.len = mkInt(0)
				if off == nil {
					x.store(st, buf, x.zeroVal(buf.elem), c.pos, c.caller)
				} else {
					x.store(st, buf, &s, c.pos, c.caller)
				}
				if off != nil {
					x.store(st, off, mkInt(0), c.pos, c.caller)
				}
				return ret(st)
			})
		}
		intrinsics[t+".Len"] = func(x *Eng, c *callCtx) []Outcome {
			return x.onBuf(c, func(st *State, buf, off *PtrV) []Outcome { return ret(st, x.bufSlice(st, buf, off).len) })
		}
		intrinsics[t+".String"] = func(x *Eng, c *callCtx) []Outcome {
			return x.onBuf(c, func(st *State, buf, off *PtrV) []Outcome {
				return ret(st, &StrV{segs: x.sliceSegs(st, x.bufSlice(st, buf, off))})
			})
		}
		intrinsics[t+".Bytes"] = func(x *Eng, c *callCtx) []Outcome {
			return x.onBuf(c, func(st *State, buf, off *PtrV) []Outcome { return ret(st, x.bufSlice(st, buf, off)) })
		}
	}
	intrinsics["bytes.NewBuffer"] = func(x *Eng, c *callCtx) []Outcome {
		t := c.resultTypes().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj(c.st, "buffer", x.zeroVal(t))
		x.objs[o].typ = t
		p := &PtrV{nilT: tFalse, obj: o, elem: t}
		b, _ := x.bufPtr(p)
		x.store(c.st, b, c.args[0], c.pos, c.caller)
		return ret(c.st, p)
	}
	intrinsics["bytes.NewReader"] = func(x *Eng, c *callCtx) []Outcome { return nonNil(x, c) }

	// strconv
	intrinsics["strconv.Itoa"] = func(x *Eng, c *callCtx) []Outcome { return ret(c.st, x.decText(c.st, c.args[0].(*Term))) }
	fmtInt := func(x *Eng, c *callCtx) []Outcome {
		if b, ok := c.args[1].(*Term).constInt(); !ok || b != 10 {
			return x.textApp(c, "strconv.Format")
		}
		return ret(c.st, x.decText(c.st, c.args[0].(*Term)))
	}
	intrinsics["strconv.FormatInt"] = fmtInt
	intrinsics["strconv.FormatUint"] = fmtInt
	appInt := func(name string, signed bool) {
		intrinsics[name] = func(x *Eng, c *callCtx) []Outcome {
			s := c.args[0].(*StrV)
			b, _ := c.args[1].(*Term).constInt()
			w, _ := c.args[2].(*Term).constInt()
			if w == 0 {
				w = int64(x.wordBits)
			}
			lo, hi := intRange(int(w), signed)
			if ti, ok := x.textOf(c.st, s.segs); ok && ti.dec != nil && (b == 10 || b == 0) {
				in := andT(mkLe(mkBig(lo), ti.dec), mkLe(ti.dec, mkBig(hi)))
				return x.okErr(c.st, in, func(st *State) []Value { return []Value{ti.dec, nilIface()} },
					func(st *State) []Value { return []Value{mkInt(0), x.errVal("range")} })
			}
			key := segsKey(x.normSegs(c.st, s.segs))
			tag := fmt.Sprintf("%s/%d/%d", name, b, w)
			return x.okErr(c.st, mkApp(SBool, tag+"ok", nil, nil, key), func(st *State) []Value {
				return []Value{mkApp(SInt, tag, lo, hi, key), nilIface()}
			}, func(st *State) []Value { return []Value{freshInt("perr", lo, hi), x.errVal("parse")} })
		}
	}
	appInt("strconv.ParseInt", true)
	appInt("strconv.ParseUint", false)
	intrinsics["strconv.Atoi"] = func(x *Eng, c *callCtx) []Outcome {
		c2 := *c
		c2.args = []Value{c.args[0], mkInt(10), mkInt(0)}
		return intrinsics["strconv.ParseInt"](x, &c2)
	}
	intrinsics["strconv.ParseFloat"] = func(x *Eng, c *callCtx) []Outcome {
		key := segsKey(x.normSegs(c.st, c.args[0].(*StrV).segs))
		w, _ := c.args[1].(*Term).constInt()
		tag := fmt.Sprintf("parsefloat%d", w)
		return x.okErr(c.st, mkApp(SBool, tag+"ok", nil, nil, key), func(st *State) []Value {
			return []Value{mkApp(SOther, tag, nil, nil, key), nilIface()}
		}, func(st *State) []Value { return []Value{freshOther("perr"), x.errVal("parse")} })
	}

	// hex
	intrinsics["encoding/hex.EncodeToString"] = func(x *Eng, c *callCtx) []Outcome {
		segs := x.normSegs(c.st, x.bytesArg(c.st, c.args[0]))
		b := mkApp(SOther, "hex", nil, nil, segsKey(segs))
		texts[b] = textInfo{hex: segs, isHx: true}
		return ret(c.st, x.blobStr(b, tScale(segsLen(segs), big.NewInt(2))))
	}
	intrinsics["encoding/hex.DecodeString"] = func(x *Eng, c *callCtx) []Outcome {
		s := c.args[0].(*StrV)
		segs := x.normSegs(c.st, s.segs)
		if ti, ok := x.textOf(c.st, segs); ok && ti.isHx {
			return ret(c.st, x.newBytes(c.st, "unhex", ti.hex), nilIface())
		}
		if segs := x.coalesce(c.st, segs); len(segs) == 1 && segs[0].kind == segBlob {
			if ti, ok := texts[segs[0].base]; ok && ti.isHx {
				off, ok1 := divExact(segs[0].off, 2)
				n, ok2 := divExact(segs[0].n, 2)
				if ok1 && ok2 {
					return ret(c.st, x.newBytes(c.st, "unhex", x.subSegs(c.st, ti.hex, off, n)), nilIface())
				}
			}
		}
		key := segsKey(segs)
		return x.okErr(c.st, mkApp(SBool, "unhexok", nil, nil, key), func(st *State) []Value {
			// an even number of digits, half as many bytes
			l := strLen(s)
			q := mkApp(SInt, "half", bigZero, x.maxLen(), key)
			st.f.assume(mkEqI(tScale(q, big.NewInt(2)), l), true)
			b := mkApp(SOther, "unhex", nil, nil, key)
			return []Value{x.newBytes(st, "unhex", []Seg{{kind: segBlob, base: b, off: mkInt(0), n: st.f.norm(q)}}), nilIface()}
		}, func(st *State) []Value {
			n := freshInt("unhexlen", bigZero, x.maxLen())
			st.f.assume(mkLe(n, strLen(s)), true)
			return []Value{x.newBytes(st, "unhex", []Seg{{kind: segBlob, base: freshOther("unhexpart"), off: mkInt(0), n: n}}), x.errVal("hex")}
		})
	}

	// sha256
	const fips = "crypto/internal/fips140/sha256"
	intrinsics["crypto/sha256.New"] = func(x *Eng, c *callCtx) []Outcome {
		var t types.Type
		if p := x.prog.ImportedPackage(fips); p != nil {
			if o := p.Pkg.Scope().Lookup("Digest"); o != nil {
				t = o.Type()
			}
		}
		if t == nil {
			return x.pureCall(c)
		}
		o := x.newObj(c.st, "sha256", &StrV{})
		p := &PtrV{nilT: tFalse, obj: o, elem: t}
		return ret(c.st, &IfaceV{nilT: tFalse, typ: types.NewPointer(t), val: p})
	}
	digest := func(x *Eng, c *callCtx) (*PtrV, *StrV) {
		p, ok := c.args[0].(*PtrV)
		if !ok || p.obj < 0 {
			return nil, nil
		}
		s, _ := x.content(c.st, p.obj).(*StrV)
		return p, s
	}
	intrinsics["(*"+fips+".Digest).Write"] = func(x *Eng, c *callCtx) []Outcome {
		p, s := digest(x, c)
		if s == nil {
			return x.unknownCall(c, c.st, "sha256 Write")
		}
		b := x.normSegs(c.st, x.bytesArg(c.st, c.args[1]))
		c.st.heap[p.obj] = &StrV{segs: append(s.segs[:len(s.segs):len(s.segs)], b...)}
		return ret(c.st, segsLen(b), nilIface())
	}
	intrinsics["(*"+fips+".Digest).Reset"] = func(x *Eng, c *callCtx) []Outcome {
		p, s := digest(x, c)
		if s == nil {
			return x.unknownCall(c, c.st, "sha256 Reset")
		}
		c.st.heap[p.obj] = &StrV{}
		return ret(c.st)
	}
	intrinsics["(*"+fips+".Digest).Size"] = func(x *Eng, c *callCtx) []Outcome { return ret(c.st, mkInt(32)) }
	intrinsics["(*"+fips+".Digest).BlockSize"] = func(x *Eng, c *callCtx) []Outcome { return ret(c.st, mkInt(64)) }
	intrinsics["(*"+fips+".Digest).Sum"] = func(x *Eng, c *callCtx) []Outcome {
		_, s := digest(x, c)
		d, ok := c.args[1].(*SliceV)
		if s == nil || !ok {
			return x.unknownCall(c, c.st, "sha256 Sum")
		}
		segs := x.sha256Segs(x.normSegs(c.st, s.segs))
		return x.appendOp(c, c.st, d, x.newBytes(c.st, "sum", segs))
	}
	intrinsics["crypto/sha256.Sum256"] = func(x *Eng, c *callCtx) []Outcome {
		segs := x.normSegs(c.st, x.bytesArg(c.st, c.args[0]))
		if t, ok := (&StrV{segs: segs}).constStr(); ok {
			h := sha256.Sum256([]byte(t))
			a := &ArrC{n: mkInt(32), elem: types.Typ[types.Uint8]}
			var out []Seg
			for _, b := range h {
				out = append(out, Seg{kind: segByte, b: mkInt(int64(b))})
			}
			return ret(c.st, a.with(c.st, Upd{start: mkInt(0), segs: out, n: mkInt(32)}))
		}
		return ret(c.st, &ArrC{n: mkInt(32), elem: types.Typ[types.Uint8], base: mkApp(SOther, "sha256", nil, nil, segsKey(segs))})
	}

	// json
	intrinsics["encoding/json.Marshal"] = jsonMarshal
	intrinsics["encoding/json.Unmarshal"] = jsonUnmarshal

	// sort
	for _, n := range []string{"sort.Sort", "sort.Stable"} {
		intrinsics[n] = sortSort
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		intrinsics[n] = sortSlice
	}
	intrinsics["sort.Strings"] = func(x *Eng, c *callCtx) []Outcome { return x.sortIt(c, c.args[0].(*SliceV), nil) }

	// math/big
	bi := func(name string, f intrinsic) { intrinsics["(*math/big.Int)."+name] = f }
	bi("SetBytes", func(x *Eng, c *callCtx) []Outcome {
		return x.bigSet(c, c.st, x.bigOfBytes(c.st, x.bytesArg(c.st, c.args[1])))
	})
	set := func(x *Eng, c *callCtx) []Outcome { return x.bigSet(c, c.st, c.args[1].(*Term)) }
	bi("SetUint64", set)
	bi("SetInt64", set)
	intrinsics["math/big.NewInt"] = func(x *Eng, c *callCtx) []Outcome {
		t := c.resultTypes().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj(c.st, "big", &BigV{c.args[0].(*Term)})
		x.objs[o].typ = t
		return ret(c.st, &PtrV{nilT: tFalse, obj: o, elem: t})
	}
	bi("Set", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1}, func(st *State, v []*Term) []Outcome { return x.bigSet(c, st, v[0]) })
	})
	bi("Neg", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1}, func(st *State, v []*Term) []Outcome { return x.bigSet(c, st, tScale(v[0], bigM1)) })
	})
	bi("Abs", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1}, func(st *State, v []*Term) []Outcome {
			return x.splitO(st, mkLe(mkInt(0), v[0]), func(st *State, ok bool) []Outcome {
				if ok {
					return x.bigSet(c, st, v[0])
				}
				return x.bigSet(c, st, tScale(v[0], bigM1))
			})
		})
	})
	bi("Add", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1, 2}, func(st *State, v []*Term) []Outcome { return x.bigSet(c, st, tAdd(v[0], v[1])) })
	})
	bi("Sub", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1, 2}, func(st *State, v []*Term) []Outcome { return x.bigSet(c, st, tSub(v[0], v[1])) })
	})
	bi("Lsh", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1}, func(st *State, v []*Term) []Outcome {
			k, ok := st.f.norm(c.args[2].(*Term)).constInt()
			if !ok || k > 4096 {
				x.abort("big shift by an unknown amount")
			}
			return x.bigSet(c, st, tScale(v[0], pow2(int(k))))
		})
	})
	bi("Rsh", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1}, func(st *State, v []*Term) []Outcome {
			k, ok := st.f.norm(c.args[2].(*Term)).constInt()
			t := st.f.norm(v[0])
			if !ok || !st.f.ge0(t) || t.hi == nil || t.hi.BitLen() > 512 {
				x.abort("big shift of an unknown value")
			}
			bits := st.f.bitsOf(t, t.hi.BitLen()+1)
			if int(k) >= len(bits) {
				return x.bigSet(c, st, mkInt(0))
			}
			return x.bigSet(c, st, st.f.mkBits(bits[k:], false))
		})
	})
	bi("Or", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{1, 2}, func(st *State, v []*Term) []Outcome {
			p, q := st.f.norm(v[0]), st.f.norm(v[1])
			if !st.f.ge0(p) || !st.f.ge0(q) || p.hi == nil || q.hi == nil || p.hi.BitLen() > 256 || q.hi.BitLen() > 256 {
				x.abort("big Or of unknown values")
			}
			a, b := st.f.bitsOf(p, 257), st.f.bitsOf(q, 257)
			out := make([]Bit, 257)
			for i := range out {
				switch {
				case a[i] == bit0:
					out[i] = b[i]
				case b[i] == bit0 || a[i] == b[i]:
					out[i] = a[i]
				case a[i] == bit1 || b[i] == bit1:
					out[i] = bit1
				default:
					out[i] = opaqueBit("or", a[i], b[i])
				}
			}
			return x.bigSet(c, st, st.f.mkBits(out, false))
		})
	})
	bi("Sign", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome {
			return x.splitO(st, mkLt(v[0], mkInt(0)), func(st *State, neg bool) []Outcome {
				if neg {
					return ret(st, mkInt(-1))
				}
				return x.splitO(st, mkEqI(v[0], mkInt(0)), func(st *State, z bool) []Outcome {
					if z {
						return ret(st, mkInt(0))
					}
					return ret(st, mkInt(1))
				})
			})
		})
	})
	bi("Cmp", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{0, 1}, func(st *State, v []*Term) []Outcome {
			if x.eqInt(st, v[0], v[1]) {
				return ret(st, mkInt(0))
			}
			return x.splitO(st, mkLt(v[0], v[1]), func(st *State, lt bool) []Outcome {
				if lt {
					return ret(st, mkInt(-1))
				}
				return x.splitO(st, mkEqI(v[0], v[1]), func(st *State, z bool) []Outcome {
					if z {
						return ret(st, mkInt(0))
					}
					return ret(st, mkInt(1))
				})
			})
		})
	})
	bi("BitLen", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome {
			return x.splitO(st, mkLe(mkInt(0), v[0]), func(st *State, nonneg bool) []Outcome {
				t := v[0]
				if !nonneg {
					t = tScale(t, bigM1)
				}
				var rec func(st *State, ws []int, lo int) []Outcome
				rec = func(st *State, ws []int, lo int) []Outcome {
					if len(ws) == 0 {
						return ret(st, mkApp(SInt, fmt.Sprintf("bitlen%d", lo), big.NewInt(int64(lo)), big.NewInt(1<<40), t))
					}
					w := ws[0]
					return x.splitO(st, mkLt(t, mkBig(pow2(w))), func(st *State, in bool) []Outcome {
						if in {
							return ret(st, mkApp(SInt, fmt.Sprintf("bitlen%d", lo), big.NewInt(int64(lo)), big.NewInt(int64(w)), t))
						}
						return rec(st, ws[1:], w+1)
					})
				}
				return rec(st, []int{0, 63, 64, 127, 128}, 0)
			})
		})
	})
	bi("Bytes", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome {
			return x.splitO(st, mkLe(mkInt(0), v[0]), func(st *State, nonneg bool) []Outcome {
				t := st.f.norm(v[0])
				if !nonneg {
					t = tScale(t, bigM1)
				}
				return ret(st, x.bigByteSlice(st, t))
			})
		})
	})
	bi("FillBytes", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome {
			s := c.args[1].(*SliceV)
			n, ok := st.f.norm(s.len).constInt()
			if !ok || n > 64 {
				x.abort("FillBytes of an unknown length")
			}
			return x.splitO(st, mkLe(mkInt(0), v[0]), func(st *State, nonneg bool) []Outcome {
				t := v[0]
				if !nonneg {
					t = tScale(t, bigM1)
				}
				return x.splitO(st, mkLt(t, mkBig(pow2(int(8*n)))), func(st *State, fits bool) []Outcome {
					if !fits {
						return x.panOut(c, st, "math/big: buffer too small to fit value")
					}
					if n == 0 {
						return ret(st, s)
					}
					bits := st.f.bitsOf(t, int(8*n))
					vals := make([]Value, n)
					for i := int64(0); i < n; i++ {
						vals[n-1-i] = st.f.mkBits(bits[8*i:8*i+8], false)
					}
					a := x.arrOf(st, s)
					x.setArr(st, s, a.with(st, Upd{start: st.f.norm(s.off), vals: vals}), c.pos, c.caller)
					return ret(st, s)
				})
			})
		})
	})
	u64 := func(signed bool) intrinsic {
		return func(x *Eng, c *callCtx) []Outcome {
			return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome {
				return ret(st, x.wrapW(st, v[0], 64, signed))
			})
		}
	}
	bi("Uint64", u64(false))
	bi("Int64", u64(true))
	is64 := func(signed bool) intrinsic {
		return func(x *Eng, c *callCtx) []Outcome {
			return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome {
				lo, hi := intRange(64, signed)
				return ret(st, andT(mkLe(mkBig(lo), v[0]), mkLe(v[0], mkBig(hi))))
			})
		}
	}
	bi("IsUint64", is64(false))
	bi("IsInt64", is64(true))
	bi("String", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome { return ret(st, x.decText(st, v[0])) })
	})
	bi("Text", func(x *Eng, c *callCtx) []Outcome {
		return x.bigOn(c, []int{0}, func(st *State, v []*Term) []Outcome {
			if b, ok := c.args[1].(*Term).constInt(); ok && b == 10 {
				return ret(st, x.decText(st, v[0]))
			}
			return x.textApp(c, "big.Text")
		})
	})
	bi("SetString", func(x *Eng, c *callCtx) []Outcome {
		p := c.args[0].(*PtrV)
		s := c.args[1].(*StrV)
		base, _ := c.args[2].(*Term).constInt()
		if ti, ok := x.textOf(c.st, s.segs); ok && ti.dec != nil && (base == 10 || base == 0) {
			o := x.bigSet(c, c.st, ti.dec)
			o[0].vals = append(o[0].vals, tTrue)
			return o
		}
		key := segsKey(x.normSegs(c.st, s.segs))
		tag := fmt.Sprintf("bigparse%d", base)
		return x.splitO(c.st, mkApp(SBool, tag+"ok", nil, nil, key), func(st *State, ok bool) []Outcome {
			if !ok {
				x.store(st, p, &BigV{freshInt("big?", nil, nil)}, c.pos, c.caller)
				return ret(st, &PtrV{nilT: tTrue, obj: -1, elem: p.elem}, tFalse)
			}
			o := x.bigSet(c, st, mkApp(SInt, tag, nil, nil, key))
			o[0].vals = append(o[0].vals, tTrue)
			return o
		})
	})

	// logging
	intrinsics["github.com/streamingfast/logging.PackageLogger"] = nonNil
	intrinsics["go.uber.org/zap.NewNop"] = nonNil
	intrinsics["(*go.uber.org/zap.Logger).Named"] = nonNil
	intrinsics["(*go.uber.org/zap.Logger).With"] = nonNil
}

// ---- sorting ----

func sortSlice(x *Eng, c *callCtx) []Outcome {
	iv, ok := c.args[0].(*IfaceV)
	if !ok || iv.typ == nil {
		x.abort("sort of %s", valString(c.args[0]))
	}
	s, ok := iv.val.(*SliceV)
	if !ok {
		return x.panOut(c, c.st, "sort.Slice of a non-slice")
	}
	less := c.args[1].(*FuncV)
	return x.sortIt(c, s, func(st *State, i, j *Term) []Outcome {
		c2 := *c
		c2.st = st
		c2.fn = less.fn
		c2.args = []Value{i, j}
		return x.callFn(&c2, less.bind)
	})
}

// sha256Segs is the digest of a text.
func (x *Eng) sha256Segs(segs []Seg) []Seg {
	if t, ok := (&StrV{segs: segs}).constStr(); ok {
		h := sha256.Sum256([]byte(t))
		var out []Seg
		for _, b := range h {
			out = append(out, Seg{kind: segByte, b: mkInt(int64(b))})
		}
		return out
	}
	return []Seg{{kind: segBlob, base: mkApp(SOther, "sha256", nil, nil, segsKey(segs)), off: mkInt(0), n: mkInt(32)}}
}

// sortSort: sort.Sort of a slice, or of a structure around one slice.
func sortSort(x *Eng, c *callCtx) []Outcome {
	iv, ok := c.args[0].(*IfaceV)
	if !ok || iv.typ == nil {
		return x.unknownCall(c, c.st, "sort.Sort")
	}
	v := iv.val
	if p, ok := v.(*PtrV); ok && p.obj >= 0 {
		v = x.load(c.st, p)
	}
	var s *SliceV
	switch v := v.(type) {
	case *SliceV:
		s = v
	case *StructV:
		for _, f := range v.f {
			if t, ok := f.(*SliceV); ok {
				if s != nil {
					return x.unknownCall(c, c.st, "sort.Sort")
				}
				s = t
			}
		}
	}
	method := func(name string) *ssa.Function {
		var pkg *types.Package
		if sel := types.NewMethodSet(iv.typ).Lookup(x.pkg.Pkg, name); sel != nil {
			pkg = sel.Obj().Pkg()
		}
		return x.prog.LookupMethod(iv.typ, pkg, name)
	}
	less, swap := method("Less"), method("Swap")
	if s == nil || less == nil || swap == nil {
		return x.unknownCall(c, c.st, "sort.Sort")
	}
	call := func(fn *ssa.Function, st *State, i, j *Term) []Outcome {
		c2 := *c
		c2.st, c2.fn = st, fn
		c2.args = []Value{iv.val, i, j}
		return x.callFn(&c2, nil)
	}
	return x.sortWith(c, s, func(st *State, i, j *Term) []Outcome { return call(less, st, i, j) },
		func(st *State, i, j *Term) []Outcome { return call(swap, st, i, j) })
}

func (x *Eng) sortIt(c *callCtx, s *SliceV, less func(st *State, i, j *Term) []Outcome) []Outcome {
	return x.sortWith(c, s, less, nil)
}

func (x *Eng) sortWith(c *callCtx, s *SliceV, less, doSwap func(st *State, i, j *Term) []Outcome) []Outcome {
	st := c.st
	if less == nil {
		less = func(st *State, i, j *Term) []Outcome {
			a := x.arrOf(st, s)
			p, q := x.arrGet(st, a, tAdd(s.off, i)), x.arrGet(st, a, tAdd(s.off, j))
			return ret(st, x.strLess(st, p.(*StrV), q.(*StrV)))
		}
	}
	n, ok := st.f.norm(s.len).constInt()
	if ok && n <= 3 {
		// insertion sort, as the library does for short slices
		swap := func(st *State, i, j int64) {
			a := x.arrOf(st, s)
			p, q := x.arrGet(st, a, tAddI(s.off, i)), x.arrGet(st, a, tAddI(s.off, j))
			a = a.with(st, Upd{start: st.f.norm(tAddI(s.off, i)), vals: []Value{q}})
			a = a.with(st, Upd{start: st.f.norm(tAddI(s.off, j)), vals: []Value{p}})
			x.setArr(st, s, a, c.pos, c.caller)
		}
		var run func(st *State, i, j int64) []Outcome
		run = func(st *State, i, j int64) []Outcome {
			if i >= n {
				return ret(st)
			}
			if j == 0 {
				return run(st, i+1, i+1)
			}
			var out []Outcome
			for _, o := range less(st, mkInt(j), mkInt(j-1)) {
				if o.pan != nil {
					out = append(out, o)
					continue
				}
				out = append(out, x.splitO(o.st, o.vals[0].(*Term), func(st *State, lt bool) []Outcome {
					if !lt {
						return run(st, i+1, i+1)
					}
					if doSwap != nil {
						var out []Outcome
						for _, o := range doSwap(st, mkInt(j), mkInt(j-1)) {
							if o.pan != nil {
								out = append(out, o)
								continue
							}
							out = append(out, run(o.st, i, j-1)...)
						}
						return out
					}
					swap(st, j, j-1)
					return run(st, i, j-1)
				})...)
			}
			return out
		}
		return run(st, 1, 1)
	}
	// arbitrary length: the comparison is checked on two arbitrary positions
	var pans []Outcome
	i, j := freshInt("si", bigZero, x.maxLen()), freshInt("sj", bigZero, x.maxLen())
	s2 := st.clone()
	s2.f.assume(mkLt(i, s.len), true)
	if s2.f.assume(mkLt(j, s.len), true) {
		for _, o := range less(s2, i, j) {
			if o.pan != nil {
				pans = append(pans, o)
			}
		}
	}
	a := x.arrOf(st, s)
	if a == nil {
		x.abort("sort of %s", valString(s))
	}
	base := a.base
	if base == nil || len(a.log) > 0 {
		base = freshOther("perm")
		if a.base != nil {
			if t := x.keyTypeOf(a.base); t != nil {
				x.keyTypes[base] = t
			}
		}
	}
	nb := mkApp(SOther, "sorted", nil, nil, base, freshOther("perm"))
	if t := x.keyTypeOf(base); t != nil {
		x.keyTypes[nb] = t
	}
	x.setArr(st, s, &ArrC{n: a.n, elem: a.elem, base: nb}, c.pos, c.caller)
	x.emit(st, &Ev{kind: evSort, pos: c.pos, fn: c.caller, val: s})
	return append(pans, ret(st)...)
}

// ---- json ----

func jsonMarshal(x *Eng, c *callCtx) []Outcome {
	st := c.st
	iv, ok := c.args[0].(*IfaceV)
	if ok && iv.typ != nil {
		switch v := iv.val.(type) {
		case *Term:
			if v.sort == SInt {
				return ret(st, x.newBytes(st, "json", x.decText(st, v).segs), nilIface())
			}
		case *StrV:
			if ti, ok := x.textOf(st, v.segs); ok && (ti.isHx || ti.dec != nil) {
				// digits need no escaping
				q := Seg{kind: segByte, b: mkInt('"')}
				segs := append(append([]Seg{q}, v.segs...), q)
				return ret(st, x.newBytes(st, "json", segs), nilIface())
			}
			b := mkApp(SOther, "jsonquote", nil, nil, segsKey(x.normSegs(st, v.segs)))
			return ret(st, x.newBytes(st, "json", x.symVal(types.Typ[types.String], b).(*StrV).segs), nilIface())
		}
	}
	k := x.valKey(st, c.args[0])
	return x.okErr(st, mkApp(SBool, "jsonmarshalok", nil, nil, k), func(st *State) []Value {
		return []Value{x.newBytes(st, "json", x.symVal(types.Typ[types.String], mkApp(SOther, "jsonmarshal", nil, nil, k)).(*StrV).segs), nilIface()}
	}, func(st *State) []Value { return []Value{x.zeroVal(c.resultTypes().At(0).Type()), x.errVal("json")} })
}

func jsonUnmarshal(x *Eng, c *callCtx) []Outcome {
	st := c.st
	data := x.normSegs(st, x.bytesArg(st, c.args[0]))
	iv, ok := c.args[1].(*IfaceV)
	if !ok || iv.typ == nil {
		return x.unknownCall(c, st, "json.Unmarshal into an unknown type")
	}
	p, ok := iv.val.(*PtrV)
	if !ok {
		return ret(st, x.errVal("json"))
	}
	if m := x.methodOf(iv.typ, "UnmarshalJSON"); m != nil {
		key := segsKey(data)
		valid := mkApp(SBool, "jsonvalid", nil, nil, key)
		if x.jsonLit(st, data) {
			valid = tTrue
		}
		return x.splitO(st, valid, func(st *State, v bool) []Outcome {
			if !v {
				return ret(st, x.errVal("json"))
			}
			c2 := *c
			c2.st = st
			c2.fn = m
			c2.args = []Value{p, c.args[0]}
			return x.callFn(&c2, nil)
		})
	}
	return x.splitO(st, p.nilT, func(st *State, isNil bool) []Outcome {
		if isNil {
			return ret(st, x.errVal("json"))
		}
		return x.jsonScalar(c, st, data, p)
	})
}

func (x *Eng) jsonLit(st *State, data []Seg) bool {
	if ti, ok := x.textOf(st, data); ok && ti.dec != nil {
		return true
	}
	_, ok := x.jsonStrLit(st, data)
	return ok
}

// jsonStrLit recognises a quoted text without escapes.
func (x *Eng) jsonStrLit(st *State, data []Seg) ([]Seg, bool) {
	n := len(data)
	if n >= 2 && data[0].kind == segByte && data[n-1].kind == segByte && data[0].b == mkInt('"') && data[n-1].b == mkInt('"') {
		mid := x.coalesce(st, data[1:n-1])
		for _, g := range mid {
			switch g.kind {
			case segByte:
				k, ok := g.b.constInt()
				if !ok || k < 0x20 || k > 0x7e || k == '"' || k == '\\' {
					return nil, false
				}
			case segBlob:
				ti, ok := textBase(g.base)
				if !ok || (!ti.isHx && ti.dec == nil) {
					return nil, false
				}
			default:
				return nil, false
			}
		}
		return mid, true
	}
	return nil, false
}

func (x *Eng) methodOf(t types.Type, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (x *Eng) jsonScalar(c *callCtx, st *State, data []Seg, p *PtrV) []Outcome {
	key := segsKey(data)
	w, signed, isInt := x.intInfo(p.elem)
	k := kindOf(p.elem)
	fail := func(st *State) []Outcome { return ret(st, x.errVal("json")) }
	if isInt {
		lo, hi := intRange(w, signed)
		if ti, ok := x.textOf(st, data); ok && ti.dec != nil {
			return x.splitO(st, andT(mkLe(mkBig(lo), ti.dec), mkLe(ti.dec, mkBig(hi))), func(st *State, in bool) []Outcome {
				if !in {
					return fail(st)
				}
				x.store(st, p, ti.dec, c.pos, c.caller)
				return ret(st, nilIface())
			})
		}
		if _, ok := x.jsonStrLit(st, data); ok {
			return fail(st)
		}
		tag := fmt.Sprintf("jsonint%d%v", w, signed)
		return x.splitO(st, mkApp(SBool, tag+"ok", nil, nil, key), func(st *State, ok bool) []Outcome {
			if !ok {
				return fail(st)
			}
			return x.splitO(st, mkApp(SBool, "jsonnull", nil, nil, key), func(st *State, null bool) []Outcome {
				if !null {
					x.store(st, p, mkApp(SInt, tag, lo, hi, key), c.pos, c.caller)
				}
				return ret(st, nilIface())
			})
		})
	}
	if k.String() == "string" {
		if mid, ok := x.jsonStrLit(st, data); ok {
			x.store(st, p, &StrV{segs: mid}, c.pos, c.caller)
			return ret(st, nilIface())
		}
		if ti, ok := x.textOf(st, data); ok && ti.dec != nil {
			return fail(st)
		}
	}
	tag := "json:" + k.String()
	return x.splitO(st, mkApp(SBool, tag+"ok", nil, nil, key), func(st *State, ok bool) []Outcome {
		if !ok {
			return fail(st)
		}
		return x.splitO(st, mkApp(SBool, "jsonnull", nil, nil, key), func(st *State, null bool) []Outcome {
			if !null {
				x.store(st, p, x.symVal(p.elem, mkApp(SOther, tag, nil, nil, key)), c.pos, c.caller)
			}
			return ret(st, nilIface())
		})
	})
}

// errorsAs models errors.As for errors whose make is known.
func (x *Eng) errorsAs(c *callCtx) []Outcome {
	t, ok := c.args[1].(*IfaceV)
	if !ok || t.typ == nil {
		return x.pureCall(c)
	}
	pt, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		return x.pureCall(c)
	}
	var find func(v Value) (Value, bool, bool) // value, found, known
	find = func(v Value) (Value, bool, bool) {
		e, ok := v.(*IfaceV)
		if !ok {
			return nil, false, true
		}
		switch c.st.f.decide(e.nilT) {
		case 1:
			return nil, false, true
		case -1:
			return nil, false, false
		}
		if e.typ != nil {
			if types.Identical(e.typ, pt.Elem()) {
				return e.val, true, true
			}
			if types.IsInterface(pt.Elem()) {
				return nil, false, false
			}
			if ms := types.NewMethodSet(e.typ); ms.Lookup(nil, "Unwrap") != nil || ms.Lookup(nil, "As") != nil {
				return nil, false, false
			}
			return nil, false, true
		}
		if !e.made {
			return nil, false, false
		}
		for _, w := range e.wrap {
			if r, ok, known := find(w); ok || !known {
				return r, ok, known
			}
		}
		return nil, false, true
	}
	v, found, known := find(c.args[0])
	if !known {
		return x.pureCall(c)
	}
	if !found {
		return ret(c.st, tFalse)
	}
	x.store(c.st, t.val.(*PtrV), v, c.pos, c.caller)
	return ret(c.st, tTrue)
}
