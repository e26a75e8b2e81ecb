package main

// Terms: the scalar part of the abstract domain.
//
// A term denotes a mathematical value.  Integer terms are kept in one of two
// normal forms: an affine form (OLin) over atoms, or a bit-provenance vector
// (OBits) in which every bit is 0, 1 or "bit i of atom a" in two's complement.
// Terms are hash-consed, so equality of normal forms is pointer equality.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OSym
	OLin
	OBits
	OApp
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SOther
)

// Bit is one bit of an OBits vector. A nil atom means the constant i.
type Bit struct {
	a   *Term
	i   int
	neg bool
}

type Term struct {
	id     int
	op     Op
	sort   Sort
	c      *big.Int // OConst value; OLin constant
	str    string   // OSym name, OApp function
	args   []*Term  // OApp arguments, OLin atoms (sorted by id)
	coef   []*big.Int
	bits   []Bit
	signed bool
	lo, hi *big.Int // intrinsic range of integer terms (nil: unbounded)
}

var (
	termTab = map[string]*Term{}
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	bigM1   = big.NewInt(-1)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	t.id = len(termTab) + 1
	termTab[key] = t
	return t
}

func mkBig(v *big.Int) *Term {
	return intern("c"+v.String(), func() *Term {
		c := new(big.Int).Set(v)
		return &Term{op: OConst, c: c, lo: c, hi: c}
	})
}

func mkInt(v int64) *Term { return mkBig(big.NewInt(v)) }

var (
	tTrue  = intern("true", func() *Term { return &Term{op: OConst, sort: SBool, c: bigOne} })
	tFalse = intern("false", func() *Term { return &Term{op: OConst, sort: SBool, c: bigZero} })
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var symCount int

// freshInt returns a new unknown integer in [lo,hi] (nil: unbounded).
func freshInt(name string, lo, hi *big.Int) *Term {
	symCount++
	n := fmt.Sprintf("%s#%d", name, symCount)
	return intern("s"+n, func() *Term { return &Term{op: OSym, str: n, lo: lo, hi: hi} })
}

func freshBool(name string) *Term {
	symCount++
	n := fmt.Sprintf("%s#%d", name, symCount)
	return intern("b"+n, func() *Term { return &Term{op: OSym, sort: SBool, str: n} })
}

func freshOther(name string) *Term {
	symCount++
	n := fmt.Sprintf("%s#%d", name, symCount)
	return intern("o"+n, func() *Term { return &Term{op: OSym, sort: SOther, str: n} })
}

// namedInt returns the unknown integer with that name, always the same one.
func namedInt(name string, lo, hi *big.Int) *Term {
	return intern("s"+name, func() *Term { return &Term{op: OSym, str: name, lo: lo, hi: hi} })
}
func namedOther(name string) *Term {
	return intern("o"+name, func() *Term { return &Term{op: OSym, sort: SOther, str: name} })
}
func namedBool(name string) *Term {
	return intern("b"+name, func() *Term { return &Term{op: OSym, sort: SBool, str: name} })
}

func appKey(f string, args []*Term) string {
	var b strings.Builder
	b.WriteString("a")
	b.WriteString(f)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	return b.String()
}

func mkApp(srt Sort, f string, lo, hi *big.Int, args ...*Term) *Term {
	switch f {
	case "declen":
		if args[0].isConst() {
			return mkInt(int64(len(args[0].c.String())))
		}
	case "utf8":
		if r, ok := args[0].constInt(); ok {
			if j, ok := args[1].constInt(); ok {
				if t, ok := utf8Const(r, j); ok {
					return t
				}
			}
		}
	case "cell":
		// digits of a decimal text
		if b := args[0]; b.op == OApp && b.str == "dec" {
			i, ok := args[1].constInt()
			if b.args[0].isConst() {
				if s := b.args[0].c.String(); ok && i >= 0 && i < int64(len(s)) {
					return mkInt(int64(s[i]))
				}
			} else {
				lo, hi = big.NewInt('0'), big.NewInt('9')
				if l := b.args[0].lo; !(ok && i > 0) && (l == nil || l.Sign() < 0) {
					lo = big.NewInt('-')
				}
			}
		}
	}
	return intern(appKey(fmt.Sprintf("%d%s", srt, f), args), func() *Term {
		return &Term{op: OApp, sort: srt, str: f, args: append([]*Term(nil), args...), lo: lo, hi: hi}
	})
}

// ---- linear forms ----

type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func toLin(t *Term) lin {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	l.addTerm(t, bigOne)
	return l
}

func newLin() lin { return lin{m: map[*Term]*big.Int{}, c: new(big.Int)} }

func (l *lin) addTerm(t *Term, k *big.Int) {
	switch t.op {
	case OConst:
		l.c.Add(l.c, new(big.Int).Mul(t.c, k))
	case OLin:
		l.c.Add(l.c, new(big.Int).Mul(t.c, k))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], k))
		}
	default:
		l.addAtom(t, k)
	}
}

func (l *lin) addAtom(a *Term, k *big.Int) {
	if o, ok := l.m[a]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = s
		}
	} else if k.Sign() != 0 {
		l.m[a] = new(big.Int).Set(k)
	}
}

func (l lin) term() *Term {
	if len(l.m) == 0 {
		return mkBig(l.c)
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.c.Sign() == 0 && l.m[atoms[0]].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	var b strings.Builder
	b.WriteString("l")
	b.WriteString(l.c.String())
	for _, a := range atoms {
		fmt.Fprintf(&b, ",%s*%d", l.m[a], a.id)
	}
	return intern(b.String(), func() *Term {
		t := &Term{op: OLin, c: new(big.Int).Set(l.c), args: atoms}
		lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
		for _, a := range atoms {
			k := l.m[a]
			t.coef = append(t.coef, new(big.Int).Set(k))
			al, ah := a.lo, a.hi
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil && al != nil {
				lo.Add(lo, new(big.Int).Mul(k, al))
			} else {
				lo = nil
			}
			if hi != nil && ah != nil {
				hi.Add(hi, new(big.Int).Mul(k, ah))
			} else {
				hi = nil
			}
		}
		t.lo, t.hi = lo, hi
		return t
	})
}

func tAdd(a, b *Term) *Term {
	l := toLin(a)
	l.addTerm(b, bigOne)
	return l.term()
}
func tSub(a, b *Term) *Term {
	l := toLin(a)
	l.addTerm(b, bigM1)
	return l.term()
}
func tScale(a *Term, k *big.Int) *Term {
	l := newLin()
	l.addTerm(a, k)
	return l.term()
}
func tAddI(a *Term, k int64) *Term { return tAdd(a, mkInt(k)) }

// ---- booleans ----

// mkLe0 is the predicate t <= 0.
func mkLe0(t *Term) *Term {
	if t.hi != nil && t.hi.Sign() <= 0 {
		return tTrue
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return tFalse
	}
	// divide by the gcd of the coefficients, tightening the constant
	l := toLin(t)
	g := new(big.Int)
	for _, k := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Cmp(bigOne) > 0 {
		n := newLin()
		for a, k := range l.m {
			n.m[a] = new(big.Int).Quo(k, g)
		}
		// sum + c <= 0  <=>  sum/g <= floor(-c/g)
		q := new(big.Int).Neg(l.c)
		q.Div(q, g) // Euclidean == floor for positive g
		n.c = q.Neg(q)
		t = n.term()
	}
	return mkApp(SBool, "le0", nil, nil, t)
}
func mkLe(a, b *Term) *Term { return mkLe0(tSub(a, b)) }
func mkLt(a, b *Term) *Term { return mkLe0(tAddI(tSub(a, b), 1)) }

// mkEqI is integer equality.
func mkEqI(a, b *Term) *Term {
	d := tSub(a, b)
	if d.op == OConst {
		return mkBool(d.c.Sign() == 0)
	}
	if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
		return tFalse
	}
	// canonical sign
	l := toLin(d)
	var first *Term
	for a := range l.m {
		if first == nil || a.id < first.id {
			first = a
		}
	}
	if l.m[first].Sign() < 0 {
		d = tScale(d, bigM1)
	}
	return mkApp(SBool, "eq0", nil, nil, d)
}

// mkEqO is equality of uninterpreted values.
func mkEqO(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp(SBool, "eq", nil, nil, a, b)
}

func mkNot(b *Term) *Term {
	switch {
	case b == tTrue:
		return tFalse
	case b == tFalse:
		return tTrue
	case b.op == OApp && b.str == "not":
		return b.args[0]
	case b.op == OApp && b.str == "le0":
		// not (t<=0)  <=>  1-t <= 0
		return mkLe0(tAddI(tScale(b.args[0], bigM1), 1))
	}
	return mkApp(SBool, "not", nil, nil, b)
}

// ---- bit vectors ----

var bit0, bit1 = Bit{i: 0}, Bit{i: 1}

func (b Bit) not() Bit {
	if b.a == nil {
		return Bit{i: 1 - b.i}
	}
	b.neg = !b.neg
	return b
}

func (b Bit) konst() bool { return b.a == nil }

// bitOf returns bit i of the two's complement representation of t.
func bitOf(t *Term, i int) Bit {
	switch t.op {
	case OConst:
		mod := new(big.Int).Mod(t.c, pow2(i+1))
		return Bit{i: int(mod.Bit(i))}
	case OBits:
		if i < len(t.bits) {
			return t.bits[i]
		}
		if t.signed {
			return t.bits[len(t.bits)-1]
		}
		return bit0
	}
	if t.op == OLin && t.c.Sign() == 0 {
		// sum of nonnegative atoms at disjoint bit positions
		ok := true
		type part struct {
			a     *Term
			at, w int
		}
		var ps []part
		for j, a := range t.args {
			k := t.coef[j]
			if k.Sign() <= 0 || a.lo == nil || a.lo.Sign() < 0 || a.hi == nil {
				ok = false
				break
			}
			at := k.BitLen() - 1
			if k.Cmp(pow2(at)) != 0 {
				ok = false
				break
			}
			ps = append(ps, part{a, at, a.hi.BitLen()})
		}
		if ok {
			for x := range ps {
				for y := range ps {
					if x != y && ps[x].at <= ps[y].at && ps[x].at+ps[x].w > ps[y].at {
						ok = false
					}
				}
			}
		}
		if ok {
			for _, p := range ps {
				if i >= p.at && i < p.at+p.w {
					return bitOf(p.a, i-p.at)
				}
			}
			return bit0
		}
	}
	// an atom with a known range: constant or sign bits above its width
	if t.lo != nil && t.hi != nil {
		if t.lo.Sign() >= 0 {
			if i >= t.hi.BitLen() {
				return bit0
			}
		} else {
			w := t.hi.BitLen()
			n := new(big.Int).Not(t.lo)
			if n.BitLen() > w {
				w = n.BitLen()
			}
			if i > w {
				i = w
			}
		}
	}
	return Bit{a: t, i: i}
}

func bitsOf(t *Term, w int) []Bit {
	out := make([]Bit, w)
	for i := range out {
		out[i] = bitOf(t, i)
	}
	return out
}

// mkBits is the integer denoted by a two's complement bit vector.
func mkBits(bits []Bit, signed bool) *Term {
	w := len(bits)
	// constant?
	allc := true
	for _, b := range bits {
		if !b.konst() {
			allc = false
			break
		}
	}
	if allc {
		v := new(big.Int)
		for i, b := range bits {
			if b.i == 1 {
				v.SetBit(v, i, 1)
			}
		}
		if signed && w > 0 && bits[w-1].i == 1 {
			v.Sub(v, pow2(w))
		}
		return mkBig(v)
	}
	// canonical width: drop redundant top bits
	for w > 1 {
		if signed {
			if bits[w-1] == bits[w-2] {
				w--
				continue
			}
			if bits[w-1] == bit0 {
				signed = false
				continue
			}
		} else if bits[w-1] == bit0 {
			w--
			continue
		}
		break
	}
	bits = bits[:w]
	// the whole of one atom?
	a := bits[0].a
	if a != nil {
		whole := true
		for i, b := range bits {
			if b.a != a || b.i != i || b.neg {
				whole = false
				break
			}
		}
		if whole && a.lo != nil && a.hi != nil {
			if !signed && a.lo.Sign() >= 0 && a.hi.Cmp(pow2(w)) < 0 {
				return a
			}
			if signed && a.lo.Cmp(new(big.Int).Neg(pow2(w-1))) >= 0 && a.hi.Cmp(pow2(w-1)) < 0 {
				return a
			}
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "v%v", signed)
	for _, b := range bits {
		if b.a == nil {
			fmt.Fprintf(&sb, ",%d", b.i)
		} else {
			fmt.Fprintf(&sb, ",%d.%d", b.a.id, b.i)
			if b.neg {
				sb.WriteByte('~')
			}
		}
	}
	return intern(sb.String(), func() *Term {
		t := &Term{op: OBits, bits: append([]Bit(nil), bits...), signed: signed}
		lo, hi := new(big.Int), new(big.Int)
		for i, b := range bits {
			v := pow2(i)
			if signed && i == w-1 {
				v.Neg(v)
			}
			switch {
			case b == bit1:
				lo.Add(lo, v)
				hi.Add(hi, v)
			case b.a != nil:
				if v.Sign() > 0 {
					hi.Add(hi, v)
				} else {
					lo.Add(lo, v)
				}
			}
		}
		t.lo, t.hi = lo, hi
		return t
	})
}

// ---- printing ----

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return fmt.Sprint(t.c.Sign() != 0)
		}
		return t.c.String()
	case OSym:
		return t.str
	case OApp:
		var a []string
		for _, x := range t.args {
			a = append(a, x.String())
		}
		return t.str + "(" + strings.Join(a, ",") + ")"
	case OLin:
		var b strings.Builder
		for i, x := range t.args {
			k := t.coef[i]
			switch {
			case k.Cmp(bigOne) == 0 && i > 0:
				b.WriteString("+")
			case k.Cmp(bigOne) == 0:
			case k.Cmp(bigM1) == 0:
				b.WriteString("-")
			default:
				if k.Sign() > 0 && i > 0 {
					b.WriteString("+")
				}
				b.WriteString(k.String() + "*")
			}
			b.WriteString(x.String())
		}
		if t.c.Sign() > 0 {
			b.WriteString("+" + t.c.String())
		} else if t.c.Sign() < 0 {
			b.WriteString(t.c.String())
		}
		return b.String()
	case OBits:
		// runs of bits
		var parts []string
		i := 0
		for i < len(t.bits) {
			j := i
			b := t.bits[i]
			if b.a == nil {
				for j+1 < len(t.bits) && t.bits[j+1] == b {
					j++
				}
				if b.i == 1 {
					parts = append(parts, fmt.Sprintf("1s@%d+%d", i, j-i+1))
				}
			} else {
				for j+1 < len(t.bits) && t.bits[j+1].a == b.a && t.bits[j+1].neg == b.neg && t.bits[j+1].i == t.bits[j].i+1 {
					j++
				}
				n := ""
				if b.neg {
					n = "~"
				}
				parts = append(parts, fmt.Sprintf("%s%s[%d:%d]@%d", n, b.a, b.i, t.bits[j].i+1, i))
			}
			i = j + 1
		}
		s := "u"
		if t.signed {
			s = "s"
		}
		return fmt.Sprintf("bits%s%d{%s}", s, len(t.bits), strings.Join(parts, "|"))
	}
	return "?"
}

func (t *Term) isConst() bool { return t.op == OConst }

// constInt returns the value of a small integer constant.
func (t *Term) constInt() (int64, bool) {
	if t != nil && t.op == OConst && t.sort == SInt && t.c.IsInt64() {
		return t.c.Int64(), true
	}
	return 0, false
}

// ---- substitution ----

// substTerm replaces atoms by terms.
func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil || t.op == OConst {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case OLin:
		l := newLin()
		l.c.Set(t.c)
		ch := false
		for i, a := range t.args {
			b := substTerm(a, m, memo)
			if b != a {
				ch = true
			}
			l.addTerm(b, t.coef[i])
		}
		if ch {
			r = l.term()
		}
	case OBits:
		ch := false
		bits := make([]Bit, len(t.bits))
		for i, b := range t.bits {
			bits[i] = b
			if b.a != nil {
				n := substTerm(b.a, m, memo)
				if n != b.a {
					ch = true
					bits[i] = bitOf(n, b.i)
					if b.neg {
						bits[i] = bits[i].not()
					}
				}
			}
		}
		if ch {
			r = mkBits(bits, t.signed)
		}
	case OApp:
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = substTerm(a, m, memo)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			switch {
			case t.sort == SBool && t.str == "le0":
				r = mkLe0(args[0])
			case t.sort == SBool && t.str == "eq0":
				r = mkEqI(args[0], mkInt(0))
			case t.sort == SBool && t.str == "not":
				r = mkNot(args[0])
			case t.sort == SBool && t.str == "eq":
				r = mkEqO(args[0], args[1])
			case t.sort == SBool && t.str == "and":
				r = andT(args[0], args[1])
			default:
				r = mkApp(t.sort, t.str, t.lo, t.hi, args...)
			}
		}
	}
	memo[t] = r
	return r
}

// mentions reports whether t contains any of the atoms.
func mentions(t *Term, set map[*Term]bool, memo map[*Term]bool) bool {
	if t == nil || t.op == OConst {
		return false
	}
	if set[t] {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	switch t.op {
	case OLin, OApp:
		for _, a := range t.args {
			if mentions(a, set, memo) {
				r = true
				break
			}
		}
	case OBits:
		for _, b := range t.bits {
			if b.a != nil && mentions(b.a, set, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}
