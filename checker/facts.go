package main

// Facts: the relational part of the abstract domain.  A set of linear
// inequalities over atoms (a polyhedron, with Fourier-Motzkin elimination as
// the entailment test), solved equalities, disequalities, truth values of
// opaque predicates and known bits.

import (
	"math/big"
	"sort"
	"strings"
)

type Facts struct {
	ineqs  []*Term // each <= 0
	neqs   []*Term // each != 0
	bools  map[*Term]bool
	bitv   map[Bit]int
	subst  map[*Term]*Term // solved equalities, fully reduced
	dead   bool
	fuzzy  bool // a branch was taken on an imprecise condition
	lossy  bool // a loop forgot conditions on the data of its iterations
	memo   map[*Term]*Term
	emem   map[*Term]bool
	parent *Facts
}

func newFacts() *Facts {
	return &Facts{bools: map[*Term]bool{}, bitv: map[Bit]int{}, subst: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{
		ineqs: f.ineqs[:len(f.ineqs):len(f.ineqs)],
		neqs:  f.neqs[:len(f.neqs):len(f.neqs)],
		bools: make(map[*Term]bool, len(f.bools)),
		bitv:  make(map[Bit]int, len(f.bitv)),
		subst: make(map[*Term]*Term, len(f.subst)),
		dead:  f.dead,
		fuzzy: f.fuzzy,
		lossy: f.lossy,
	}
	for k, v := range f.bools {
		n.bools[k] = v
	}
	for k, v := range f.bitv {
		n.bitv[k] = v
	}
	for k, v := range f.subst {
		n.subst[k] = v
	}
	return n
}

func (f *Facts) changed() { f.memo, f.emem = nil, nil }

// norm rewrites a term with the solved equalities and known bits.
func (f *Facts) norm(t *Term) *Term {
	if t == nil || t.op == OConst {
		return t
	}
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := t
	for n := 0; n < 8; n++ {
		s := f.norm1(r)
		if s == r {
			break
		}
		r = s
	}
	f.memo[t] = r
	return r
}

func (f *Facts) norm1(t *Term) *Term {
	if len(f.subst) > 0 {
		t = substTerm(t, f.subst, map[*Term]*Term{})
	}
	if len(f.bitv) > 0 {
		t = f.simpBits(t, map[*Term]*Term{})
	}
	return t
}

func (f *Facts) simpBits(t *Term, memo map[*Term]*Term) *Term {
	if t.op == OConst || t.op == OSym {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case OBits:
		ch := false
		bits := append([]Bit(nil), t.bits...)
		for i, b := range bits {
			if b.a != nil {
				if v, ok := f.knownBit(b); ok {
					bits[i] = v
					ch = true
				} else if nestedBits(b.a) {
					if a := f.simpBits(b.a, memo); a != b.a {
						nb := bitOf(a, b.i)
						if b.neg {
							nb = nb.not()
						}
						if v, ok := f.knownBit(nb); ok {
							nb = v
						}
						bits[i] = nb
						ch = true
					}
				}
			}
		}
		if ch {
			r = mkBits(bits, t.signed)
		}
		if r.op == OBits && !r.signed {
			r = f.wholeAtom(r)
		}
	case OLin:
		l := newLin()
		l.c.Set(t.c)
		ch := false
		for i, a := range t.args {
			b := f.simpBits(a, memo)
			if b != a {
				ch = true
			}
			l.addTerm(b, t.coef[i])
		}
		if ch {
			r = l.term()
		}
	case OApp:
		m := map[*Term]*Term{}
		for _, a := range t.args {
			b := f.simpBits(a, memo)
			if b != a {
				m[a] = b
			}
		}
		if len(m) > 0 {
			r = substTerm(t, m, map[*Term]*Term{})
		}
	}
	memo[t] = r
	return r
}

var nestMemo = map[*Term]bool{}

// nestedBits reports whether bit vectors occur among the arguments of an
// application.
func nestedBits(t *Term) bool {
	if t.op != OApp {
		return false
	}
	if r, ok := nestMemo[t]; ok {
		return r
	}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		switch t.op {
		case OBits:
			return true
		case OApp, OLin:
			for _, a := range t.args {
				if has(a) {
					return true
				}
			}
		}
		return false
	}
	r := false
	for _, a := range t.args {
		r = r || has(a)
	}
	nestMemo[t] = r
	return r
}

// rekey: facts about terms in whose arguments a bit became known hold of
// the simplified terms.
func (f *Facts) rekey() bool {
	type pair struct{ k, v *Term }
	var more []pair
	memo := map[*Term]*Term{}
	ok := true
	for b, v := range f.bitv {
		if nestedBits(b.a) {
			if nk := f.simpBits(b.a, memo); nk != b.a && (nk.op == OSym || nk.op == OApp) {
				nb := Bit{a: nk, i: b.i}
				if o, has := f.bitv[nb]; has && o != v {
					ok = false
				} else if !has {
					f.bitv[nb] = v
					f.changed()
				}
			}
		}
	}
	for k, v := range f.subst {
		if nestedBits(k) {
			if nk := f.simpBits(k, memo); nk != k {
				more = append(more, pair{nk, v})
			}
		}
	}
	sort.Slice(more, func(i, j int) bool { return more[i].k.id < more[j].k.id })
	for _, p := range more {
		k, v := f.norm(p.k), f.norm(p.v)
		if k == v {
			continue
		}
		if p.k.sort == SInt {
			ok = f.addEq(tSub(k, v)) && ok
			continue
		}
		if k.op == OConst && v.op == OConst {
			return false
		}
		if k.op == OConst {
			k, v = v, k
		}
		if _, has := f.subst[k]; !has && !mentions(v, map[*Term]bool{k: true}, map[*Term]bool{}) {
			ok = f.addSubst(k, v) && ok
		}
	}
	return ok
}

// wholeAtom recognises a vector that equals an atom, given the known bits.
func (f *Facts) wholeAtom(t *Term) *Term {
	var a *Term
	for i, b := range t.bits {
		if b.a != nil {
			if b.i != i || b.neg || (a != nil && b.a != a) {
				return t
			}
			a = b.a
		}
	}
	if a == nil || a.lo == nil || a.hi == nil || a.lo.Sign() < 0 || a.hi.BitLen() < len(t.bits) {
		return t
	}
	for i := 0; i < a.hi.BitLen(); i++ {
		if i < len(t.bits) && t.bits[i].a != nil {
			continue
		}
		want := 0
		if i < len(t.bits) {
			want = t.bits[i].i
		}
		if v, ok := f.bitv[Bit{a: a, i: i}]; !ok || v != want {
			return t
		}
	}
	return a
}

// ---- Fourier-Motzkin ----

type cons struct {
	m map[*Term]*big.Int
	c *big.Int
} // sum + c <= 0

func consOf(t *Term) cons { l := toLin(t); return cons{l.m, l.c} }

func (c cons) tighten() cons {
	g := new(big.Int)
	for _, k := range c.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
		if g.Cmp(bigOne) == 0 {
			return c
		}
	}
	if g.Sign() == 0 {
		return c
	}
	n := cons{m: make(map[*Term]*big.Int, len(c.m))}
	for a, k := range c.m {
		n.m[a] = new(big.Int).Quo(k, g)
	}
	q := new(big.Int).Neg(c.c)
	q.Div(q, g)
	n.c = q.Neg(q)
	return n
}

// unsat reports whether the constraints have no integer solution
// (incomplete: false means "not shown").
func unsat(cs []cons) bool {
	var work []cons
	for _, c := range cs {
		c = c.tighten()
		if len(c.m) == 0 {
			if c.c.Sign() > 0 {
				return true
			}
			continue
		}
		work = append(work, c)
	}
	for len(work) > 0 {
		// choose the atom with the smallest elimination cost
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, c := range work {
			for a, k := range c.m {
				if k.Sign() > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var best *Term
		bc := 1 << 30
		seen := map[*Term]bool{}
		for _, c := range work {
			for a := range c.m {
				if seen[a] {
					continue
				}
				seen[a] = true
				cost := pos[a]*neg[a] - pos[a] - neg[a]
				if cost < bc || (cost == bc && best != nil && a.id < best.id) {
					bc, best = cost, a
				}
			}
		}
		if best == nil {
			return false
		}
		var up, dn, rest []cons
		for _, c := range work {
			k, ok := c.m[best]
			switch {
			case !ok:
				rest = append(rest, c)
			case k.Sign() > 0:
				up = append(up, c)
			default:
				dn = append(dn, c)
			}
		}
		if len(up)*len(dn)+len(rest) > 600 {
			return false
		}
		for _, u := range up {
			for _, d := range dn {
				ku, kd := u.m[best], new(big.Int).Neg(d.m[best])
				n := cons{m: map[*Term]*big.Int{}, c: new(big.Int)}
				for a, k := range u.m {
					n.m[a] = new(big.Int).Mul(k, kd)
				}
				for a, k := range d.m {
					x := new(big.Int).Mul(k, ku)
					if o, ok := n.m[a]; ok {
						x.Add(x, o)
					}
					if x.Sign() == 0 {
						delete(n.m, a)
					} else {
						n.m[a] = x
					}
				}
				delete(n.m, best)
				n.c.Add(new(big.Int).Mul(u.c, kd), new(big.Int).Mul(d.c, ku))
				n = n.tighten()
				if len(n.m) == 0 {
					if n.c.Sign() > 0 {
						return true
					}
					continue
				}
				rest = append(rest, n)
			}
		}
		work = dedupe(rest)
	}
	return false
}

func dedupe(cs []cons) []cons {
	best := map[string]int{}
	var out []cons
	for _, c := range cs {
		atoms := make([]*Term, 0, len(c.m))
		for a := range c.m {
			atoms = append(atoms, a)
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		key := ""
		for _, a := range atoms {
			key += a.str0() + "*" + c.m[a].String() + ";"
		}
		if i, ok := best[key]; ok {
			if c.c.Cmp(out[i].c) > 0 {
				out[i] = c
			}
			continue
		}
		best[key] = len(out)
		out = append(out, c)
	}
	return out
}

func (t *Term) str0() string { return big.NewInt(int64(t.id)).String() }

func rangeCons(a *Term) []cons {
	var out []cons
	if a.hi != nil {
		out = append(out, cons{map[*Term]*big.Int{a: bigOne}, new(big.Int).Neg(a.hi)})
	}
	if a.lo != nil {
		out = append(out, cons{map[*Term]*big.Int{a: bigM1}, new(big.Int).Set(a.lo)})
	}
	return out
}

// refutes reports whether the facts together with "goal <= 0" are contradictory.
func (f *Facts) refutes(goal *Term) bool {
	goal = f.norm(goal)
	if goal.op == OConst {
		return goal.c.Sign() > 0
	}
	if goal.lo != nil && goal.lo.Sign() > 0 {
		return true
	}
	// relevant constraints: those connected through atoms
	atoms := map[*Term]bool{}
	var queue []*Term
	add := func(m map[*Term]*big.Int) {
		for a := range m {
			if !atoms[a] {
				atoms[a] = true
				queue = append(queue, a)
			}
		}
	}
	gc := consOf(goal)
	cs := []cons{gc}
	add(gc.m)
	var all []cons
	for _, t := range f.ineqs {
		t = f.norm(t)
		if t.op == OConst {
			if t.c.Sign() > 0 {
				return true
			}
			continue
		}
		all = append(all, consOf(t))
	}
	used := make([]bool, len(all))
	for {
		ch := false
		for i, c := range all {
			if used[i] {
				continue
			}
			hit := false
			for a := range c.m {
				if atoms[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cs = append(cs, c)
				add(c.m)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	cs0 := cs[:len(cs):len(cs)]
	for _, a := range queue {
		cs = append(cs, rangeCons(a)...)
	}
	if unsat(cs) {
		return true
	}
	// bit vectors as sums of their parts, where something is known of a part
	inFacts := map[*Term]bool{}
	for _, c := range all {
		for a := range c.m {
			inFacts[a] = true
		}
	}
	cs = cs0
	ext := false
	for i := 0; i < len(queue) && i < 40; i++ {
		a := queue[i]
		if a.op != OBits || a.signed {
			continue
		}
		def, parts := f.bitParts(a)
		rel := false
		for _, p := range parts {
			rel = rel || inFacts[p]
		}
		if !rel {
			continue
		}
		ext = true
		d := tSub(a, def)
		cs = append(cs, consOf(d), consOf(tScale(d, bigM1)))
		add(consOf(d).m)
		for j, c := range all {
			if used[j] {
				continue
			}
			for _, p := range parts {
				if c.m[p] != nil {
					used[j] = true
					cs = append(cs, c)
					add(c.m)
					break
				}
			}
		}
	}
	if !ext {
		return false
	}
	for _, a := range queue {
		cs = append(cs, rangeCons(a)...)
	}
	return unsat(cs)
}

// bitParts writes an unsigned bit vector as a sum of scaled runs of bits of
// one source each.
func (f *Facts) bitParts(t *Term) (sum *Term, parts []*Term) {
	l := newLin()
	for i := 0; i < len(t.bits); {
		b := t.bits[i]
		if b.a == nil {
			if b.i == 1 {
				l.c.Add(l.c, pow2(i))
			}
			i++
			continue
		}
		j := i + 1
		for j < len(t.bits) && t.bits[j].a == b.a && t.bits[j].neg == b.neg && t.bits[j].i == b.i+(j-i) {
			j++
		}
		p := mkBits(t.bits[i:j], false)
		if p.op == OBits {
			p = f.wholeAtom(p)
		}
		l.addTerm(p, pow2(i))
		if p != t {
			parts = append(parts, p)
		}
		i = j
	}
	return l.term(), parts
}

// le0 reports whether the facts entail t <= 0.
func (f *Facts) le0(t *Term) bool {
	t = f.norm(t)
	if t.op == OConst {
		return t.c.Sign() <= 0
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return true
	}
	if f.emem == nil {
		f.emem = map[*Term]bool{}
	}
	if r, ok := f.emem[t]; ok {
		return r
	}
	r := f.refutes(tAddI(tScale(t, bigM1), 1)) // t >= 1 impossible
	f.emem[t] = r
	return r
}

func (f *Facts) le(a, b *Term) bool { return f.le0(tSub(a, b)) }
func (f *Facts) lt(a, b *Term) bool { return f.le0(tAddI(tSub(a, b), 1)) }
func (f *Facts) eq(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	a, b = f.norm(a), f.norm(b)
	if a == b {
		return true
	}
	if a.sort != SInt || b.sort != SInt {
		v := f.decide(mkEqO(a, b))
		return v == 1
	}
	d := tSub(a, b)
	if d.op == OConst {
		return d.c.Sign() == 0
	}
	return f.le0(d) && f.le0(tScale(d, bigM1))
}
func (f *Facts) ge0(t *Term) bool { return f.le0(tScale(t, bigM1)) }

// decide returns 1, 0 or -1 (unknown) for a boolean term.
func (f *Facts) decide(b *Term) int {
	b = f.norm(b)
	if b == tTrue {
		return 1
	}
	if b == tFalse {
		return 0
	}
	if v, ok := f.bools[b]; ok {
		if v {
			return 1
		}
		return 0
	}
	if b.op == OApp {
		switch b.str {
		case "not":
			r := f.decide(b.args[0])
			if r >= 0 {
				return 1 - r
			}
			return -1
		case "and":
			p, q := f.decide(b.args[0]), f.decide(b.args[1])
			if p == 0 || q == 0 {
				return 0
			}
			if p == 1 && q == 1 {
				return 1
			}
			return -1
		case "le0":
			if f.le0(b.args[0]) {
				return 1
			}
			if f.refutes(b.args[0]) {
				return 0
			}
			return -1
		case "eq0":
			d := b.args[0]
			for _, n := range f.neqs {
				n = f.norm(n)
				if n == d || n == tScale(d, bigM1) {
					return 0
				}
			}
			le, ge := f.le0(d), f.ge0(d)
			if le && ge {
				return 1
			}
			if f.refutes(d) || f.refutes(tScale(d, bigM1)) {
				return 0
			}
			if r := f.decideBitsEq(d); r >= 0 {
				return r
			}
			if f.sameBits(d) {
				return 1
			}
			return -1
		case "eq":
			x, y := b.args[0], b.args[1]
			if x.op == OConst && y.op == OConst {
				return 0
			}
		}
	}
	return -1
}

// sameBits: the two sides of a difference have the same bits.
func (f *Facts) sameBits(d *Term) bool {
	if d.op != OLin || len(d.args) != 2 || d.c.Sign() != 0 {
		return false
	}
	a, b := d.args[0], d.args[1]
	if a.op != OBits && b.op != OBits {
		return false
	}
	if new(big.Int).Add(d.coef[0], d.coef[1]).Sign() != 0 || new(big.Int).Abs(d.coef[0]).Cmp(bigOne) != 0 {
		return false
	}
	if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
		return false
	}
	p, q := f.bitsOf(a, 136), f.bitsOf(b, 136)
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

// decideBitsEq handles bits == const with partially known bits.
func (f *Facts) decideBitsEq(d *Term) int {
	l := toLin(d)
	if len(l.m) != 1 {
		return -1
	}
	for a, k := range l.m {
		if k.CmpAbs(bigOne) != 0 {
			return -1
		}
		v := new(big.Int).Neg(l.c)
		if k.Sign() < 0 {
			v.Neg(v)
		}
		c := mkBig(v)
		if a.op == OBits {
			for i, b := range a.bits {
				w := bitOf(c, i)
				if b.a == nil && b != w {
					return 0
				}
			}
		} else {
			for b, v := range f.bitv {
				if b.a == a && bitOf(c, b.i).i != v {
					return 0
				}
			}
		}
	}
	return -1
}

// assume adds a fact; it returns false when the result is contradictory.
func (f *Facts) assume(b *Term, val bool) bool {
	if f.dead {
		return false
	}
	b = f.norm(b)
	if b.op == OConst {
		if (b == tTrue) != val {
			f.dead = true
			return false
		}
		return true
	}
	if d := f.decide(b); d >= 0 {
		if (d == 1) != val {
			f.dead = true
			return false
		}
		if b.op != OApp || (b.str != "le0" && b.str != "eq0") {
			return true
		}
		if b.str == "le0" {
			return true
		}
		if !val {
			return true
		}
		// an entailed equality is still worth solving
	}
	nb, ns := len(f.bitv), len(f.subst)
	ok := f.assume1(b, val)
	if ok && (len(f.bitv) != nb || len(f.subst) != ns) {
		ok = f.recheck()
	}
	if ok && len(f.bools) > 0 {
		ok = f.clauses()
	}
	if !ok {
		f.dead = true
	}
	return ok
}

// clauses: of conjunctions known to be false, where all but one part is
// known to hold, the last part is false.
func (f *Facts) clauses() bool {
	for n := 0; n < 8; n++ {
		var cl []*Term
		for b, v := range f.bools {
			if !v && b.op == OApp && b.str == "and" {
				cl = append(cl, b)
			}
		}
		if len(cl) == 0 {
			return true
		}
		sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
		ch := false
		for _, b := range cl {
			p := f.decide(b.args[0])
			q := -1
			if p != 0 {
				q = f.decide(b.args[1])
			}
			switch {
			case p == 1 && q == 1:
				return false
			case p == 0 || q == 0:
				f.drop(b)
			case p == 1:
				f.drop(b)
				ch = true
				if !f.assume1(f.norm(b.args[1]), false) {
					return false
				}
			case q == 1:
				f.drop(b)
				ch = true
				if !f.assume1(f.norm(b.args[0]), false) {
					return false
				}
			}
		}
		if !ch {
			return true
		}
	}
	return true
}

func (f *Facts) drop(b *Term) {
	delete(f.bools, b)
	f.changed()
}

func (f *Facts) assume1(b *Term, val bool) bool {
	f.changed()
	if b.op == OApp {
		switch b.str {
		case "not":
			return f.assume(b.args[0], !val)
		case "and":
			if val {
				return f.assume(b.args[0], true) && f.assume(b.args[1], true)
			}
			if f.decide(b.args[0]) == 1 {
				return f.assume(b.args[1], false)
			}
			if f.decide(b.args[1]) == 1 {
				return f.assume(b.args[0], false)
			}
			f.bools[b] = false
			return true
		case "nilslice", "nilmap":
			f.bools[b] = val
			if val {
				return f.assume(mkEqI(mkApp(SInt, "len", bigZero, maxLenHook(), b.args[0]), mkInt(0)), true)
			}
			return true
		case "le0":
			t := b.args[0]
			if !val {
				t = tAddI(tScale(t, bigM1), 1)
			}
			return f.addLe(t)
		case "eq0":
			if val {
				return f.addEq(b.args[0])
			}
			return f.addNeq(b.args[0])
		case "eq":
			if val {
				x, y := b.args[0], b.args[1]
				if x.op == OConst || (y.op != OConst && x.id < y.id) {
					x, y = y, x
				}
				if x.op != OConst && !mentions(y, map[*Term]bool{x: true}, map[*Term]bool{}) {
					if !f.addSubst(x, y) {
						return false
					}
				}
			}
			f.bools[b] = val
			return true
		}
	}
	f.bools[b] = val
	return f.recheckBools()
}

func (f *Facts) recheckBools() bool { return true }

// recheck looks for contradictions after the facts that rewrite terms have
// changed.
func (f *Facts) recheck() bool {
	for _, t := range f.ineqs {
		if n := f.norm(t); n != t && n.lo != nil && n.lo.Sign() > 0 {
			return false
		}
	}
	for _, t := range f.neqs {
		if n := f.norm(t); n.op == OConst && n.c.Sign() == 0 {
			return false
		}
	}
	for b, v := range f.bools {
		if n := f.norm(b); n != b {
			if n.op == OConst {
				if (n == tTrue) != v {
					return false
				}
			} else if o, ok := f.bools[n]; ok && o != v {
				return false
			}
		}
	}
	return true
}

var maxLenHook func() *big.Int

func (f *Facts) addLe(t *Term) bool {
	if f.refutes(t) {
		return false
	}
	f.ineqs = append(f.ineqs, t)
	f.changed()
	// bounds of a single atom by 2^m-1 determine its upper bits
	l := toLin(t)
	if len(l.m) == 1 {
		for a, k := range l.m {
			if k.Cmp(bigOne) == 0 { // a <= -c
				f.upperBits(a, new(big.Int).Neg(l.c))
			}
			if a.op == OBits && a.signed { // the sign bit
				v := -1
				if k.Cmp(bigM1) == 0 && l.c.Sign() >= 0 {
					v = 0
				}
				if k.Cmp(bigOne) == 0 && l.c.Sign() > 0 {
					v = 1
				}
				if v >= 0 && !f.setBit(a.bits[len(a.bits)-1], v) {
					return false
				}
			}
			if k.Cmp(bigM1) == 0 && l.c.Sign() >= 0 && a.lo != nil && a.lo.Sign() < 0 && a.hi != nil {
				// 0 <= a: an upper bound now determines bits
				ub := a.hi
				for _, q := range f.ineqs {
					if m := toLin(q); len(m.m) == 1 && m.m[a] != nil && m.m[a].Cmp(bigOne) == 0 {
						if u := new(big.Int).Neg(m.c); u.Cmp(ub) < 0 {
							ub = u
						}
					}
				}
				f.upperBits(a, ub)
			}
			// c <= a: the top bit of an atom
			if k.Cmp(bigM1) == 0 && (a.op == OSym || a.op == OApp) && a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil {
				if w := a.hi.BitLen(); w > 0 && w <= 64 && l.c.Cmp(pow2(w-1)) >= 0 {
					b := Bit{a: a, i: w - 1}
					if v, ok := f.bitv[b]; ok && v == 0 {
						return false
					} else if !ok {
						f.bitv[b] = 1
						f.changed()
					}
				}
			}
		}
	}
	// disequalities may have become strict
	for _, n := range f.neqs {
		n = f.norm(n)
		if n.op == OConst {
			if n.c.Sign() == 0 {
				return false
			}
			continue
		}
		if f.le0(n) {
			s := tAddI(n, 1)
			if !f.le0(s) {
				if f.refutes(s) {
					return false
				}
				f.ineqs = append(f.ineqs, s)
				f.changed()
			}
		} else if f.ge0(n) {
			s := tAddI(tScale(n, bigM1), 1)
			if !f.le0(s) {
				if f.refutes(s) {
					return false
				}
				f.ineqs = append(f.ineqs, s)
				f.changed()
			}
		}
	}
	// an inequality may have become an equality
	if f.ge0(t) {
		return f.addEq(t)
	}
	return true
}

func (f *Facts) upperBits(a *Term, hi *big.Int) {
	if hi.Sign() < 0 {
		return
	}
	m := hi.BitLen()
	if a.op != OBits {
		if (a.op == OSym || a.op == OApp) && f.nonneg(a) {
			for i := m; i < a.hi.BitLen()+1 && i < 64; i++ {
				if i == a.hi.BitLen() && a.lo.Sign() >= 0 {
					break
				}
				b := Bit{a: a, i: i}
				if _, ok := f.bitv[b]; !ok {
					f.bitv[b] = 0
				}
			}
			f.changed()
		}
		return
	}
	if a.signed {
		return
	}
	for i := m; i < len(a.bits); i++ {
		if a.bits[i].a != nil {
			f.setBit(a.bits[i], 0)
		}
	}
}

// nonneg: an atom with a range that is not negative.
func (f *Facts) nonneg(a *Term) bool {
	if a.lo == nil || a.hi == nil {
		return false
	}
	if a.lo.Sign() >= 0 {
		return true
	}
	if a.op != OSym && a.op != OApp {
		return false
	}
	if v, ok := f.bitv[Bit{a: a, i: a.hi.BitLen()}]; ok {
		return v == 0
	}
	return f.ge0(a)
}

func (f *Facts) knownBit(b Bit) (Bit, bool) {
	if b.a == nil {
		return b, false
	}
	v, ok := f.bitv[Bit{a: b.a, i: b.i}]
	if !ok {
		return b, false
	}
	if b.neg {
		v = 1 - v
	}
	return Bit{i: v}, true
}

func (f *Facts) setBit(b Bit, v int) bool {
	if b.a == nil {
		return b.i == v
	}
	if b.neg {
		b.neg = false
		v = 1 - v
	}
	if o, ok := f.bitv[b]; ok {
		return o == v
	}
	f.bitv[b] = v
	f.changed()
	if !f.rekey() {
		return false
	}
	// bounds of the source atom from its known bits
	a := b.a
	if f.nonneg(a) {
		w := a.hi.BitLen()
		lo, hi := new(big.Int), new(big.Int)
		for i := 0; i < w; i++ {
			v, ok := f.bitv[Bit{a: a, i: i}]
			if !ok {
				hi.SetBit(hi, i, 1)
			} else if v == 1 {
				hi.SetBit(hi, i, 1)
				lo.SetBit(lo, i, 1)
			}
		}
		if lo.Cmp(hi) == 0 {
			return f.addEq(tSub(a, mkBig(lo)))
		}
		if lo.Sign() > 0 {
			t := tSub(mkBig(lo), a)
			if f.refutes(t) {
				return false
			}
			f.ineqs = append(f.ineqs, t)
		}
		if hi.Cmp(a.hi) < 0 {
			t := tSub(a, mkBig(hi))
			if f.refutes(t) {
				return false
			}
			f.ineqs = append(f.ineqs, t)
		}
		f.changed()
	}
	return true
}

func (f *Facts) addSubst(a, t *Term) bool {
	m := map[*Term]*Term{a: t}
	memo := map[*Term]*Term{}
	ok := true
	type pair struct{ k, v *Term }
	var more []pair
	for k, v := range f.subst {
		f.subst[k] = substTerm(v, m, memo)
	}
	// facts about terms that mention the atom hold of the rewritten terms
	for k, v := range f.subst {
		if nk := substTerm(k, m, memo); nk != k {
			more = append(more, pair{nk, v})
		}
	}
	f.subst[a] = t
	f.changed()
	for b, v := range f.bitv {
		if nk := substTerm(b.a, m, memo); nk != b.a && (nk.op == OSym || nk.op == OApp) {
			nb := Bit{a: nk, i: b.i}
			if o, has := f.bitv[nb]; has && o != v {
				ok = false
			}
			f.bitv[nb] = v
		}
	}
	sort.Slice(more, func(i, j int) bool { return more[i].k.id < more[j].k.id })
	for _, p := range more {
		k, v := f.norm(p.k), f.norm(p.v)
		if k == v {
			continue
		}
		if p.k.sort == SInt {
			if !f.addEq(tSub(k, v)) {
				ok = false
			}
			continue
		}
		if k.op == OConst && v.op == OConst {
			ok = false
			continue
		}
		if k.op == OConst {
			k, v = v, k
		}
		if _, has := f.subst[k]; !has && !mentions(v, map[*Term]bool{k: true}, map[*Term]bool{}) {
			ok = f.addSubst(k, v) && ok
		}
	}
	return ok
}

func (f *Facts) addEq(d *Term) bool {
	d = f.norm(d)
	if d.op == OConst {
		return d.c.Sign() == 0
	}
	for _, n := range f.neqs {
		n = f.norm(n)
		if n == d || n == tScale(d, bigM1) {
			return false
		}
	}
	if f.refutes(d) || f.refutes(tScale(d, bigM1)) {
		return false
	}
	l := toLin(d)
	// known bits of a single bit vector or atom
	if len(l.m) == 1 {
		for a, k := range l.m {
			if k.CmpAbs(bigOne) == 0 {
				v := new(big.Int).Neg(l.c)
				if k.Sign() < 0 {
					v.Neg(v)
				}
				c := mkBig(v)
				if a.op == OBits {
					for i, b := range a.bits {
						if !f.setBit(b, bitOf(c, i).i) {
							return false
						}
					}
				} else {
					for b, v := range f.bitv {
						if b.a == a && bitOf(c, b.i).i != v {
							return false
						}
					}
				}
			}
		}
		d = f.norm(d)
		if d.op == OConst {
			return d.c.Sign() == 0
		}
		l = toLin(d)
	}
	// solve for an atom with a unit coefficient
	var best *Term
	rank := func(a *Term) int {
		switch a.op {
		case OSym:
			return 2
		case OApp:
			return 1
		}
		return 0
	}
	for a, k := range l.m {
		if k.CmpAbs(bigOne) != 0 {
			continue
		}
		if best == nil || rank(a) > rank(best) || (rank(a) == rank(best) && a.id > best.id) {
			best = a
		}
	}
	if best == nil {
		f.ineqs = append(f.ineqs, d, tScale(d, bigM1))
		f.changed()
		return true
	}
	k := l.m[best]
	n := newLin()
	n.c.Set(l.c)
	for a, c := range l.m {
		if a != best {
			n.m[a] = c
		}
	}
	t := n.term()
	if k.Sign() > 0 {
		t = tScale(t, bigM1)
	}
	if mentions(t, map[*Term]bool{best: true}, map[*Term]bool{}) {
		f.ineqs = append(f.ineqs, d, tScale(d, bigM1))
		f.changed()
		return true
	}
	// keep the range of the eliminated atom
	if best.hi != nil && !(t.hi != nil && t.hi.Cmp(best.hi) <= 0) {
		f.ineqs = append(f.ineqs, tSub(t, mkBig(best.hi)))
	}
	if best.lo != nil && !(t.lo != nil && t.lo.Cmp(best.lo) >= 0) {
		f.ineqs = append(f.ineqs, tSub(mkBig(best.lo), t))
	}
	if !f.addSubst(best, t) {
		return false
	}
	// contradictions in the rewritten facts
	for _, n := range f.neqs {
		n = f.norm(n)
		if n.op == OConst && n.c.Sign() == 0 {
			return false
		}
	}
	for b, v := range f.bools {
		nb := f.norm(b)
		if nb != b {
			if nb.op == OConst {
				if (nb == tTrue) != v {
					return false
				}
			} else if o, ok := f.bools[nb]; ok && o != v {
				return false
			}
		}
	}
	for _, t := range f.ineqs {
		t = f.norm(t)
		if t.op == OConst && t.c.Sign() > 0 {
			return false
		}
	}
	return true
}

func (f *Facts) addNeq(d *Term) bool {
	l := toLin(d)
	if len(l.m) == 1 {
		for a, k := range l.m {
			if a.op == OBits && k.CmpAbs(bigOne) == 0 {
				// only one unknown bit?
				v := new(big.Int).Neg(l.c)
				if k.Sign() < 0 {
					v.Neg(v)
				}
				c := mkBig(v)
				cnt, at := 0, 0
				for i, b := range a.bits {
					if b.a != nil {
						cnt++
						at = i
					}
				}
				if cnt == 1 {
					if !f.setBit(a.bits[at], 1-bitOf(c, at).i) {
						return false
					}
					return true
				}
			}
		}
	}
	f.neqs = append(f.neqs, d)
	f.changed()
	if f.le0(d) {
		return f.addLe(tAddI(d, 1))
	}
	if f.ge0(d) {
		return f.addLe(tAddI(tScale(d, bigM1), 1))
	}
	return true
}

// bits returns the low w bits of t, using the facts for the range of t.
func (f *Facts) bitsOf(t *Term, w int) []Bit {
	t = f.norm(t)
	if t.op != OConst && t.op != OBits && f.ge0(t) {
		for _, m := range []int{1, 7, 8, 14, 15, 16, 31, 32, 63} {
			if m >= w {
				break
			}
			if t.hi != nil && t.hi.BitLen() <= m {
				break
			}
			if f.le0(tSub(t, mkBig(new(big.Int).Sub(pow2(m), bigOne)))) {
				out := make([]Bit, w)
				for i := range out {
					if i < m {
						out[i] = bitOf(t, i)
						if v, ok := f.knownBit(out[i]); ok {
							out[i] = v
						}
					}
				}
				return out
			}
		}
	}
	out := bitsOf(t, w)
	for i, b := range out {
		if b.a != nil {
			if v, ok := f.knownBit(b); ok {
				out[i] = v
			}
		}
	}
	return out
}

// mkBits is mkBits with the facts available to recognise a whole atom.
func (f *Facts) mkBits(bits []Bit, signed bool) *Term {
	t := mkBits(bits, signed)
	if t.op == OBits && t.bits[0].a != nil {
		a := t.bits[0].a
		for i, b := range t.bits {
			if b.a != a || b.i != i || b.neg {
				return t
			}
		}
		w := len(t.bits)
		if !t.signed {
			if f.ge0(a) && f.le0(tSub(a, mkBig(new(big.Int).Sub(pow2(w), bigOne)))) {
				return a
			}
		} else {
			h := pow2(w - 1)
			if f.le0(tSub(a, mkBig(new(big.Int).Sub(h, bigOne)))) && f.le0(tSub(mkBig(new(big.Int).Neg(h)), a)) {
				return a
			}
		}
	}
	return t
}

// inRange reports whether t fits an integer type.
func (f *Facts) inRange(t *Term, lo, hi *big.Int) bool {
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return true
	}
	return f.le0(tSub(mkBig(lo), t)) && f.le0(tSub(t, mkBig(hi)))
}

func (f *Facts) String() string {
	var p []string
	for _, t := range f.ineqs {
		p = append(p, t.String()+"<=0")
	}
	for _, t := range f.neqs {
		p = append(p, t.String()+"!=0")
	}
	for t, v := range f.bools {
		if v {
			p = append(p, t.String())
		} else {
			p = append(p, "!"+t.String())
		}
	}
	for a, t := range f.subst {
		p = append(p, a.String()+":="+t.String())
	}
	return strings.Join(p, "; ")
}
