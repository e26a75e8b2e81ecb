package main

// Imprecise terms.  A term is imprecise when it stands for a quantity the
// abstraction lost: a location a loop changes in a way that has no closed
// form, the result of an unmodelled call, an operation without an exact
// transfer function.  A condition or value that mentions one cannot be the
// basis of an alarm: what depends on it is reported as undecided.

import "strings"

var impreciseSyms = map[string]bool{
	"havoc": true, "eq": true, "rveq": true, "unk": true, "val": true, "inmap": true, "deepeq": true,
	"iszero": true, "chr": true, "b?": true, "big?": true, "unsafe": true, "word": true, "r": true,
	"maplen": true, "perm": true, "perr": true, "unhexlen": true, "unhexpart": true, "rune": true, "runes": true,
	"recovered": true,
}

var impreciseApps = []string{"mul", "quo", "rem", "shl", "shr", "f2i", "band", "bor", "bxor", "rune", "runew"}

var fuzzyMemo = map[*Term]bool{}

func imprecise(t *Term) bool {
	if t == nil || t.op == OConst {
		return false
	}
	if r, ok := fuzzyMemo[t]; ok {
		return r
	}
	r := false
	switch t.op {
	case OSym:
		n := t.str
		if i := strings.IndexByte(n, '#'); i >= 0 {
			n = n[:i]
		}
		r = impreciseSyms[n] || strings.HasSuffix(n, "?")
	case OApp:
		if strings.HasPrefix(t.str, "it") && strings.Contains(t.str, ":") {
			r = true
		}
		if strings.HasPrefix(t.str, "seq:") && strings.ContainsRune(t.str, rune('0'+segTop)) {
			r = true
		}
		for _, p := range impreciseApps {
			if strings.HasPrefix(t.str, p) && len(t.str) > len(p) && t.str[len(p)] >= '0' && t.str[len(p)] <= '9' {
				r = true
			}
			if t.str == p {
				r = true
			}
		}
	}
	for _, a := range t.args {
		r = r || imprecise(a)
	}
	for _, b := range t.bits {
		if b.a != nil {
			r = r || imprecise(b.a)
		}
	}
	fuzzyMemo[t] = r
	return r
}

// branch assumes the condition of a branch.
func (st *State) branch(c *Term, v bool) bool {
	if !st.f.fuzzy && imprecise(st.f.norm(c)) {
		st.f.fuzzy = true
	}
	return st.f.assume(c, v)
}

func impreciseSegs(segs []Seg) bool {
	for _, g := range segs {
		if g.kind == segTop || imprecise(g.b) || imprecise(g.base) || imprecise(g.off) || imprecise(g.n) || impreciseSegs(g.body) {
			return true
		}
	}
	return false
}

// impreciseVal reports whether a value mentions anything imprecise.
func (x *Eng) impreciseVal(st *State, v Value) bool { return x.impVal(st, v, map[int]bool{}) }

func (x *Eng) impVal(st *State, v Value, seen map[int]bool) bool {
	obj := func(o int) bool {
		if o < 0 || seen[o] {
			return false
		}
		seen[o] = true
		return x.impVal(st, x.content(st, o), seen)
	}
	switch v := v.(type) {
	case nil:
		return false
	case *Term:
		return imprecise(st.f.norm(v))
	case *StrV:
		return impreciseSegs(x.normSegs(st, v.segs))
	case *SliceV:
		return imprecise(v.off) || imprecise(v.len) || imprecise(v.cap) || imprecise(v.nilT) || obj(v.obj)
	case *PtrV:
		return imprecise(v.nilT) || obj(v.obj)
	case *MapV:
		return imprecise(v.nilT) || obj(v.obj)
	case *IfaceV:
		return imprecise(v.nilT) || imprecise(v.sym) || x.impVal(st, v.val, seen)
	case *BigV:
		return imprecise(v.t)
	case *StructV:
		for _, f := range v.f {
			if x.impVal(st, f, seen) {
				return true
			}
		}
	case TupleV:
		for _, f := range v {
			if x.impVal(st, f, seen) {
				return true
			}
		}
	case *ArrC:
		if imprecise(v.base) || imprecise(v.n) {
			return true
		}
		for _, u := range v.log {
			if imprecise(u.start) || imprecise(u.n) || imprecise(u.count) || impreciseSegs(u.segs) {
				return true
			}
			for _, w := range u.vals {
				if x.impVal(st, w, seen) {
					return true
				}
			}
			for _, w := range u.rep {
				if x.impVal(st, w, seen) {
					return true
				}
			}
			if u.src != nil && x.impVal(st, u.src, seen) {
				return true
			}
		}
	case *MapC:
		if imprecise(v.base) || imprecise(v.len) {
			return true
		}
		for _, u := range v.log {
			if x.impVal(st, u.key, seen) || x.impVal(st, u.val, seen) {
				return true
			}
		}
	}
	return false
}
