package main

// Loops.  A loop whose trip count is decided by the facts is followed
// iteration by iteration.  Any other loop is summarised: the state after k
// iterations is described by a generic state in which every location changed
// by the body is either an affine function of k, a tile of repeated array
// cells, or an unknown function of k constrained by inductive invariants.  The
// candidate invariants are kept only if they hold after the first iteration
// and are preserved by a generic one.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const (
	unrollDecided = 300
	unrollSmall   = 6
	unrollBits    = 14
)

type loopMode uint8

const (
	modeSame loopMode = iota
	modeLinear
	modeFree
)

type loopLeaf struct {
	mode loopMode
	step *big.Int
	tile *loopTile
}

type loopTile struct {
	fixed bool
	unk   []bool
	start *Term // of iteration 0
	width int64
	vals  []Value // as functions of k; nil: unknown
}

type loopInt struct {
	path string
	root string
	v0   *Term
	g    *Term
	mode loopMode
}

type loopCtx struct {
	x     *Eng
	fr    *frame
	l     *Loop
	id    int
	k     *Term
	s0    *State
	env0  []Value
	gens  map[string]*SliceV
	leaf  map[string]*loopLeaf
	syms  map[string]*Term
	ints  []loopInt // changed integer leaves of the current generic state
	konst map[string][]*Term
	dead  map[string]bool
	mark  int
	objs  map[int]bool // heap objects that change
	first []Exit
	exits []Exit // of the last generic run
	chg   bool
	hcond *Term
	vals  []map[string]*Term // per back edge: integer values by path
	gst   *State
	genv  []Value
	phis  []*ssa.Phi
	nback int
}

var loopIDs int

// unitGuard: the loop runs while i != n, i moves by one per iteration and n
// stays.
func unitGuard(l *Loop) bool {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL {
		return false
	}
	counter := func(v ssa.Value) bool {
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() != l.header {
			return false
		}
		for i, e := range phi.Edges {
			if !l.body[l.header.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != ssa.Value(phi) {
				return false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.ExactString() != "1" {
				return false
			}
		}
		return true
	}
	var stays func(v ssa.Value) bool
	stays = func(v ssa.Value) bool {
		if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return stays(c.Call.Args[0])
				}
			}
			return false
		}
		return true
	}
	return counter(cmp.X) && stays(cmp.Y) || counter(cmp.Y) && stays(cmp.X)
}

func (x *Eng) runLoop(fr *frame, st *State, env []Value, from *ssa.BasicBlock, l *Loop, defers []deferred) []Exit {
	var out []Exit
	work := []item{{st: st, env: env, blk: l.header, prev: from, defers: defers}}
	rounds := map[*State]int{}
	small := map[*State]int{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n, sm := rounds[it.st], small[it.st]
		delete(rounds, it.st)
		delete(small, it.st)
		x.enterBlock(fr, &it)
		s0, env0 := it.st.clone(), cloneEnv(it.env)
		mark := len(termTab)
		delete(fr.hc, l)
		ex := x.region(fr, []item{it}, l)
		raw := fr.hc[l]
		var backs, rest []Exit
		leave := false
		var hc *Term
		for _, e := range ex {
			if e.kind == exBack {
				backs = append(backs, e)
			} else {
				rest = append(rest, e)
			}
			if e.hcond != nil && hc == nil {
				hc = e.hcond
			}
			if e.kind == exLeave && e.from == l.header {
				leave = true
			}
		}
		if len(backs) == 0 {
			out = append(out, rest...)
			continue
		}
		if !leave && raw != nil && !raw.isConst() && (raw.str == "le0" || raw.str == "not" && raw.args[0].str == "le0" || unitGuard(l)) && !x.fewTrips(fr, s0, env0, l, raw) {
			leave, hc = true, raw
		}
		undecided := leave || len(backs) > 1 && n > 8
		generic := false
		if undecided {
			switch {
			case leave && x.fewTrips(fr, s0, env0, l, hc):
				sm++
				generic = sm > unrollSmall
			case leave && hc != nil && !hc.isConst() && hc.str == "le0":
				generic = true
			case x.headerNext(l) != nil:
				generic = true
			case leave && hc != nil && !hc.isConst() && unitGuard(l):
				generic = true
			default:
				sm++
				generic = sm > unrollBits
			}
		} else if n > unrollDecided {
			generic = true
		}
		if !undecided && !generic && n > 12 {
			// a leave inside the body with a condition nobody decides
			if len(rest) > 0 {
				nonErr := false
				for _, e := range rest {
					if e.kind == exLeave {
						nonErr = true
					}
				}
				generic = nonErr && n > 16
			}
		}
		if generic && n < 2 && x.cacheChanged(s0, backs) {
			// the first iteration fills a cache: follow it
			generic = false
		}
		if generic && x.boundedExit(l) {
			if ex, ok := x.trialUnroll(fr, backs, l); ok {
				out = append(append(out, rest...), ex...)
				continue
			}
		}
		if !generic {
			out = append(out, rest...)
			for _, b := range backs {
				work = append(work, item{st: b.st, env: b.env, blk: l.header, prev: b.from, defers: b.defers})
				rounds[b.st], small[b.st] = n+1, sm
			}
			continue
		}
		out = append(out, x.summarise(fr, s0, env0, l, defers, backs, rest, mark)...)
	}
	return out
}

// boundedExit: some exit of the loop other than its header compares a counter
// of the loop with a small constant.
func (x *Eng) boundedExit(l *Loop) bool {
	var counter func(v ssa.Value, d int) bool
	counter = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Phi:
			return l.body[v.Block()]
		case *ssa.BinOp:
			if v.Op == token.ADD || v.Op == token.SUB || v.Op == token.MUL {
				return counter(v.X, d+1) || counter(v.Y, d+1)
			}
		case *ssa.Convert:
			return counter(v.X, d+1)
		case *ssa.UnOp:
			return v.Op == token.MUL && l.body[v.Block()]
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return l.body[v.Block()]
			}
		}
		return false
	}
	small := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return false
		}
		n, ok := constant.Int64Val(c.Value)
		return ok && n >= 1 && n <= 70
	}
	for b := range l.body {
		if b == l.header || len(b.Succs) != 2 {
			continue
		}
		in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := in.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch c.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			if small(c.X) && counter(c.Y, 0) || small(c.Y) && counter(c.X, 0) {
				return true
			}
		}
	}
	return false
}

// trialUnroll runs a loop iteration by iteration and succeeds if every path
// leaves it soon.
func (x *Eng) trialUnroll(fr *frame, backs []Exit, l *Loop) (out []Exit, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(abortErr); !is {
				panic(r)
			}
			out, ok = nil, false
		}
	}()
	type job struct {
		it item
		n  int
	}
	var work []job
	add := func(b Exit, n int) {
		work = append(work, job{item{st: b.st.clone(), env: cloneEnv(b.env), blk: l.header, prev: b.from, defers: b.defers}, n})
	}
	for _, b := range backs {
		add(b, 1)
	}
	for runs := 0; len(work) > 0; runs++ {
		j := work[len(work)-1]
		work = work[:len(work)-1]
		if j.n > 11 || runs > 120 {
			return nil, false
		}
		x.enterBlock(fr, &j.it)
		for _, e := range x.region(fr, []item{j.it}, l) {
			if e.kind == exBack {
				add(e, j.n+1)
			} else {
				out = append(out, e)
			}
		}
	}
	return out, true
}

func (x *Eng) headerNext(l *Loop) *ssa.Next {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return n
		}
	}
	return nil
}

// fewTrips reports whether the facts bound the remaining iterations.
func (x *Eng) fewTrips(fr *frame, st *State, env []Value, l *Loop, hc *Term) bool {
	lim := mkInt(4)
	if n := x.headerNext(l); n != nil {
		it, ok := x.val(fr, st, env, n.Iter).(*IterV)
		if !ok {
			return false
		}
		c, ok := x.content(st, it.obj).(*StructV)
		if !ok {
			return false
		}
		pos := c.f[0].(*Term)
		switch p := c.f[1].(type) {
		case *StrV:
			return st.f.le(tSub(strLen(p), pos), lim)
		case *MapV:
			if st.f.decide(p.nilT) == 1 {
				return true
			}
			if m, ok := x.content(st, p.obj).(*MapC); ok && len(m.log) == 0 && m.base != nil {
				return st.f.le(tSub(m.len, pos), lim)
			}
			return false
		}
		return false
	}
	if hc == nil {
		return false
	}
	neg := false
	if s := l.header.Succs; len(s) == 2 && !l.body[s[0]] && l.body[s[1]] {
		neg = true // the loop goes on when the condition is false
	}
	t := hc
	for t.op == OApp && t.str == "not" {
		t = t.args[0]
		neg = !neg
	}
	if t.op == OApp && t.str == "le0" {
		d := tScale(t.args[0], bigM1) // -t: iterations left minus one
		if neg {
			d = tAddI(t.args[0], -1)
		}
		return st.f.le(d, lim)
	}
	if t.op == OApp && t.str == "eq0" {
		return st.f.le(t.args[0], lim) && st.f.le(mkInt(-4), t.args[0])
	}
	return false
}

// cacheChanged: an iteration changed package-level memory.
func (x *Eng) cacheChanged(s0 *State, backs []Exit) bool {
	hidden := map[int]bool{}
	for _, id := range x.hidden {
		hidden[id] = true
	}
	for _, b := range backs {
		for id, v := range b.st.heap {
			if (x.objs[id].class == clsGlobal || hidden[id]) && s0.heap[id] != v {
				return true
			}
		}
	}
	return false
}

func (x *Eng) summarise(fr *frame, s0 *State, env0 []Value, l *Loop, defers []deferred, backs, rest []Exit, mark int) []Exit {
	loopIDs++
	x.loopsSum++
	c := &loopCtx{x: x, fr: fr, l: l, id: loopIDs, s0: s0, env0: env0, leaf: map[string]*loopLeaf{}, gens: map[string]*SliceV{}, syms: map[string]*Term{},
		dead: map[string]bool{}, objs: map[int]bool{}, first: backs, mark: mark}
	c.k = freshInt("k", bigOne, x.maxLen())
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c.phis = append(c.phis, phi)
	}
	marker := &Ev{kind: evLoop, pos: l.header.Instrs[0].Pos(), fn: fr.fn, k: c.k, count: c.k}
	for _, b := range l.header.Instrs {
		if b.Pos().IsValid() {
			marker.pos = b.Pos()
			break
		}
	}
	c.compare()
	for round := 0; ; round++ {
		if round > 24 {
			x.abort("loop in %s: no inductive invariant found", fr.fn)
		}
		c.build(marker)
		if c.gst == nil {
			x.abort("loop in %s: contradictory candidates", fr.fn)
		}
		c.mark = len(termTab)
		ex := x.region(fr, []item{{st: c.gst.clone(), env: cloneEnv(c.genv), blk: l.header, prev: nil, phis: true, defers: defers}}, l)
		c.exits = ex
		hc := c.findHcond(ex)
		c.chg = false
		c.compare()
		c.checkCands()
		if hc != c.hcond {
			if c.hcond != nil && round > 4 {
				hc = nil
			}
			c.chg = true
			c.hcond = hc
		}
		if !c.chg {
			break
		}
	}
	out := rest
	lossy := false
	for _, e := range c.exits {
		if e.kind == exBack && dataFacts(e.st.f, c.gst.f) {
			lossy = true
		}
	}
	n0 := len(s0.trace)
	for _, b := range backs {
		marker.alts = append(marker.alts, Alt{evs: b.st.trace[n0:], st: b.st, first: true})
	}
	for _, e := range c.exits {
		if e.kind == exBack {
			if n0+1 > len(e.st.trace) {
				x.abort("loop in %s: trace lost", fr.fn)
			}
			marker.alts = append(marker.alts, Alt{evs: e.st.trace[n0+1:], st: e.st})
			continue
		}
		if lossy {
			e.st.f.lossy = true
		}
		out = append(out, e)
	}
	return out
}

// dataFacts: the facts after an iteration restrict the data it looked at, which
// the generic state of the loop does not remember for earlier iterations.
func dataFacts(f, g *Facts) bool {
	if len(f.bitv) > len(g.bitv) || len(f.neqs) > len(g.neqs) {
		return true
	}
	for _, t := range f.ineqs[min(len(g.ineqs), len(f.ineqs)):] {
		if hasData(t) {
			return true
		}
	}
	return false
}

func hasData(t *Term) bool {
	if len(t.bits) > 0 || t.op == OApp && t.str == "cell" {
		return true
	}
	for _, a := range t.args {
		if hasData(a) {
			return true
		}
	}
	return false
}

// findHcond is the condition under which iteration k is entered.
func (c *loopCtx) findHcond(ex []Exit) *Term {
	iff, ok := c.l.header.Instrs[len(c.l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	_ = iff
	in0, in1 := c.l.body[c.l.header.Succs[0]], c.l.body[c.l.header.Succs[1]]
	if in0 == in1 {
		return nil
	}
	var hc *Term
	for _, e := range ex {
		if e.hcond == nil {
			continue
		}
		if hc != nil && hc != e.hcond {
			return nil
		}
		hc = e.hcond
	}
	if hc == nil || hc.isConst() || c.hasNew(hc) {
		return nil
	}
	if in1 {
		hc = mkNot(hc)
	}
	return hc
}

// hasNew reports whether a term contains symbols created in the last run.
func (c *loopCtx) hasNew(t *Term) bool { return len(newSyms(t, c.mark, map[*Term]bool{}, nil)) > 0 }

func newSyms(t *Term, mark int, seen map[*Term]bool, out []*Term) []*Term {
	if t == nil || t.op == OConst || seen[t] {
		return out
	}
	seen[t] = true
	switch t.op {
	case OSym:
		if t.id > mark {
			out = append(out, t)
		}
	case OLin, OApp:
		for _, a := range t.args {
			out = newSyms(a, mark, seen, out)
		}
	case OBits:
		for _, b := range t.bits {
			out = newSyms(b.a, mark, seen, out)
		}
	}
	return out
}

// ---- the generic state ----

func (c *loopCtx) at(path string) *loopLeaf {
	if l, ok := c.leaf[path]; ok {
		return l
	}
	l := &loopLeaf{}
	c.leaf[path] = l
	return l
}

func (c *loopCtx) free(path string) {
	if l := c.at(path); l.mode != modeFree {
		l.mode = modeFree
		c.chg = true
		if os.Getenv("CK_LOOP") != "" && len(path) > 3 && path[len(path)-3:] == "arr" {
			_, _, ln, _ := runtime.Caller(1)
			fmt.Println("free", path, ln)
		}
	}
}

func (c *loopCtx) app(path string, s Sort, lo, hi *big.Int) *Term {
	return mkApp(s, fmt.Sprintf("it%d:%s", c.id, path), lo, hi, c.k)
}

func (c *loopCtx) build(marker *Ev) {
	x := c.x
	st := c.s0.clone()
	st.trace = append(st.trace, marker)
	c.ints = nil
	c.konst = map[string][]*Term{}
	env := cloneEnv(c.env0)
	for _, p := range c.phis {
		i := c.fr.fi.idx[p]
		path := fmt.Sprintf("v%s", p.Name())
		env[i] = c.gen(st, path, path, p.Type(), c.env0[i])
	}
	var ids []int
	for o := range c.objs {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	for _, o := range ids {
		path := fmt.Sprintf("o%d", o)
		st.heap[o] = c.gen(st, path, path, x.objs[o].typ, x.content(c.s0, o))
	}
	ok := true
	if c.hcond != nil {
		ok = st.f.assume(substTerm(c.hcond, map[*Term]*Term{c.k: tAddI(c.k, -1)}, map[*Term]*Term{}), true)
		if t := c.untilEqual(); ok && t != nil {
			ok = st.f.assume(t, true)
		}
	}
	g := map[string]*Term{}
	for _, v := range c.ints {
		g[v.path] = v.g
	}
	// the candidates hold after the first iteration, so that the generic
	// state includes it
	for _, cd := range c.cands() {
		for i, b := range c.first {
			if i >= len(c.vals) {
				break
			}
			if t := cd.f(c.vals[i], mkInt(1)); t == nil || b.st.f.decide(t) != 1 {
				c.dead[cd.key] = true
				break
			}
		}
	}
	for _, cd := range c.cands() {
		if ok {
			t := cd.f(g, c.k)
			if t != nil {
				ok = st.f.assume(t, true)
				if !ok && os.Getenv("CK_LOOP") != "" {
					fmt.Println("loop dead", c.fr.fn, t, clip(st.f.String()))
				}
			}
		}
	}
	c.gst, c.genv = st, env
	if !ok {
		c.gst = nil
	}
}

// untilEqual is what follows from a guard i != n in which i moves towards n by
// one per iteration: i never passes n.
func (c *loopCtx) untilEqual() *Term {
	h := c.hcond
	if h.op != OApp || h.str != "not" || h.args[0].op != OApp || h.args[0].str != "eq0" {
		return nil
	}
	d := h.args[0].args[0]
	l := toLin(d)
	s := l.m[c.k]
	if s == nil || !s.IsInt64() || s.Int64() != 1 && s.Int64() != -1 {
		return nil
	}
	for a := range l.m {
		if a != c.k && mentions(a, map[*Term]bool{c.k: true}, map[*Term]bool{}) {
			return nil
		}
	}
	d0 := substTerm(d, map[*Term]*Term{c.k: mkInt(0)}, map[*Term]*Term{})
	if !c.s0.f.le0(tScale(d0, s)) {
		return nil
	}
	return mkLe(tScale(d, s), mkInt(0))
}

func (c *loopCtx) genInt(root, path string, v0 *Term, lo, hi *big.Int) *Term {
	l := c.at(path)
	switch l.mode {
	case modeSame:
		c.konst[root] = append(c.konst[root], v0)
		return v0
	case modeLinear:
		g := tAdd(v0, tScale(c.k, l.step))
		c.ints = append(c.ints, loopInt{path, root, v0, g, modeLinear})
		return g
	}
	g := c.app(path, SInt, lo, hi)
	c.ints = append(c.ints, loopInt{path, root, v0, g, modeFree})
	return g
}

func (c *loopCtx) rangeOf(t types.Type) (lo, hi *big.Int) {
	if t == nil {
		return nil, nil
	}
	if w, s, ok := c.x.intInfo(t); ok {
		return intRange(w, s)
	}
	return nil, nil
}

// gen is the generic value of a location whose entry value is v.
func (c *loopCtx) gen(st *State, root, path string, t types.Type, v Value) Value {
	x := c.x
	l := c.at(path)
	switch p := v.(type) {
	case *Term:
		if p.sort == SInt {
			lo, hi := c.rangeOf(t)
			return c.genInt(root, path, p, lo, hi)
		}
		if l.mode == modeSame {
			return p
		}
		return c.app(path, p.sort, nil, nil)
	case *BigV:
		return &BigV{c.genInt(root, path, p.t, nil, nil)}
	case *StructV:
		n := &StructV{typ: p.typ, f: make([]Value, len(p.f))}
		var stt *types.Struct
		if p.typ != nil {
			stt, _ = p.typ.Underlying().(*types.Struct)
		}
		for i := range p.f {
			var ft types.Type
			if stt != nil {
				ft = stt.Field(i).Type()
			}
			n.f[i] = c.gen(st, root, fmt.Sprintf("%s.%d", path, i), ft, p.f[i])
		}
		return n
	case *SliceV:
		ml := x.maxLen()
		if l.mode == modeSame && c.at(path+".off").mode == modeSame && c.at(path+".len").mode == modeSame && c.at(path+".cap").mode == modeSame && c.at(path+".nil").mode == modeSame {
			c.konst[root] = append(c.konst[root], p.len, p.cap)
			return p
		}
		n := &SliceV{obj: p.obj, path: p.path, elem: p.elem}
		n.off = c.genInt(root, path+".off", p.off, bigZero, ml)
		n.len = c.genInt(root, path+".len", p.len, bigZero, ml)
		n.cap = c.genInt(root, path+".cap", p.cap, bigZero, ml)
		n.nilT = p.nilT
		if c.at(path+".nil").mode != modeSame {
			n.nilT = c.app(path+".nil", SBool, nil, nil)
		}
		if l.mode != modeSame {
			// another array in every iteration
			st.f.assume(mkLe(n.len, n.cap), true)
			key := c.app(path+".arr", SOther, nil, nil)
			a := &ArrC{n: tAdd(n.off, n.cap), elem: p.elem, base: key}
			if t := l.tile; t != nil && t.vals != nil {
				a.base = nil
				a.log = append(a.log, Upd{start: n.off, src: &ArrC{n: p.len, elem: p.elem, base: nil, log: c.prefix(st, p)}, srcOff: mkInt(0), n: p.len})
				a.log = append(a.log, c.rep(tAdd(n.off, p.len), t))
			}
			n.obj, n.path = x.newObj(st, "loop", a), nil
			c.gens[path] = n
		} else {
			st.f.assume(mkLe(n.len, n.cap), true)
			if arr := x.arrOf(c.s0, p); arr != nil {
				st.f.assume(mkLe(tAdd(n.off, n.cap), arr.n), true)
			}
		}
		return n
	case *StrV:
		if l.mode == modeSame {
			c.konst[root] = append(c.konst[root], strLen(p))
			return p
		}
		return &StrV{segs: []Seg{{kind: segBlob, base: c.app(path, SOther, nil, nil), off: mkInt(0), n: c.genInt(root, path+".len", strLen(p), bigZero, x.maxLen())}}}
	case *PtrV:
		if l.mode == modeSame {
			return p
		}
		nt := tFalse
		if c.at(path+".nil").mode != modeSame || p.nilT != tFalse {
			nt = c.app(path+".nil", SBool, nil, nil)
		}
		key := c.app(path+".ptr", SOther, nil, nil)
		o := x.symObj("ptr", p.elem, key)
		x.objs[o].generic = true
		return &PtrV{nilT: nt, obj: o, elem: p.elem}
	case *IfaceV:
		if l.mode == modeSame {
			if p.typ != nil && p.val != nil {
				n := *p
				n.val = c.gen(st, root, path+".val", p.typ, p.val)
				return &n
			}
			return p
		}
		return &IfaceV{nilT: c.app(path+".nil", SBool, nil, nil), sym: c.app(path+".dyn", SOther, nil, nil)}
	case *RV:
		if l.mode == modeSame {
			n := *p
			if p.loc != nil {
				n.loc = c.gen(st, root, path+".loc", nil, p.loc).(*PtrV)
			}
			if p.val != nil {
				n.val = c.gen(st, root, path+".val", p.typ, p.val)
			}
			return &n
		}
		x.abort("loop in %s: a reflect.Value changes its type or origin", c.fr.fn)
	case TupleV:
		n := make(TupleV, len(p))
		for i := range p {
			n[i] = c.gen(st, root, fmt.Sprintf("%s.%d", path, i), nil, p[i])
		}
		return n
	case *ArrC:
		if l.mode == modeSame && l.tile == nil {
			return p
		}
		if l.mode == modeFree || l.tile == nil {
			return &ArrC{n: p.n, elem: p.elem, base: c.app(path, SOther, nil, nil)}
		}
		return &ArrC{n: p.n, elem: p.elem, base: p.base, log: append(p.log[:len(p.log):len(p.log)], c.rep(l.tile.start, l.tile))}
	case *MapC:
		if l.mode == modeSame {
			return p
		}
		return &MapC{typ: p.typ, base: c.app(path, SOther, nil, nil), len: c.app(path+".len", SInt, bigZero, x.maxLen())}
	case *MapV:
		if l.mode == modeSame {
			return p
		}
		key := c.app(path+".map", SOther, nil, nil)
		o := x.symObj("map", p.typ, key)
		x.objs[o].generic = true
		return &MapV{nilT: c.app(path+".nil", SBool, nil, nil), obj: o, typ: p.typ}
	case *FuncV, *RT, *IterV, nil:
		if l.mode == modeSame {
			return v
		}
		x.abort("loop in %s: value of kind %T changes", c.fr.fn, v)
	}
	if l.mode == modeSame {
		return v
	}
	x.abort("loop in %s: value of kind %T changes", c.fr.fn, v)
	return nil
}

func (c *loopCtx) prefix(st *State, p *SliceV) []Upd {
	if st.f.eq(p.len, mkInt(0)) {
		return nil
	}
	u, ok := c.x.updOf(c.s0, mkInt(0), p, p.len)
	if !ok {
		return nil
	}
	return []Upd{u}
}

func (c *loopCtx) rep(start *Term, t *loopTile) Upd {
	kk := freshInt("j", bigZero, c.x.maxLen())
	u := Upd{start: start, k: kk, count: c.k}
	for _, v := range t.vals {
		u.rep = append(u.rep, c.x.substVal(c.s0, v, map[*Term]*Term{c.k: kk}))
	}
	return u
}

// ---- comparison with the states at the back edges ----

type backVal struct {
	st    *State
	v     Value
	n     *Term // iterations completed
	first bool
	i     int // index into vals
}

func (c *loopCtx) compare() {
	x := c.x
	type back struct {
		e     Exit
		first bool
	}
	var bs []back
	for _, e := range c.first {
		bs = append(bs, back{e, true})
	}
	for _, e := range c.exits {
		if e.kind == exBack {
			bs = append(bs, back{e, false})
		}
	}
	c.nback = len(bs)
	c.vals = make([]map[string]*Term, len(bs))
	for i := range c.vals {
		c.vals[i] = map[string]*Term{}
	}
	iter := func(first bool) *Term {
		if first {
			return mkInt(1)
		}
		return tAddI(c.k, 1)
	}
	// objects changed by some iteration
	for _, b := range bs {
		ref := c.s0
		if !b.first {
			ref = c.gst
		}
		for o, v := range b.e.st.heap {
			if c.objs[o] || sameRef(v, ref.heap[o]) {
				continue
			}
			if _, ok := c.s0.heap[o]; !ok {
				if x.content(c.s0, o) == nil {
					continue
				}
				if x.objs[o].generic {
					x.abort("loop in %s: write through a pointer that varies", c.fr.fn)
				}
			}
			if x.eqVal(b.e.st, v, x.content(c.s0, o)) && !isArr(v) {
				continue
			}
			if a, ok := v.(*ArrC); ok && x.sameArr(b.e.st, a, x.content(c.s0, o)) {
				continue
			}
			c.objs[o] = true
			c.chg = true
		}
	}
	for _, p := range c.phis {
		path := fmt.Sprintf("v%s", p.Name())
		var vs []backVal
		for i, b := range bs {
			pi := -1
			for j, q := range c.l.header.Preds {
				if q == b.e.from {
					pi = j
					break
				}
			}
			vs = append(vs, backVal{b.e.st, x.val(c.fr, b.e.st, b.e.env, p.Edges[pi]), iter(b.first), b.first, i})
		}
		c.cmp(path, p.Type(), c.env0[c.fr.fi.idx[p]], vs)
	}
	var ids []int
	for o := range c.objs {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	for _, o := range ids {
		var vs []backVal
		for i, b := range bs {
			vs = append(vs, backVal{b.e.st, x.content(b.e.st, o), iter(b.first), b.first, i})
		}
		c.cmp(fmt.Sprintf("o%d", o), x.objs[o].typ, x.content(c.s0, o), vs)
	}
}

func isArr(v Value) bool { _, ok := v.(*ArrC); return ok }

func (x *Eng) sameArr(st *State, a *ArrC, w Value) bool {
	b, ok := w.(*ArrC)
	return ok && a.base == b.base && len(a.log) == len(b.log) && (len(a.log) == 0 || &a.log[0] == &b.log[0])
}

func sameRef(a, b Value) bool {
	switch a.(type) {
	case TupleV, nil:
		return false
	}
	switch b.(type) {
	case TupleV, nil:
		return false
	}
	return a == b
}

func (c *loopCtx) cmpInt(path string, v0 *Term, vs []backVal, get func(v Value) *Term) {
	l := c.at(path)
	for _, b := range vs {
		if t := get(b.v); t != nil {
			c.vals[b.i][path] = t
		} else {
			c.free(path)
		}
	}
	switch l.mode {
	case modeSame:
		same := true
		for _, b := range vs {
			t := get(b.v)
			if t == nil || !b.st.f.eq(t, v0) {
				same = false
			}
		}
		if same {
			return
		}
		c.chg = true
		var step *big.Int
		for _, b := range vs {
			t := get(b.v)
			if t == nil {
				step = nil
				break
			}
			d := b.st.f.norm(tSub(t, v0))
			if !d.isConst() || (step != nil && step.Cmp(d.c) != 0) {
				step = nil
				l.mode = modeFree
				break
			}
			step = d.c
		}
		if step != nil && step.Sign() != 0 && l.mode == modeSame {
			l.mode, l.step = modeLinear, step
			return
		}
		l.mode = modeFree
	case modeLinear:
		for _, b := range vs {
			t := get(b.v)
			want := tAdd(v0, tScale(b.n, l.step))
			if t == nil || !b.st.f.eq(t, want) {
				c.free(path)
				return
			}
		}
	}
}

func (c *loopCtx) cmp(path string, t types.Type, v0 Value, vs []backVal) {
	x := c.x
	l := c.at(path)
	sub := func(f func(v Value) Value) []backVal {
		out := make([]backVal, len(vs))
		for i, b := range vs {
			out[i] = b
			if b.v != nil {
				out[i].v = f(b.v)
			} else {
				out[i].v = nil
			}
		}
		return out
	}
	switch p := v0.(type) {
	case *Term:
		if p.sort == SInt {
			c.cmpInt(path, p, vs, func(v Value) *Term { q, _ := v.(*Term); return q })
			return
		}
		if l.mode == modeSame {
			for _, b := range vs {
				if b.v == nil || !x.eqVal(b.st, p, b.v) {
					c.free(path)
				}
			}
		}
	case *BigV:
		c.cmpInt(path, p.t, vs, func(v Value) *Term {
			if q, ok := v.(*BigV); ok {
				return q.t
			}
			return nil
		})
	case *StructV:
		for i := range p.f {
			c.cmp(fmt.Sprintf("%s.%d", path, i), nil, p.f[i], sub(func(v Value) Value {
				if q, ok := v.(*StructV); ok && i < len(q.f) {
					return q.f[i]
				}
				return nil
			}))
		}
	case *SliceV:
		field := func(f func(q *SliceV) *Term) func(v Value) *Term {
			return func(v Value) *Term {
				if q, ok := v.(*SliceV); ok {
					return f(q)
				}
				return nil
			}
		}
		if l.mode == modeSame {
			for _, b := range vs {
				q, ok := b.v.(*SliceV)
				if !ok || q.obj != p.obj || !samePath(b.st, q.path, p.path) {
					c.free(path)
				}
			}
		}
		if l.mode == modeFree {
			c.appendTile(path, l, p, vs)
		}
		c.cmpInt(path+".off", p.off, vs, field(func(q *SliceV) *Term { return q.off }))
		c.cmpInt(path+".len", p.len, vs, field(func(q *SliceV) *Term { return q.len }))
		c.cmpInt(path+".cap", p.cap, vs, field(func(q *SliceV) *Term { return q.cap }))
		nl := c.at(path + ".nil")
		for _, b := range vs {
			q, ok := b.v.(*SliceV)
			if nl.mode == modeSame && (!ok || b.st.f.norm(q.nilT) != b.st.f.norm(p.nilT)) {
				c.free(path + ".nil")
			}
		}
	case *StrV:
		if l.mode == modeSame {
			for _, b := range vs {
				if b.v == nil || !x.eqVal(b.st, p, b.v) {
					c.free(path)
				}
			}
		}
		if l.mode != modeSame {
			c.cmpInt(path+".len", strLen(p), vs, func(v Value) *Term {
				if q, ok := v.(*StrV); ok {
					return strLen(q)
				}
				return nil
			})
		}
	case *PtrV:
		for _, b := range vs {
			if l.mode == modeSame && (b.v == nil || !x.eqVal(b.st, p, b.v)) {
				c.free(path)
			}
			if q, ok := b.v.(*PtrV); ok && b.st.f.decide(q.nilT) != 0 && c.at(path+".nil").mode == modeSame {
				c.free(path + ".nil")
			}
		}
	case *IfaceV:
		if l.mode != modeSame {
			return
		}
		inner := p.typ != nil && p.val != nil
		for _, b := range vs {
			q, ok := b.v.(*IfaceV)
			if inner && ok && q.typ != nil && types.Identical(q.typ, p.typ) && b.st.f.norm(q.nilT) == b.st.f.norm(p.nilT) {
				continue
			}
			if !ok || !x.eqVal(b.st, p, q) {
				c.free(path)
				return
			}
		}
		if inner {
			c.cmp(path+".val", p.typ, p.val, sub(func(v Value) Value { return v.(*IfaceV).val }))
		}
	case *RV:
		if l.mode != modeSame {
			return
		}
		for _, b := range vs {
			q, ok := b.v.(*RV)
			if !ok || p.unk || q.unk || !sameType(p.typ, q.typ) || p.canAddr != q.canAddr || (p.loc == nil) != (q.loc == nil) || (p.val == nil) != (q.val == nil) || p.ro != q.ro {
				c.free(path)
				return
			}
		}
		if p.loc != nil {
			c.cmp(path+".loc", nil, p.loc, sub(func(v Value) Value { return v.(*RV).loc }))
		}
		if p.val != nil {
			c.cmp(path+".val", p.typ, p.val, sub(func(v Value) Value { return v.(*RV).val }))
		}
	case TupleV:
		for i := range p {
			c.cmp(fmt.Sprintf("%s.%d", path, i), nil, p[i], sub(func(v Value) Value {
				if q, ok := v.(TupleV); ok && i < len(q) {
					return q[i]
				}
				return nil
			}))
		}
	case *ArrC:
		c.cmpArr(path, l, p, vs)
	case *MapC:
		for _, b := range vs {
			if l.mode == modeSame && (b.v == nil || !x.eqVal(b.st, p, b.v)) {
				c.free(path)
			}
		}
	default:
		for _, b := range vs {
			if l.mode == modeSame && (b.v == nil || !x.eqVal(b.st, v0, b.v)) {
				c.free(path)
			}
		}
	}
}

// suffix is the contiguous tile of explicit cells that an iteration added.
func (c *loopCtx) suffix(st *State, a *ArrC, prefix int) (start *Term, vals []Value, ok bool) {
	if len(a.log) <= prefix {
		return nil, nil, false
	}
	ups := a.log[prefix:]
	type cell struct {
		off int64
		v   Value
	}
	start = st.f.norm(ups[0].start)
	var cells []cell
	lo, hi := int64(0), int64(0)
	for _, u := range ups {
		if u.vals == nil {
			return nil, nil, false
		}
		d, isC := st.f.norm(tSub(u.start, start)).constInt()
		if !isC {
			return nil, nil, false
		}
		for i, v := range u.vals {
			cells = append(cells, cell{d + int64(i), v})
			if d+int64(i) < lo {
				lo = d + int64(i)
			}
			if d+int64(i)+1 > hi {
				hi = d + int64(i) + 1
			}
		}
	}
	if hi-lo > 64 {
		return nil, nil, false
	}
	vals = make([]Value, hi-lo)
	for _, ce := range cells {
		vals[ce.off-lo] = ce.v
	}
	for _, v := range vals {
		if v == nil {
			return nil, nil, false
		}
	}
	return st.f.norm(tAddI(start, lo)), vals, true
}

// tileVal makes the value stored by iteration k a function of k.
func (c *loopCtx) tileVal(st *State, v Value, elem types.Type, path string) Value {
	if c.newRef(v) {
		return c.x.symVal(elem, c.app(path+".cell", SOther, nil, nil))
	}
	syms := valSyms(v, c.mark)
	if len(syms) == 0 {
		return v
	}
	m := map[*Term]*Term{}
	for i, s := range syms {
		m[s] = mkApp(s.sort, fmt.Sprintf("sk%d:%s:%d", c.id, path, i), s.lo, s.hi, c.k)
	}
	return c.x.substVal(st, v, m)
}

// newRef: the value refers to objects that did not exist before the loop.
func (c *loopCtx) newRef(v Value) bool {
	bad := func(o int) bool {
		if o < 0 || c.x.objs[o].key != nil {
			return false
		}
		_, ok := c.s0.heap[o]
		if ok {
			return false
		}
		_, ok = c.x.globalInit[o]
		return !ok
	}
	switch p := v.(type) {
	case *PtrV:
		return bad(p.obj)
	case *SliceV:
		return bad(p.obj)
	case *MapV:
		return bad(p.obj)
	case *IterV:
		return true
	case *StructV:
		for _, f := range p.f {
			if c.newRef(f) {
				return true
			}
		}
	case *IfaceV:
		return p.val != nil && c.newRef(p.val)
	case *RV:
		return (p.loc != nil && c.newRef(p.loc)) || (p.val != nil && c.newRef(p.val))
	case *ArrC:
		for _, u := range p.log {
			for _, w := range u.vals {
				if c.newRef(w) {
					return true
				}
			}
			if u.src != nil && c.newRef(u.src) {
				return true
			}
		}
	}
	return false
}

func valSyms(v Value, mark int) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) { out = newSyms(t, mark, seen, out) }
	var segs func(s []Seg)
	segs = func(s []Seg) {
		for _, g := range s {
			add(g.b)
			add(g.base)
			add(g.off)
			add(g.n)
			segs(g.body)
		}
	}
	var walk func(v Value)
	walk = func(v Value) {
		switch p := v.(type) {
		case *Term:
			add(p)
		case *StrV:
			segs(p.segs)
		case *SliceV:
			add(p.off)
			add(p.len)
			add(p.cap)
			add(p.nilT)
		case *PtrV:
			add(p.nilT)
		case *BigV:
			add(p.t)
		case *StructV:
			for _, f := range p.f {
				walk(f)
			}
		case *IfaceV:
			add(p.nilT)
			add(p.sym)
			if p.val != nil {
				walk(p.val)
			}
		case *RV:
			if p.loc != nil {
				walk(p.loc)
			}
			if p.val != nil {
				walk(p.val)
			}
		case *ArrC:
			add(p.n)
			add(p.base)
			for _, u := range p.log {
				add(u.start)
				add(u.n)
				add(u.count)
				add(u.srcOff)
				for _, w := range u.vals {
					walk(w)
				}
				for _, w := range u.rep {
					walk(w)
				}
				segs(u.segs)
				if u.src != nil {
					walk(u.src)
				}
			}
		case TupleV:
			for _, f := range p {
				walk(f)
			}
		}
	}
	walk(v)
	return out
}

func (c *loopCtx) cmpArr(path string, l *loopLeaf, p *ArrC, vs []backVal) {
	x := c.x
	if l.mode == modeFree {
		return
	}
	changed := false
	for _, b := range vs {
		q, ok := b.v.(*ArrC)
		if !ok {
			c.free(path)
			return
		}
		if !x.sameArr(b.st, q, p) {
			changed = true
		}
	}
	if !changed {
		return
	}
	n0 := len(p.log)
	if l.tile == nil {
		// learn the tile from the first iteration
		for _, b := range vs {
			if !b.first {
				c.free(path)
				return
			}
		}
		var start *Term
		w := -1
		for _, b := range vs {
			s, vals, ok := c.suffix(b.st, b.v.(*ArrC), n0)
			if !ok || (start != nil && (s != start || len(vals) != w)) {
				c.free(path)
				return
			}
			start, w = s, len(vals)
		}
		if c.hasNew(start) {
			c.free(path)
			return
		}
		t := &loopTile{start: start, width: int64(w), unk: make([]bool, w)}
		for i := 0; i < w; i++ {
			t.vals = append(t.vals, x.symVal(p.elem, c.app(fmt.Sprintf("%s.tile%d", path, i), SOther, nil, nil)))
		}
		l.tile = t
		l.mode = modeLinear
		c.chg = true
		return
	}
	t := l.tile
	want := func(b backVal) *Term {
		if b.first {
			return t.start
		}
		return tAdd(t.start, tScale(c.k, big.NewInt(t.width)))
	}
	sufs := make([][]Value, len(vs))
	gen := -1
	for n, b := range vs {
		pre := n0
		if !b.first {
			pre = n0 + 1
		}
		s, vals, ok := c.suffix(b.st, b.v.(*ArrC), pre)
		if !ok || int64(len(vals)) != t.width || !b.st.f.eq(s, want(b)) {
			c.free(path)
			return
		}
		if !b.first {
			for i, v := range vals {
				vals[i] = c.tileVal(b.st, v, p.elem, fmt.Sprintf("%s.%d", path, i))
			}
			if gen < 0 {
				gen = n
			}
		}
		sufs[n] = vals
	}
	if gen < 0 {
		return
	}
	c.refine(path, t, p.elem, vs, sufs, gen)
}

// appendTile recognises a slice grown by one fixed group of cells per
// iteration.
func (c *loopCtx) appendTile(path string, l *loopLeaf, p *SliceV, vs []backVal) {
	x := c.x
	if l.tile != nil && l.tile.vals == nil {
		return
	}
	give := func() {
		l.tile = &loopTile{}
		c.chg = true
	}
	arr := func(b backVal) (*SliceV, *ArrC) {
		q, ok := b.v.(*SliceV)
		if !ok || q.obj < 0 {
			return nil, nil
		}
		return q, x.arrOf(b.st, q)
	}
	if l.tile == nil {
		w := int64(-1)
		for _, b := range vs {
			if !b.first {
				give()
				return
			}
			q, a := arr(b)
			if a == nil {
				give()
				return
			}
			d, ok := b.st.f.norm(tSub(q.len, p.len)).constInt()
			if !ok || d < 1 || d > 8 || w >= 0 && d != w {
				give()
				return
			}
			w = d
		}
		if w < 0 {
			return
		}
		t := &loopTile{width: w, unk: make([]bool, w)}
		for i := int64(0); i < w; i++ {
			t.vals = append(t.vals, x.symVal(p.elem, c.app(fmt.Sprintf("%s.tile%d", path, i), SOther, nil, nil)))
		}
		l.tile = t
		c.chg = true
		return
	}
	t := l.tile
	gs := c.gens[path]
	sufs := make([][]Value, len(vs))
	gen := -1
	for n, b := range vs {
		q, a := arr(b)
		if a == nil {
			give()
			return
		}
		prev, ps := p, c.s0
		if !b.first {
			if gs == nil {
				return
			}
			prev, ps = gs, c.gst
		}
		if !x.eqInt(b.st, q.len, tAddI(prev.len, t.width)) {
			give()
			return
		}
		if ps.f.decide(mkEqI(prev.len, mkInt(0))) != 1 {
			// what was there stays
			pa := x.arrOf(ps, prev)
			j := freshInt("j", bigZero, x.maxLen())
			s2 := b.st.clone()
			if pa == nil {
				give()
				return
			}
			if s2.f.assume(mkLt(j, prev.len), true) && !x.eqVal(s2, x.arrGet(s2, a, tAdd(q.off, j)), x.arrGet(s2, pa, tAdd(prev.off, j))) {
				give()
				return
			}
		}
		vals := make([]Value, t.width)
		for i := range vals {
			vals[i] = x.arrGet(b.st, a, b.st.f.norm(tAddI(tAdd(q.off, prev.len), int64(i))))
			if !b.first {
				vals[i] = c.tileVal(b.st, vals[i], p.elem, fmt.Sprintf("%s.%d", path, i))
			}
		}
		if !b.first && gen < 0 {
			gen = n
		}
		sufs[n] = vals
	}
	if gen < 0 {
		return
	}
	c.refine(path, t, p.elem, vs, sufs, gen)
}

// refine makes the cells of a tile functions of k.
func (c *loopCtx) refine(path string, t *loopTile, elem types.Type, vs []backVal, sufs [][]Value, gen int) {
	x := c.x
	unknown := func(i int) Value {
		return x.symVal(elem, c.app(fmt.Sprintf("%s.tile%d", path, i), SOther, nil, nil))
	}
	for i := range t.vals {
		if t.unk[i] {
			continue
		}
		if !t.fixed {
			t.vals[i] = sufs[gen][i]
			c.chg = true
		}
		for n, b := range vs {
			w := t.vals[i]
			if b.first {
				w = x.substVal(b.st, w, map[*Term]*Term{c.k: mkInt(0)})
			}
			if !x.eqVal(b.st, sufs[n][i], w) {
				t.unk[i] = true
				t.vals[i] = unknown(i)
				c.chg = true
				break
			}
		}
	}
	t.fixed = true
}

// ---- candidate invariants ----

type cand struct {
	key string
	f   func(v map[string]*Term, k *Term) *Term
}

func (c *loopCtx) cands() []cand {
	var out []cand
	add := func(key string, f func(v map[string]*Term, k *Term) *Term) {
		if !c.dead[key] {
			out = append(out, cand{key, f})
		}
	}
	for _, v := range c.ints {
		v := v
		get := func(m map[string]*Term) *Term { return m[v.path] }
		if v.mode == modeFree {
			add(v.path+">=0", func(m map[string]*Term, k *Term) *Term { return rel(mkInt(0), get(m)) })
			for _, n := range []int64{0, 1, 2, 4, 8, 16} {
				n := n
				add(fmt.Sprintf("%s>=v0+%dk", v.path, n), func(m map[string]*Term, k *Term) *Term {
					return rel(tAdd(v.v0, tScale(k, big.NewInt(n))), get(m))
				})
			}
			add(v.path+"<=v0", func(m map[string]*Term, k *Term) *Term { return rel(get(m), v.v0) })
		}
		for i, t := range c.konst[v.root] {
			t := t
			if i > 12 {
				break
			}
			add(fmt.Sprintf("%s<=t%d", v.path, t.id), func(m map[string]*Term, k *Term) *Term { return rel(get(m), t) })
		}
	}
	for i, a := range c.ints {
		for j, b := range c.ints {
			if i == j || a.mode != modeFree && b.mode != modeFree {
				continue
			}
			a, b := a, b
			if a.mode == modeFree && b.mode == modeFree && i < j {
				d := tSub(a.v0, b.v0)
				add("d:"+a.path+":"+b.path, func(m map[string]*Term, k *Term) *Term {
					if m[a.path] == nil || m[b.path] == nil {
						return nil
					}
					return mkEqI(tSub(m[a.path], m[b.path]), d)
				})
				s := tAdd(a.v0, b.v0)
				add("s:"+a.path+":"+b.path, func(m map[string]*Term, k *Term) *Term {
					if m[a.path] == nil || m[b.path] == nil {
						return nil
					}
					return mkEqI(tAdd(m[a.path], m[b.path]), s)
				})
			}
			add("le:"+a.path+":"+b.path, func(m map[string]*Term, k *Term) *Term { return rel(m[a.path], m[b.path]) })
		}
	}
	return out
}

func rel(a, b *Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	return mkLe(a, b)
}

// checkCands drops the candidates that some iteration does not preserve.
func (c *loopCtx) checkCands() {
	var bs []Exit
	var first []bool
	for _, e := range c.first {
		bs, first = append(bs, e), append(first, true)
	}
	for _, e := range c.exits {
		if e.kind == exBack {
			bs, first = append(bs, e), append(first, false)
		}
	}
	for _, cd := range c.cands() {
		for i, b := range bs {
			n := tAddI(c.k, 1)
			if first[i] {
				n = mkInt(1)
			}
			t := cd.f(c.vals[i], n)
			if t == nil || b.st.f.decide(t) != 1 {
				c.dead[cd.key] = true
				c.chg = true
				break
			}
		}
	}
}
