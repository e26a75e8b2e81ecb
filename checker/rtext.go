package main

// Case conversion, over texts of unknown characters of every class and width.

import (
	"fmt"
	"go/token"
	"strings"
	"unicode"
)

type slot struct {
	cls   charClass
	width int
	text  string // a constant instead
}

var asciiSlots = []slot{{chLower, 1, ""}, {chUpper, 1, ""}, {chDigit, 1, ""}, {chSep, 1, ""}, {chSep, 1, "_"}}
var wideSlots = []slot{{chLower, 1, ""}, {chUpper, 1, ""}, {chLower, 2, ""}, {chUpper, 2, ""}, {chUpper, 3, ""}, {chLetter, 3, ""}, {chSep, 3, ""}, {chLower, 4, ""}, {chDigit, 4, ""}, {chSep, 1, "\xff"}, {chSep, 2, "\xc3"}}

func (s slot) String() string {
	if s.text != "" {
		return fmt.Sprintf("%q", s.text)
	}
	return fmt.Sprintf("%s%d", [...]string{"", "a", "A", "x", "0", "."}[s.cls], s.width)
}

// caseWords is the specification: the words of a text, as indexes of slots.
func caseWords(t []slot) [][]int {
	var words [][]int
	var w []int
	mode := charClass(0) // the last cased letter of the word
	flush := func() {
		if len(w) > 0 {
			words = append(words, w)
		}
		w, mode = nil, 0
	}
	for i, s := range t {
		if s.cls == chSep {
			flush()
			continue
		}
		if s.cls == chUpper && len(w) > 0 {
			nextLower := i+1 < len(t) && t[i+1].cls == chLower
			if mode == chLower || mode == chUpper && nextLower {
				flush()
			}
		}
		w = append(w, i)
		if s.cls == chLower || s.cls == chUpper {
			mode = s.cls
		}
	}
	flush()
	return words
}

// textItems takes a text apart into characters.
func (x *Eng) textItems(st *State, segs []Seg) ([]*Term, bool) {
	var out []*Term
	for p := 0; p < len(segs); {
		g := segs[p]
		if g.kind == segBlob && g.base.op == OApp && g.base.str == "runestr" {
			r := st.f.norm(g.base.args[0])
			if st.f.norm(g.off) != mkInt(0) {
				return nil, false
			}
			out = append(out, r)
			p++
			continue
		}
		if g.kind != segByte {
			return nil, false
		}
		e := p
		for e < len(segs) && segs[e].kind == segByte {
			e++
		}
		rs, ok := x.charsOf(st, segs[p:e])
		if !ok {
			return nil, false
		}
		out = append(out, rs...)
		p = e
	}
	return out, true
}

// sameLetter: a result is the letter in the given case.
func sameLetter(st *State, got, r *Term, upper bool) bool {
	r, got = st.f.norm(r), st.f.norm(got)
	if st.f.eq(got, changeCase(st, r, upper)) {
		return true
	}
	a, ok1 := got.constInt()
	b, ok2 := r.constInt()
	if ok1 && ok2 && !upper {
		// final sigma
		return unicode.IsLower(rune(a)) && unicode.ToUpper(rune(a)) == rune(b)
	}
	return false
}

func runCase(tuples [][]slot) func(x *Eng, r *Rep) {
	return func(x *Eng, r *Rep) {
		for _, t := range tuples {
			words := caseWords(t)
			for _, fn := range []string{"ToRustSnakeCase", "ToPascalCase", "ToSnakeForSighash"} {
				if fn == "ToSnakeForSighash" && len(t) > 2 {
					continue
				}
				st := x.state()
				in := &StrV{}
				var rs []*Term
				var names []string
				for _, s := range t {
					names = append(names, s.String())
					if s.text != "" {
						in.segs = concatSegs(in.segs, strConst(s.text).segs)
						rs = append(rs, nil)
						continue
					}
					c := newChar(s.cls, s.width)
					rs = append(rs, c)
					in.segs = concatSegs(in.segs, charSegs(c))
				}
				what := fmt.Sprintf("%s(%s)", fn, strings.Join(names, " "))
				x.steps = 0
				for _, q := range x.call(st, x.fn(fn), []Value{in}, nil) {
					r.Outcomes++
					if r.panicked(q) {
						continue
					}
					sure := !q.st.f.fuzzy
					s, ok := q.vals[0].(*StrV)
					if !ok {
						x.abort("%s returns %s", fn, valString(q.vals[0]))
					}
					items, ok := x.textItems(q.st, x.normSegs(q.st, s.segs))
					if !ok {
						r.oblige(kValue, false, token.NoPos, what+": "+valString(s))
						continue
					}
					var want []func(t *Term) bool
					for i, w := range words {
						if i > 0 && fn != "ToPascalCase" {
							want = append(want, func(t *Term) bool { return q.st.f.norm(t) == mkInt('_') })
						}
						for j, k := range w {
							k, up := k, j == 0 && fn == "ToPascalCase"
							want = append(want, func(t *Term) bool { return sameLetter(q.st, t, rs[k], up) })
						}
					}
					m := ""
					if len(items) != len(want) {
						m = fmt.Sprintf("%s has %d characters instead of %d", what, len(items), len(want))
					} else {
						for i, f := range want {
							if !f(items[i]) {
								m = fmt.Sprintf("%s: character %d of the result is %s", what, i, valString(items[i]))
								break
							}
						}
					}
					r.oblige(kValue, sure, x.fn(fn).Pos(), m)
				}
			}
		}
	}
}

// caseInsts enumerates the texts of up to n slots.
func caseInsts() []Inst {
	var out []Inst
	add := func(name string, alphabet []slot, n int, deep bool) {
		if n == 0 {
			out = append(out, Inst{name: name, run: runCase([][]slot{nil})})
			return
		}
		for _, first := range alphabet {
			tuples := [][]slot{{first}}
			for i := 1; i < n; i++ {
				var next [][]slot
				for _, t := range tuples {
					for _, s := range alphabet {
						next = append(next, append(t[:len(t):len(t)], s))
					}
				}
				tuples = next
			}
			out = append(out, Inst{name: fmt.Sprintf("case:%s%d.%s", name, n, first), deep: deep, run: runCase(tuples)})
		}
	}
	add("empty", nil, 0, false)
	for n := 1; n <= 4; n++ {
		add("ascii", asciiSlots, n, false)
	}
	add("ascii", asciiSlots, 5, true)
	for n := 1; n <= 3; n++ {
		add("wide", wideSlots, n, false)
	}
	add("wide", wideSlots, 4, true)
	return out
}

// runSafe: a safe string keeps every valid character; an invalid byte
// becomes the replacement character.
func runSafe(enc int, tuples [][]slot) func(x *Eng, r *Rep) {
	return func(x *Eng, r *Rep) {
		fn := x.fn("zzSafe")
		for _, t := range tuples {
			st := x.state()
			in := &StrV{}
			var rs []*Term
			var names []string
			for _, s := range t {
				names = append(names, s.String())
				if s.text != "" {
					in.segs = concatSegs(in.segs, strConst(s.text).segs)
					c := []rune(s.text)[0]
					rs = append(rs, mkInt(int64(c)))
					continue
				}
				c := newChar(s.cls, s.width)
				rs = append(rs, c)
				in.segs = concatSegs(in.segs, charSegs(c))
			}
			what := fmt.Sprintf("the safe string (%s)", strings.Join(names, " "))
			x.steps = 0
			for _, q := range x.call(st, fn, []Value{mkInt(int64(enc)), in}, nil) {
				r.Outcomes++
				if r.panicked(q) {
					continue
				}
				x.forkNil(q.st, q.vals[1], func(st *State, ok bool) {
					m := ""
					sure := !st.f.fuzzy
					if !ok {
						m = what + " cannot be read back"
					} else if s, isStr := q.vals[0].(*StrV); !isStr {
						sure, m = false, what
					} else if items, known := x.textItems(st, x.normSegs(st, s.segs)); !known {
						sure, m = false, what+": "+valString(s)
					} else if len(items) != len(rs) {
						m = fmt.Sprintf("%s has %d characters when read back", what, len(items))
					} else {
						for i := range rs {
							if !st.f.eq(items[i], rs[i]) {
								m = fmt.Sprintf("character %d of %s reads back as %s", i, what, valString(items[i]))
								break
							}
						}
					}
					r.oblige(kValue, sure, fn.Pos(), m)
				})
			}
		}
	}
}

func safeInsts(enc int) []Inst {
	var tuples [][]slot
	tuples = append(tuples, nil)
	for _, a := range wideSlots {
		tuples = append(tuples, []slot{a})
		for _, b := range wideSlots {
			if a.text == "" || b.text == "" {
				tuples = append(tuples, []slot{a, b})
			}
		}
	}
	return []Inst{{name: encNames[enc] + ".safe strings", run: runSafe(enc, tuples)}}
}
