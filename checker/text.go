package main

// Characters.  A text is a sequence of slots; each slot is an unknown
// character of a known class and UTF-8 width.  Its bytes are the character
// itself (one byte), or the terms utf8(char, 0..width-1).  A byte of a slot
// that is cut off from the others is no character any more.

import (
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"
)

type charClass uint8

const (
	chLower charClass = iota + 1
	chUpper
	chLetter // a letter without case
	chDigit
	chSep // neither letter nor digit
)

type charInfo struct {
	cls   charClass
	width int
}

var chars = map[*Term]charInfo{}
var charSet = map[*Term]bool{}

var charRanges = [5][2]int64{1: {0, 0x7f}, 2: {0x80, 0x7ff}, 3: {0x800, 0xffff}, 4: {0x10000, 0x10ffff}}

// newChar is an unknown character.
func newChar(cls charClass, width int) *Term {
	r := charRanges[width]
	if width == 1 {
		switch cls {
		case chLower:
			r = [2]int64{'a', 'z'}
		case chUpper:
			r = [2]int64{'A', 'Z'}
		case chDigit:
			r = [2]int64{'0', '9'}
		case chSep:
			r = [2]int64{0x20, 0x2f}
		}
	}
	t := freshInt("char", big.NewInt(r[0]), big.NewInt(r[1]))
	chars[t] = charInfo{cls, width}
	charSet[t] = true
	return t
}

func utf8Byte(r *Term, j int) *Term {
	return mkApp(SInt, "utf8", big.NewInt(0x80), big.NewInt(0xff), r, mkInt(int64(j)))
}

// charSegs are the bytes of a character.
func charSegs(r *Term) []Seg {
	w := chars[r].width
	if w == 1 {
		return []Seg{{kind: segByte, b: r}}
	}
	var out []Seg
	for j := 0; j < w; j++ {
		out = append(out, Seg{kind: segByte, b: utf8Byte(r, j)})
	}
	return out
}

// isChar: a character the analysis knows the class of.
func isChar(r *Term) bool { _, ok := chars[r]; return ok }

// charAt is the character at byte p of a sequence of single bytes.
func (x *Eng) charAt(st *State, segs []Seg, p int) (r *Term, w int, ok bool) {
	b := st.f.norm(segs[p].b)
	if k, ok := b.constInt(); ok {
		if k < 0x80 {
			return b, 1, true
		}
		buf := []byte{byte(k)}
		for _, g := range segs[p+1:] {
			k, ok := st.f.norm(g.b).constInt()
			if !ok || len(buf) == 4 {
				break
			}
			buf = append(buf, byte(k))
		}
		if !utf8.FullRune(buf) && len(buf) < len(segs)-p {
			// could go on with an unknown byte
			nb := st.f.norm(segs[p+len(buf)].b)
			if !(isChar(nb) || nb.op == OApp && nb.str == "utf8") || nb.op == OApp && nb.args[1] != mkInt(0) {
				return nil, 0, false
			}
		}
		c, n := utf8.DecodeRune(buf)
		return mkInt(int64(c)), n, true
	}
	if b.op == OApp && b.str == "utf8" && isChar(b.args[0]) {
		w := chars[b.args[0]].width
		for j := 0; j < w; j++ {
			if p+j >= len(segs) || st.f.norm(segs[p+j].b) != utf8Byte(b.args[0], j) {
				return mkInt(utf8.RuneError), 1, true
			}
		}
		return b.args[0], w, true
	}
	if st.f.inRange(b, bigZero, big.NewInt(0x7f)) {
		return b, 1, true
	}
	return nil, 0, false
}

// explicit: a sequence of single bytes.
func explicit(segs []Seg) bool {
	for _, g := range segs {
		if g.kind != segByte {
			return false
		}
	}
	return true
}

// charsOf are the characters of a text.
func (x *Eng) charsOf(st *State, segs []Seg) ([]*Term, bool) {
	if !explicit(segs) {
		return nil, false
	}
	var out []*Term
	for p := 0; p < len(segs); {
		r, w, ok := x.charAt(st, segs, p)
		if !ok {
			return nil, false
		}
		out = append(out, r)
		p += w
	}
	return out, true
}

// hasChars: the text mentions characters of known class.
func (x *Eng) hasChars(st *State, segs []Seg) bool {
	if len(charSet) == 0 || !explicit(segs) {
		return false
	}
	for _, g := range segs {
		if b := st.f.norm(g.b); !b.isConst() && mentions(b, charSet, map[*Term]bool{}) {
			return true
		}
	}
	return false
}

// charPred decides a predicate of package unicode for a character.
func charPred(name string, r *Term) (bool, bool) {
	ci, ok := chars[r]
	if !ok {
		return false, false
	}
	c := ci.cls
	letter := c == chLower || c == chUpper || c == chLetter
	switch name {
	case "IsLetter":
		return letter, true
	case "IsLower":
		return c == chLower, true
	case "IsUpper":
		return c == chUpper, true
	case "IsDigit":
		return c == chDigit, true
	case "IsNumber":
		if c == chSep && ci.width > 1 {
			return false, false
		}
		return c == chDigit, true
	case "IsSpace", "IsControl", "IsPunct", "IsSymbol", "IsTitle":
		if letter && !(name == "IsTitle" && c == chLetter) || c == chDigit {
			return false, true
		}
	case "IsPrint", "IsGraphic":
		if letter || c == chDigit {
			return true, true
		}
	}
	return false, false
}

// changeCase is unicode.ToLower or unicode.ToUpper.
func changeCase(st *State, r *Term, upper bool) *Term {
	r = st.f.norm(r)
	if k, ok := r.constInt(); ok {
		if upper {
			return mkInt(int64(unicode.ToUpper(rune(k))))
		}
		return mkInt(int64(unicode.ToLower(rune(k))))
	}
	name := "lowercase"
	if upper {
		name = "uppercase"
	}
	if ci, ok := chars[r]; ok {
		switch {
		case ci.cls == chDigit, ci.width == 1 && ci.cls == chSep:
			return r
		case ci.cls == chLower && !upper, ci.cls == chUpper && upper:
			return r
		case ci.width == 1 && upper:
			return tAddI(r, -32)
		case ci.width == 1:
			return tAddI(r, 32)
		}
	} else if st.f.inRange(r, big.NewInt('a'), big.NewInt('z')) {
		if upper {
			return tAddI(r, -32)
		}
		return r
	} else if st.f.inRange(r, big.NewInt('A'), big.NewInt('Z')) {
		if upper {
			return r
		}
		return tAddI(r, 32)
	} else if r.op == OApp && r.str == name {
		return r
	}
	return mkApp(SInt, name, bigZero, big.NewInt(0x10ffff), r)
}

// utf8Const is byte j of a known character.
func utf8Const(r int64, j int64) (*Term, bool) {
	b := []byte(string(rune(r)))
	if j < 0 || j >= int64(len(b)) {
		return nil, false
	}
	return mkInt(int64(b[j])), true
}

// textCall runs a function of package strings or bytes from its source when
// the text is known character by character.
func (x *Eng) sourceCall(c *callCtx) ([]Outcome, bool) {
	fn := c.fn
	if fn == nil {
		return nil, false
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		return nil, false
	}
	return x.call(c.st, fn, c.args, nil), true
}

func init() {
	wrapText := func(name string, arg int, f func(x *Eng, c *callCtx, rs []*Term) ([]Outcome, bool)) {
		old := intrinsics[name]
		intrinsics[name] = func(x *Eng, c *callCtx) []Outcome {
			if s, ok := c.args[arg].(*StrV); ok && (x.hasChars(c.st, s.segs) || (strings.HasSuffix(name, "Func") || name == "strings.Map") && explicit(s.segs) && len(s.segs) < 64) {
				if rs, ok := x.charsOf(c.st, s.segs); ok {
					if o, ok := f(x, c, rs); ok {
						return o
					}
				}
			}
			if old == nil {
				return x.pureCall(c)
			}
			return old(x, c)
		}
	}
	join := func(x *Eng, st *State, rs []*Term) *StrV {
		out := &StrV{}
		for _, r := range rs {
			out.segs = concatSegs(out.segs, x.runeStr(st, r).segs)
		}
		return out
	}
	for _, up := range []bool{false, true} {
		up := up
		n := "ToLower"
		if up {
			n = "ToUpper"
		}
		wrapText("strings."+n, 0, func(x *Eng, c *callCtx, rs []*Term) ([]Outcome, bool) {
			var out []*Term
			for _, r := range rs {
				out = append(out, changeCase(c.st, r, up))
			}
			return ret(c.st, join(x, c.st, out)), true
		})
		intrinsics["unicode."+n] = func(x *Eng, c *callCtx) []Outcome {
			return ret(c.st, changeCase(c.st, c.args[0].(*Term), up))
		}
	}
	for _, n := range []string{"FieldsFunc", "IndexFunc", "LastIndexFunc", "TrimFunc", "TrimLeftFunc", "TrimRightFunc", "ContainsFunc", "Fields", "Split", "SplitN", "TrimSpace", "ContainsRune", "ContainsAny", "Trim", "TrimLeft", "TrimRight", "TrimSuffix", "TrimPrefix", "HasSuffix", "HasPrefix", "IndexByte", "Contains", "Index"} {
		wrapText("strings."+n, 0, func(x *Eng, c *callCtx, rs []*Term) ([]Outcome, bool) { return x.sourceCall(c) })
	}
	wrapText("strings.IndexByte", 0, func(x *Eng, c *callCtx, rs []*Term) ([]Outcome, bool) {
		segs := c.args[0].(*StrV).segs
		var from func(st *State, i int) []Outcome
		from = func(st *State, i int) []Outcome {
			if i == len(segs) {
				return ret(st, mkInt(-1))
			}
			return x.splitO(st, mkEqI(segs[i].b, c.args[1].(*Term)), func(st *State, eq bool) []Outcome {
				if eq {
					return ret(st, mkInt(int64(i)))
				}
				return from(st, i+1)
			})
		}
		return from(c.st, 0), true
	})
	wrapText("strings.Map", 1, func(x *Eng, c *callCtx, rs []*Term) ([]Outcome, bool) {
		f := c.args[0].(*FuncV)
		if f.fn == nil {
			return nil, false
		}
		var from func(st *State, i int, acc *StrV) []Outcome
		from = func(st *State, i int, acc *StrV) []Outcome {
			if i == len(rs) {
				return ret(st, acc)
			}
			c2 := *c
			c2.st, c2.fn, c2.args = st, f.fn, []Value{rs[i]}
			var out []Outcome
			for _, o := range x.callFn(&c2, f.bind) {
				if o.pan != nil {
					out = append(out, o)
					continue
				}
				r := o.vals[0].(*Term)
				out = append(out, x.splitO(o.st, mkLt(r, mkInt(0)), func(st *State, neg bool) []Outcome {
					if neg {
						return from(st, i+1, acc)
					}
					return from(st, i+1, &StrV{segs: concatSegs(acc.segs, x.runeStr(st, r).segs)})
				})...)
			}
			return out
		}
		return from(c.st, 0, &StrV{}), true
	})
	first := func(x *Eng, c *callCtx, segs []Seg) []Outcome {
		if len(segs) == 0 {
			return ret(c.st, mkInt(utf8.RuneError), mkInt(0))
		}
		if r, w, ok := x.charAt(c.st, segs, 0); ok {
			return ret(c.st, r, mkInt(int64(w)))
		}
		return x.pureCall(c)
	}
	intrinsics["unicode/utf8.DecodeRuneInString"] = func(x *Eng, c *callCtx) []Outcome {
		segs := c.args[0].(*StrV).segs
		if !explicit(segs) {
			return x.pureCall(c)
		}
		return first(x, c, segs)
	}
	intrinsics["unicode/utf8.DecodeRune"] = func(x *Eng, c *callCtx) []Outcome {
		segs := x.bytesArg(c.st, c.args[0])
		if !explicit(segs) {
			return x.pureCall(c)
		}
		return first(x, c, segs)
	}
	last := func(x *Eng, c *callCtx, segs []Seg) []Outcome {
		rs, ok := x.charsOf(c.st, segs)
		if !ok {
			return x.pureCall(c)
		}
		if len(rs) == 0 {
			return ret(c.st, mkInt(utf8.RuneError), mkInt(0))
		}
		for p := 0; ; {
			r, w, _ := x.charAt(c.st, segs, p)
			p += w
			if p >= len(segs) {
				return ret(c.st, r, mkInt(int64(w)))
			}
		}
	}
	intrinsics["unicode/utf8.DecodeLastRuneInString"] = func(x *Eng, c *callCtx) []Outcome {
		return last(x, c, c.args[0].(*StrV).segs)
	}
	intrinsics["unicode/utf8.DecodeLastRune"] = func(x *Eng, c *callCtx) []Outcome {
		return last(x, c, x.bytesArg(c.st, c.args[0]))
	}
	wrapText("unicode/utf8.RuneCountInString", 0, func(x *Eng, c *callCtx, rs []*Term) ([]Outcome, bool) {
		return ret(c.st, mkInt(int64(len(rs)))), true
	})
	wrapText("unicode/utf8.ValidString", 0, func(x *Eng, c *callCtx, rs []*Term) ([]Outcome, bool) {
		n := 0
		for _, r := range rs {
			if r == mkInt(utf8.RuneError) {
				n++
			}
		}
		return ret(c.st, mkBool(n == 0)), n == 0 || explicit(c.args[0].(*StrV).segs)
	})
	old := intrinsics["unicode/utf8.RuneLen"]
	intrinsics["unicode/utf8.RuneLen"] = func(x *Eng, c *callCtx) []Outcome {
		r := c.st.f.norm(c.args[0].(*Term))
		if k, ok := r.constInt(); ok {
			return ret(c.st, mkInt(int64(utf8.RuneLen(rune(k)))))
		}
		if ci, ok := chars[r]; ok {
			return ret(c.st, mkInt(int64(ci.width)))
		}
		return old(x, c)
	}
	intrinsics["unicode/utf8.RuneStart"] = func(x *Eng, c *callCtx) []Outcome {
		b := c.st.f.norm(c.args[0].(*Term))
		if k, ok := b.constInt(); ok {
			return ret(c.st, mkBool(utf8.RuneStart(byte(k))))
		}
		if b.op == OApp && b.str == "utf8" {
			return ret(c.st, mkBool(b.args[1] == mkInt(0)))
		}
		if c.st.f.inRange(b, bigZero, big.NewInt(0x7f)) {
			return ret(c.st, tTrue)
		}
		return x.pureCall(c)
	}
}
