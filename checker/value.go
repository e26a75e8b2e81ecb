package main

// Abstract values, byte sequences and array contents.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type SliceV struct {
	obj           int
	path          []PathEl // the array inside the object
	off, len, cap *Term
	nilT          *Term
	elem          types.Type
}

type StrV struct{ segs []Seg }

type StructV struct {
	typ types.Type
	f   []Value
}

// PtrV points into an object. A nil pointer has nilT == true.
type PtrV struct {
	nilT *Term
	obj  int
	path []PathEl
	elem types.Type
}

type PathEl struct {
	fld int
	idx *Term // non-nil: array index
}

// IfaceV is an interface value. typ == nil with nilT not true means that the
// dynamic type is unknown; sym identifies the unknown value.
type IfaceV struct {
	nilT *Term
	typ  types.Type
	val  Value
	sym  *Term
	src  []*Ev // the failing operations an error value stands for
	made bool  // made by fmt.Errorf or errors.New: wraps exactly these
	wrap []Value
}

type FuncV struct {
	nilT *Term
	fn   *ssa.Function
	bind []Value
	sym  *Term
}

type MapV struct {
	nilT *Term
	obj  int
	typ  *types.Map
}

// RV is a reflect.Value.  typ == nil is the zero Value.
type RV struct {
	typ     types.Type
	loc     *PtrV // where it lives, if canAddr
	val     Value // otherwise
	canAddr bool
	ro      bool // obtained through an unexported field
	unk     bool // which value this is is not known
}

// RT is a reflect.Type.
type RT struct {
	typ types.Type
	unk bool // which type this is is not known
}

type TupleV []Value

// BigV is the content of a math/big.Int.
type BigV struct{ t *Term }

// IterV is the iterator of a range over a map or string.
type IterV struct {
	obj int
}

type IterC struct {
	src   Value // *StrV or *MapC snapshot
	pos   int   // concrete position
	n     *Term // number of elements delivered so far (symbolic ranges)
	mapv  *MapV
	width *Term
}

// Seg is one piece of a byte sequence.
type Seg struct {
	kind SegKind
	b    *Term // segByte: the byte; segUv, segSv: the integer
	base *Term // segBlob: identity of the source
	off  *Term
	n    *Term // segBlob, segTop: length; segRep: count
	k    *Term // segRep: bound variable
	body []Seg
}

type SegKind uint8

const (
	segByte SegKind = iota
	segBlob
	segRep
	segUv // unsigned LEB128 of b
	segSv // zig-zag LEB128 of b
	segTop
)

// ArrC is the immutable content of an array: a base and a log of updates.
type ArrC struct {
	n    *Term
	elem types.Type
	base *Term // nil: zero values; otherwise the identity of unknown content
	log  []Upd
}

type Upd struct {
	start *Term
	vals  []Value // explicit cells
	// copied range
	src    *ArrC
	srcOff *Term
	n      *Term
	segs   []Seg // copied bytes
	// repetition: for k in [0,count): cells start+k*len(rep).. = rep(k)
	k     *Term
	count *Term
	rep   []Value
}

func (u Upd) size() *Term {
	switch {
	case u.vals != nil:
		return mkInt(int64(len(u.vals)))
	case u.rep != nil:
		return tScale(u.count, big.NewInt(int64(len(u.rep))))
	}
	return u.n
}

// MapC is the content of a map.
type MapC struct {
	typ  *types.Map
	base *Term // nil: empty
	len  *Term // of the base
	log  []MapUpd
}

type MapUpd struct {
	key, val Value
	del      bool
	k        *Term // repetition
	count    *Term
}

// ---- constructors ----

var (
	nilPtr = &PtrV{nilT: tTrue, obj: -1}
)

func nilIface() *IfaceV { return &IfaceV{nilT: tTrue} }

func strConst(s string) *StrV {
	v := &StrV{}
	for i := 0; i < len(s); i++ {
		v.segs = append(v.segs, Seg{kind: segByte, b: mkInt(int64(s[i]))})
	}
	return v
}

func (s *StrV) constStr() (string, bool) {
	var b strings.Builder
	for _, g := range s.segs {
		if g.kind != segByte || !g.b.isConst() {
			return "", false
		}
		b.WriteByte(byte(g.b.c.Int64()))
	}
	return b.String(), true
}

func (g Seg) size() *Term {
	switch g.kind {
	case segByte:
		return mkInt(1)
	case segBlob, segTop:
		return g.n
	case segUv:
		return uvLen(g.b)
	case segSv:
		return svLen(g.b)
	case segRep:
		return repSize(g)
	}
	return nil
}

func uvLen(t *Term) *Term {
	if c, ok := t.constInt(); ok && c >= 0 {
		n := int64(1)
		for c >= 128 {
			c >>= 7
			n++
		}
		return mkInt(n)
	}
	return mkApp(SInt, "uvlen", big.NewInt(1), lebMax(t.hi), t)
}

func svLen(t *Term) *Term {
	hi := t.hi
	if hi != nil && t.lo != nil {
		if n := new(big.Int).Not(t.lo); n.Cmp(hi) > 0 {
			hi = n
		}
		hi = new(big.Int).Add(new(big.Int).Lsh(hi, 1), bigOne)
	}
	return mkApp(SInt, "svlen", big.NewInt(1), lebMax(hi), t)
}

// lebMax is the greatest LEB128 length of the integers up to hi.
func lebMax(hi *big.Int) *big.Int {
	if hi == nil || hi.BitLen() > 63 {
		return big.NewInt(10)
	}
	n := (hi.BitLen() + 6) / 7
	if n < 1 {
		n = 1
	}
	return big.NewInt(int64(n))
}

func repSize(g Seg) *Term {
	s := segsLen(g.body)
	if mentions(s, map[*Term]bool{g.k: true}, map[*Term]bool{}) || !s.isConst() {
		return mkApp(SInt, "repsize", bigZero, nil, g.n, s, g.k)
	}
	return tScale(g.n, s.c)
}

func segsLen(segs []Seg) *Term {
	l := newLin()
	for _, g := range segs {
		l.addTerm(g.size(), bigOne)
	}
	return l.term()
}

func strLen(s *StrV) *Term { return segsLen(s.segs) }

func (s *StrV) key() *Term {
	if len(s.segs) == 1 && s.segs[0].kind == segBlob && s.segs[0].off == mkInt(0) {
		return s.segs[0].base
	}
	return segsKey(s.segs)
}

// segsKey is an uninterpreted term naming a byte sequence.
func segsKey(segs []Seg) *Term {
	var args []*Term
	f := "seq:"
	for _, g := range segs {
		f += string(rune('0' + g.kind))
		switch g.kind {
		case segByte, segUv, segSv:
			args = append(args, g.b)
		case segBlob:
			args = append(args, g.base, g.off, g.n)
		case segTop:
			args = append(args, g.n)
		case segRep:
			args = append(args, g.n, segsKey(substSegs(g.body, map[*Term]*Term{g.k: namedInt("boundk", nil, nil)})))
		}
	}
	return mkApp(SOther, f, nil, nil, args...)
}

func byteCell(base, idx *Term) *Term {
	return mkApp(SInt, "cell", bigZero, big.NewInt(255), base, idx)
}

func concatSegs(a, b []Seg) []Seg {
	out := make([]Seg, 0, len(a)+len(b))
	out = append(out, a...)
	return append(out, b...)
}

// ---- substitution over values ----

func substSegs(segs []Seg, m map[*Term]*Term) []Seg {
	memo := map[*Term]*Term{}
	out := make([]Seg, len(segs))
	for i, g := range segs {
		out[i] = g
		out[i].b = substTerm(g.b, m, memo)
		out[i].base = substTerm(g.base, m, memo)
		out[i].off = substTerm(g.off, m, memo)
		out[i].n = substTerm(g.n, m, memo)
		if g.body != nil {
			mm := m
			if _, ok := m[g.k]; ok {
				mm = map[*Term]*Term{}
				for k, v := range m {
					if k != g.k {
						mm[k] = v
					}
				}
			}
			out[i].body = substSegs(g.body, mm)
		}
	}
	return out
}

func (g Seg) String() string {
	switch g.kind {
	case segByte:
		return "[" + g.b.String() + "]"
	case segBlob:
		return fmt.Sprintf("bytes(%s,%s+%s)", g.base, g.off, g.n)
	case segRep:
		return fmt.Sprintf("rep(%s<%s: %s)", g.k, g.n, segsString(g.body))
	case segUv:
		return "uvarint(" + g.b.String() + ")"
	case segSv:
		return "varint(" + g.b.String() + ")"
	}
	return "top(" + g.n.String() + ")"
}

func segsString(s []Seg) string {
	var p []string
	for _, g := range s {
		p = append(p, g.String())
	}
	return strings.Join(p, " ")
}

func valString(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return v.String()
	case *StrV:
		if s, ok := v.constStr(); ok {
			return fmt.Sprintf("%q", s)
		}
		return "str{" + segsString(v.segs) + "}"
	case *SliceV:
		return fmt.Sprintf("slice{o%d +%s len %s cap %s nil %s}", v.obj, v.off, v.len, v.cap, v.nilT)
	case *PtrV:
		if v.nilT == tTrue {
			return "nilptr"
		}
		return fmt.Sprintf("&o%d%v", v.obj, v.path)
	case *StructV:
		var p []string
		for _, f := range v.f {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *IfaceV:
		if v.nilT == tTrue {
			return "nil"
		}
		return fmt.Sprintf("iface{nil=%s %v %s %v}", v.nilT, v.typ, valString(v.val), v.sym)
	case *RV:
		if v.typ == nil {
			return "rv{}"
		}
		if v.canAddr {
			return fmt.Sprintf("rv{%v at %s}", v.typ, valString(v.loc))
		}
		return fmt.Sprintf("rv{%v %s}", v.typ, valString(v.val))
	case *RT:
		return fmt.Sprintf("rt{%v}", v.typ)
	case *ArrC:
		var p []string
		for _, u := range v.log {
			p = append(p, u.String())
		}
		return fmt.Sprintf("arr{n %s base %v log %s}", v.n, v.base, strings.Join(p, ";"))
	case *MapV:
		return fmt.Sprintf("map{o%d}", v.obj)
	case TupleV:
		var p []string
		for _, f := range v {
			p = append(p, valString(f))
		}
		return "(" + strings.Join(p, ",") + ")"
	case *FuncV:
		if v.fn != nil {
			return "func " + v.fn.Name()
		}
		return "func?"
	}
	return fmt.Sprintf("%T", v)
}

func (u Upd) String() string {
	switch {
	case u.vals != nil:
		var p []string
		for _, v := range u.vals {
			p = append(p, valString(v))
		}
		return fmt.Sprintf("@%s=%s", u.start, strings.Join(p, ","))
	case u.rep != nil:
		var p []string
		for _, v := range u.rep {
			p = append(p, valString(v))
		}
		return fmt.Sprintf("@%s rep(%s<%s: %s)", u.start, u.k, u.count, strings.Join(p, ","))
	case u.segs != nil:
		return fmt.Sprintf("@%s:=%s", u.start, segsString(u.segs))
	}
	return fmt.Sprintf("@%s copy n=%s", u.start, u.n)
}
