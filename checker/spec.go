package main

// The reference semantics of the wire formats, written from the
// documentation and independently of the library's code.  The reader
// specification is run in the state an abstract outcome of the library ends
// in: where the facts of that state do not decide a condition of the
// specification, the state is split.

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

const (
	encBin = iota
	encCompact
	encBorsh
)

var encNames = []string{"Bin", "CompactU16", "Borsh"}

type cur struct {
	st  *State
	pos *Term
	fi  int // forced lengths used so far
}

// SR is one outcome of the specification.
type SR struct {
	st  *State
	ok  bool
	unk bool // outside what the specification covers
	v   Value
	pos *Term
	why string
}

type Spec struct {
	x     *Eng
	enc   int
	base  *Term
	n     *Term
	force []int64 // the lengths of collections and strings, where bounded
	pre   bool    // constraining an initial state: lengths are assumed
	skipL int     // unbounded collections allowed
}

// expected values of aggregates
type (
	xStruct struct{ f []Value }
	xArr    struct{ vals []Value }
	xSlice  struct {
		n    *Term
		vals []Value
		gen  func(st *State, i *Term) Value
	}
	xPtr  struct{ v Value }
	xMap  struct{ ents [][2]Value }
	xZero struct{ t types.Type }
	xKeep struct{}
	xAny  struct{}
)

type sopt struct {
	big    bool
	opt    bool
	copt   bool
	size   *Term
	sizeOk bool
}

type skont func(c cur, v Value) []SR

func (s *Spec) fail(c cur, f string, a ...interface{}) []SR {
	return []SR{{st: c.st, pos: c.pos, why: fmt.Sprintf(f, a...)}}
}
func (s *Spec) unk(c cur, f string, a ...interface{}) []SR {
	return []SR{{st: c.st, pos: c.pos, unk: true, why: fmt.Sprintf(f, a...)}}
}
func (s *Spec) done(c cur, v Value) []SR { return []SR{{st: c.st, ok: true, v: v, pos: c.pos}} }

func (s *Spec) fork(c cur, cond *Term, t, f func(c cur) []SR) []SR {
	switch c.st.f.decide(cond) {
	case 1:
		return t(c)
	case 0:
		return f(c)
	}
	var out []SR
	a, b := c, c
	a.st, b.st = c.st.clone(), c.st.clone()
	if a.st.f.assume(cond, true) {
		out = append(out, t(a)...)
	}
	if b.st.f.assume(cond, false) {
		out = append(out, f(b)...)
	}
	return out
}

func (s *Spec) need(c cur, n *Term, what string, k func(c cur) []SR) []SR {
	return s.fork(c, mkLe(tAdd(c.pos, n), s.n), k, func(c cur) []SR { return s.fail(c, "%s: input ends", what) })
}

func (s *Spec) cell(c cur, i int64) *Term { return byteCell(s.base, c.st.f.norm(tAddI(c.pos, i))) }

// uintAt is the integer of the next w bytes.
func (s *Spec) uintAt(c cur, w int, bigE, signed bool) *Term {
	var bits []Bit
	for i := 0; i < w; i++ {
		j := i
		if bigE {
			j = w - 1 - i
		}
		bits = append(bits, bitsOf(s.cell(c, int64(j)), 8)...)
	}
	return mkBits(bits, signed)
}

func (s *Spec) uint(c cur, w int, bigE, signed bool, k func(c cur, v *Term) []SR) []SR {
	return s.need(c, mkInt(int64(w)), fmt.Sprintf("%d-byte number", w), func(c cur) []SR {
		v := s.uintAt(c, w, bigE, signed)
		c.pos = tAddI(c.pos, int64(w))
		return k(c, v)
	})
}

func (s *Spec) uvarint(c cur, signed bool, k func(c cur, v *Term) []SR) []SR {
	return s.need(c, mkInt(1), "varint", func(c cur) []SR {
		off := c.st.f.norm(c.pos)
		v, n := s.x.uvarintApps(s.base, off)
		if signed {
			v, n = s.x.svarintApps(s.base, off)
		}
		c.st.f.assume(mkLe(n, tSub(s.n, c.pos)), true)
		return s.fork(c, mkLt(mkInt(0), n), func(c cur) []SR {
			c.pos = tAdd(c.pos, n)
			return k(c, v)
		}, func(c cur) []SR { return s.fail(c, "varint truncated or over-long") })
	})
}

// compact reads a compact-u16.
func (s *Spec) compact(c cur, k func(c cur, v *Term) []SR) []SR {
	lt80 := func(b *Term) *Term { return mkLt(b, mkInt(0x80)) }
	return s.need(c, mkInt(1), "compact-u16", func(c cur) []SR {
		b0 := s.cell(c, 0)
		return s.fork(c, lt80(b0), func(c cur) []SR {
			c.pos = tAddI(c.pos, 1)
			return k(c, b0)
		}, func(c cur) []SR {
			return s.need(c, mkInt(2), "compact-u16", func(c cur) []SR {
				b1 := s.cell(c, 1)
				return s.fork(c, mkEqI(b1, mkInt(0)), func(c cur) []SR { return s.fail(c, "compact-u16: alias") }, func(c cur) []SR {
					return s.fork(c, lt80(b1), func(c cur) []SR {
						v := mkBits(append(append([]Bit(nil), bitsOf(b0, 7)...), bitsOf(b1, 7)...), false)
						c.pos = tAddI(c.pos, 2)
						return k(c, v)
					}, func(c cur) []SR {
						return s.need(c, mkInt(3), "compact-u16", func(c cur) []SR {
							b2 := s.cell(c, 2)
							return s.fork(c, mkEqI(b2, mkInt(0)), func(c cur) []SR { return s.fail(c, "compact-u16: alias") }, func(c cur) []SR {
								return s.fork(c, mkLe(b2, mkInt(3)), func(c cur) []SR {
									v := mkBits(append(append(append([]Bit(nil), bitsOf(b0, 7)...), bitsOf(b1, 7)...), bitsOf(b2, 2)...), false)
									c.pos = tAddI(c.pos, 3)
									return k(c, v)
								}, func(c cur) []SR { return s.fail(c, "compact-u16: too large") })
							})
						})
					})
				})
			})
		})
	})
}

// forced assumes that the length about to be read is the next forced one;
// it constrains the bytes of its canonical form.
func (s *Spec) forced(c cur, kind string, k func(c cur) []SR) []SR {
	if !s.pre || c.fi >= len(s.force) {
		return k(c)
	}
	n := s.force[c.fi]
	c.fi++
	set := func(i int64, v int64) bool { return c.st.f.assume(mkEqI(s.cell(c, i), mkInt(v)), true) }
	ok := true
	switch kind {
	case "uv":
		v, l := s.x.uvarintApps(s.base, c.st.f.norm(c.pos))
		ok = set(0, n) && c.st.f.assume(mkEqI(v, mkInt(n)), true) && c.st.f.assume(mkEqI(l, mkInt(1)), true)
	case "cu":
		ok = set(0, n)
	case "u32", "u64":
		w := int64(4)
		if kind == "u64" {
			w = 8
		}
		for i := int64(0); i < w; i++ {
			b := int64(0)
			if i == 0 {
				b = n
			}
			ok = ok && set(i, b)
		}
	}
	if !ok {
		return nil
	}
	return k(c)
}

// length reads the count of a slice or map.
func (s *Spec) length(c cur, k func(c cur, v *Term) []SR) []SR {
	switch s.enc {
	case encBin:
		return s.forced(c, "uv", func(c cur) []SR {
			return s.uvarint(c, false, func(c cur, v *Term) []SR {
				return s.fork(c, mkLe(v, mkInt(0x7fffffff)), func(c cur) []SR { return k(c, v) }, func(c cur) []SR { return s.fail(c, "length beyond 2^31-1") })
			})
		})
	case encCompact:
		return s.forced(c, "cu", func(c cur) []SR { return s.compact(c, k) })
	}
	return s.forced(c, "u32", func(c cur) []SR {
		return s.uint(c, 4, false, false, func(c cur, v *Term) []SR {
			return s.limit(c, v, func(c cur) []SR { return k(c, v) })
		})
	})
}

// limit: counts beyond 2^31-1 may be refused even where the input is long
// enough.
func (s *Spec) limit(c cur, n *Term, k func(c cur) []SR) []SR {
	return s.fork(c, mkLe(n, mkInt(0x7fffffff)), k, func(c cur) []SR {
		return s.fork(c, mkLe(tAdd(c.pos, n), s.n), func(c cur) []SR { return s.unk(c, "more than 2^31-1 elements") }, func(c cur) []SR { return s.fail(c, "length too large") })
	})
}

// str reads a string.
func (s *Spec) str(c cur, k func(c cur, v Value) []SR) []SR {
	body := func(c cur, n *Term) []SR {
		return s.need(c, n, "string", func(c cur) []SR {
			v := &StrV{segs: []Seg{{kind: segBlob, base: s.base, off: c.pos, n: n}}}
			c.pos = tAdd(c.pos, n)
			return k(c, v)
		})
	}
	if s.enc == encBin {
		return s.forced(c, "u64", func(c cur) []SR {
			return s.uint(c, 8, false, false, func(c cur, n *Term) []SR {
				return s.limit(c, n, func(c cur) []SR { return body(c, n) })
			})
		})
	}
	return s.length(c, body)
}

func (s *Spec) float(c cur, w int, bigE bool, k func(c cur, v Value) []SR) []SR {
	return s.uint(c, w, bigE, false, func(c cur, v *Term) []SR {
		f := mkApp(SOther, fmt.Sprintf("f%dfrombits", w*8), nil, nil, c.st.f.norm(v))
		if s.enc == encBorsh {
			return s.fork(c, isnan(f), func(c cur) []SR { return s.fail(c, "NaN") }, func(c cur) []SR { return k(c, f) })
		}
		return k(c, f)
	})
}

// tagOf parses the tag of a field, as documented.
type ftag struct {
	skip, opt, copt, big, ext, enum bool
	sizeof                          string
}

func tagOf(tag string) ftag {
	var t ftag
	st := reflect.StructTag(tag)
	for _, w := range strings.Fields(st.Get("bin")) {
		switch {
		case w == "-" || w == "skip":
			t.skip = true
		case w == "big":
			t.big = true
		case w == "little":
			t.big = false
		case w == "optional" || w == "option":
			t.opt = true
		case w == "coption":
			t.copt = true
		case w == "binary_extension":
			t.ext = true
		case w == "enum":
			t.enum = true
		case strings.HasPrefix(w, "sizeof="):
			t.sizeof = w[len("sizeof="):]
		}
	}
	if st.Get("borsh_skip") == "true" {
		t.skip = true
	}
	if st.Get("borsh_enum") == "true" {
		t.enum = true
	}
	return t
}

func namedName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// val reads one value of a type.
func (s *Spec) val(c cur, t types.Type, o sopt, k skont) []SR {
	if o.opt || (o.copt && s.enc == encBorsh) {
		present := func(c cur) []SR {
			o2 := o
			if o.opt {
				o2.opt = false
			} else {
				o2.copt = false
			}
			return s.val(c, t, o2, k)
		}
		absent := func(c cur) []SR { return k(c, xZero{t}) }
		if o.opt {
			w := 1
			if s.enc == encBin {
				w = 4
			}
			return s.uint(c, w, false, false, func(c cur, v *Term) []SR { return s.fork(c, mkEqI(v, mkInt(0)), absent, present) })
		}
		return s.uint(c, 4, false, false, func(c cur, v *Term) []SR {
			return s.fork(c, mkEqI(v, mkInt(0)), absent, func(c cur) []SR {
				return s.fork(c, mkEqI(v, mkInt(1)), present, func(c cur) []SR { return s.fail(c, "option flag beyond 1") })
			})
		})
	}
	bigE := o.big && s.enc != encBorsh
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return s.val(c, p.Elem(), o, func(c cur, v Value) []SR { return k(c, xPtr{v}) })
	}
	num := func(c cur, v *Term) []SR { return k(c, v) }
	switch namedName(t) {
	case "zzUser":
		return s.uint(c, 1, false, false, func(c cur, v *Term) []SR {
			return s.fork(c, mkEqI(v, mkInt(0xC7)), func(c cur) []SR {
				return s.uint(c, 2, false, false, func(c cur, v *Term) []SR { return k(c, xStruct{[]Value{v}}) })
			}, func(c cur) []SR { return s.fail(c, "custom method fails") })
		})
	case "zzUserInt":
		return s.uint(c, 1, false, false, func(c cur, v *Term) []SR {
			return s.fork(c, mkLt(v, mkInt(0xF0)), func(c cur) []SR { return k(c, v) }, func(c cur) []SR { return s.fail(c, "custom method fails") })
		})
	case "Bool":
		return s.uint(c, 1, false, false, func(c cur, v *Term) []SR { return k(c, mkNot(mkEqI(v, mkInt(0)))) })
	case "HexBytes":
		return s.length(c, func(c cur, n *Term) []SR { return s.bytes(c, n, k) })
	case "SafeString":
		return s.length(c, func(c cur, n *Term) []SR {
			return s.bytes(c, n, func(c cur, v Value) []SR { return k(c, xAny{}) })
		})
	case "Varint16":
		return s.varw(c, 16, true, num)
	case "Varint32":
		return s.varw(c, 32, true, num)
	case "Varuint16":
		return s.varw(c, 16, false, num)
	case "Varuint32":
		return s.varw(c, 32, false, num)
	case "JSONFloat64":
		return s.float(c, 8, o.big, k)
	case "Int64":
		return s.uint(c, 8, o.big, true, num)
	case "Uint64":
		return s.uint(c, 8, o.big, false, num)
	case "Uint128", "Int128", "Float128":
		return s.need(c, mkInt(16), "128-bit number", func(c cur) []SR {
			a := s.uintAt(c, 8, o.big, false)
			c.pos = tAddI(c.pos, 8)
			b := s.uintAt(c, 8, o.big, false)
			c.pos = tAddI(c.pos, 8)
			lo, hi := a, b
			if o.big {
				lo, hi = b, a
			}
			return k(c, xStruct{[]Value{lo, hi, xAny{}}})
		})
	case "EmptyVariant":
		return k(c, xKeep{})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return s.uint(c, 1, false, false, num)
		case types.Int8:
			return s.uint(c, 1, false, true, num)
		case types.Uint16:
			return s.uint(c, 2, bigE, false, num)
		case types.Int16:
			return s.uint(c, 2, bigE, true, num)
		case types.Uint32:
			return s.uint(c, 4, bigE, false, num)
		case types.Int32:
			return s.uint(c, 4, bigE, true, num)
		case types.Uint64:
			return s.uint(c, 8, bigE, false, num)
		case types.Int64:
			return s.uint(c, 8, bigE, true, num)
		case types.Float32:
			return s.float(c, 4, bigE, k)
		case types.Float64:
			return s.float(c, 8, bigE, k)
		case types.Bool:
			return s.uint(c, 1, false, false, func(c cur, v *Term) []SR { return k(c, mkNot(mkEqI(v, mkInt(0)))) })
		case types.String:
			return s.str(c, k)
		}
	case *types.Interface:
		return k(c, xKeep{})
	case *types.Struct:
		return s.structVal(c, u, k)
	case *types.Array:
		n, ok := s.x.arrayLen(u).constInt()
		if !ok {
			return s.unk(c, "array of unknown length")
		}
		return s.seq(c, u.Elem(), n, nil, func(c cur, vs []Value) []SR { return k(c, xArr{vs}) })
	case *types.Slice:
		body := func(c cur, n *Term) []SR { return s.slice(c, u.Elem(), n, k) }
		if o.size != nil {
			return s.fork(c, mkLe(mkInt(0), o.size), func(c cur) []SR {
				return s.limit(c, o.size, func(c cur) []SR { return body(c, o.size) })
			}, func(c cur) []SR { return s.fail(c, "negative count") })
		}
		return s.length(c, body)
	case *types.Map:
		return s.length(c, func(c cur, n *Term) []SR {
			m, ok := c.st.f.norm(n).constInt()
			if !ok {
				return s.unk(c, "map of unknown size")
			}
			return s.entries(c, u, m, nil, k)
		})
	}
	return s.unk(c, "type %s", t)
}

func (s *Spec) varw(c cur, w int, signed bool, k func(c cur, v *Term) []SR) []SR {
	lo, hi := intRange(w, signed)
	return s.uvarint(c, signed, func(c cur, v *Term) []SR {
		in := andT(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi)))
		return s.fork(c, in, func(c cur) []SR { return k(c, v) }, func(c cur) []SR { return s.fail(c, "value does not fit %d bits", w) })
	})
}

func (s *Spec) bytes(c cur, n *Term, k skont) []SR {
	return s.need(c, n, "bytes", func(c cur) []SR {
		p := c.pos
		c.pos = tAdd(c.pos, n)
		base := s.base
		return k(c, xSlice{n: n, gen: func(st *State, i *Term) Value { return byteCell(base, st.f.norm(tAdd(p, i))) }})
	})
}

func (s *Spec) seq(c cur, t types.Type, n int64, acc []Value, k func(c cur, vs []Value) []SR) []SR {
	if int64(len(acc)) == n {
		return k(c, acc)
	}
	return s.val(c, t, sopt{}, func(c cur, v Value) []SR {
		return s.seq(c, t, n, append(append([]Value(nil), acc...), v), k)
	})
}

func (s *Spec) entries(c cur, m *types.Map, n int64, acc [][2]Value, k skont) []SR {
	if int64(len(acc)) == n {
		return k(c, xMap{acc})
	}
	return s.val(c, m.Key(), sopt{}, func(c cur, kv Value) []SR {
		return s.val(c, m.Elem(), sopt{}, func(c cur, v Value) []SR {
			return s.entries(c, m, n, append(append([][2]Value(nil), acc...), [2]Value{kv, v}), k)
		})
	})
}

// fixedWidth is the width of types that are read without any condition.
func (s *Spec) fixedWidth(t types.Type) (int64, bool) {
	switch namedName(t) {
	case "zzUser", "zzUserInt", "Bool", "HexBytes", "Varint16", "Varint32", "Varuint16", "Varuint32", "JSONFloat64", "Int64", "Uint64", "Uint128", "Int128", "Float128", "EmptyVariant", "SafeString":
		return 0, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return 1, true
		case types.Uint16, types.Int16:
			return 2, true
		case types.Uint32, types.Int32:
			return 4, true
		case types.Uint64, types.Int64:
			return 8, true
		case types.Float32:
			return 4, s.enc != encBorsh
		case types.Float64:
			return 8, s.enc != encBorsh
		}
	case *types.Array:
		w, ok := s.fixedWidth(u.Elem())
		return w * u.Len(), ok
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			tg := tagOf(u.Tag(i))
			if tg != (ftag{}) || !u.Field(i).Exported() {
				return 0, false
			}
			w, ok := s.fixedWidth(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			n += w
		}
		return n, true
	}
	return 0, false
}

func (s *Spec) slice(c cur, elem types.Type, n *Term, k skont) []SR {
	if m, ok := c.st.f.norm(n).constInt(); ok && m <= 4 {
		return s.seq(c, elem, m, nil, func(c cur, vs []Value) []SR { return k(c, xSlice{n: n, vals: vs}) })
	}
	w, ok := s.fixedWidth(elem)
	if !ok || w == 0 {
		return s.unk(c, "slice of unknown length of %s", elem)
	}
	return s.need(c, tScale(n, big.NewInt(w)), "slice", func(c cur) []SR {
		p := c.pos
		c.pos = tAdd(c.pos, tScale(n, big.NewInt(w)))
		return k(c, xSlice{n: n, gen: func(st *State, i *Term) Value {
			st = st.clone()
			c := cur{st: st, pos: tAdd(p, tScale(i, big.NewInt(w)))}
			c.st.f.assume(mkLe(tAddI(c.pos, w), s.n), true)
			rs := s.val(c, elem, sopt{}, func(c cur, v Value) []SR { return s.done(c, v) })
			if len(rs) != 1 || !rs[0].ok {
				s.x.abort("specification of a fixed-width element has %d outcomes", len(rs))
			}
			return rs[0].v
		}})
	})
}

func (s *Spec) structVal(c cur, u *types.Struct, k skont) []SR {
	if s.enc == encBorsh && u.NumFields() > 0 && tagOf(u.Tag(0)).enum && namedName(u.Field(0).Type()) == "BorshEnum" {
		return s.uint(c, 1, false, false, func(c cur, v *Term) []SR {
			var try func(c cur, i int) []SR
			try = func(c cur, i int) []SR {
				if i+1 >= u.NumFields() {
					return s.fail(c, "no such variant")
				}
				return s.fork(c, mkEqI(v, mkInt(int64(i))), func(c cur) []SR {
					res := xStruct{f: make([]Value, u.NumFields())}
					for j := range res.f {
						res.f[j] = xKeep{}
					}
					res.f[0] = mkInt(int64(i))
					if !u.Field(i + 1).Exported() {
						return k(c, res)
					}
					return s.val(c, u.Field(i+1).Type(), sopt{}, func(c cur, v Value) []SR {
						r2 := xStruct{f: append([]Value(nil), res.f...)}
						r2.f[i+1] = v
						return k(c, r2)
					})
				}, func(c cur) []SR { return try(c, i+1) })
			}
			return try(c, 0)
		})
	}
	return s.fields(c, u, 0, nil, nil, k)
}

func (s *Spec) fields(c cur, u *types.Struct, i int, acc []Value, sizes map[string]*Term, k skont) []SR {
	if i == u.NumFields() {
		return k(c, xStruct{acc})
	}
	next := func(c cur, v Value, sz map[string]*Term) []SR {
		return s.fields(c, u, i+1, append(append([]Value(nil), acc...), v), sz, k)
	}
	f := u.Field(i)
	tg := tagOf(u.Tag(i))
	if tg.skip || !f.Exported() {
		return next(c, xKeep{}, sizes)
	}
	read := func(c cur) []SR {
		o := sopt{big: tg.big, opt: tg.opt, copt: tg.copt, size: sizes[f.Name()]}
		if tg.sizeof != "" && s.pre && c.fi < len(s.force) {
			// a bounded instance: the count is the next forced length
			return s.val(c, f.Type(), o, func(c cur, v Value) []SR {
				n := s.force[c.fi]
				c.fi++
				if !c.st.f.assume(mkEqI(v.(*Term), mkInt(n)), true) {
					return nil
				}
				sz := map[string]*Term{tg.sizeof: v.(*Term)}
				for a, b := range sizes {
					sz[a] = b
				}
				return next(c, v, sz)
			})
		}
		return s.val(c, f.Type(), o, func(c cur, v Value) []SR {
			sz := sizes
			if tg.sizeof != "" {
				sz = map[string]*Term{tg.sizeof: v.(*Term)}
				for a, b := range sizes {
					sz[a] = b
				}
			}
			return next(c, v, sz)
		})
	}
	if tg.ext {
		return s.fork(c, mkLe(s.n, c.pos), func(c cur) []SR { return next(c, xKeep{}, sizes) }, read)
	}
	return read(c)
}

// ---- comparison ----

// match compares an observed value with an expected one; it returns a
// description of the difference, or "".
func (x *Eng) match(st *State, exp Value, t types.Type, obs, init Value, path string) string {
	diff := func(want string) string {
		return fmt.Sprintf("%s holds %s, expected %s", path, clip(valString(obs)), clip(want))
	}
	switch e := exp.(type) {
	case xAny:
		return ""
	case xKeep:
		if !x.eqVal(st, obs, init) {
			return diff("the value it had before: " + valString(init))
		}
		return ""
	case xZero:
		z := x.zeroVal(e.t)
		if !x.isZero(st, obs, e.t) {
			return diff("the zero value " + valString(z))
		}
		return ""
	case xStruct:
		o, ok := obs.(*StructV)
		if !ok || len(o.f) != len(e.f) {
			return diff("a struct")
		}
		u := t.Underlying().(*types.Struct)
		var in *StructV
		if init != nil {
			in, _ = init.(*StructV)
		}
		for i := range e.f {
			var iv Value
			if in != nil {
				iv = in.f[i]
			}
			if d := x.match(st, e.f[i], u.Field(i).Type(), o.f[i], iv, path+"."+u.Field(i).Name()); d != "" {
				return d
			}
		}
		return ""
	case xArr:
		o, ok := obs.(*ArrC)
		if !ok {
			return diff("an array")
		}
		el := t.Underlying().(*types.Array).Elem()
		for i, v := range e.vals {
			var iv Value
			if ia, ok := init.(*ArrC); ok {
				iv = x.arrGet(st, ia, mkInt(int64(i)))
			}
			if d := x.match(st, v, el, x.arrGet(st, o, mkInt(int64(i))), iv, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case xSlice:
		o, ok := obs.(*SliceV)
		if !ok {
			return diff("a slice")
		}
		if !x.eqInt(st, o.len, e.n) {
			return fmt.Sprintf("%s has length %s, expected %s", path, clip(o.len.String()), clip(e.n.String()))
		}
		el := t.Underlying().(*types.Slice).Elem()
		if st.f.eq(e.n, mkInt(0)) {
			return ""
		}
		a := x.arrOf(st, o)
		if a == nil {
			return diff("a slice")
		}
		if e.gen == nil {
			for i, v := range e.vals {
				if d := x.match(st, v, el, x.arrGet(st, a, tAddI(o.off, int64(i))), x.zeroVal(el), fmt.Sprintf("%s[%d]", path, i)); d != "" {
					return d
				}
			}
			return ""
		}
		i := freshInt("i", bigZero, x.maxLen())
		s2 := st.clone()
		if !s2.f.assume(mkLt(i, e.n), true) {
			return ""
		}
		// where the parts of the array cannot be told apart, each is looked at
		var at func(st *State, depth int) string
		at = func(st *State, depth int) string {
			n := x.lost
			d := x.match(st, e.gen(st, i), el, x.arrGet(st, a, tAdd(o.off, i)), x.zeroVal(el), path+"[i]")
			if d == "" || n == x.lost || depth > 20 {
				return d
			}
			for _, u := range a.log {
				for _, b := range []*Term{u.start, tAdd(u.start, u.size())} {
					c := mkLt(tAdd(o.off, i), b)
					if st.f.decide(c) >= 0 {
						continue
					}
					x.lost = n
					for _, v := range []bool{true, false} {
						s3 := st.clone()
						if s3.f.assume(c, v) {
							if d := at(s3, depth+1); d != "" {
								return d
							}
						}
					}
					return ""
				}
			}
			return d
		}
		return at(s2, 0)
	case xPtr:
		o, ok := obs.(*PtrV)
		if !ok || st.f.decide(o.nilT) != 0 {
			return diff("a pointer to a value")
		}
		el := t.Underlying().(*types.Pointer).Elem()
		iv := x.zeroVal(el)
		if ip, ok := init.(*PtrV); ok && ip.obj >= 0 && ip.obj == o.obj && len(ip.path) == 0 {
			iv = x.origContent(ip.obj)
		} else if ok && ip.obj < 0 && o.obj >= 0 && x.objs[o.obj].class == clsTarget {
			// an element of a slice or map is a new one
			return path + " keeps a pointer of an element the target held before"
		}
		return x.match(st, e.v, el, x.load(st, o), iv, "*"+path)
	case xMap:
		o, ok := obs.(*MapV)
		if !ok {
			return diff("a map")
		}
		var c *MapC
		if st.f.decide(o.nilT) != 1 && o.obj >= 0 {
			c, _ = x.content(st, o.obj).(*MapC)
		}
		if c == nil {
			if len(e.ents) == 0 {
				return ""
			}
			return diff("a map with entries")
		}
		if c.base != nil {
			return fmt.Sprintf("%s keeps entries it had before", path)
		}
		if len(c.log) != len(e.ents) {
			return fmt.Sprintf("%s received %d entries, expected %d", path, len(c.log), len(e.ents))
		}
		for i, en := range e.ents {
			if c.log[i].k != nil {
				return diff("single entries")
			}
			if d := x.match(st, en[0], c.typ.Key(), c.log[i].key, x.zeroVal(c.typ.Key()), fmt.Sprintf("key %d of %s", i, path)); d != "" {
				return d
			}
			if d := x.match(st, en[1], c.typ.Elem(), c.log[i].val, x.zeroVal(c.typ.Elem()), fmt.Sprintf("value %d of %s", i, path)); d != "" {
				return d
			}
		}
		return ""
	}
	if !x.eqVal(st, obs, exp) {
		return diff(valString(exp))
	}
	return ""
}

// isZero reports whether a value is the zero value of its type; a nil and
// an empty slice or map count as the same.
func (x *Eng) isZero(st *State, v Value, t types.Type) bool {
	switch o := v.(type) {
	case *SliceV:
		return st.f.eq(o.len, mkInt(0))
	case *MapV:
		return st.f.decide(o.nilT) == 1 || o.obj < 0
	case *PtrV:
		return st.f.decide(o.nilT) == 1
	case *IfaceV:
		return st.f.decide(o.nilT) == 1
	case *StructV:
		u := t.Underlying().(*types.Struct)
		for i := range o.f {
			if !x.isZero(st, o.f[i], u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *ArrC:
		el := t.Underlying().(*types.Array).Elem()
		n, ok := o.n.constInt()
		if !ok || n > 64 {
			return o.base == nil && len(o.log) == 0
		}
		for i := int64(0); i < n; i++ {
			if !x.isZero(st, x.arrGet(st, o, mkInt(i)), el) {
				return false
			}
		}
		return true
	}
	return x.eqVal(st, v, x.zeroVal(t))
}

// origContent is the content a symbolic object had initially.
func (x *Eng) origContent(obj int) Value {
	return x.content(&State{f: newFacts(), heap: map[int]Value{}}, obj)
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:157] + "..."
	}
	return s
}
