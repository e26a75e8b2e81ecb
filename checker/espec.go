package main

// The writer specification: the bytes of every value in every encoding.

import (
	"fmt"
	"go/types"
)

type ecur struct {
	st   *State
	segs []Seg
}

// ER is one outcome of the writer specification.
type ER struct {
	st   *State
	ok   bool
	unk  bool
	segs []Seg
	why  string
}

type ekont func(c ecur) []ER

type ESpec struct {
	x    *Eng
	enc  int
	perm []int // the order of map entries, where the format leaves it open
	free bool  // the format left an order open
}

func (s *ESpec) fail(c ecur, f string, a ...interface{}) []ER {
	return []ER{{st: c.st, segs: c.segs, why: fmt.Sprintf(f, a...)}}
}
func (s *ESpec) unk(c ecur, f string, a ...interface{}) []ER {
	return []ER{{st: c.st, segs: c.segs, unk: true, why: fmt.Sprintf(f, a...)}}
}

func (s *ESpec) fork(c ecur, cond *Term, t, f ekont) []ER {
	switch c.st.f.decide(cond) {
	case 1:
		return t(c)
	case 0:
		return f(c)
	}
	var out []ER
	a, b := c, c
	a.st, b.st = c.st.clone(), c.st.clone()
	if a.st.f.assume(cond, true) {
		out = append(out, t(a)...)
	}
	if b.st.f.assume(cond, false) {
		out = append(out, f(b)...)
	}
	return out
}

func (c ecur) add(segs ...Seg) ecur {
	c.segs = append(append([]Seg(nil), c.segs...), segs...)
	return c
}

// bytesOf are the bytes of an integer.
func bytesOf(st *State, t *Term, w int, bigE bool) []Seg {
	bits := st.f.bitsOf(t, 8*w)
	out := make([]Seg, w)
	for i := 0; i < w; i++ {
		j := i
		if bigE {
			j = w - 1 - i
		}
		out[j] = Seg{kind: segByte, b: mkBits(bits[8*i:8*i+8], false)}
	}
	return out
}

func byteSegs(bs ...int64) []Seg {
	var out []Seg
	for _, b := range bs {
		out = append(out, Seg{kind: segByte, b: mkInt(b)})
	}
	return out
}

// compact writes a compact-u16.
func (s *ESpec) compact(c ecur, n *Term, k ekont) []ER {
	in := func(m int64) *Term { return mkLe(n, mkInt(m)) }
	part := func(st *State, lo, cnt int, cont int) Seg {
		bits := append([]Bit(nil), st.f.bitsOf(n, 21)[lo:lo+7]...)
		_ = cnt
		return Seg{kind: segByte, b: st.f.norm(mkBits(append(bits, Bit{i: cont}), false))}
	}
	return s.fork(c, mkLe(mkInt(0), n), func(c ecur) []ER {
		return s.fork(c, in(0xffff), func(c ecur) []ER {
			return s.fork(c, in(0x7f), func(c ecur) []ER {
				return k(c.add(part(c.st, 0, 7, 0)))
			}, func(c ecur) []ER {
				return s.fork(c, in(0x3fff), func(c ecur) []ER {
					return k(c.add(part(c.st, 0, 7, 1), part(c.st, 7, 7, 0)))
				}, func(c ecur) []ER {
					return k(c.add(part(c.st, 0, 7, 1), part(c.st, 7, 7, 1), part(c.st, 14, 7, 0)))
				})
			})
		}, func(c ecur) []ER { return s.fail(c, "length beyond 65535") })
	}, func(c ecur) []ER { return s.fail(c, "negative length") })
}

// length writes the count of a slice or map.
func (s *ESpec) length(c ecur, n *Term, k ekont) []ER {
	switch s.enc {
	case encBin:
		return s.fork(c, mkLe(mkInt(0), n), func(c ecur) []ER {
			return k(c.add(Seg{kind: segUv, b: n}))
		}, func(c ecur) []ER { return s.unk(c, "negative length") })
	case encCompact:
		return s.compact(c, n, k)
	}
	return s.fork(c, andT(mkLe(mkInt(0), n), mkLe(n, mkInt(0xffffffff))), func(c ecur) []ER {
		return k(c.add(bytesOf(c.st, n, 4, false)...))
	}, func(c ecur) []ER { return s.fail(c, "length beyond 32 bits") })
}

func (s *ESpec) str(c ecur, v *StrV, k ekont) []ER {
	n := strLen(v)
	if s.enc == encBin {
		return k(c.add(bytesOf(c.st, n, 8, false)...).add(v.segs...))
	}
	return s.length(c, n, func(c ecur) []ER { return k(c.add(v.segs...)) })
}

func (s *ESpec) float(c ecur, v *Term, w int, bigE bool, k ekont) []ER {
	write := func(c ecur) []ER {
		return k(c.add(bytesOf(c.st, s.x.floatBits(v, w*8), w, bigE)...))
	}
	if s.enc == encBorsh {
		return s.fork(c, isnan(v), func(c ecur) []ER { return s.fail(c, "NaN") }, write)
	}
	return write(c)
}

// val writes one value of a type.
func (s *ESpec) val(c ecur, t types.Type, v Value, o sopt, k ekont) []ER {
	x := s.x
	if o.opt || (o.copt && s.enc == encBorsh) {
		w := 4
		if o.opt && s.enc != encBin {
			w = 1
		}
		o2 := o
		if o.opt {
			o2.opt = false
		} else {
			o2.copt = false
		}
		return s.fork(c, x.isZeroTerm(c.st, v), func(c ecur) []ER {
			return k(c.add(bytesOf(c.st, mkInt(0), w, false)...))
		}, func(c ecur) []ER {
			return s.val(c.add(bytesOf(c.st, mkInt(1), w, false)...), t, v, o2, k)
		})
	}
	bigE := o.big && s.enc != encBorsh
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pv, ok := v.(*PtrV)
		if !ok {
			return s.unk(c, "pointer value %s", valString(v))
		}
		return s.fork(c, pv.nilT, func(c ecur) []ER { return s.unk(c, "nil pointer") }, func(c ecur) []ER {
			return s.val(c, p.Elem(), x.load(c.st, pv), o, k)
		})
	}
	num := func(w int, be bool) []ER { return k(c.add(bytesOf(c.st, v.(*Term), w, be)...)) }
	flag := func() []ER {
		return s.fork(c, v.(*Term), func(c ecur) []ER { return k(c.add(byteSegs(1)...)) }, func(c ecur) []ER { return k(c.add(byteSegs(0)...)) })
	}
	switch namedName(t) {
	case "zzUser":
		f := v.(*StructV).f[0].(*Term)
		return k(c.add(byteSegs(0xC7)...).add(bytesOf(c.st, f, 2, false)...))
	case "zzUserInt":
		return s.fork(c, mkLt(v.(*Term), mkInt(0xF0)), func(c ecur) []ER {
			return k(c.add(bytesOf(c.st, v.(*Term), 1, false)...))
		}, func(c ecur) []ER { return s.fail(c, "custom method fails") })
	case "Bool":
		return flag()
	case "HexBytes":
		sl := v.(*SliceV)
		return s.length(c, sl.len, func(c ecur) []ER { return k(c.add(x.sliceSegs(c.st, sl)...)) })
	case "Varint16", "Varint32":
		if n, ok := c.st.f.norm(v.(*Term)).constInt(); ok {
			return k(c.add(byteSegs(leb(uint64(n<<1) ^ uint64(n>>63))...)...))
		}
		return k(c.add(Seg{kind: segSv, b: v.(*Term)}))
	case "Varuint16", "Varuint32":
		if n, ok := c.st.f.norm(v.(*Term)).constInt(); ok {
			return k(c.add(byteSegs(leb(uint64(n))...)...))
		}
		return k(c.add(Seg{kind: segUv, b: v.(*Term)}))
	case "JSONFloat64":
		return s.float(c, v.(*Term), 8, o.big, k)
	case "Int64", "Uint64":
		return num(8, o.big)
	case "Uint128", "Int128", "Float128":
		st := v.(*StructV)
		lo, hi := st.f[0].(*Term), st.f[1].(*Term)
		a, b := bytesOf(c.st, lo, 8, o.big), bytesOf(c.st, hi, 8, o.big)
		if o.big {
			a, b = b, a
		}
		return k(c.add(a...).add(b...))
	case "EmptyVariant":
		return k(c)
	case "SafeString":
		return s.length(c, strLen(v.(*StrV)), func(c ecur) []ER { return k(c.add(v.(*StrV).segs...)) })
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8, types.Int8:
			return num(1, false)
		case types.Uint16, types.Int16:
			return num(2, bigE)
		case types.Uint32, types.Int32:
			return num(4, bigE)
		case types.Uint64, types.Int64:
			return num(8, bigE)
		case types.Float32:
			return s.float(c, v.(*Term), 4, bigE, k)
		case types.Float64:
			return s.float(c, v.(*Term), 8, bigE, k)
		case types.Bool:
			return flag()
		case types.String:
			return s.str(c, v.(*StrV), k)
		}
	case *types.Interface:
		return k(c)
	case *types.Struct:
		return s.structVal(c, u, v.(*StructV), k)
	case *types.Array:
		n, ok := x.arrayLen(u).constInt()
		if !ok {
			return s.unk(c, "array of unknown length")
		}
		return s.seq(c, u.Elem(), v.(*ArrC), mkInt(0), 0, n, k)
	case *types.Slice:
		sl := v.(*SliceV)
		body := func(c ecur, n *Term) []ER { return s.slice(c, u.Elem(), sl, n, k) }
		if o.size != nil {
			ok := andT(mkLe(mkInt(0), o.size), mkLe(o.size, sl.len))
			return s.fork(c, ok, func(c ecur) []ER { return body(c, o.size) }, func(c ecur) []ER { return s.fail(c, "declared count beyond the slice") })
		}
		return s.length(c, sl.len, func(c ecur) []ER { return body(c, sl.len) })
	case *types.Map:
		return s.mapVal(c, u, v, k)
	}
	return s.unk(c, "type %s", t)
}

func (s *ESpec) seq(c ecur, t types.Type, a *ArrC, off *Term, i, n int64, k ekont) []ER {
	if i == n {
		return k(c)
	}
	return s.val(c, t, s.x.arrGet(c.st, a, tAddI(off, i)), sopt{}, func(c ecur) []ER { return s.seq(c, t, a, off, i+1, n, k) })
}

func (s *ESpec) slice(c ecur, elem types.Type, sl *SliceV, n *Term, k ekont) []ER {
	x := s.x
	if m, ok := c.st.f.norm(n).constInt(); ok && m <= 4 {
		if m == 0 {
			return k(c)
		}
		return s.seq(c, elem, x.arrOf(c.st, sl), sl.off, 0, m, k)
	}
	if isByteType(elem) && namedName(elem) != "zzUserInt" {
		return k(c.add(x.arrSegs(c.st, x.arrOf(c.st, sl), sl.off, n)...))
	}
	i := freshInt("i", bigZero, x.maxLen())
	st := c.st.clone()
	if !st.f.assume(mkLt(i, n), true) {
		return k(c)
	}
	rs := s.val(ecur{st: st}, elem, x.arrGet(st, x.arrOf(st, sl), tAdd(sl.off, i)), sopt{}, func(c ecur) []ER { return []ER{{st: c.st, ok: true, segs: c.segs}} })
	if len(rs) != 1 || !rs[0].ok {
		return s.unk(c, "slice of unknown length of %s", elem)
	}
	return k(c.add(Seg{kind: segRep, k: i, n: n, body: rs[0].segs}))
}

func (s *ESpec) mapVal(c ecur, m *types.Map, v Value, k ekont) []ER {
	x := s.x
	mv, ok := v.(*MapV)
	if !ok {
		return s.unk(c, "map")
	}
	var ents []MapUpd
	if c.st.f.decide(mv.nilT) != 1 {
		mc, ok := x.content(c.st, mv.obj).(*MapC)
		if !ok || mc.base != nil {
			return s.unk(c, "map of unknown content")
		}
		ents = mc.log
	}
	var write func(c ecur, rest []MapUpd) []ER
	write = func(c ecur, rest []MapUpd) []ER {
		if len(rest) == 0 {
			return k(c)
		}
		return s.val(c, m.Key(), rest[0].key, sopt{}, func(c ecur) []ER {
			return s.val(c, m.Elem(), rest[0].val, sopt{}, func(c ecur) []ER { return write(c, rest[1:]) })
		})
	}
	n := mkInt(int64(len(ents)))
	if s.enc != encBorsh {
		ord := append([]MapUpd(nil), ents...)
		if len(ents) > 1 {
			s.free = true
			if len(s.perm) == len(ents) {
				for i, j := range s.perm {
					ord[i] = ents[j]
				}
			}
		}
		return s.length(c, n, func(c ecur) []ER { return write(c, ord) })
	}
	if len(ents) > 1 && !orderable(m.Key()) {
		return s.fail(c, "keys without an order")
	}
	// insertion sort, forking on the order of the keys
	var sorted func(c ecur, done, rest []MapUpd) []ER
	sorted = func(c ecur, done, rest []MapUpd) []ER {
		if len(rest) == 0 {
			return s.length(c, n, func(c ecur) []ER { return write(c, done) })
		}
		e := rest[0]
		var ins func(c ecur, i int) []ER
		ins = func(c ecur, i int) []ER {
			put := func(c ecur) []ER {
				d := append([]MapUpd(nil), done[:i]...)
				d = append(append(d, e), done[i:]...)
				return sorted(c, d, rest[1:])
			}
			if i == len(done) {
				return put(c)
			}
			lt := x.lessTerm(c.st, e.key, done[i].key)
			if lt == nil {
				return s.unk(c, "order of keys")
			}
			return s.fork(c, lt, put, func(c ecur) []ER { return ins(c, i+1) })
		}
		return ins(c, 0)
	}
	return sorted(c, nil, ents)
}

func orderable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat|types.IsString) != 0
}

func (s *ESpec) structVal(c ecur, u *types.Struct, v *StructV, k ekont) []ER {
	if s.enc == encBorsh && u.NumFields() > 0 && tagOf(u.Tag(0)).enum && namedName(u.Field(0).Type()) == "BorshEnum" {
		tag := v.f[0].(*Term)
		var try func(c ecur, i int) []ER
		try = func(c ecur, i int) []ER {
			if i+1 >= u.NumFields() {
				return s.fail(c, "no such variant")
			}
			return s.fork(c, mkEqI(tag, mkInt(int64(i))), func(c ecur) []ER {
				c = c.add(byteSegs(int64(i))...)
				if !u.Field(i + 1).Exported() {
					return k(c)
				}
				return s.val(c, u.Field(i+1).Type(), v.f[i+1], sopt{}, k)
			}, func(c ecur) []ER { return try(c, i+1) })
		}
		return try(c, 0)
	}
	return s.fields(c, u, v, 0, nil, k)
}

func (s *ESpec) fields(c ecur, u *types.Struct, v *StructV, i int, sizes map[string]*Term, k ekont) []ER {
	if i == u.NumFields() {
		return k(c)
	}
	f := u.Field(i)
	tg := tagOf(u.Tag(i))
	if tg.skip || !f.Exported() {
		return s.fields(c, u, v, i+1, sizes, k)
	}
	o := sopt{big: tg.big, opt: tg.opt, copt: tg.copt, size: sizes[f.Name()]}
	return s.val(c, f.Type(), v.f[i], o, func(c ecur) []ER {
		sz := sizes
		if tg.sizeof != "" {
			sz = map[string]*Term{tg.sizeof: v.f[i].(*Term)}
			for a, b := range sizes {
				sz[a] = b
			}
		}
		return s.fields(c, u, v, i+1, sz, k)
	})
}

// leb is the LEB128 form of a number.
func leb(v uint64) []int64 {
	var out []int64
	for v >= 0x80 {
		out = append(out, int64(byte(v)|0x80))
		v >>= 7
	}
	return append(out, int64(v))
}
