package main

import (
	"fmt"
	"go/types"
)

func debugDec(x *Eng, args []string) {
	st := x.state()
	data := x.inputBytes(st, "data")
	enc := int64(args[1][0] - '0')
	t := x.debugType(args[0])
	pos := freshInt("p", bigZero, x.maxLen())
	outs := x.call(st, x.fn("zzDecAt"), []Value{mkInt(enc), data, pos}, nil)
	n := 0
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		d := o.vals[0].(*PtrV)
		if o.st.f.decide(d.nilT) == 1 {
			continue
		}
		key := freshOther("target")
		x.rootClass[key] = clsTarget
		obj := x.symObj("ptr", t, key)
		tgt := &PtrV{nilT: tFalse, obj: obj, elem: t}
		v := x.makeIface(tgt, types.NewPointer(t))
		for _, q := range x.call(o.st, x.fn("Decoder.Decode"), []Value{d, v}, nil) {
			n++
			if q.pan != nil {
				fmt.Println("  PANIC", q.pan.why, x.fset.Position(q.pan.pos))
				fmt.Println("     facts", q.st.f.String())
				continue
			}
			fmt.Println("  ret", valString(TupleV(q.vals)))
			if !quietDebug {
				fmt.Println("     dec", valString(x.content(q.st, d.obj)))
				fmt.Println("     tgt", x.deepString(q.st, x.content(q.st, obj), 0))
				fmt.Println("     facts", q.st.f.String())
				for _, e := range q.st.trace {
					fmt.Println("     ev", e.kind, e.what, x.fset.Position(e.pos))
				}
			}
		}
	}
	fmt.Println("outcomes", n, x.notes)
}

var quietDebug bool

func (x *Eng) debugType(s string) types.Type {
	tv, err := types.Eval(x.fset, x.pkg.Pkg, 0, s)
	if err != nil {
		x.abort("%v", err)
	}
	return tv.Type
}

func (x *Eng) deepString(st *State, v Value, d int) string {
	if d > 6 {
		return "..."
	}
	switch v := v.(type) {
	case *StructV:
		s := "{"
		for i, f := range v.f {
			if i > 0 {
				s += ", "
			}
			s += x.deepString(st, f, d+1)
		}
		return s + "}"
	case *SliceV:
		s := valString(v)
		if v.obj >= 0 {
			s += "=>" + x.deepString(st, x.arrOf(st, v), d+1)
		}
		return s
	case *PtrV:
		if v.nilT == tTrue {
			return "nilptr"
		}
		return "&" + x.deepString(st, x.load(st, v), d+1)
	case *ArrC:
		s := fmt.Sprintf("arr[%s base %v", v.n, v.base)
		if c, ok := v.n.constInt(); ok && c < 8 {
			for i := int64(0); i < c; i++ {
				s += " " + x.deepString(st, x.arrGet(st, v, mkInt(i)), d+1)
			}
			return s + "]"
		}
		for _, u := range v.log {
			s += " " + u.String()
		}
		return s + "]"
	case *MapV:
		if v.obj >= 0 {
			if m, ok := x.content(st, v.obj).(*MapC); ok {
				s := fmt.Sprintf("map[base %v len %v", m.base, m.len)
				for _, u := range m.log {
					s += " " + x.deepString(st, u.key, d+1) + "=>" + x.deepString(st, u.val, d+1)
					if u.k != nil {
						s += fmt.Sprintf(" rep %v<%v", u.k, u.count)
					}
				}
				return s + "]"
			}
		}
		return valString(v)
	}
	return valString(v)
}

func debugEnc(x *Eng, args []string) {
	st := x.state()
	enc := int64(args[1][0] - '0')
	t := x.debugType(args[0])
	w := x.freshVal(st, x.fn("zzEnc").Params[1].Type(), "w").(*IfaceV)
	st.f.assume(w.nilT, false)
	n := 0
	for _, o := range x.call(st, x.fn("zzEnc"), []Value{mkInt(enc), w}, nil) {
		e := o.vals[0].(*PtrV)
		key := freshOther("v")
		x.rootClass[key] = clsInput
		val := x.symVal(t, key)
		x.symFacts(o.st, val)
		v := x.makeIface(val, t)
		for _, q := range x.call(o.st, x.fn("Encoder.Encode"), []Value{e, v}, nil) {
			n++
			if q.pan != nil {
				fmt.Println("  PANIC", q.pan.why, x.fset.Position(q.pan.pos))
				fmt.Println("     facts", q.st.f.String())
				continue
			}
			fmt.Println("  ret", valString(TupleV(q.vals)))
			if !quietDebug {
				fmt.Println("     enc", valString(x.content(q.st, e.obj)))
				fmt.Println("     facts", q.st.f.String())
				for _, e := range q.st.trace {
					x.printEv(q.st, e, "     ")
				}
			}
		}
	}
	fmt.Println("outcomes", n, x.notes)
}

func (x *Eng) printEv(st *State, e *Ev, ind string) {
	switch e.kind {
	case evWrite:
		fmt.Println(ind, "write", segsString(x.normSegs(st, e.segs)), "n", e.n, "err", valString(e.err))
	case evLoop:
		fmt.Println(ind, "loop", e.k, e.count)
		for _, a := range e.alts {
			fmt.Println(ind, " alt first", a.first)
			for _, q := range a.evs {
				x.printEv(a.st, q, ind+"   ")
			}
		}
	default:
		fmt.Println(ind, "ev", e.kind, e.what, x.fset.Position(e.pos))
	}
}
func debugMain(x *Eng, args []string) {
	st := x.state()
	data := x.inputBytes(st, "data")
	enc := int64(0)
	if len(args) > 1 {
		enc = int64(args[1][0] - '0')
	}
	fn := x.fn(args[0])
	pos := freshInt("p", bigZero, x.maxLen())
	outs := x.call(st, x.fn("zzDecAt"), []Value{mkInt(enc), data, pos}, nil)
	for _, o := range outs {
		if o.pan != nil {
			fmt.Println("PANIC", o.pan.why)
			continue
		}
		d := o.vals[0].(*PtrV)
		if o.st.f.decide(d.nilT) == 1 {
			continue
		}
		vals := []Value{d}
		for i := 1; i < len(fn.Params); i++ {
			if isNamed(fn.Params[i].Type(), "encoding/binary", "ByteOrder") {
				vals = append(vals, x.global(o.st, "BE"))
				continue
			}
			vals = append(vals, x.freshVal(o.st, fn.Params[i].Type(), fn.Params[i].Name()))
		}
		for _, q := range x.call(o.st, fn, vals, nil) {
			if q.pan != nil {
				fmt.Println("  PANIC", q.pan.why, x.fset.Position(q.pan.pos))
				continue
			}
			fmt.Println("  ret", valString(TupleV(q.vals)))
			fmt.Println("     dec", valString(x.content(q.st, d.obj)))
			fmt.Println("     facts", q.st.f.String())
		}
	}
}

// inputBytes is an unknown byte slice owned by the caller.
func (x *Eng) inputBytes(st *State, name string) *SliceV {
	key := freshOther(name)
	x.rootClass[key] = clsInput
	v := x.symVal(byteSlice, key).(*SliceV)
	x.symFacts(st, v)
	return v
}
