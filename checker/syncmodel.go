package main

// Package sync.  Locks order accesses and have no other effect.  A pool
// behaves like a stack, one of the behaviours it may have; a once that is new
// runs its function; a sync.Map is a map.

import (
	"fmt"
	"go/types"
)

// hiddenOf is the abstract content behind a value of package sync.
func (x *Eng) hiddenOf(st *State, v Value) (int, []Value, bool) {
	p, ok := v.(*PtrV)
	if !ok || p.obj < 0 {
		return 0, nil, false
	}
	key := fmt.Sprint(p.obj)
	for _, e := range p.path {
		if e.idx != nil {
			return 0, nil, false
		}
		key += fmt.Sprintf(".%d", e.fld)
	}
	if x.hidden == nil {
		x.hidden = map[string]int{}
	}
	id, ok := x.hidden[key]
	if !ok {
		id = x.newObj(st, "sync", &StructV{})
		x.hidden[key] = id
	}
	if c, ok := st.heap[id].(*StructV); ok {
		return id, c.f, true
	}
	return id, nil, true
}

func (x *Eng) callFuncV(c *callCtx, st *State, f *FuncV, args ...Value) []Outcome {
	c2 := *c
	c2.st, c2.fn, c2.args = st, f.fn, args
	return x.callFn(&c2, f.bind)
}

func init() {
	for _, n := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		for _, m := range []string{".Lock", ".RLock"} {
			intrinsics[n+m] = func(x *Eng, c *callCtx) []Outcome { c.st.locked++; return ret(c.st) }
		}
		for _, m := range []string{".Unlock", ".RUnlock"} {
			intrinsics[n+m] = func(x *Eng, c *callCtx) []Outcome { c.st.locked--; return ret(c.st) }
		}
		intrinsics[n+".TryLock"] = func(x *Eng, c *callCtx) []Outcome {
			return x.splitO(c.st, freshBool("locked"), func(st *State, v bool) []Outcome {
				if v {
					st.locked++
				}
				return ret(st, mkBool(v))
			})
		}
	}
	intrinsics["(*sync.Once).Do"] = func(x *Eng, c *callCtx) []Outcome {
		id, done, ok := x.hiddenOf(c.st, c.args[0])
		f, ok2 := c.args[1].(*FuncV)
		if !ok || !ok2 || f.fn == nil {
			return x.unknownCall(c, c.st, "sync.Once")
		}
		if len(done) > 0 {
			return ret(c.st)
		}
		c.st.heap[id] = &StructV{f: []Value{tTrue}}
		c.st.locked++
		os := x.callFuncV(c, c.st, f)
		for i := range os {
			os[i].st.locked--
		}
		return os
	}
	intrinsics["(*sync.Pool).Get"] = func(x *Eng, c *callCtx) []Outcome {
		id, l, ok := x.hiddenOf(c.st, c.args[0])
		if !ok {
			return x.unknownCall(c, c.st, "sync.Pool")
		}
		if n := len(l); n > 0 {
			c.st.heap[id] = &StructV{f: l[: n-1 : n-1]}
			return ret(c.st, l[n-1])
		}
		if s, ok := x.load(c.st, c.args[0].(*PtrV)).(*StructV); ok {
			t := c.args[0].(*PtrV).elem
			if ts, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < ts.NumFields(); i++ {
					if ts.Field(i).Name() == "New" {
						if f, ok := s.f[i].(*FuncV); ok && f.fn != nil {
							return x.callFuncV(c, c.st, f)
						}
						if f, ok := s.f[i].(*FuncV); ok && c.st.f.decide(f.nilT) == 1 {
							return ret(c.st, nilIface())
						}
					}
				}
			}
		}
		return x.unknownCall(c, c.st, "sync.Pool")
	}
	intrinsics["(*sync.Pool).Put"] = func(x *Eng, c *callCtx) []Outcome {
		id, l, ok := x.hiddenOf(c.st, c.args[0])
		if !ok {
			return x.unknownCall(c, c.st, "sync.Pool")
		}
		c.st.heap[id] = &StructV{f: append(l[:len(l):len(l)], c.args[1])}
		return ret(c.st)
	}
	lookup := func(x *Eng, c *callCtx, found func(st *State, v Value) []Outcome, absent func(st *State) []Outcome) []Outcome {
		_, l, ok := x.hiddenOf(c.st, c.args[0])
		if !ok {
			return x.unknownCall(c, c.st, "sync.Map")
		}
		var from func(st *State, i int) []Outcome
		from = func(st *State, i int) []Outcome {
			if i < 0 {
				return absent(st)
			}
			return x.splitO(st, x.eqTerm(st, l[i-1], c.args[1]), func(st *State, eq bool) []Outcome {
				if eq {
					return found(st, l[i])
				}
				return from(st, i-2)
			})
		}
		return from(c.st, len(l)-1)
	}
	store := func(x *Eng, st *State, c *callCtx) {
		id, l, _ := x.hiddenOf(st, c.args[0])
		st.heap[id] = &StructV{f: append(l[:len(l):len(l)], c.args[1], c.args[2])}
	}
	intrinsics["(*sync.Map).Load"] = func(x *Eng, c *callCtx) []Outcome {
		return lookup(x, c, func(st *State, v Value) []Outcome { return ret(st, v, tTrue) },
			func(st *State) []Outcome { return ret(st, nilIface(), tFalse) })
	}
	intrinsics["(*sync.Map).LoadOrStore"] = func(x *Eng, c *callCtx) []Outcome {
		return lookup(x, c, func(st *State, v Value) []Outcome { return ret(st, v, tTrue) },
			func(st *State) []Outcome { store(x, st, c); return ret(st, c.args[2], tFalse) })
	}
	intrinsics["(*sync.Map).Store"] = func(x *Eng, c *callCtx) []Outcome {
		if _, _, ok := x.hiddenOf(c.st, c.args[0]); !ok {
			return x.unknownCall(c, c.st, "sync.Map")
		}
		store(x, c.st, c)
		return ret(c.st)
	}
}
