package main

// Contracts: functions of the overlay that state what must hold of a few
// operations taken together.  A contract takes arbitrary arguments and
// returns the empty string, or the description of what does not hold; the
// analysis shows that no other string can be returned.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

const kHold = "contract"

type contract struct {
	fn     string
	props  []string
	opaque []string         // functions of the package taken as unknown functions of their arguments
	lens   map[string]int64 // lengths of slice and string parameters
	encs   []int
	refuse bool // every outcome is a panic
	deep   bool
}

func runContract(c contract, enc, ord int) func(x *Eng, r *Rep) {
	return func(x *Eng, r *Rep) {
		st := x.state()
		fn := x.fn(c.fn)
		for _, o := range c.opaque {
			x.opaqueFn[x.fn(o)] = true
		}
		var args []Value
		for _, p := range fn.Params {
			t := p.Type()
			if namedName(t) == "Encoding" && enc >= 0 {
				args = append(args, mkInt(int64(enc)))
				continue
			}
			if namedName(t) == "ByteOrder" {
				args = append(args, x.order(st, ord))
				continue
			}
			key := freshOther(p.Name())
			x.rootClass[key] = clsInput
			v := x.symVal(t, key)
			x.symFacts(st, v)
			nilIfaces(st, v)
			if n, ok := c.lens[p.Name()]; ok {
				switch s := v.(type) {
				case *SliceV:
					st.f.assume(mkEqI(s.len, mkInt(n)), true)
				case *StrV:
					st.f.assume(mkEqI(strLen(s), mkInt(n)), true)
				}
			}
			args = append(args, v)
		}
		for _, q := range x.call(st, fn, args, nil) {
			r.Outcomes++
			if c.refuse {
				m := ""
				if q.pan == nil {
					m = "is accepted"
				}
				r.oblige(kHold, !q.st.f.fuzzy, token.NoPos, m)
				continue
			}
			if r.panicked(q) {
				continue
			}
			r.effects(q.st, q.st.trace, nil)
			s, ok := q.vals[0].(*StrV)
			if !ok {
				x.abort("a contract returns %s", valString(q.vals[0]))
			}
			m, ok := constStr(q.st, s)
			if !ok {
				x.abort("a contract returns %s", valString(s))
			}
			if m != "" {
				m += r.factsFor(q.st)
			}
			r.oblige(kHold, !q.st.f.fuzzy, token.NoPos, m)
		}
	}
}

// contractInsts are the instances of the contracts of a property.
func contractInsts(prop string, ks map[string]bool) []Inst {
	var out []Inst
	for _, c := range contracts {
		if !hasStr(c.props, prop) {
			continue
		}
		encs := []int{-1}
		if strings.Contains(contractSig(c.fn), " Encoding") {
			encs = []int{encBin, encCompact, encBorsh}
			if c.encs != nil {
				encs = c.encs
			}
		}
		ords := []int{0}
		if strings.Contains(contractSig(c.fn), "ByteOrder") {
			ords = []int{1, 2}
		}
		for _, e := range encs {
			for _, o := range ords {
				n := c.fn
				for k, v := range c.lens {
					n += fmt.Sprintf("[%s=%d]", k, v)
				}
				if e >= 0 {
					n = encNames[e] + "." + n
				}
				n += orderNames[o]
				out = append(out, Inst{name: n, kinds: ks, deep: c.deep, run: runContract(c, e, o)})
			}
		}
	}
	return out
}

// contractSig is the parameter list of a contract, from its source.
func contractSig(fn string) string {
	b, _ := shapeFS.ReadFile("shapes/contracts.txt")
	b2, _ := shapeFS.ReadFile("shapes/custom.txt")
	b = append(b[:len(b):len(b)], b2...)
	s := string(b)
	i := strings.Index(s, "func "+fn+"(")
	if i < 0 {
		return ""
	}
	s = s[i:]
	return s[:strings.Index(s, "\n")]
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var _ types.Type

// constStr is the text of a known string.
func constStr(st *State, s *StrV) (string, bool) {
	var b []byte
	for _, g := range s.segs {
		if g.kind != segByte {
			return "", false
		}
		c, ok := st.f.norm(g.b).constInt()
		if !ok {
			return "", false
		}
		b = append(b, byte(c))
	}
	return string(b), true
}
