package main

import (
	"sort"
	"sync/atomic"
	"time"
)

// Cube splitting: a query the incremental solver does not decide quickly and
// that has variables with few values (by interval reasoning) is split into one
// query per combination of values, with the values substituted.

var statCubes atomic.Int64

const maxCubes = 512

func (tb *TB) subst(t *Term, m map[*Term]*Term) *Term {
	if t.op == OConst {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OVar:
		r = t
	default:
		a := tb.subst(t.a, m)
		var b, c *Term
		if t.b != nil {
			b = tb.subst(t.b, m)
		}
		if t.c != nil {
			c = tb.subst(t.c, m)
		}
		if a == t.a && b == t.b && c == t.c {
			r = t
			break
		}
		switch t.op {
		case ONot:
			r = tb.Not(a)
		case OAnd:
			r = tb.And(a, b)
		case OOr:
			r = tb.Or(a, b)
		case OIte:
			r = tb.Ite(a, b, c)
		case OEq:
			r = tb.Eq(a, b)
		case OBNot:
			r = tb.BNot(a)
		case ONeg:
			r = tb.Neg(a)
		case OConcat:
			r = tb.Concat(a, b)
		case OExtract:
			r = tb.Extract(a, uint16(t.k>>32), uint16(t.k&0xffffffff))
		case OSExt:
			r = tb.SExt(a, t.w)
		case OUlt:
			r = tb.Ult(a, b)
		case OUle:
			r = tb.Ule(a, b)
		case OSlt:
			r = tb.Slt(a, b)
		case OSle:
			r = tb.Sle(a, b)
		default:
			r = tb.Bin(t.op, a, b)
		}
	}
	m[t] = r
	return r
}

// domains returns the variables with few values and the product of the sizes.
func (s *Solver) domains(conj []*Term) (vs []*Term, lo []uint64, n []uint64) {
	r := &ranger{tb: s.tb, bound: map[*Term]rng{}, memo: map[*Term]rng{}}
	for i := 0; i < 2; i++ {
		for _, c := range conj {
			r.note(c, true)
		}
		clear(r.memo)
	}
	type dom struct {
		v    *Term
		l, n uint64
	}
	var ds []dom
	for _, v := range s.varsOf(conj) {
		if v.w == 0 {
			ds = append(ds, dom{v, 0, 2})
			continue
		}
		if v.w > 64 {
			continue
		}
		x := r.of(v)
		if d := x.hi.l - x.lo.l; d < maxCubes {
			ds = append(ds, dom{v, x.lo.l, d + 1})
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].n > ds[j].n })
	prod := uint64(1)
	for _, d := range ds {
		if prod*d.n > maxCubes {
			continue
		}
		prod *= d.n
		vs, lo, n = append(vs, d.v), append(lo, d.l), append(n, d.n)
	}
	return vs, lo, n
}

func (s *Solver) cubes(conj []*Term) (SatRes, map[uint32]bv, bool) {
	vs, lo, n := s.domains(conj)
	if len(vs) == 0 {
		return 0, nil, false
	}
	statCubes.Add(1)
	ix := make([]uint64, len(vs))
	unknown := 0
	end := time.Now().Add(time.Duration(max(s.hardMs, 5000)) * time.Millisecond)
	if !s.deadline.IsZero() && end.After(s.deadline) {
		end = s.deadline
	}
	for {
		if time.Now().After(end) {
			return Unknown, nil, true
		}
		m := map[*Term]*Term{}
		for i, v := range vs {
			if v.w == 0 {
				m[v] = s.tb.Bool(ix[i] == 1)
			} else {
				m[v] = s.tb.Const(v.w, lo[i]+ix[i])
			}
		}
		var sub []*Term
		dead := false
		for _, c := range conj {
			c = s.tb.subst(c, m)
			if c == s.tb.False {
				dead = true
				break
			}
			if c != s.tb.True {
				sub = flatAnd(c, sub)
			}
		}
		if !dead {
			res, upd := Sat, map[uint32]bv{}
			if len(sub) > 0 {
				if refutes(s.tb, sub) {
					res = Unsat
				} else {
					res, upd = s.check(sub)
					if res == Unknown {
						res, upd = s.hard(sub)
					}
				}
			}
			switch res {
			case Sat:
				full := map[uint32]bv{}
				for _, v := range s.varsOf(conj) {
					full[v.id] = upd[v.id]
				}
				for i, v := range vs {
					full[v.id] = bv{u: lo[i] + ix[i]}
				}
				if s.confirm(conj, full) {
					return Sat, full, true
				}
				unknown++
			case Unknown:
				unknown++
				return Unknown, nil, true
			}
		}
		i := 0
		for ; i < len(ix); i++ {
			if ix[i]++; ix[i] < n[i] {
				break
			}
			ix[i] = 0
		}
		if i == len(ix) {
			break
		}
	}
	if unknown > 0 {
		return Unknown, nil, true
	}
	return Unsat, nil, true
}
