package main

import (
	"math/bits"
	"sync/atomic"
)

// Path-sensitive interval reasoning: a sound, incomplete decision procedure
// tried before the solvers. Bounds of terms are read off the conjuncts, ranges
// of the terms above them are recomputed, and a conjunct that is false over
// the whole range refutes the query.

var statRange atomic.Int64

// u128 is an unsigned number below 2^128.
type u128 struct{ h, l uint64 }

func (a u128) less(b u128) bool { return a.h < b.h || a.h == b.h && a.l < b.l }
func max128(a, b u128) u128 {
	if a.less(b) {
		return b
	}
	return a
}
func min128(a, b u128) u128 {
	if a.less(b) {
		return a
	}
	return b
}
func (a u128) add(b u128) (u128, bool) {
	l, c := bits.Add64(a.l, b.l, 0)
	h, c := bits.Add64(a.h, b.h, c)
	return u128{h, l}, c == 0
}
func (a u128) sub(b u128) u128 {
	l, c := bits.Sub64(a.l, b.l, 0)
	h, _ := bits.Sub64(a.h, b.h, c)
	return u128{h, l}
}
func (a u128) mul(b u128) (u128, bool) {
	if a.h != 0 && b.h != 0 {
		return u128{}, false
	}
	h, l := bits.Mul64(a.l, b.l)
	h1, l1 := bits.Mul64(a.h, b.l)
	h2, l2 := bits.Mul64(a.l, b.h)
	if h1 != 0 || h2 != 0 {
		return u128{}, false
	}
	x, c := bits.Add64(l1, l2, 0)
	y, c2 := bits.Add64(x, h, 0)
	return u128{y, l}, c == 0 && c2 == 0
}
func (a u128) shr(n uint64) u128 {
	switch {
	case n == 0:
		return a
	case n >= 128:
		return u128{}
	case n >= 64:
		return u128{0, a.h >> (n - 64)}
	}
	return u128{a.h >> n, a.l>>n | a.h<<(64-n)}
}
func (a u128) shl(n uint64) u128 {
	switch {
	case n == 0:
		return a
	case n >= 128:
		return u128{}
	case n >= 64:
		return u128{a.l << (n - 64), 0}
	}
	return u128{a.h<<n | a.l>>(64-n), a.l << n}
}
func (a u128) len() int {
	if a.h != 0 {
		return 64 + bits.Len64(a.h)
	}
	return bits.Len64(a.l)
}
func mask128(w uint16) u128 {
	if w >= 128 {
		return u128{^uint64(0), ^uint64(0)}
	}
	if w == 0 {
		return u128{0, 1}
	}
	return u128{0, 1}.shl(uint64(w)).sub(u128{0, 1})
}

type rng struct{ lo, hi u128 }

type ranger struct {
	tb    *TB
	bound map[*Term]rng
	memo  map[*Term]rng
	bad   bool
}

func (r *ranger) full(t *Term) rng { return rng{u128{}, mask128(t.w)} }

func (r *ranger) of(t *Term) rng {
	if v, ok := r.memo[t]; ok {
		return v
	}
	v := r.of1(t)
	if t.w > 0 && t.w <= 64 {
		v.lo = max128(v.lo, u128{0, t.lo})
		v.hi = min128(v.hi, u128{0, t.hi})
	}
	if b, ok := r.bound[t]; ok {
		v.lo, v.hi = max128(v.lo, b.lo), min128(v.hi, b.hi)
	}
	if v.hi.less(v.lo) {
		r.bad = true
		v = r.full(t)
	}
	r.memo[t] = v
	return v
}

func (r *ranger) of1(t *Term) rng {
	f := r.full(t)
	m := f.hi
	if t.w > 128 {
		return f // never looked at
	}
	switch t.op {
	case OConst:
		if t.w <= 64 {
			return rng{u128{0, t.k}, u128{0, t.k}}
		}
		b := t.bigVal()
		var c u128
		ws := b.Bits()
		if len(ws) > 0 {
			c.l = uint64(ws[0])
		}
		if len(ws) > 1 {
			c.h = uint64(ws[1])
		}
		return rng{c, c}
	case OIte:
		switch r.truth(t.a) {
		case 1:
			return r.of(t.b)
		case -1:
			return r.of(t.c)
		}
		a, b := r.of(t.b), r.of(t.c)
		return rng{min128(a.lo, b.lo), max128(a.hi, b.hi)}
	case OAdd:
		a, b := r.of(t.a), r.of(t.b)
		if h, ok := a.hi.add(b.hi); ok && !m.less(h) {
			l, _ := a.lo.add(b.lo)
			return rng{l, h}
		}
		// both ends wrap exactly once
		if l, ok := a.lo.add(b.lo); t.w < 128 && ok && m.less(l) {
			if h, ok := a.hi.add(b.hi); ok {
				one, _ := m.add(u128{0, 1})
				return rng{l.sub(one), h.sub(one)}
			}
		}
	case OSub:
		a, b := r.of(t.a), r.of(t.b)
		if !a.lo.less(b.hi) {
			return rng{a.lo.sub(b.hi), a.hi.sub(b.lo)}
		}
	case OMul:
		a, b := r.of(t.a), r.of(t.b)
		if h, ok := a.hi.mul(b.hi); ok && !m.less(h) {
			l, _ := a.lo.mul(b.lo)
			return rng{l, h}
		}
	case OUDiv:
		a, b := r.of(t.a), r.of(t.b)
		if b.lo != (u128{}) && a.hi.h == 0 && b.hi.h == 0 {
			return rng{u128{0, a.lo.l / b.hi.l}, u128{0, a.hi.l / b.lo.l}}
		}
		if b.lo != (u128{}) {
			return rng{u128{}, a.hi}
		}
	case OURem:
		a, b := r.of(t.a), r.of(t.b)
		if b.lo != (u128{}) {
			if a.hi.less(b.lo) {
				return a
			}
			return rng{u128{}, min128(a.hi, b.hi.sub(u128{0, 1}))}
		}
	case OBAnd:
		return rng{u128{}, min128(r.of(t.a).hi, r.of(t.b).hi)}
	case OBOr, OBXor:
		a, b := r.of(t.a), r.of(t.b)
		n := max(a.hi.len(), b.hi.len())
		v := rng{u128{}, u128{}}
		if n > 0 {
			v.hi = mask128(uint16(n))
		}
		if t.op == OBOr {
			v.lo = max128(a.lo, b.lo)
		}
		return v
	case OLShr:
		a := r.of(t.a)
		b := r.of(t.b)
		if b.hi.h == 0 && b.lo == b.hi {
			return rng{a.lo.shr(b.lo.l), a.hi.shr(b.lo.l)}
		}
		return rng{u128{}, a.hi}
	case OShl:
		a, b := r.of(t.a), r.of(t.b)
		if b.hi.h == 0 && b.hi.l < 128 && a.hi.len()+int(b.hi.l) <= int(t.w) {
			return rng{a.lo.shl(b.lo.l), a.hi.shl(b.hi.l)}
		}
	case OConcat:
		a, b := r.of(t.a), r.of(t.b)
		s := uint64(t.b.w)
		l, _ := a.lo.shl(s).add(b.lo)
		h, _ := a.hi.shl(s).add(b.hi)
		return rng{l, h}
	case OExtract:
		if t.a.w > 128 {
			return f
		}
		l := t.k & 0xffffffff
		h := uint16(t.k >> 32)
		a := r.of(t.a)
		if !mask128(h + 1).less(a.hi) {
			return rng{a.lo.shr(l), a.hi.shr(l)}
		}
	case OSExt:
		a := r.of(t.a)
		if !mask128(t.a.w - 1).less(a.hi) {
			return a
		}
	}
	return f
}

// truth is 1, -1 or 0 (not decided).
func (r *ranger) truth(c *Term) int {
	switch c.op {
	case OConst:
		if c.k == 1 {
			return 1
		}
		return -1
	case ONot:
		return -r.truth(c.a)
	case OAnd:
		x, y := r.truth(c.a), r.truth(c.b)
		if x < 0 || y < 0 {
			return -1
		}
		if x > 0 && y > 0 {
			return 1
		}
	case OOr:
		x, y := r.truth(c.a), r.truth(c.b)
		if x > 0 || y > 0 {
			return 1
		}
		if x < 0 && y < 0 {
			return -1
		}
	case OUlt, OUle, OEq, OSlt, OSle:
		if c.a.w == 0 || c.a.w > 128 {
			return 0
		}
		a, b := r.of(c.a), r.of(c.b)
		op := c.op
		if op == OSlt || op == OSle {
			sm := mask128(c.a.w - 1)
			if sm.less(a.hi) || sm.less(b.hi) {
				return 0
			}
			op = map[Op]Op{OSlt: OUlt, OSle: OUle}[op]
		}
		switch op {
		case OUlt:
			if r.below(c.b, c.a, 0) {
				return -1
			}
			if a.hi.less(b.lo) {
				return 1
			}
			if !a.lo.less(b.hi) {
				return -1
			}
		case OUle:
			if r.below(c.a, c.b, 0) {
				return 1
			}
			if !b.lo.less(a.hi) {
				return 1
			}
			if b.hi.less(a.lo) {
				return -1
			}
		case OEq:
			if a.hi.less(b.lo) || b.hi.less(a.lo) {
				return -1
			}
			if a.lo == a.hi && b == a {
				return 1
			}
		}
	}
	return 0
}

// below tells whether a <= b follows from the shape of the terms.
func (r *ranger) below(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d > 4 {
		return false
	}
	if !r.of(b).lo.less(r.of(a).hi) {
		return true
	}
	if b.op == OAdd {
		x, y := r.of(b.a), r.of(b.b)
		if h, ok := x.hi.add(y.hi); ok && !mask128(b.w).less(h) {
			if r.below(a, b.a, d+1) || r.below(a, b.b, d+1) {
				return true
			}
			if a.op == OAdd && (a.a == b.a && r.below(a.b, b.b, d+1) || a.b == b.b && r.below(a.a, b.a, d+1)) {
				return true
			}
		}
	}
	if b.op == OIte {
		return r.below(a, b.b, d+1) && r.below(a, b.c, d+1)
	}
	switch a.op {
	case OIte:
		return r.below(a.b, b, d+1) && r.below(a.c, b, d+1)
	case OSub:
		if !r.of(a.a).lo.less(r.of(a.b).hi) {
			return r.below(a.a, b, d+1)
		}
	case OLShr, OUDiv:
		return r.below(a.a, b, d+1)
	}
	return false
}

// note records bounds implied by a conjunct. It reports whether any changed.
func (r *ranger) note(c *Term, pos bool) bool {
	if c.op == ONot {
		return r.note(c.a, !pos)
	}
	if c.op == OOr && !pos {
		x := r.note(c.a, false)
		return r.note(c.b, false) || x
	}
	if c.op == OAnd && pos {
		x := r.note(c.a, true)
		return r.note(c.b, true) || x
	}
	if c.a == nil || c.a.w == 0 || c.a.w > 128 {
		return false
	}
	a, b := c.a, c.b
	strict := false
	switch {
	case c.op == OUlt && pos:
		strict = true
	case c.op == OUlt: // b <= a
		a, b = b, a
	case c.op == OUle && pos:
	case c.op == OUle: // b < a
		a, b = b, a
		strict = true
	case c.op == OEq && pos:
		ra, rb := r.of(a), r.of(b)
		x := r.limit(a, rb.lo, rb.hi)
		return r.limit(b, ra.lo, ra.hi) || x
	case c.op == OEq:
		x := false
		for k := 0; k < 2; k++ {
			ra, rb := r.of(a), r.of(b)
			if rb.lo == rb.hi && ra.lo.less(ra.hi) {
				if ra.lo == rb.lo {
					l, _ := ra.lo.add(u128{0, 1})
					x = r.limit(a, l, ra.hi) || x
				} else if ra.hi == rb.lo {
					x = r.limit(a, ra.lo, ra.hi.sub(u128{0, 1})) || x
				}
			}
			a, b = b, a
		}
		return x
	default:
		return false
	}
	ra, rb := r.of(a), r.of(b)
	hi, lo := rb.hi, ra.lo
	if strict {
		if hi == (u128{}) {
			r.bad = true
			return false
		}
		hi = hi.sub(u128{0, 1})
		var ok bool
		if lo, ok = lo.add(u128{0, 1}); !ok {
			r.bad = true
			return false
		}
	}
	x := r.limit(a, u128{}, hi)
	return r.limit(b, lo, mask128(b.w)) || x
}

// limit intersects the range of t, and of the terms it is made of.
func (r *ranger) limit(t *Term, lo, hi u128) bool {
	v := r.of(t)
	if !v.lo.less(lo) && !hi.less(v.hi) {
		return false
	}
	v.lo, v.hi = max128(v.lo, lo), min128(v.hi, hi)
	if v.hi.less(v.lo) {
		r.bad = true
		return false
	}
	r.bound[t] = v
	r.memo[t] = v
	switch t.op {
	case OConcat:
		s := uint64(t.b.w)
		r.limit(t.a, v.lo.shr(s), v.hi.shr(s))
		if v.lo.shr(s) == v.hi.shr(s) {
			m := mask128(t.b.w)
			r.limit(t.b, u128{v.lo.h & m.h, v.lo.l & m.l}, u128{v.hi.h & m.h, v.hi.l & m.l})
		}
	case OAdd:
		// x + y without wrapping: x in [lo-y.hi, hi-y.lo]
		a, b := r.of(t.a), r.of(t.b)
		if h, ok := a.hi.add(b.hi); ok && !mask128(t.w).less(h) {
			for _, p := range [2][2]*Term{{t.a, t.b}, {t.b, t.a}} {
				o := r.of(p[1])
				l := u128{}
				if o.hi.less(v.lo) {
					l = v.lo.sub(o.hi)
				}
				if v.hi.less(o.lo) {
					r.bad = true
					return true
				}
				r.limit(p[0], l, v.hi.sub(o.lo))
			}
		}
	case OSExt:
		if !mask128(t.a.w - 1).less(v.hi) {
			r.limit(t.a, v.lo, v.hi)
		}
	}
	return true
}

// refutes tells whether interval reasoning shows the conjunction false.
func refutes(tb *TB, conj []*Term) bool {
	r := &ranger{tb: tb, bound: map[*Term]rng{}, memo: map[*Term]rng{}}
	for i := 0; i < 3; i++ {
		ch := false
		for _, c := range conj {
			if r.note(c, true) {
				ch = true
			}
			if r.bad {
				return true
			}
		}
		clear(r.memo)
		for _, c := range conj {
			if r.truth(c) < 0 || r.bad {
				return true
			}
		}
		if !ch {
			break
		}
	}
	return false
}
