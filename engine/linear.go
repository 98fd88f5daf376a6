package main

import "math/bits"

// linear sums of terms: values as integers modulo 2^w, to settle equalities
// of sums that only differ in the order and width of their additions.
type linSum struct {
	w     uint16
	k     uint64
	atoms map[*Term]uint64
	fuel  int
}

// add adds c*t to the sum; false when it gets too large.
func (s *linSum) add(t *Term, c uint64) bool {
	c &= maskN(s.w)
	if c == 0 {
		return true
	}
	if s.fuel--; s.fuel < 0 || t.w > 64 {
		return false
	}
	// overflows of t do not matter when c*2^t.w vanishes modulo 2^s.w
	free := uint16(bits.TrailingZeros64(c))+t.w >= s.w
	m := maskN(t.w)
	switch t.op {
	case OConst:
		s.k += c * t.k
		return true
	case OAdd:
		h, o := bits.Add64(t.a.hi, t.b.hi, 0)
		if free || o == 0 && h <= m {
			return s.add(t.a, c) && s.add(t.b, c)
		}
	case OSub:
		if free || t.a.lo >= t.b.hi {
			return s.add(t.a, c) && s.add(t.b, -c)
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if t.b.op == OConst && (free || h == 0 && l <= m) {
			return s.add(t.a, c*t.b.k)
		}
	case OConcat:
		return (t.b.w >= 64 || s.add(t.a, c<<t.b.w)) && s.add(t.b, c)
	case OExtract:
		if t.k&0xffffffff == 0 && t.a.w <= 64 && (free || t.a.hi <= m) {
			return s.add(t.a, c)
		}
	}
	v := s.atoms[t] + c
	if v&maskN(s.w) == 0 {
		delete(s.atoms, t)
	} else {
		s.atoms[t] = v
	}
	return true
}

// linearEq decides a == b by their sums: 1 equal, 0 different, -1 unknown.
func linearEq(a, b *Term) int {
	if a.w > 64 || a.w < 8 || !sumLike(a) && !sumLike(b) {
		return -1
	}
	s := linSum{w: a.w, atoms: map[*Term]uint64{}, fuel: 4000}
	if !s.add(a, 1) || !s.add(b, ^uint64(0)) || len(s.atoms) != 0 {
		return -1
	}
	if s.k&maskN(a.w) == 0 {
		return 1
	}
	return 0
}

func sumLike(t *Term) bool {
	for t.op == OConcat || t.op == OExtract {
		if t.op == OConcat && !t.a.isZero() && !t.b.isZero() {
			return false
		}
		if t.op == OConcat && t.a.isZero() {
			t = t.b
		} else {
			t = t.a
		}
	}
	return t.op == OAdd || t.op == OSub || t.op == OMul
}

// exact adds c*t to the sum of integers; false when a part may wrap.
func (s *linSum) exact(t *Term, c int64, k *int64) bool {
	if s.fuel--; s.fuel < 0 || t.w > 64 || c > 1<<40 || c < -(1<<40) {
		return false
	}
	m := maskN(t.w)
	switch t.op {
	case OConst:
		if t.k >= 1<<20 && c != 1 && c != -1 || t.k >= 1<<60 {
			return false
		}
		*k += c * int64(t.k)
		return *k < 1<<61 && *k > -(1<<61)
	case OAdd:
		if h, o := bits.Add64(t.a.hi, t.b.hi, 0); o == 0 && h <= m {
			return s.exact(t.a, c, k) && s.exact(t.b, c, k)
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			return s.exact(t.a, c, k) && s.exact(t.b, -c, k)
		}
	case OMul:
		if h, l := bits.Mul64(t.a.hi, t.b.hi); t.b.op == OConst && t.b.k < 1<<20 && h == 0 && l <= m {
			return s.exact(t.a, c*int64(t.b.k), k)
		}
	case OConcat:
		return t.b.w < 20 && s.exact(t.a, c<<t.b.w, k) && s.exact(t.b, c, k) || t.a.isZero() && s.exact(t.b, c, k)
	case OExtract:
		if t.k&0xffffffff == 0 && t.a.w <= 64 && t.a.hi <= m {
			return s.exact(t.a, c, k)
		}
	}
	if t.hi >= 1<<20 && c != 1 && c != -1 || t.hi >= 1<<60 {
		return false
	}
	s.atoms[t] += uint64(c)
	return true
}

// linearLt decides a < b by their sums: 1 less, 0 not less, -1 unknown.
func linearLt(a, b *Term) int {
	if a.w > 64 || a.w < 8 || !sumLike(a) && !sumLike(b) {
		return -1
	}
	s := linSum{w: 64, atoms: map[*Term]uint64{}, fuel: 4000}
	var k int64
	if !s.exact(b, 1, &k) || !s.exact(a, -1, &k) {
		return -1
	}
	lo, hi := k, k // of b-a
	for t, c := range s.atoms {
		switch v := int64(c); {
		case v > 0:
			lo += v * int64(t.lo)
			hi += v * int64(t.hi)
		case v < 0:
			lo += v * int64(t.hi)
			hi += v * int64(t.lo)
		}
		if lo > 1<<61 || lo < -(1<<61) || hi > 1<<61 || hi < -(1<<61) {
			return -1
		}
	}
	if lo > 0 {
		return 1
	}
	if hi <= 0 {
		return 0
	}
	return -1
}
