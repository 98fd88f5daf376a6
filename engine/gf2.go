package main

// Sums over GF(2): exclusive ors of single bits are kept as sorted chains, so
// that checksums which are linear in their input stay small.

// xorAtoms adds the atoms of the 1-bit sum t to set and returns its constant.
func (tb *TB) xorAtoms(t *Term, set map[*Term]bool) (par bool) {
	for {
		switch t.op {
		case OConst:
			return par != (t.k == 1)
		case OBNot:
			par = !par
			t = t.a
			continue
		case OBXor:
			par = par != tb.xorAtoms(t.b, set)
			t = t.a
			continue
		}
		if set[t] {
			delete(set, t)
		} else {
			set[t] = true
		}
		return
	}
}

// xorBits is a ^ b for single bits.
func (tb *TB) xorBits(a, b *Term) *Term {
	set := map[*Term]bool{}
	par := tb.xorAtoms(a, set)
	par = par != tb.xorAtoms(b, set)
	return tb.xorChain(set, par)
}

func (tb *TB) xorChain(set map[*Term]bool, par bool) *Term {
	var at []*Term
	for t := range set {
		at = append(at, t)
	}
	if len(at) == 0 {
		if par {
			return tb.Const(1, 1)
		}
		return tb.Const(1, 0)
	}
	for i := 1; i < len(at); i++ {
		for j := i; j > 0 && at[j-1].id > at[j].id; j-- {
			at[j-1], at[j] = at[j], at[j-1]
		}
	}
	r := at[0]
	for _, t := range at[1:] {
		r = tb.mk(tkey{op: OBXor, w: 1, a: r, b: t})
	}
	if par {
		r = tb.mk(tkey{op: OBNot, w: 1, a: r})
	}
	return r
}

// xorDiff returns the constant a ^ b, if it is one; by tells whether some part
// differs by an explicit exclusive or.
func (tb *TB) xorDiff(a, b *Term, fuel *int) (k uint64, by, ok bool) {
	if *fuel--; *fuel < 0 {
		return 0, false, false
	}
	if a == b {
		return 0, false, true
	}
	if a.op == OConst && b.op == OConst {
		return a.k ^ b.k, false, true
	}
	if a.w == 1 {
		set := map[*Term]bool{}
		par := tb.xorAtoms(a, set)
		par = par != tb.xorAtoms(b, set)
		if len(set) == 0 && par {
			return 1, true, true
		}
		return 0, false, len(set) == 0
	}
	flip := func(t *Term) (*Term, uint64, bool) {
		if t.op == OBNot {
			return t.a, maskN(t.w), true
		}
		if t.op == OBXor && t.b.op == OConst {
			return t.a, t.b.k, true
		}
		return t, 0, false
	}
	if x, m, f := flip(a); f {
		k, _, ok = tb.xorDiff(x, b, fuel)
		return k ^ m, true, ok
	}
	if x, m, f := flip(b); f {
		k, _, ok = tb.xorDiff(a, x, fuel)
		return k ^ m, true, ok
	}
	if a.op != OConcat && b.op != OConcat {
		return 0, false, false
	}
	// split at the lowest boundary of either side
	lo := a.w
	low := func(t *Term) {
		for t.op == OConcat {
			t = t.b
		}
		if t.w < lo && (t.op != OConst || t.w < a.w) {
			lo = t.w
		}
	}
	low(a)
	low(b)
	if lo == a.w {
		return 0, false, false
	}
	k1, by1, ok1 := tb.xorDiff(tb.Extract(a, lo-1, 0), tb.Extract(b, lo-1, 0), fuel)
	if !ok1 {
		return 0, false, false
	}
	k2, by2, ok2 := tb.xorDiff(tb.Extract(a, a.w-1, lo), tb.Extract(b, b.w-1, lo), fuel)
	return k2<<lo | k1, by1 || by2, ok2
}

// iteXor is Ite(c, a, b) as b ^ (c ? k : 0) where a is b ^ k, or nil.
func (tb *TB) iteXor(c, a, b *Term) *Term {
	if a.w == 0 || a.w > 64 || !xorLike(a) && !xorLike(b) {
		return nil
	}
	fuel := 200
	k, by, ok := tb.xorDiff(a, b, &fuel)
	if !ok || !by {
		return nil
	}
	bit := tb.bitOf(c)
	if a.w == 1 {
		return tb.xorBits(b, bit)
	}
	var r *Term
	for i := int(a.w) - 1; i >= 0; i-- {
		x := tb.Const(1, 0)
		if k>>i&1 == 1 {
			x = bit
		}
		if r == nil {
			r = x
		} else {
			r = tb.Concat(r, x)
		}
	}
	return tb.BXor(b, r)
}

func xorLike(t *Term) bool {
	for n := 0; t.op == OConcat && n < 70; n++ {
		if t.a.op == OBXor || t.a.op == OBNot {
			return true
		}
		t = t.b
	}
	return t.op == OBXor || t.op == OBNot
}

// bitOf is the truth value c as a single bit.
func (tb *TB) bitOf(c *Term) *Term {
	switch {
	case c.op == ONot:
		return tb.xorBits(tb.bitOf(c.a), tb.Const(1, 1))
	case c.op == OEq && c.a.w == 1 && c.b.op == OConst:
		return tb.xorBits(c.a, tb.Const(1, 1^c.b.k))
	}
	return tb.mk(tkey{op: OIte, w: 1, a: c, b: tb.Const(1, 1), c: tb.Const(1, 0)})
}

// lut records that a term is a table lookup by another term.
type lut struct {
	idx *Term
	tab []uint64 // from 0 to idx.hi
}

// unzext strips leading zeros.
func unzext(t *Term) *Term {
	for t.op == OConcat && t.a.isZero() {
		t = t.b
	}
	return t
}

// lutPred is pred of a table lookup, if that is a range of its index.
func (tb *TB) lutPred(t *Term, pred func(uint64) bool) *Term {
	l := tb.luts[t]
	if l == nil {
		return nil
	}
	return tb.idxPred(l.idx, func(v uint64) bool { return pred(l.tab[v]) })
}

func (tb *TB) idxPred(idx *Term, pred func(uint64) bool) *Term {
	first := pred(idx.lo)
	from, to := uint64(0), uint64(0)
	n, was := 0, first
	for v := idx.lo + 1; v <= idx.hi; v++ {
		if p := pred(v); p != was {
			switch n++; n {
			case 1:
				from, to = v, idx.hi
			case 2:
				to = v - 1
			default:
				return nil
			}
			was = p
		}
	}
	if n == 0 {
		return tb.Bool(first)
	}
	t := tb.And(tb.Ule(tb.Const(idx.w, from), idx), tb.Ule(idx, tb.Const(idx.w, to)))
	if from == to {
		t = tb.Eq(idx, tb.Const(idx.w, from))
	}
	if first {
		return tb.Not(t)
	}
	return t
}

// Lookup is tab[idx] of width w, for tables of constants; idx is in range.
func (tb *TB) Lookup(idx *Term, w uint16, tab func(uint64) uint64, n uint64) *Term {
	base := unzext(idx)
	at := func(v uint64) uint64 {
		if v >= n {
			return 0
		}
		return tab(v)
	}
	if l := tb.luts[base]; l != nil {
		base = l.idx
		inner := at
		at = func(v uint64) uint64 { return inner(l.tab[v]) }
	}
	if base.w > 64 || base.hi > 255 {
		return nil
	}
	vals := make([]uint64, base.hi+1)
	ident := true
	for v := range vals {
		vals[v] = at(uint64(v))
		ident = ident && (vals[v] == uint64(v) || uint64(v) < base.lo)
	}
	if l := tb.luts[unzext(idx)]; l != nil {
		same := true
		for v := base.lo; v <= base.hi; v++ {
			same = same && vals[v] == l.tab[v]
		}
		if same && (idx.w <= w || idx.hi <= maskN(w)) {
			if idx.w <= w {
				return tb.ZExt(idx, w)
			}
			return tb.Extract(idx, w-1, 0)
		}
	}
	if ident && (base.w <= w || base.hi <= maskN(w)) {
		if base.w > w {
			return tb.Extract(base, w-1, 0)
		}
		return tb.ZExt(base, w)
	}
	var build func(l, h uint64) *Term
	build = func(l, h uint64) *Term {
		if l == h {
			return tb.Const(w, vals[l])
		}
		mid := (l + h) / 2
		return tb.Ite(tb.Ule(base, tb.Const(base.w, mid)), build(l, mid), build(mid+1, h))
	}
	t := build(base.lo, base.hi)
	if t.op != OConst {
		tb.luts[t] = &lut{base, vals}
	}
	return t
}
