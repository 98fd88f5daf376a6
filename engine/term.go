package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Term is a hash-consed SMT term. Width 0 means Bool, otherwise a bit-vector
// of that width.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OBNot
	ONeg
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OSExt
	OUlt
	OUle
	OSlt
	OSle
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OBNot: "bvnot", ONeg: "bvneg", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
}

type Term struct {
	op      Op
	w       uint16
	id      uint32
	a, b, c *Term
	k       uint64   // constant (w<=64), or extract hi<<32|lo
	big     *big.Int // constant (w>64)
	name    string   // variable name
	lo, hi  uint64   // unsigned interval, for 0<w<=64
	vars    []uint32 // sorted ids of the variables below
	depth   uint32
}

type tkey struct {
	op      Op
	w       uint16
	k       uint64
	a, b, c *Term
}

// TB builds terms (one per worker).
type TB struct {
	tab   map[tkey]*Term
	bigs  map[string]*Term
	next  uint32
	True  *Term
	False *Term
	varBy map[uint32]*Term
	luts  map[*Term]*lut
}

func newTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, bigs: map[string]*Term{}, varBy: map[uint32]*Term{}, luts: map[*Term]*lut{}}
	tb.False = tb.mk(tkey{op: OConst, w: 0, k: 0})
	tb.True = tb.mk(tkey{op: OConst, w: 0, k: 1})
	return tb
}

func maskN(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func unionVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	// subset checks happen naturally through the merge
	out := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (tb *TB) mk(k tkey) *Term {
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, id: tb.next, a: k.a, b: k.b, c: k.c, k: k.k}
	tb.next++
	if k.a != nil {
		t.vars = k.a.vars
		t.depth = k.a.depth + 1
		if k.b != nil {
			t.vars = unionVars(t.vars, k.b.vars)
			if k.b.depth >= t.depth {
				t.depth = k.b.depth + 1
			}
		}
		if k.c != nil {
			t.vars = unionVars(t.vars, k.c.vars)
			if k.c.depth >= t.depth {
				t.depth = k.c.depth + 1
			}
		}
	}
	tb.interval(t)
	tb.tab[k] = t
	return t
}

func (tb *TB) interval(t *Term) {
	if t.w == 0 || t.w > 64 {
		return
	}
	m := maskN(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		if h, c := bits.Add64(t.a.hi, t.b.hi, 0); c == 0 && h <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, h
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		if h, l := bits.Mul64(t.a.hi, t.b.hi); h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OURem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OBOr, OBXor:
		h := t.a.hi | t.b.hi
		if h != 0 {
			t.hi = maskN(uint16(bits.Len64(h)))
		} else {
			t.hi = 0
		}
		if t.op == OBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OLShr:
		if t.b.op == OConst {
			if t.b.k >= uint64(t.w) {
				t.hi = 0
			} else {
				t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
			}
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.hi < 64 && t.a.hi != 0 {
			if bits.Len64(t.a.hi)+int(t.b.hi) <= int(t.w) {
				t.lo, t.hi = t.a.lo<<t.b.lo, t.a.hi<<t.b.hi
			}
		}
	case OConcat:
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
	case OExtract:
		if l := uint16(t.k & 0xffffffff); t.a.w <= 64 {
			h := uint16(t.k >> 32)
			if t.a.hi <= maskN(h+1) {
				t.lo, t.hi = t.a.lo>>l, t.a.hi>>l
			}
		}
	}
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tb *TB) Const(w uint16, v uint64) *Term {
	if w > 64 {
		return tb.BigConst(w, new(big.Int).SetUint64(v))
	}
	return tb.mk(tkey{op: OConst, w: w, k: v & maskN(w)})
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) BigConst(w uint16, v *big.Int) *Term {
	if v.Sign() < 0 || v.BitLen() > int(w) {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		v = new(big.Int).Mod(v, m)
	}
	if w <= 64 {
		return tb.Const(w, v.Uint64())
	}
	key := fmt.Sprintf("%d:%s", w, v.Text(62))
	if t, ok := tb.bigs[key]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, id: tb.next, big: new(big.Int).Set(v)}
	tb.next++
	tb.bigs[key] = t
	return t
}

func (t *Term) bigVal() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.k)
}

// Var makes a fresh variable or returns the one of that name.
func (tb *TB) Var(name string, w uint16) *Term {
	key := fmt.Sprintf("v%d:%s", w, name)
	if t, ok := tb.bigs[key]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, id: tb.next, name: name, hi: maskN(w)}
	tb.next++
	t.vars = []uint32{t.id}
	tb.bigs[key] = t
	tb.varBy[t.id] = t
	return t
}

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tb.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return tb.mk(tkey{op: ONot, a: a})
}

func (tb *TB) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tb.False
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	return tb.mk(tkey{op: OAnd, a: a, b: b})
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tb.True
	}
	return tb.mk(tkey{op: OOr, a: a, b: b})
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.k == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.op == OConst {
			if b.k == 1 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if t := tb.iteXor(c, a, b); t != nil {
		return t
	}
	return tb.mk(tkey{op: OIte, w: a.w, a: c, b: a, c: b})
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return tb.False // hash-consed: distinct constants differ
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return tb.Not(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return tb.False
		}
	} else if a.w <= 64 {
		if a.hi < b.lo || b.hi < a.lo {
			return tb.False
		}
	}
	if b.op == OConst && b.w > 0 && b.w <= 64 {
		if t := tb.lutPred(a, func(v uint64) bool { return v == b.k }); t != nil {
			return t
		}
	} else if l, r := tb.luts[a], tb.luts[b]; l != nil && r != nil && l.idx == r.idx {
		if t := tb.idxPred(l.idx, func(v uint64) bool { return l.tab[v] == r.tab[v] }); t != nil {
			return t
		}
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		case OConcat:
			hi := tb.Extract(b, b.w-1, a.b.w)
			lo := tb.Extract(b, a.b.w-1, 0)
			l := tb.Eq(a.b, lo)
			if l == tb.False {
				return l
			}
			return tb.And(tb.Eq(a.a, hi), l)
		case OAdd:
			if a.b.op == OConst {
				return tb.Eq(a.a, tb.Sub(b, a.b))
			}
		case OBNot:
			return tb.Eq(a.a, tb.BNot(b))
		}
	} else if a.op == OConcat && b.op == OConcat {
		if a.b.w == b.b.w {
			h, l := tb.Eq(a.a, b.a), tb.Eq(a.b, b.b)
			if h.op == OConst || l.op == OConst {
				return tb.And(h, l)
			}
			return tb.And(h, l)
		}
	} else if a.op == OIte && b.op != OIte {
		if a.b == b || a.c == b {
			return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
		}
	}
	if a.w > 0 {
		switch linearEq(a, b) {
		case 0:
			return tb.False
		case 1:
			return tb.True
		}
		// (x*c)/c == x exactly when x*c does not overflow
		if x := overflowTest(a, b); x != nil {
			return tb.Ule(x, tb.UDiv(tb.BigConst(x.w, bigMask(x.w)), a.b))
		}
		if x := overflowTest(b, a); x != nil {
			return tb.Ule(x, tb.UDiv(tb.BigConst(x.w, bigMask(x.w)), b.b))
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return tb.mk(tkey{op: OEq, a: a, b: b})
}

func toSigned(v uint64, w uint16) int64 {
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func bigSigned(v *big.Int, w uint16) *big.Int {
	if v.Bit(int(w)-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

// foldBin computes a binary bit-vector operation on concrete values.
func foldBin(op Op, w uint16, x, y uint64) uint64 {
	m := maskN(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := toSigned(x, w), toSigned(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := toSigned(x, w), toSigned(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(toSigned(x, w)>>y) & m
	}
	panic("foldBin")
}

func foldBigBin(op Op, w uint16, x, y *big.Int) *big.Int {
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int)
	switch op {
	case OAdd:
		r.Add(x, y)
	case OSub:
		r.Sub(x, y)
	case OMul:
		r.Mul(x, y)
	case OUDiv:
		if y.Sign() == 0 {
			return r.Sub(mod, big.NewInt(1))
		}
		r.Quo(x, y)
	case OURem:
		if y.Sign() == 0 {
			return x
		}
		r.Rem(x, y)
	case OSDiv:
		sx, sy := bigSigned(x, w), bigSigned(y, w)
		if sy.Sign() == 0 {
			if sx.Sign() < 0 {
				return r.SetInt64(1)
			}
			return r.Sub(mod, big.NewInt(1))
		}
		r.Quo(sx, sy)
	case OSRem:
		sx, sy := bigSigned(x, w), bigSigned(y, w)
		if sy.Sign() == 0 {
			return x
		}
		r.Rem(sx, sy)
	case OBAnd:
		r.And(x, y)
	case OBOr:
		r.Or(x, y)
	case OBXor:
		r.Xor(x, y)
	case OShl:
		if !y.IsUint64() || y.Uint64() >= uint64(w) {
			return r
		}
		r.Lsh(x, uint(y.Uint64()))
	case OLShr:
		if !y.IsUint64() || y.Uint64() >= uint64(w) {
			return r
		}
		r.Rsh(x, uint(y.Uint64()))
	case OAShr:
		s := uint64(w) - 1
		if y.IsUint64() && y.Uint64() < s {
			s = y.Uint64()
		}
		r.Rsh(bigSigned(x, w), uint(s))
	default:
		panic("foldBigBin")
	}
	return r.Mod(r, mod)
}

func (tb *TB) fold2(op Op, a, b *Term) *Term {
	if a.w <= 64 {
		return tb.Const(a.w, foldBin(op, a.w, a.k, b.k))
	}
	return tb.BigConst(a.w, foldBigBin(op, a.w, a.big, b.big))
}

func (t *Term) isZero() bool {
	return t.op == OConst && ((t.big == nil && t.k == 0) || (t.big != nil && t.big.Sign() == 0))
}
func (t *Term) isOnes() bool {
	if t.op != OConst {
		return false
	}
	if t.big == nil {
		return t.k == maskN(t.w)
	}
	return t.big.BitLen() == int(t.w) && new(big.Int).Add(t.big, big.NewInt(1)).TrailingZeroBits() == uint(t.w)
}
func (t *Term) isOne() bool {
	return t.op == OConst && ((t.big == nil && t.k == 1) || (t.big != nil && t.big.IsUint64() && t.big.Uint64() == 1))
}

// pow2 reports the exponent when t is a constant power of two.
func (t *Term) pow2() (uint16, bool) {
	if t.op != OConst {
		return 0, false
	}
	v := t.bigVal()
	if v.Sign() > 0 && v.TrailingZeroBits() == uint(v.BitLen()-1) {
		return uint16(v.BitLen() - 1), true
	}
	return 0, false
}

func (tb *TB) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OAdd, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if b.op == OConst && a.op == OAdd && a.b.op == OConst {
		return tb.Add(a.a, tb.Add(a.b, b))
	}
	if a.op == OAdd && a.b.op == OConst && b.op != OConst {
		return tb.Add(tb.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.op == OConst {
		return tb.Add(tb.Add(a, b.a), b.b)
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(tkey{op: OAdd, w: a.w, a: a, b: b})
}

func (tb *TB) Neg(a *Term) *Term { return tb.Sub(tb.Const(a.w, 0), a) }

func (tb *TB) Sub(a, b *Term) *Term {
	if a == b {
		return tb.Const(a.w, 0)
	}
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OSub, a, b)
	}
	if b.op == OConst {
		if b.isZero() {
			return a
		}
		// keep as Sub when interval info is useful (no wrap), otherwise add
		if a.w <= 64 && a.lo >= b.k {
			return tb.mk(tkey{op: OSub, w: a.w, a: a, b: b})
		}
		return tb.Add(a, tb.fold2(OSub, tb.Const(a.w, 0), b))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	return tb.mk(tkey{op: OSub, w: a.w, a: a, b: b})
}

func (tb *TB) Mul(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OMul, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return b
	}
	if b.isOne() {
		return a
	}
	if e, ok := b.pow2(); ok {
		return tb.Shl(a, tb.Const(a.w, uint64(e)))
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(tkey{op: OMul, w: a.w, a: a, b: b})
}

func (tb *TB) UDiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OUDiv, a, b)
	}
	if a.op == OMul && a.b == b && b.op == OConst && !b.isZero() && a.w <= 64 {
		if h, l := bits.Mul64(a.a.hi, b.k); h == 0 && l <= maskN(a.w) {
			return a.a
		}
	}
	if e, ok := b.pow2(); ok {
		return tb.LShr(a, tb.Const(a.w, uint64(e)))
	}
	return tb.mk(tkey{op: OUDiv, w: a.w, a: a, b: b})
}
func (tb *TB) URem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OURem, a, b)
	}
	if e, ok := b.pow2(); ok {
		if e == 0 {
			return tb.Const(a.w, 0)
		}
		return tb.ZExt(tb.Extract(a, e-1, 0), a.w)
	}
	if a.w <= 64 && a.hi < b.lo {
		return a
	}
	return tb.mk(tkey{op: OURem, w: a.w, a: a, b: b})
}
func (t *Term) nonNeg() bool {
	if t.w > 64 {
		if t.op == OConst {
			return t.big.Bit(int(t.w)-1) == 0
		}
		return t.op == OConcat && t.a.isZero()
	}
	return t.hi>>(t.w-1) == 0
}
func (tb *TB) SDiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OSDiv, a, b)
	}
	if a.nonNeg() && b.nonNeg() {
		return tb.UDiv(a, b)
	}
	return tb.mk(tkey{op: OSDiv, w: a.w, a: a, b: b})
}
func (tb *TB) SRem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OSRem, a, b)
	}
	if a.nonNeg() && b.nonNeg() {
		return tb.URem(a, b)
	}
	return tb.mk(tkey{op: OSRem, w: a.w, a: a, b: b})
}

func (tb *TB) BNot(a *Term) *Term {
	if a.op == OConst {
		if a.w <= 64 {
			return tb.Const(a.w, ^a.k)
		}
		return tb.BigConst(a.w, new(big.Int).Not(a.big))
	}
	if a.op == OBNot {
		return a.a
	}
	if a.op == OConcat {
		return tb.Concat(tb.BNot(a.a), tb.BNot(a.b))
	}
	return tb.mk(tkey{op: OBNot, w: a.w, a: a})
}

// pieces flattens concatenations, most significant first; constants in masks
// are split at bit runs when split is set.
func (tb *TB) pieces(t *Term, out []*Term) []*Term {
	if t.op == OConcat {
		out = tb.pieces(t.a, out)
		return tb.pieces(t.b, out)
	}
	return append(out, t)
}

func constRuns(t *Term) []uint16 { // widths of equal-bit runs, msb first
	v := t.bigVal()
	var runs []uint16
	cur := v.Bit(int(t.w) - 1)
	n := uint16(0)
	for i := int(t.w) - 1; i >= 0; i-- {
		b := v.Bit(i)
		if b == cur {
			n++
		} else {
			runs = append(runs, n)
			cur, n = b, 1
		}
	}
	return append(runs, n)
}

// bitwise builds and/or/xor, splitting at known-constant segments.
func (tb *TB) bitwise(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(op, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		if op == OBXor {
			return tb.Const(a.w, 0)
		}
		return a
	}
	if op == OBXor && a.w == 1 {
		return tb.xorBits(a, b)
	}
	if b.op == OConst {
		if b.isZero() {
			if op == OBAnd {
				return b
			}
			return a
		}
		if b.isOnes() {
			switch op {
			case OBAnd:
				return a
			case OBOr:
				return b
			case OBXor:
				return tb.BNot(a)
			}
		}
	}
	var bw []uint16
	split := false
	if b.op == OConst && (op == OBAnd || op == OBOr) {
		bw = constRuns(b)
		split = len(bw) <= 5
	} else if a.op == OConcat || b.op == OConcat {
		split = true
		for _, p := range tb.pieces(b, nil) {
			bw = append(bw, p.w)
		}
	}
	if split {
		// union of boundaries (as lsb offsets)
		marks := map[uint16]bool{0: true, a.w: true}
		off := a.w
		for _, w := range bw {
			off -= w
			marks[off] = true
		}
		if b.op != OConst {
			off = a.w
			for _, p := range tb.pieces(a, nil) {
				off -= p.w
				marks[off] = true
			}
		}
		var res *Term
		ok := true
		hi := a.w
		for o := int(a.w) - 1; o >= 0; o-- {
			if !marks[uint16(o)] {
				continue
			}
			x, y := tb.Extract(a, hi-1, uint16(o)), tb.Extract(b, hi-1, uint16(o))
			hi = uint16(o)
			if x.op == OConst && y.op != OConst {
				x, y = y, x
			}
			var s *Term
			switch {
			case x.op == OConst && y.op == OConst:
				s = tb.fold2(op, x, y)
			case y.isZero() && op == OBAnd:
				s = y
			case y.isZero():
				s = x
			case y.isOnes() && op == OBAnd:
				s = x
			case y.isOnes() && op == OBOr:
				s = y
			case y.isOnes():
				s = tb.BNot(x)
			case x == y && op != OBXor:
				s = x
			case op == OBXor && a.w <= 64 && x.w < a.w:
				s = tb.bitwise(op, x, y)
			default:
				ok = false
			}
			if !ok {
				break
			}
			if res == nil {
				res = s
			} else {
				res = tb.Concat(res, s)
			}
		}
		if ok {
			return res
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(tkey{op: op, w: a.w, a: a, b: b})
}

func (tb *TB) BAnd(a, b *Term) *Term { return tb.bitwise(OBAnd, a, b) }
func (tb *TB) BOr(a, b *Term) *Term  { return tb.bitwise(OBOr, a, b) }
func (tb *TB) BXor(a, b *Term) *Term { return tb.bitwise(OBXor, a, b) }

func (tb *TB) Shl(a, b *Term) *Term {
	if b.op == OConst {
		n := b.bigVal()
		if !n.IsUint64() || n.Uint64() >= uint64(a.w) {
			return tb.Const(a.w, 0)
		}
		s := uint16(n.Uint64())
		if s == 0 {
			return a
		}
		return tb.Concat(tb.Extract(a, a.w-s-1, 0), tb.Const(s, 0))
	}
	if a.isZero() {
		return a
	}
	return tb.mk(tkey{op: OShl, w: a.w, a: a, b: b})
}
func (tb *TB) LShr(a, b *Term) *Term {
	if b.op == OConst {
		n := b.bigVal()
		if !n.IsUint64() || n.Uint64() >= uint64(a.w) {
			return tb.Const(a.w, 0)
		}
		s := uint16(n.Uint64())
		if s == 0 {
			return a
		}
		return tb.Concat(tb.Const(s, 0), tb.Extract(a, a.w-1, s))
	}
	if a.isZero() {
		return a
	}
	return tb.mk(tkey{op: OLShr, w: a.w, a: a, b: b})
}
func (tb *TB) AShr(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tb.fold2(OAShr, a, b)
	}
	if a.nonNeg() {
		return tb.LShr(a, b)
	}
	if b.op == OConst {
		n := b.bigVal()
		s := a.w - 1
		if n.IsUint64() && n.Uint64() < uint64(s) {
			s = uint16(n.Uint64())
		}
		if s == 0 {
			return a
		}
		return tb.SExt(tb.Extract(a, a.w-1, s), a.w)
	}
	return tb.mk(tkey{op: OAShr, w: a.w, a: a, b: b})
}

func (tb *TB) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		v := new(big.Int).Lsh(a.bigVal(), uint(b.w))
		v.Or(v, b.bigVal())
		return tb.BigConst(w, v)
	}
	// right-assoc normal form with merging
	if a.op == OConcat {
		return tb.Concat(a.a, tb.Concat(a.b, b))
	}
	bh, rest := b, (*Term)(nil)
	if b.op == OConcat {
		bh, rest = b.a, b.b
	}
	var merged *Term
	if a.op == OConst && bh.op == OConst {
		merged = tb.Concat(a, bh)
	} else if a.op == OExtract && bh.op == OExtract && a.a == bh.a && uint32(a.k) == uint32(bh.k>>32)+1 {
		merged = tb.Extract(a.a, uint16(a.k>>32), uint16(bh.k&0xffffffff))
	}
	if merged != nil {
		if rest == nil {
			return merged
		}
		return tb.Concat(merged, rest)
	}
	return tb.mk(tkey{op: OConcat, w: w, a: a, b: b})
}

func (tb *TB) Extract(a *Term, hi, lo uint16) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	if hi >= a.w || hi < lo {
		panic("bad extract")
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		if a.w <= 64 {
			return tb.Const(w, a.k>>lo)
		}
		return tb.BigConst(w, new(big.Int).Rsh(a.big, uint(lo)))
	case OConcat:
		bw := a.b.w
		if hi < bw {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= bw {
			return tb.Extract(a.a, hi-bw, lo-bw)
		}
		return tb.Concat(tb.Extract(a.a, hi-bw, 0), tb.Extract(a.b, bw-1, lo))
	case OExtract:
		l := uint16(a.k & 0xffffffff)
		return tb.Extract(a.a, hi+l, lo+l)
	case OSExt:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	case OBNot:
		return tb.BNot(tb.Extract(a.a, hi, lo))
	case OBAnd, OBOr, OBXor:
		return tb.bitwise(a.op, tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo))
	case OAdd, OMul:
		if lo == 0 && hi < 64 && a.w <= 128 {
			x, y := tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0)
			if a.op == OAdd {
				return tb.Add(x, y)
			}
			return tb.Mul(x, y)
		}
	}
	if a.w <= 64 && lo > 0 && a.hi < uint64(1)<<lo {
		return tb.Const(w, 0)
	}
	return tb.mk(tkey{op: OExtract, w: w, k: uint64(hi)<<32 | uint64(lo), a: a})
}

func (tb *TB) ZExt(a *Term, w uint16) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return tb.Extract(a, w-1, 0)
	}
	return tb.Concat(tb.Const(w-a.w, 0), a)
}

func (tb *TB) SExt(a *Term, w uint16) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return tb.Extract(a, w-1, 0)
	}
	if a.op == OConst {
		return tb.BigConst(w, new(big.Int).Set(bigSigned(a.bigVal(), a.w)))
	}
	if a.nonNeg() {
		return tb.ZExt(a, w)
	}
	if a.op == OSExt {
		return tb.SExt(a.a, w)
	}
	return tb.mk(tkey{op: OSExt, w: w, a: a})
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.op == OConst && b.op == OConst {
		return tb.Bool(a.bigVal().Cmp(b.bigVal()) < 0)
	}
	if a.w <= 64 {
		if a.hi < b.lo {
			return tb.True
		}
		if a.lo >= b.hi {
			return tb.False
		}
	}
	if b.isZero() || a.isOnes() {
		return tb.False
	}
	if a.w <= 64 {
		if b.op == OConst {
			if t := tb.lutPred(a, func(v uint64) bool { return v < b.k }); t != nil {
				return t
			}
		} else if a.op == OConst {
			if t := tb.lutPred(b, func(v uint64) bool { return a.k < v }); t != nil {
				return t
			}
		}
	}
	// strip common zero prefix
	if az, ar, ok := stripZ(a); ok {
		if bz, br, ok2 := stripZ(b); ok2 && az.w == bz.w {
			return tb.Ult(ar, br)
		}
		if b.op == OConst {
			bh := tb.Extract(b, b.w-1, ar.w)
			if !bh.isZero() {
				return tb.True
			}
			return tb.Ult(ar, tb.Extract(b, ar.w-1, 0))
		}
	} else if bz, br, ok := stripZ(b); ok && a.op == OConst {
		_ = bz
		ah := tb.Extract(a, a.w-1, br.w)
		if !ah.isZero() {
			return tb.False
		}
		return tb.Ult(tb.Extract(a, br.w-1, 0), br)
	}
	if b.isOne() {
		return tb.Eq(a, tb.Const(a.w, 0))
	}
	if a.isZero() {
		return tb.Not(tb.Eq(b, a))
	}
	if a.op == OIte && b.op == OConst && a.b.op == OConst && a.c.op == OConst {
		return tb.Ite(a.a, tb.Ult(a.b, b), tb.Ult(a.c, b))
	}
	if a.op == OAdd && a.w <= 64 && (a.a == b || a.b == b) {
		if h, c := bits.Add64(a.a.hi, a.b.hi, 0); c == 0 && h <= maskN(a.w) {
			return tb.False
		}
	}
	switch linearLt(a, b) {
	case 0:
		return tb.False
	case 1:
		return tb.True
	}
	return tb.mk(tkey{op: OUlt, a: a, b: b})
}

func stripZ(t *Term) (*Term, *Term, bool) {
	if t.op == OConcat && t.a.isZero() {
		return t.a, t.b, true
	}
	return nil, nil, false
}

func (tb *TB) Ule(a, b *Term) *Term { return tb.Not(tb.Ult(b, a)) }

func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.op == OConst && b.op == OConst {
		return tb.Bool(bigSigned(a.bigVal(), a.w).Cmp(bigSigned(b.bigVal(), b.w)) < 0)
	}
	if a.nonNeg() && b.nonNeg() {
		return tb.Ult(a, b)
	}
	return tb.mk(tkey{op: OSlt, a: a, b: b})
}
func (tb *TB) Sle(a, b *Term) *Term { return tb.Not(tb.Slt(b, a)) }

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	switch op {
	case OAdd:
		return tb.Add(a, b)
	case OSub:
		return tb.Sub(a, b)
	case OMul:
		return tb.Mul(a, b)
	case OUDiv:
		return tb.UDiv(a, b)
	case OURem:
		return tb.URem(a, b)
	case OSDiv:
		return tb.SDiv(a, b)
	case OSRem:
		return tb.SRem(a, b)
	case OBAnd, OBOr, OBXor:
		return tb.bitwise(op, a, b)
	case OShl:
		return tb.Shl(a, b)
	case OLShr:
		return tb.LShr(a, b)
	case OAShr:
		return tb.AShr(a, b)
	}
	panic("Bin")
}

// ---- evaluation under a model ----

type bv struct {
	u uint64
	b *big.Int
}

func (v bv) big() *big.Int {
	if v.b != nil {
		return v.b
	}
	return new(big.Int).SetUint64(v.u)
}

// Model assigns variables; missing variables are zero.
type Model struct {
	vals map[uint32]bv
	memo map[*Term]bv
}

func newModel() *Model { return &Model{vals: map[uint32]bv{}, memo: map[*Term]bv{}} }

func (m *Model) with(upd map[uint32]bv) *Model {
	n := newModel()
	for k, v := range m.vals {
		n.vals[k] = v
	}
	for k, v := range upd {
		n.vals[k] = v
	}
	return n
}

func norm(w uint16, v *big.Int) bv {
	if w <= 64 {
		return bv{u: v.Uint64() & maskN(w)}
	}
	return bv{b: v}
}

func (m *Model) evalBool(t *Term) bool { return m.eval(t).u != 0 }

func (m *Model) eval(t *Term) bv {
	switch t.op {
	case OConst:
		return bv{u: t.k, b: t.big}
	case OVar:
		v := m.vals[t.id]
		if t.w > 64 && v.b == nil {
			v.b = new(big.Int).SetUint64(v.u)
		}
		return v
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval1(t)
	m.memo[t] = v
	return v
}

func b2v(b bool) bv {
	if b {
		return bv{u: 1}
	}
	return bv{}
}

func (m *Model) eval1(t *Term) bv {
	switch t.op {
	case ONot:
		return b2v(m.eval(t.a).u == 0)
	case OAnd:
		return b2v(m.eval(t.a).u != 0 && m.eval(t.b).u != 0)
	case OOr:
		return b2v(m.eval(t.a).u != 0 || m.eval(t.b).u != 0)
	case OIte:
		if m.eval(t.a).u != 0 {
			return m.eval(t.b)
		}
		return m.eval(t.c)
	}
	a := m.eval(t.a)
	var b bv
	if t.b != nil {
		b = m.eval(t.b)
	}
	aw := t.a.w
	wide := aw > 64 || t.w > 64
	switch t.op {
	case OEq:
		if wide {
			return b2v(a.big().Cmp(b.big()) == 0)
		}
		return b2v(a.u == b.u)
	case OUlt:
		if wide {
			return b2v(a.big().Cmp(b.big()) < 0)
		}
		return b2v(a.u < b.u)
	case OUle:
		if wide {
			return b2v(a.big().Cmp(b.big()) <= 0)
		}
		return b2v(a.u <= b.u)
	case OSlt:
		return b2v(bigSigned(a.big(), aw).Cmp(bigSigned(b.big(), aw)) < 0)
	case OSle:
		return b2v(bigSigned(a.big(), aw).Cmp(bigSigned(b.big(), aw)) <= 0)
	case OBNot:
		if wide {
			mod := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
			return norm(t.w, new(big.Int).Mod(new(big.Int).Not(a.big()), mod))
		}
		return bv{u: ^a.u & maskN(t.w)}
	case OConcat:
		if !wide {
			return bv{u: a.u<<t.b.w | b.u}
		}
		v := new(big.Int).Lsh(a.big(), uint(t.b.w))
		return norm(t.w, v.Or(v, b.big()))
	case OExtract:
		lo := uint(t.k & 0xffffffff)
		if !wide {
			return bv{u: (a.u >> lo) & maskN(t.w)}
		}
		v := new(big.Int).Rsh(a.big(), lo)
		if t.w <= 64 {
			v.And(v, new(big.Int).SetUint64(maskN(t.w)))
			return bv{u: v.Uint64()}
		}
		mod := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		return bv{b: v.Mod(v, mod)}
	case OSExt:
		if !wide {
			return bv{u: uint64(toSigned(a.u, aw)) & maskN(t.w)}
		}
		mod := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		return norm(t.w, new(big.Int).Mod(bigSigned(a.big(), aw), mod))
	}
	if wide {
		return norm(t.w, foldBigBin(t.op, t.w, a.big(), b.big()))
	}
	return bv{u: foldBin(t.op, t.w, a.u, b.u)}
}

// ---- printing ----

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

// ref is how another term refers to t in SMT-LIB.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.big != nil {
			return fmt.Sprintf("(_ bv%s %d)", t.big.String(), t.w)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>32, t.k&0xffffffff, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op] + " " + t.a.ref())
	if t.b != nil {
		sb.WriteString(" " + t.b.ref())
	}
	if t.c != nil {
		sb.WriteString(" " + t.c.ref())
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) String() string { return t.show(6) }
func (t *Term) show(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return t.ref()
		}
		return t.bigVal().String()
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract {
		s = fmt.Sprintf("(x[%d:%d]", t.k>>32, t.k&0xffffffff)
	} else if t.op == OSExt {
		s = "(sext"
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.show(d-1)
		}
	}
	return s + ")"
}

// overflowTest returns x when q is (x*c)/c for a constant c.
func overflowTest(q, x *Term) *Term {
	if q.op == OUDiv && q.b.op == OConst && q.a.op == OMul && q.a.b == q.b && q.a.a == x && !q.b.isZero() {
		return x
	}
	return nil
}

func bigMask(w uint16) *big.Int {
	v := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return v.Sub(v, big.NewInt(1))
}
