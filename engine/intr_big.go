package main

import (
	"math/big"
)

// big.Int is modelled as a two's complement bit-vector kept in the first cell
// of the struct.
const bigW = 320

func (m *Machine) bigGet(v Value) *Term {
	p := m.asPtr(v)
	a := p.P.(*Agg)
	switch t := a.E[0].P.(type) {
	case *Term:
		return t
	case nil:
		return m.tb.Const(bigW, 0)
	}
	m.unsupported("big.Int content")
	return nil
}

func (m *Machine) bigSet(v Value, t *Term) Value {
	p := m.asPtr(v)
	a := p.P.(*Agg)
	m.store(&a.E[0], Value{P: t})
	return v
}

func (m *Machine) newBig(t *Term) Value {
	// *big.Int with the model in cell 0; cell 1 unused
	return Value{P: newCell(Value{P: &Agg{[]Value{{P: t}, {}}}})}
}

func (m *Machine) bigConst(t *Term) *big.Int { return bigSigned(t.bigVal(), bigW) }

func (m *Machine) bigSign(t *Term) *Term { // 64-bit -1,0,1
	tb := m.tb
	z := tb.Const(bigW, 0)
	return tb.Ite(tb.Eq(t, z), tb.Const(64, 0), tb.Ite(tb.Slt(t, z), tb.Const(64, ^uint64(0)), tb.Const(64, 1)))
}

func (m *Machine) bigAbs(t *Term) *Term {
	tb := m.tb
	return tb.Ite(tb.Slt(t, tb.Const(bigW, 0)), tb.Neg(t), t)
}

// bigChecked truncates a wider exact result, refusing values out of range.
func (m *Machine) bigChecked(t *Term) *Term {
	tb := m.tb
	lo := tb.Extract(t, bigW-1, 0)
	if !m.branch(tb.Eq(tb.SExt(lo, t.w), t)) {
		m.unsupported("big.Int value beyond %d bits", bigW)
	}
	return lo
}

// bigBytes returns the minimal big-endian bytes of |t| (forks on the length).
func (m *Machine) bigLen(t *Term) int {
	tb := m.tb
	a := m.bigAbs(t)
	n := bigW / 8
	for i := 0; i < n; i++ {
		// |t| < 2^(8i)
		if i == 0 {
			if m.branch(tb.Eq(a, tb.Const(bigW, 0))) {
				return 0
			}
			continue
		}
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*i))
		if m.branch(tb.Ult(a, tb.BigConst(bigW, lim))) {
			return i
		}
	}
	return n
}

func (m *Machine) bytesOf(t *Term, n int) []Value {
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		lo := uint16(8 * (n - 1 - i))
		out[i] = tv(m.tb.Extract(t, lo+7, lo))
	}
	return out
}

func init() {
	reg("math/big.NewInt", func(m *Machine, c *callCtx, a []Value) Value {
		return m.newBig(m.tb.SExt(m.term(a[0], 64), bigW))
	})
	b := "(*math/big.Int)."
	reg(b+"Bits", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		t := m.bigAbs(m.bigGet(a[0]))
		n := 0
		for n*64 < bigW {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(64*n))
			if m.branch(tb.Ult(t, tb.BigConst(bigW, lim))) {
				break
			}
			n++
		}
		if n == 0 {
			return Value{P: &Slice{}}
		}
		out := make([]Value, n)
		for i := range out {
			out[i] = tv(tb.Extract(t, uint16(64*i+63), uint16(64*i)))
		}
		return Value{P: &Slice{out}}
	})
	reg(b+"Set", func(m *Machine, c *callCtx, a []Value) Value { return m.bigSet(a[0], m.bigGet(a[1])) })
	reg(b+"SetUint64", func(m *Machine, c *callCtx, a []Value) Value {
		return m.bigSet(a[0], m.tb.ZExt(m.term(a[1], 64), bigW))
	})
	reg(b+"SetInt64", func(m *Machine, c *callCtx, a []Value) Value {
		return m.bigSet(a[0], m.tb.SExt(m.term(a[1], 64), bigW))
	})
	bin := func(name string, f func(tb *TB, x, y *Term) *Term) {
		reg(b+name, func(m *Machine, c *callCtx, a []Value) Value {
			x, y := m.tb.SExt(m.bigGet(a[1]), bigW+8), m.tb.SExt(m.bigGet(a[2]), bigW+8)
			return m.bigSet(a[0], m.bigChecked(f(m.tb, x, y)))
		})
	}
	bin("Add", func(tb *TB, x, y *Term) *Term { return tb.Add(x, y) })
	bin("Sub", func(tb *TB, x, y *Term) *Term { return tb.Sub(x, y) })
	bin("And", func(tb *TB, x, y *Term) *Term { return tb.BAnd(x, y) })
	bin("Or", func(tb *TB, x, y *Term) *Term { return tb.BOr(x, y) })
	reg(b+"Mul", func(m *Machine, c *callCtx, a []Value) Value {
		x, y := m.tb.SExt(m.bigGet(a[1]), 2*bigW), m.tb.SExt(m.bigGet(a[2]), 2*bigW)
		return m.bigSet(a[0], m.bigChecked(m.tb.Mul(x, y)))
	})
	div := func(name string, op Op) {
		reg(b+name, func(m *Machine, c *callCtx, a []Value) Value {
			x, y := m.bigGet(a[1]), m.bigGet(a[2])
			if m.branch(m.tb.Eq(y, m.tb.Const(bigW, 0))) {
				m.goPanicRuntime("division by zero")
			}
			neg := m.tb.Or(m.tb.Slt(x, m.tb.Const(bigW, 0)), m.tb.Slt(y, m.tb.Const(bigW, 0)))
			if (name == "Div" || name == "Mod") && m.branch(neg) {
				m.unsupported("big.Int %s of negative numbers", name)
			}
			return m.bigSet(a[0], m.tb.Bin(op, x, y))
		})
	}
	div("Div", OSDiv)
	div("Quo", OSDiv)
	div("Mod", OSRem)
	div("Rem", OSRem)
	reg(b+"Neg", func(m *Machine, c *callCtx, a []Value) Value { return m.bigSet(a[0], m.tb.Neg(m.bigGet(a[1]))) })
	reg(b+"Abs", func(m *Machine, c *callCtx, a []Value) Value { return m.bigSet(a[0], m.bigAbs(m.bigGet(a[1]))) })
	reg(b+"Lsh", func(m *Machine, c *callCtx, a []Value) Value {
		n := m.intArg(a[2])
		if n > 256 {
			m.unsupported("big.Int.Lsh by %d", n)
		}
		x := m.tb.SExt(m.bigGet(a[1]), 2*bigW)
		return m.bigSet(a[0], m.bigChecked(m.tb.Shl(x, m.tb.Const(2*bigW, uint64(n)))))
	})
	reg(b+"Rsh", func(m *Machine, c *callCtx, a []Value) Value {
		return m.bigSet(a[0], m.tb.AShr(m.bigGet(a[1]), m.tb.Const(bigW, uint64(m.intArg(a[2])))))
	})
	reg(b+"Exp", func(m *Machine, c *callCtx, a []Value) Value {
		x, y := m.bigGet(a[1]), m.bigGet(a[2])
		var mod *big.Int
		if a[3].P != nil {
			t := m.bigGet(a[3])
			if t.op != OConst {
				m.unsupported("symbolic big.Int.Exp")
			}
			mod = m.bigConst(t)
		}
		if x.op != OConst || y.op != OConst {
			m.unsupported("symbolic big.Int.Exp")
		}
		r := new(big.Int).Exp(m.bigConst(x), m.bigConst(y), mod)
		if r.BitLen() >= bigW {
			m.unsupported("big.Int value beyond %d bits", bigW)
		}
		return m.bigSet(a[0], m.tb.BigConst(bigW, r))
	})
	regPure(b+"Cmp", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		x, y := m.bigGet(a[0]), m.bigGet(a[1])
		return tv(tb.Ite(tb.Eq(x, y), tb.Const(64, 0), tb.Ite(tb.Slt(x, y), tb.Const(64, ^uint64(0)), tb.Const(64, 1))))
	})
	regPure(b+"CmpAbs", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		x, y := m.bigAbs(m.bigGet(a[0])), m.bigAbs(m.bigGet(a[1]))
		return tv(tb.Ite(tb.Eq(x, y), tb.Const(64, 0), tb.Ite(tb.Slt(x, y), tb.Const(64, ^uint64(0)), tb.Const(64, 1))))
	})
	regPure(b+"Sign", func(m *Machine, c *callCtx, a []Value) Value { return tv(m.bigSign(m.bigGet(a[0]))) })
	regPure(b+"IsUint64", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.bigGet(a[0])
		return tv(m.tb.Eq(m.tb.Extract(t, bigW-1, 64), m.tb.Const(bigW-64, 0)))
	})
	regPure(b+"IsInt64", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.bigGet(a[0])
		return tv(m.tb.Eq(m.tb.SExt(m.tb.Extract(t, 63, 0), bigW), t))
	})
	regPure(b+"Uint64", func(m *Machine, c *callCtx, a []Value) Value {
		return tv(m.tb.Extract(m.bigAbs(m.bigGet(a[0])), 63, 0))
	})
	regPure(b+"Int64", func(m *Machine, c *callCtx, a []Value) Value {
		return tv(m.tb.Extract(m.bigGet(a[0]), 63, 0))
	})
	reg(b+"BitLen", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		t := m.bigAbs(m.bigGet(a[0]))
		if t.op == OConst {
			return cInt(uint64(t.bigVal().BitLen()))
		}
		r := tb.Const(64, 0)
		for i := uint16(0); i < bigW; i++ {
			r = tb.Ite(tb.Eq(tb.Extract(t, i, i), tb.Const(1, 1)), tb.Const(64, uint64(i)+1), r)
		}
		return tv(r)
	})
	reg(b+"SetBytes", func(m *Machine, c *callCtx, a []Value) Value {
		e := m.sliceOf(a[1])
		if len(e)*8 >= bigW {
			m.unsupported("big.Int.SetBytes of %d bytes", len(e))
		}
		if len(e) == 0 {
			return m.bigSet(a[0], m.tb.Const(bigW, 0))
		}
		return m.bigSet(a[0], m.tb.ZExt(m.wide(e), bigW))
	})
	reg(b+"Bytes", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.bigGet(a[0])
		if t.op != OConst && c.fr != nil && c.fr.code.name == "(*github.com/iotaledger/hive.go/serializer/v2.Serializer).WriteUint256" {
			// the serializer pads the reversed bytes with zeros to 32 bytes:
			// the padded form avoids a fork per length
			if m.branch(m.tb.Ult(m.bigAbs(t), m.tb.BigConst(bigW, new(big.Int).Lsh(big.NewInt(1), 256)))) {
				return Value{P: &Slice{m.bytesOf(m.bigAbs(t), 32)}}
			}
		}
		n := m.bigLen(t)
		return Value{P: &Slice{m.bytesOf(m.bigAbs(t), n)}}
	})
	reg(b+"FillBytes", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.bigAbs(m.bigGet(a[0]))
		buf := m.sliceOf(a[1])
		n := len(buf)
		if n*8 < bigW {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
			if !m.branch(m.tb.Ult(t, m.tb.BigConst(bigW, lim))) {
				m.goPanicRuntime("math/big: buffer too small to fit value")
			}
		}
		k := min(n, bigW/8)
		bs := m.bytesOf(t, k)
		for i := 0; i < n-k; i++ {
			m.store(&buf[i], Value{})
		}
		for i := 0; i < k; i++ {
			m.store(&buf[n-k+i], bs[i])
		}
		return a[1]
	})
	reg(b+"SetString", func(m *Machine, c *callCtx, a []Value) Value {
		s := m.goStr(a[1])
		r, ok := new(big.Int).SetString(s, int(m.intArg(a[2])))
		if !ok {
			return Value{P: &Agg{[]Value{{}, cBool(false)}}}
		}
		if r.BitLen() >= bigW {
			m.unsupported("big.Int value beyond %d bits", bigW)
		}
		m.bigSet(a[0], m.tb.BigConst(bigW, r))
		return Value{P: &Agg{[]Value{a[0], cBool(true)}}}
	})
	text := func(m *Machine, c *callCtx, a []Value) Value {
		if a[0].P == nil {
			return cStr("<nil>")
		}
		t := m.bigGet(a[0])
		base := 10
		if len(a) > 1 {
			base = int(m.intArg(a[1]))
		}
		if t.op != OConst {
			return Value{P: &OpaqueStr{"big.Int text"}}
		}
		return cStr(m.bigConst(t).Text(base))
	}
	reg(b+"String", text)
	reg(b+"Text", text)
}
