package main

import (
	"math"
	"math/big"
	"strconv"
	"strings"
)

// Decimal text of symbolic numbers is an opaque string of a marker and the
// eight bytes of the number. Parsing inverts it; nothing else can be learned
// from the text (its length and digits are not those of the real text).
func init() {
	format := func(mark byte) IntrFn {
		return func(m *Machine, c *callCtx, a []Value) Value {
			t, ok := a[0].P.(*Term)
			if !ok || a[1].P != nil || a[1].N != 10 {
				if a[0].P != nil || a[1].P != nil {
					m.unsupported("symbolic number text")
				}
				if mark == '$' {
					return cStr(strconv.FormatInt(int64(a[0].N), int(a[1].N)))
				}
				return cStr(strconv.FormatUint(a[0].N, int(a[1].N)))
			}
			b := []Value{{N: uint64(mark)}}
			for i := uint16(0); i < 8; i++ {
				b = append(b, tv(m.tb.Extract(t, 8*i+7, 8*i)))
			}
			return Value{P: &SymStr{b}}
		}
	}
	parse := func(mark byte) IntrFn {
		return func(m *Machine, c *callCtx, a []Value) Value {
			if s, ok := a[0].P.(*SymStr); ok && len(s.B) == 9 && s.B[0].P == nil && s.B[0].N == uint64(mark) && a[1].N == 10 && a[2].N == 64 {
				var t *Term
				for _, v := range s.B[1:] {
					b := m.term(v, 8)
					if t == nil {
						t = b
					} else {
						t = m.tb.Concat(b, t)
					}
				}
				return Value{P: &Agg{[]Value{tv(t), {}}}}
			}
			s := m.goStr(a[0])
			var n uint64
			var err error
			if mark == '$' {
				var i int64
				i, err = strconv.ParseInt(s, int(a[1].N), int(a[2].N))
				n = uint64(i)
			} else {
				n, err = strconv.ParseUint(s, int(a[1].N), int(a[2].N))
			}
			if err != nil {
				return Value{P: &Agg{[]Value{{N: n}, m.errorValue("strconv")}}}
			}
			return Value{P: &Agg{[]Value{{N: n}, {}}}}
		}
	}
	reg("strconv.FormatUint", format('#'))
	reg("strconv.FormatInt", format('$'))
	reg("strconv.ParseUint", parse('#'))
	reg("strconv.ParseInt", parse('$'))

	reg("strconv.FormatFloat", func(m *Machine, c *callCtx, a []Value) Value {
		for _, v := range a {
			if v.P != nil {
				m.unsupported("symbolic number text")
			}
		}
		return cStr(strconv.FormatFloat(math.Float64frombits(a[0].N), byte(a[1].N), int(int64(a[2].N)), int(a[3].N)))
	})
	reg("strconv.ParseFloat", func(m *Machine, c *callCtx, a []Value) Value {
		f, err := strconv.ParseFloat(m.goStr(a[0]), int(a[1].N))
		e := Value{}
		if err != nil {
			e = m.errorValue("strconv")
		}
		return Value{P: &Agg{[]Value{{N: math.Float64bits(f)}, e}}}
	})

	// the same for hex text of big integers
	const hexutil = "github.com/ethereum/go-ethereum/common/hexutil."
	reg(hexutil+"EncodeBig", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.bigGet(a[0])
		if t.op == OConst {
			if n := m.bigConst(t); n.Sign() < 0 {
				return cStr("-0x" + n.Text(16)[1:])
			} else {
				return cStr("0x" + n.Text(16))
			}
		}
		return Value{P: &SymStr{append([]Value{{N: '%'}}, m.bytesOf(t, bigW/8)...)}}
	})
	reg(hexutil+"DecodeBig", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		if s, ok := a[0].P.(*SymStr); ok && len(s.B) == 1+bigW/8 && s.B[0].P == nil && s.B[0].N == '%' {
			t := m.wide(s.B[1:])
			if !m.branch(tb.Ult(t, tb.BigConst(bigW, new(big.Int).Lsh(big.NewInt(1), 256)))) {
				return Value{P: &Agg{[]Value{{}, m.errorValue("hexutil")}}}
			}
			return Value{P: &Agg{[]Value{m.newBig(t), {}}}}
		}
		s := m.goStr(a[0])
		n, ok := new(big.Int), false
		if h := strings.TrimPrefix(strings.TrimPrefix(s, "0x"), "0X"); len(h)+2 == len(s) && h != "" && len(h) <= 64 && (h == "0" || h[0] != '0') && strings.Trim(h, "0123456789abcdefABCDEF") == "" {
			n, ok = n.SetString(h, 16)
		}
		if !ok {
			return Value{P: &Agg{[]Value{{}, m.errorValue("hexutil")}}}
		}
		return Value{P: &Agg{[]Value{m.newBig(tb.BigConst(bigW, n)), {}}}}
	})
}
