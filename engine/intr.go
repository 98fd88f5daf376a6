package main

import (
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fr   *Frame
	fn   *Closure
	name string
}

type IntrFn func(m *Machine, c *callCtx, a []Value) Value

// Intrinsic is a function modelled natively. tail intrinsics may push a frame
// and thereby call interpreted code.
type Intrinsic struct {
	name string
	fn   IntrFn
	tail bool
	pure bool
}

var intrinsics = map[string]*Intrinsic{}

func reg(name string, fn IntrFn)     { intrinsics[name] = &Intrinsic{name: name, fn: fn} }
func regPure(name string, fn IntrFn) { intrinsics[name] = &Intrinsic{name: name, fn: fn, pure: true} }
func regTail(name string, fn IntrFn) { intrinsics[name] = &Intrinsic{name: name, fn: fn, tail: true} }

func unsup(name string) *Intrinsic {
	return &Intrinsic{name: name, fn: func(m *Machine, c *callCtx, a []Value) Value {
		m.unsupported("%s is not modelled", name)
		return Value{}
	}}
}

func (p *Prog) intrinsicFor(fn *ssa.Function) *Intrinsic {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if strings.HasPrefix(name, "(*math/big.Int).") || strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(*reflect.rtype).") || strings.HasPrefix(name, "(*math/big.Float).") || strings.HasPrefix(name, "(*math/big.Rat).") {
		if fn.Synthetic == "" {
			return unsup(name)
		}
	}
	// redirected functions: verif/harness/models provides "X_pkg_Func" style
	// replacements, see models.go
	if r, ok := p.redirect[name]; ok {
		return &Intrinsic{name: name, tail: true, fn: func(m *Machine, c *callCtx, a []Value) Value {
			m.push(m.funcVal(r), a)
			return Value{}
		}}
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		return unsup(name)
	}
	return nil
}

func (m *Machine) errorValue(what string) Value {
	// *models.Err{text}
	p := newCell(Value{P: &Agg{[]Value{{P: &OpaqueStr{what}}, {}}}})
	return Value{P: &Iface{T: m.rt(types.NewPointer(m.prog.modelErr)), V: Value{P: p}}}
}

func isNilIface(v Value) bool { return v.P == nil }

func (m *Machine) isError(v Value) bool {
	i, _ := v.P.(*Iface)
	return i != nil && m.implCached(i.T, types.Universe.Lookup("error").Type())
}

func fmtText(v Value) string {
	switch s := v.P.(type) {
	case string:
		return s
	case *OpaqueStr:
		return s.What
	}
	return "?"
}

func init() {
	// ---- fmt ----
	opaque := func(m *Machine, c *callCtx, a []Value) Value {
		w := c.name
		if len(a) > 0 {
			w += " " + fmtText(a[0])
		}
		return Value{P: &OpaqueStr{w}}
	}
	reg("fmt.Sprintf", func(m *Machine, c *callCtx, a []Value) Value {
		if v, ok := m.sprintf(a); ok {
			return v
		}
		return opaque(m, c, a)
	})
	reg("fmt.Sprint", opaque)
	reg("fmt.Sprintln", opaque)
	reg("fmt.Errorf", func(m *Machine, c *callCtx, a []Value) Value {
		f := fmtText(a[0])
		e := m.errorValue(f)
		if strings.Contains(f, "%w") {
			// collect the operands of %w verbs in order
			cell := e.P.(*Iface).V.P.(*Value).P.(*Agg)
			args := m.sliceOf(a[1])
			ai := 0
			var wrapped []Value
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if f[i] == 'w' && ai < len(args) && m.isError(args[ai]) {
					wrapped = append(wrapped, args[ai])
				}
				ai++
			}
			cell.E[1] = Value{P: &Slice{wrapped}}
		}
		return e
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, func(m *Machine, c *callCtx, a []Value) Value {
			return Value{P: &Agg{[]Value{{}, {}}}}
		})
	}
	// ---- stack traces etc ----
	reg("runtime.Callers", func(m *Machine, c *callCtx, a []Value) Value { return cInt(0) })
	reg("runtime.SetFinalizer", func(m *Machine, c *callCtx, a []Value) Value { return Value{} })
	reg("runtime.KeepAlive", func(m *Machine, c *callCtx, a []Value) Value { return Value{} })
	reg("runtime.GC", func(m *Machine, c *callCtx, a []Value) Value { return Value{} })
	reg("os.Getenv", func(m *Machine, c *callCtx, a []Value) Value { return Value{} })
	reg("internal/godebug.New", func(m *Machine, c *callCtx, a []Value) Value { return Value{P: &Opaque{What: "godebug"}} })
	reg("(*internal/godebug.Setting).Value", func(m *Machine, c *callCtx, a []Value) Value { return Value{} })
	reg("(*internal/godebug.Setting).IncNonDefault", func(m *Machine, c *callCtx, a []Value) Value { return Value{} })

	// ---- sync ----
	nop := func(m *Machine, c *callCtx, a []Value) Value { return Value{} }
	reg("(*strings.Builder).copyCheck", nop)
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+ty, func(m *Machine, c *callCtx, a []Value) Value {
			m.atomicOp(m.asPtr(a[0]), atomLoad)
			return *m.asPtr(a[0])
		})
		reg("sync/atomic.Store"+ty, func(m *Machine, c *callCtx, a []Value) Value {
			m.atomicOp(m.asPtr(a[0]), atomStore)
			m.store(m.asPtr(a[0]), a[1])
			return Value{}
		})
		w := uint16(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		reg("sync/atomic.Add"+ty, func(m *Machine, c *callCtx, a []Value) Value {
			p := m.asPtr(a[0])
			m.atomicOp(p, atomLoad|atomStore)
			v := tv(m.tb.Add(m.term(*p, w), m.term(a[1], w)))
			m.store(p, v)
			return v
		})
		reg("sync/atomic.Swap"+ty, func(m *Machine, c *callCtx, a []Value) Value {
			p := m.asPtr(a[0])
			m.atomicOp(p, atomLoad|atomStore)
			old := *p
			m.store(p, a[1])
			return old
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(m *Machine, c *callCtx, a []Value) Value {
			p := m.asPtr(a[0])
			m.atomicOp(p, atomLoad|atomStore)
			if *p == a[1] {
				m.store(p, a[2])
				return cBool(true)
			}
			return cBool(false)
		})
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, c *callCtx, a []Value) Value {
		m.atomicOp(m.asPtr(a[0]), atomLoad)
		return m.asPtr(a[0]).P.(*Agg).E[0]
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, c *callCtx, a []Value) Value {
		m.atomicOp(m.asPtr(a[0]), atomStore)
		m.store(&m.asPtr(a[0]).P.(*Agg).E[0], a[1])
		return Value{}
	})
	reg("(*sync.Pool).Put", nop)
	regTail("(*sync.Pool).Get", func(m *Machine, c *callCtx, a []Value) Value {
		ag := m.asPtr(a[0]).P.(*Agg)
		f, ok := ag.E[len(ag.E)-1].P.(*Closure)
		if !ok {
			return Value{}
		}
		v, _ := m.invoke(c.fr, f, nil)
		return v
	})
	// sync.Map: backed by an interpreted map kept in the first cell
	smap := func(m *Machine, p Value) *Map {
		ag := m.asPtr(p).P.(*Agg)
		if mp, ok := ag.E[0].P.(*Map); ok {
			return mp
		}
		mp := m.newMap()
		old := ag.E[0]
		ag.E[0] = Value{P: mp}
		m.undoFn(func() { ag.E[0] = old })
		return mp
	}
	anyT := types.NewInterfaceType(nil, nil)
	reg("(*sync.Map).Load", func(m *Machine, c *callCtx, a []Value) Value {
		m.acquire(m.asPtr(a[0]))
		e := m.mapFind(anyT, smap(m, a[0]), a[1])
		if e == nil {
			return Value{P: &Agg{[]Value{{}, cBool(false)}}}
		}
		return Value{P: &Agg{[]Value{e.V, cBool(true)}}}
	})
	reg("(*sync.Map).Store", func(m *Machine, c *callCtx, a []Value) Value {
		m.acquire(m.asPtr(a[0]))
		m.release(m.asPtr(a[0]))
		m.mapSet(anyT, smap(m, a[0]), a[1], a[2])
		return Value{}
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, c *callCtx, a []Value) Value {
		m.acquire(m.asPtr(a[0]))
		m.release(m.asPtr(a[0]))
		mp := smap(m, a[0])
		if e := m.mapFind(anyT, mp, a[1]); e != nil {
			return Value{P: &Agg{[]Value{e.V, cBool(true)}}}
		}
		m.mapSet(anyT, mp, a[1], a[2])
		return Value{P: &Agg{[]Value{a[2], cBool(false)}}}
	})

	// ---- strings / bytes ----
	reg("(*strings.Builder).String", func(m *Machine, c *callCtx, a []Value) Value {
		ag := m.asPtr(a[0]).P.(*Agg)
		for _, e := range ag.E {
			if s, ok := e.P.(*Slice); ok {
				return mkStr(s.E)
			}
		}
		return Value{}
	})
	regPure("strings.Clone", func(m *Machine, c *callCtx, a []Value) Value { return a[0] })
	regPure("internal/bytealg.MakeNoZero", func(m *Machine, c *callCtx, a []Value) Value {
		n := m.intArg(a[0])
		return Value{P: &Slice{make([]Value, n)}}
	})
	indexByte := func(m *Machine, cells []Value, b Value) Value {
		for i := range cells {
			if m.branch(m.tb.Eq(m.term(cells[i], 8), m.term(b, 8))) {
				return cInt(uint64(i))
			}
		}
		return cInt(^uint64(0))
	}
	reg("internal/bytealg.IndexByte", func(m *Machine, c *callCtx, a []Value) Value { return indexByte(m, m.sliceOf(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString", func(m *Machine, c *callCtx, a []Value) Value { return indexByte(m, m.strBytes(a[0]), a[1]) })
	lastIndex := func(m *Machine, cells []Value, b Value) Value {
		for i := len(cells) - 1; i >= 0; i-- {
			if m.branch(m.tb.Eq(m.term(cells[i], 8), m.term(b, 8))) {
				return cInt(uint64(i))
			}
		}
		return cInt(^uint64(0))
	}
	reg("internal/bytealg.LastIndexByteString", func(m *Machine, c *callCtx, a []Value) Value { return lastIndex(m, m.strBytes(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByte", func(m *Machine, c *callCtx, a []Value) Value { return lastIndex(m, m.sliceOf(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(m *Machine, c *callCtx, a []Value) Value {
		n := uint64(0)
		for _, x := range m.strBytes(a[0]) {
			if m.branch(m.tb.Eq(m.term(x, 8), m.term(a[1], 8))) {
				n++
			}
		}
		return cInt(n)
	})
	reg("internal/bytealg.Count", func(m *Machine, c *callCtx, a []Value) Value {
		n := uint64(0)
		for _, x := range m.sliceOf(a[0]) {
			if m.branch(m.tb.Eq(m.term(x, 8), m.term(a[1], 8))) {
				n++
			}
		}
		return cInt(n)
	})
	cmp := func(m *Machine, x, y []Value) Value {
		tb := m.tb
		lt := m.bytesLess(x, y, false)
		gt := m.bytesLess(y, x, false)
		return tv(tb.Ite(lt, tb.Const(64, ^uint64(0)), tb.Ite(gt, tb.Const(64, 1), tb.Const(64, 0))))
	}
	regPure("internal/bytealg.Compare", func(m *Machine, c *callCtx, a []Value) Value { return cmp(m, m.sliceOf(a[0]), m.sliceOf(a[1])) })
	regPure("internal/bytealg.CompareString", func(m *Machine, c *callCtx, a []Value) Value { return cmp(m, m.strBytes(a[0]), m.strBytes(a[1])) })
	regPure("bytes.Compare", func(m *Machine, c *callCtx, a []Value) Value { return cmp(m, m.sliceOf(a[0]), m.sliceOf(a[1])) })
	regPure("strings.Compare", func(m *Machine, c *callCtx, a []Value) Value { return cmp(m, m.strBytes(a[0]), m.strBytes(a[1])) })
	bytesEq := func(m *Machine, c *callCtx, a []Value) Value {
		x, y := m.sliceOf(a[0]), m.sliceOf(a[1])
		if len(x) != len(y) {
			return cBool(false)
		}
		return tv(m.arrEq(types.Typ[types.Uint8], x, y))
	}
	regPure("bytes.Equal", bytesEq)
	regPure("internal/bytealg.Equal", bytesEq)
	reg("crypto/subtle.ConstantTimeCompare", func(m *Machine, c *callCtx, a []Value) Value {
		v := bytesEq(m, c, a)
		if t, ok := v.P.(*Term); ok {
			return tv(m.tb.Ite(t, m.tb.Const(64, 1), m.tb.Const(64, 0)))
		}
		return v
	})
	strIndex := func(m *Machine, a []Value) Value {
		x, y := m.strBytes(a[0]), m.strBytes(a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			if m.branch(m.arrEq(types.Typ[types.Uint8], x[i:i+len(y)], y)) {
				return cInt(uint64(i))
			}
		}
		return cInt(^uint64(0))
	}
	reg("strings.Index", func(m *Machine, c *callCtx, a []Value) Value { return strIndex(m, a) })
	reg("strings.Contains", func(m *Machine, c *callCtx, a []Value) Value {
		return cBool(int64(strIndex(m, a).N) >= 0)
	})

	// concrete-only shortcuts
	conc1 := func(name string, f func(string) string) {
		reg(name, func(m *Machine, c *callCtx, a []Value) Value { return cStr(f(m.goStr(a[0]))) })
	}
	// case mappings of symbolic ASCII text
	mapCase := func(name string, f func(string) string) {
		reg(name, func(m *Machine, c *callCtx, a []Value) Value {
			s, sym := a[0].P.(*SymStr)
			if !sym {
				return cStr(f(m.goStr(a[0])))
			}
			tb, out := m.tb, make([]Value, len(s.B))
			for i, v := range s.B {
				t := m.term(v, 8)
				if !m.branch(tb.Ult(t, tb.Const(8, 128))) {
					m.unsupported("%s of symbolic non-ASCII text", name)
				}
				if v.P == nil {
					out[i].N = uint64(f(string([]byte{byte(v.N)}))[0])
					continue
				}
				if tb.luts[unzext(t)] != nil {
					if x := tb.Lookup(t, 8, func(v uint64) uint64 {
						if v < 128 {
							return uint64(f(string([]byte{byte(v)}))[0])
						}
						return v
					}, 256); x != nil {
						out[i] = tv(x)
						continue
					}
				}
				lo, hi, d := byte('A'), byte('Z'), byte(32)
				if f("a") == "A" {
					lo, hi, d = 'a', 'z', 224
				}
				in := tb.And(tb.Ule(tb.Const(8, uint64(lo)), t), tb.Ule(t, tb.Const(8, uint64(hi))))
				out[i] = tv(tb.Ite(in, tb.Add(t, tb.Const(8, uint64(d))), t))
			}
			return Value{P: &SymStr{out}}
		})
	}
	mapCase("strings.ToLower", strings.ToLower)
	mapCase("strings.ToUpper", strings.ToUpper)
	conc1("strings.TrimSpace", strings.TrimSpace)

	// ---- math ----
	f1 := func(name string, f func(float64) float64) {
		reg("math."+name, func(m *Machine, c *callCtx, a []Value) Value {
			if a[0].P != nil {
				m.unsupported("symbolic float in math.%s", name)
			}
			return cInt(math.Float64bits(f(math.Float64frombits(a[0].N))))
		})
	}
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Trunc": math.Trunc, "Abs": math.Abs, "Round": math.Round,
		"archFloor": math.Floor, "archCeil": math.Ceil, "archTrunc": math.Trunc, "archExp": math.Exp, "archLog": math.Log, "archSqrt": math.Sqrt} {
		f1(n, f)
	}
	reg("math.Pow", func(m *Machine, c *callCtx, a []Value) Value {
		if a[0].P != nil || a[1].P != nil {
			m.unsupported("symbolic float in math.Pow")
		}
		return cInt(math.Float64bits(math.Pow(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N))))
	})
	id := func(m *Machine, c *callCtx, a []Value) Value { return a[0] }
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		regPure("math."+n, id)
	}
	// ---- math/bits ----
	regPure("math/bits.Add64", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		x, y, ci := m.term(a[0], 64), m.term(a[1], 64), m.term(a[2], 64)
		s := tb.Add(tb.Add(x, y), ci)
		wide := tb.Add(tb.Add(tb.ZExt(x, 65), tb.ZExt(y, 65)), tb.ZExt(ci, 65))
		return Value{P: &Agg{[]Value{tv(s), tv(tb.ZExt(tb.Extract(wide, 64, 64), 64))}}}
	})
	regPure("math/bits.Sub64", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		x, y, ci := m.term(a[0], 64), m.term(a[1], 64), m.term(a[2], 64)
		s := tb.Sub(tb.Sub(x, y), ci)
		wide := tb.Sub(tb.Sub(tb.ZExt(x, 65), tb.ZExt(y, 65)), tb.ZExt(ci, 65))
		return Value{P: &Agg{[]Value{tv(s), tv(tb.ZExt(tb.Extract(wide, 64, 64), 64))}}}
	})
	regPure("math/bits.Mul64", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		x, y := m.term(a[0], 64), m.term(a[1], 64)
		wide := tb.Mul(tb.ZExt(x, 128), tb.ZExt(y, 128))
		return Value{P: &Agg{[]Value{tv(tb.Extract(wide, 127, 64)), tv(tb.Extract(wide, 63, 0))}}}
	})
	regPure("math/bits.Div64", func(m *Machine, c *callCtx, a []Value) Value {
		tb := m.tb
		hi, lo, y := m.term(a[0], 64), m.term(a[1], 64), m.term(a[2], 64)
		if m.branch(tb.Eq(y, tb.Const(64, 0))) {
			m.goPanicRuntime("integer divide by zero")
		}
		if m.branch(tb.Ule(y, hi)) {
			m.goPanicRuntime("integer overflow")
		}
		n := tb.Concat(hi, lo)
		d := tb.ZExt(y, 128)
		return Value{P: &Agg{[]Value{tv(tb.Extract(tb.UDiv(n, d), 63, 0)), tv(tb.Extract(tb.URem(n, d), 63, 0))}}}
	})
	lenOf := func(w uint16) IntrFn {
		return func(m *Machine, c *callCtx, a []Value) Value {
			tb := m.tb
			x := m.term(a[0], w)
			r := tb.Const(64, 0)
			for i := uint16(0); i < w; i++ {
				r = tb.Ite(tb.Eq(tb.Extract(x, i, i), tb.Const(1, 1)), tb.Const(64, uint64(i)+1), r)
			}
			return tv(r)
		}
	}
	lz := func(w uint16) IntrFn {
		f := lenOf(w)
		return func(m *Machine, c *callCtx, a []Value) Value {
			return tv(m.tb.Sub(m.tb.Const(64, uint64(w)), m.term(f(m, c, a), 64)))
		}
	}
	tz := func(w uint16) IntrFn {
		return func(m *Machine, c *callCtx, a []Value) Value {
			tb := m.tb
			x := m.term(a[0], w)
			r := tb.Const(64, uint64(w))
			for i := int(w) - 1; i >= 0; i-- {
				r = tb.Ite(tb.Eq(tb.Extract(x, uint16(i), uint16(i)), tb.Const(1, 1)), tb.Const(64, uint64(i)), r)
			}
			return tv(r)
		}
	}
	for _, k := range []struct {
		s string
		w uint16
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		regPure("math/bits.Len"+k.s, lenOf(k.w))
		regPure("math/bits.LeadingZeros"+k.s, lz(k.w))
		regPure("math/bits.TrailingZeros"+k.s, tz(k.w))
	}
	// time: the clock stands still
	reg("time.runtimeNow", func(m *Machine, c *callCtx, a []Value) Value {
		return Value{P: &Agg{[]Value{cInt(1700000000), cInt(0), cInt(1)}}}
	})
	reg("time.runtimeNano", func(m *Machine, c *callCtx, a []Value) Value { return cInt(1) })
	reg("time.now", func(m *Machine, c *callCtx, a []Value) Value {
		return Value{P: &Agg{[]Value{cInt(1700000000), cInt(0), cInt(1)}}}
	})
}

// sprintf renders concrete arguments of simple formats exactly.
func (m *Machine) sprintf(a []Value) (Value, bool) {
	f, ok := a[0].P.(string)
	if !ok {
		return Value{}, false
	}
	args := m.sliceOf(a[1])
	var sb strings.Builder
	var sym []Value // what comes before sb, once there are symbolic parts
	flush := func() {
		for _, c := range []byte(sb.String()) {
			sym = append(sym, Value{N: uint64(c)})
		}
		sb.Reset()
	}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			sb.WriteByte(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return Value{}, false
		}
		if f[i] == '%' {
			sb.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			return Value{}, false
		}
		iv, _ := args[ai].P.(*Iface)
		ai++
		if iv == nil {
			return Value{}, false
		}
		if _, named := iv.T.T.(*types.Named); named {
			return Value{}, false
		}
		b, ok := iv.T.T.Underlying().(*types.Basic)
		if !ok {
			return Value{}, false
		}
		switch {
		case b.Info()&types.IsString != 0 && (f[i] == 's' || f[i] == 'v'):
			switch s := iv.V.P.(type) {
			case nil:
			case string:
				sb.WriteString(s)
			case *SymStr:
				flush()
				sym = append(sym, s.B...)
			default:
				return Value{}, false
			}
		case b.Info()&types.IsInteger != 0 && (f[i] == 'd' || f[i] == 'v') && iv.V.P == nil:
			if isSigned(b) {
				sb.WriteString(big.NewInt(toSigned(iv.V.N, widthOf(b))).String())
			} else {
				sb.WriteString(new(big.Int).SetUint64(iv.V.N).String())
			}
		default:
			return Value{}, false
		}
	}
	if sym != nil {
		flush()
		return Value{P: &SymStr{sym}}, true
	}
	return cStr(sb.String()), true
}
