package main

import (
	"fmt"
	"math/big"
	"os"
)

func (m *Machine) newInput(name, kind string, w uint16) *Term {
	if m.noFork > 0 {
		if m.noFork >= mergeFork {
			panic(mergeFail{})
		}
		m.unsupported("input during initialisation")
	}
	t := m.tb.Var(fmt.Sprintf("in!%d!%s", len(m.inputs), name), w)
	m.inputs = append(m.inputs, input{name: name, kind: kind, w: w, t: t})
	return t
}

func noMerge(m *Machine) {
	if m.noFork >= mergeFork {
		panic(mergeFail{})
	}
}

// violation is a satisfiable negated assertion together with a model.
type violation struct {
	harness string
	msg     string
	known   string
	where   string
	inputs  []inVal
	hashes  int // symbolic hash applications on the path
	model   *Model
}

type inVal struct {
	Name string `json:"n"`
	Val  string `json:"v"`
}

func (m *Machine) inputVals(mod *Model) []inVal {
	out := make([]inVal, len(m.inputs))
	for i, in := range m.inputs {
		out[i].Name = in.name
		if in.t == nil {
			out[i].Val = fmt.Sprint(in.n)
			continue
		}
		v := mod.eval(in.t)
		if in.w <= 64 {
			out[i].Val = fmt.Sprint(v.u)
		} else {
			out[i].Val = v.big().String()
		}
	}
	return out
}

func (m *Machine) symHashes() int {
	n := 0
	for _, r := range m.sigRecs() {
		if !r.sig.isConst() {
			n++
		}
	}
	for i := range m.hashes {
		if !m.hashes[i].conc {
			n++
		}
	}
	return n
}

func (m *Machine) report(msg, known string, mod *Model) {
	if os.Getenv("GOSYM_CHECK") != "" {
		for _, c := range m.pc {
			if !mod.evalBool(c) {
				fmt.Fprintln(os.Stderr, "model does not satisfy the path condition:", c.show(6))
			}
		}
	}
	if os.Getenv("GOSYM_HASH") != "" {
		for _, h := range m.hashes {
			if !h.conc {
				fmt.Fprintf(os.Stderr, "hash %x of", mod.eval(h.out).big())
				for _, c := range h.in {
					fmt.Fprintf(os.Stderr, " %02x", mod.eval(m.term(c, 8)).u)
				}
				fmt.Fprintln(os.Stderr)
			}
		}
	}
	v := &violation{msg: msg, known: known, where: m.where(), inputs: m.inputVals(mod), hashes: m.symHashes(), model: mod}
	m.w.violation(v)
}

// checkAssert reports models of the path condition that falsify cond.
func (m *Machine) checkAssert(cond *Term, msg, known string, region *Term) {
	noMerge(m)
	if m.decPos < len(m.decs) {
		m.assume(cond)
		return
	}
	m.w.asserts++
	if cond == m.tb.True || m.pcSet[cond] {
		return
	}
	if !m.ensureModel() {
		m.w.inconclusive("no model for a path with assertion: " + msg)
	}
	bad := m.tb.Not(cond)
	one := func(t *Term, known string) {
		if t == m.tb.False {
			return
		}
		if m.model != nil && m.model.evalBool(t) {
			m.report(msg, known, m.model)
			return
		}
		res, mod := m.query(t)
		switch res {
		case Sat:
			if m.model == nil {
				m.w.inconclusive("no complete model for assertion: " + msg)
				return
			}
			m.report(msg, known, mod)
		case Unknown:
			m.w.inconclusive("solver gave no answer for assertion: " + msg)
		}
	}
	if known == "" || !m.prog.knownID(known) {
		one(bad, "")
	} else {
		one(m.tb.And(bad, m.tb.Not(region)), "")
		one(m.tb.And(bad, region), known)
	}
	m.assume(cond)
}

func init() {
	const p = "verif/harness/nd."
	for _, k := range []struct {
		n string
		w uint16
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}} {
		k := k
		reg(p+k.n, func(m *Machine, c *callCtx, a []Value) Value {
			return tv(m.newInput(m.goStr(a[0]), "u", k.w))
		})
	}
	reg(p+"Bool", func(m *Machine, c *callCtx, a []Value) Value {
		return tv(m.newInput(m.goStr(a[0]), "bool", 0))
	})
	reg(p+"Int", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.newInput(m.goStr(a[0]), "u", 64)
		m.assume(m.tb.And(m.tb.Sle(m.term(a[1], 64), t), m.tb.Sle(t, m.term(a[2], 64))))
		return tv(t)
	})
	reg(p+"Range64", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.newInput(m.goStr(a[0]), "u", 64)
		m.assume(m.tb.And(m.tb.Ule(m.term(a[1], 64), t), m.tb.Ule(t, m.term(a[2], 64))))
		return tv(t)
	})
	reg(p+"Fill", func(m *Machine, c *callCtx, a []Value) Value {
		cells := m.sliceOf(a[1])
		name := m.goStr(a[0])
		for i := range cells {
			m.store(&cells[i], tv(m.newInput(fmt.Sprintf("%s[%d]", name, i), "u", 8)))
		}
		return Value{}
	})
	reg(p+"Choice", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		n := m.choose(int(m.intArg(a[1])))
		m.inputs = append(m.inputs, input{name: m.goStr(a[0]), kind: "choice", n: uint64(n)})
		return cInt(uint64(n))
	})
	reg(p+"Big", func(m *Machine, c *callCtx, a []Value) Value {
		return m.newBig(m.tb.ZExt(m.newInput(m.goStr(a[0]), "big", 256), bigW))
	})
	reg(p+"Assume", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		m.assume(m.term(a[0], 0))
		return Value{}
	})
	reg(p+"Assert", func(m *Machine, c *callCtx, a []Value) Value {
		m.checkAssert(m.term(a[0], 0), m.goStr(a[1]), "", nil)
		return Value{}
	})
	reg(p+"AssertKnown", func(m *Machine, c *callCtx, a []Value) Value {
		m.checkAssert(m.term(a[0], 0), m.goStr(a[1]), m.goStr(a[2]), m.term(a[3], 0))
		return Value{}
	})
	// Concrete fixes a value, exploring all possibilities
	reg(p+"Concrete", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		if a[0].P == nil {
			return a[0]
		}
		return cInt(m.concretize(m.term(a[0], 64)))
	})
	reg(p+"Fork", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		return cBool(m.branch(m.term(a[0], 0)))
	})
	reg(p+"Cover", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		m.covers = append(m.covers, m.goStr(a[0]))
		return Value{}
	})
	reg(p+"Observe", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		m.observes = append(m.observes, observe{name: m.goStr(a[0]), v: []*Term{m.term(a[1], 64)}})
		return Value{}
	})
	reg(p+"ObserveBool", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		m.observes = append(m.observes, observe{name: m.goStr(a[0]), v: []*Term{m.tb.Ite(m.term(a[1], 0), m.tb.Const(64, 1), m.tb.Const(64, 0))}})
		return Value{}
	})
	reg(p+"ObserveBytes", func(m *Machine, c *callCtx, a []Value) Value {
		noMerge(m)
		o := observe{name: m.goStr(a[0]), bytes: true}
		for _, x := range m.sliceOf(a[1]) {
			o.v = append(o.v, m.term(x, 8))
		}
		m.observes = append(m.observes, o)
		return Value{}
	})
	reg(p+"Tier", func(m *Machine, c *callCtx, a []Value) Value { return cInt(uint64(m.prog.opt.tier)) })
	reg(p+"Reg", func(m *Machine, c *callCtx, a []Value) Value { return Value{} })
	reg(p+"MapOrders", func(m *Machine, c *callCtx, a []Value) Value {
		old := m.permMaps
		m.permMaps = a[0].N != 0
		m.undoFn(func() { m.permMaps = old })
		return Value{}
	})
	reg(p+"Trace", func(m *Machine, c *callCtx, a []Value) Value {
		if m.prog.opt.verbose {
			fmt.Printf("TRACE %s\n", m.traceArg(a[0]))
		}
		return Value{}
	})
}

func (m *Machine) traceArg(v Value) string {
	switch s := v.P.(type) {
	case string:
		return s
	case *OpaqueStr:
		return "<" + s.What + ">"
	}
	return "?"
}

// renderObserve evaluates an observation in a model.
func renderObserve(o observe, mod *Model) string {
	if o.bytes {
		b := make([]byte, len(o.v))
		for i, t := range o.v {
			b[i] = byte(mod.eval(t).u)
		}
		return fmt.Sprintf("%s=%x", o.name, b)
	}
	v := mod.eval(o.v[0])
	return fmt.Sprintf("%s=%s", o.name, new(big.Int).SetUint64(v.u).String())
}

func init() {
	reg("verif/harness/nd.Dump", func(m *Machine, c *callCtx, a []Value) Value {
		if m.prog.opt.verbose {
			fmt.Printf("DUMP %s\n", dump(a[0], 6))
		}
		return Value{}
	})
}

func dump(v Value, d int) string {
	if d == 0 {
		return "..."
	}
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprint(v.N)
	case *Iface:
		return p.T.String() + "(" + dump(p.V, d-1) + ")"
	case *Value:
		return "&" + dump(*p, d-1)
	case *Agg:
		s := "{"
		for i, e := range p.E {
			if i > 40 {
				s += "..."
				break
			}
			s += dump(e, d-1) + " "
		}
		return s + "}"
	case *Slice:
		s := "["
		for i, e := range p.E {
			if i > 40 {
				s += "..."
				break
			}
			s += dump(e, d-1) + " "
		}
		return s + "]"
	case string:
		return fmt.Sprintf("%q", p)
	case *OpaqueStr:
		return "<" + p.What + ">"
	case *Term:
		return p.show(3)
	}
	return fmt.Sprintf("%T", v.P)
}
