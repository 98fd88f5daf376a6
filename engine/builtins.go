package main

import (
	"go/types"
	"reflect"
)

func (m *Machine) builtin(fr *Frame, name string, cs *callSite, args []Value, in *Instr) Value {
	tb := m.tb
	switch name {
	case "len":
		switch x := args[0].P.(type) {
		case *Chan:
			return cInt(uint64(len(x.buf)))
		case *Slice:
			return cInt(uint64(len(x.E)))
		case *Lazy:
			if x.s != nil {
				return cInt(uint64(len(x.s.E)))
			}
			return tv(x.n)
		case *Map:
			return cInt(uint64(x.n))
		case *Agg:
			return cInt(uint64(len(x.E)))
		case *Value:
			return cInt(uint64(len(x.P.(*Agg).E)))
		case nil:
			return cInt(0)
		case *OpaqueStr:
			m.unsupported("length of formatted text (%s)", x.What)
		}
		return cInt(uint64(m.strLen(args[0])))
	case "cap":
		switch x := args[0].P.(type) {
		case *Lazy:
			return cInt(uint64(cap(m.sliceOf(args[0]))))
		case *Slice:
			return cInt(uint64(cap(x.E)))
		case *Agg:
			return cInt(uint64(len(x.E)))
		case *Value:
			return cInt(uint64(len(x.P.(*Agg).E)))
		case nil:
			return cInt(0)
		}
	case "append":
		return m.appendTo(cs.argT[0], args[0], args[1])
	case "copy":
		dst := m.sliceOf(args[0])
		var src []Value
		if _, ok := cs.argT[1].Underlying().(*types.Basic); ok {
			src = m.strBytes(args[1])
		} else {
			src = m.sliceOf(args[1])
		}
		return cInt(uint64(m.copyCells(dst, src)))
	case "delete":
		mp, _ := args[0].P.(*Map)
		mt := cs.argT[0].Underlying().(*types.Map)
		if len(m.ss.gos) > 1 {
			m.accessMap(args[0], true)
		}
		m.mapDelete(mt.Key(), mp, args[1])
		return Value{}
	case "clear":
		switch x := args[0].P.(type) {
		case nil:
		case *Map:
			old := *x
			*x = Map{index: map[string]int{}, id: old.id}
			m.undoFn(func() { *x = old })
		case *Slice:
			el := cs.argT[0].Underlying().(*types.Slice).Elem()
			for i := range x.E {
				m.store(&x.E[i], m.zero(el))
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		return m.recover(fr)
	case "min", "max":
		t := cs.argT[0]
		nc, w, signed := classify(t)
		if nc != ncInt {
			if nc == ncFloat {
				b := t.Underlying().(*types.Basic)
				r := m.floatOf(args[0], b)
				for _, a := range args[1:] {
					f := m.floatOf(a, b)
					if name == "min" {
						r = min(r, f)
					} else {
						r = max(r, f)
					}
				}
				return mkFloat(r, b)
			}
			m.unsupported("%s on %v", name, t)
		}
		r := m.term(args[0], w)
		for _, a := range args[1:] {
			x := m.term(a, w)
			var lt *Term
			if signed {
				lt = tb.Slt(x, r)
			} else {
				lt = tb.Ult(x, r)
			}
			if name == "max" {
				if signed {
					lt = tb.Slt(r, x)
				} else {
					lt = tb.Ult(r, x)
				}
			}
			r = tb.Ite(lt, x, r)
		}
		return tv(r)
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			m.goPanicRuntime("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Value{P: &Opaque{What: "defer stack"}}
	case "close":
		m.closeChan(args[0])
		return Value{}
	case "StringData", "SliceData":
		return Value{P: &Opaque{What: "data pointer", X: args[0]}}
	case "String":
		if o, ok := args[0].P.(*Opaque); ok && o.What == "data pointer" {
			v := o.X.(Value)
			n := m.intArg(args[1])
			if s, ok := v.P.(*Slice); ok {
				return mkStr(s.E[:n])
			}
		}
		if args[0].P == nil {
			return Value{}
		}
	case "Slice":
		if o, ok := args[0].P.(*Opaque); ok && o.What == "data pointer" {
			v := o.X.(Value)
			n := m.intArg(args[1])
			b := m.strBytes(v)
			e := make([]Value, n)
			copy(e, b[:n])
			return Value{P: &Slice{e}}
		}
	}
	m.unsupported("builtin %s", name)
	return Value{}
}

// copyCells copies like the Go builtin (overlap safe).
func (m *Machine) copyCells(dst, src []Value) int {
	n := min(len(dst), len(src))
	if n == 0 {
		return 0
	}
	m.accessCells(src[:n], false)
	m.accessCells(dst[:n], true)
	if &dst[0] == &src[0] {
		return n
	}
	tmp := make([]Value, n)
	for i := 0; i < n; i++ {
		tmp[i] = copyVal(src[i])
	}
	for i := 0; i < n; i++ {
		m.store(&dst[i], tmp[i])
	}
	return n
}

var sizes = types.SizesFor("gc", "amd64")

// growCap mirrors the capacity chosen by the Go runtime.
func (m *Machine) growCap(elem types.Type, oldCap, newLen int) int {
	sz := int(sizes.Sizeof(elem))
	if sz == 0 {
		return newLen
	}
	k := [3]int{sz, oldCap, newLen}
	if c, ok := m.growCache[k]; ok {
		return c
	}
	et := reflect.ArrayOf(sz, reflect.TypeOf(byte(0)))
	s := reflect.MakeSlice(reflect.SliceOf(et), oldCap, oldCap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(et), newLen-oldCap, newLen-oldCap))
	c := s.Cap()
	m.growCache[k] = c
	return c
}

func (m *Machine) appendTo(st types.Type, a, b Value) Value {
	elem := st.Underlying().(*types.Slice).Elem()
	old := m.sliceOf(a)
	var add []Value
	switch b.P.(type) {
	case nil:
	case *Slice, *Lazy:
		add = m.sliceOf(b)
	default:
		add = m.strBytes(b)
	}
	if len(add) == 0 {
		return a
	}
	n := len(old) + len(add)
	m.accessCells(add, false)
	if n <= cap(old) {
		e := old[:n]
		m.accessCells(e[len(old):], true)
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			m.store(&e[len(old)+i], tmp[i])
		}
		return Value{P: &Slice{e}}
	}
	m.accessCells(old, false)
	c := m.growCap(elem, cap(old), n)
	e := make([]Value, n, c)
	for i := range old {
		e[i] = copyVal(old[i])
	}
	for i := range add {
		e[len(old)+i] = copyVal(add[i])
	}
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		full := e[:c]
		for i := n; i < c; i++ {
			full[i] = m.zero(elem)
		}
	}
	return Value{P: &Slice{e}}
}

func (m *Machine) recover(fr *Frame) Value {
	n := len(m.frames)
	if n < 2 || !fr.isDefer || m.frames[n-1] != fr {
		return Value{}
	}
	up := m.frames[n-2]
	if up.mode != mPanicking || up.pan == nil || up.pan.recovered {
		return Value{}
	}
	up.pan.recovered = true
	return up.pan.val
}
