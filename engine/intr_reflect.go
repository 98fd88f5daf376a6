package main

import (
	"go/types"
	"reflect"
	"sort"
)

// reflect.Value is kept as its three-field struct: [type handle, content,
// flags]. With rvAddr set, content is a pointer to the cell.
const (
	rvAddr = 1
	rvRO   = 2
	// fields of unexported embedded structs: their exported fields are free
	rvEmbed = 4
)

func ro(fl uint64) uint64 {
	if fl&(rvRO|rvEmbed) != 0 {
		return rvRO
	}
	return 0
}

func (m *Machine) typeHandle(r *RT) *Value {
	if r.handle == nil {
		r.handle = newCell(Value{P: r})
	}
	return r.handle
}

func (m *Machine) typeIface(r *RT) Value {
	if r == nil {
		return Value{}
	}
	return Value{P: &Iface{T: m.rt(m.prog.rtypePtr), V: Value{P: m.typeHandle(r)}}}
}

func (m *Machine) rtOfIface(v Value) *RT {
	i, ok := v.P.(*Iface)
	if !ok {
		m.goPanicRuntime("nil reflect.Type")
	}
	return m.rtOf(i.V)
}

func (m *Machine) rtOf(v Value) *RT {
	if p, ok := v.P.(*Value); ok {
		if r, ok := p.P.(*RT); ok {
			return r
		}
	}
	m.unsupported("reflect type handle %T", v.P)
	return nil
}

func (m *Machine) mkRV(r *RT, content Value, flags uint64) Value {
	return Value{P: &Agg{[]Value{{P: m.typeHandle(r)}, content, {N: flags}}}}
}

func zeroRV() Value { return Value{P: &Agg{[]Value{{}, {}, {}}}} }

type rval struct {
	r     *RT
	c     Value
	flags uint64
}

func (m *Machine) rv(v Value) rval {
	a := v.P.(*Agg)
	if a.E[0].P == nil {
		m.rtPanic("reflect: call on zero Value")
	}
	return rval{m.rtOf(a.E[0]), a.E[1], a.E[2].N}
}

func (m *Machine) rtPanic(msg string) {
	panic(goPanic{Value{P: &Iface{T: m.rt(m.prog.runtimeErrorType), V: cStr(msg)}}})
}

func (m *Machine) rvGet(x rval) Value {
	if x.flags&rvAddr != 0 {
		if len(m.ss.gos) > 1 {
			m.accessAt(x.c, false)
		}
		return copyVal(*m.asPtr(x.c))
	}
	return x.c
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func typeName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		n := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			n += "["
			for i := 0; i < ta.Len(); i++ {
				if i > 0 {
					n += ","
				}
				n += types.TypeString(ta.At(i), nil)
			}
			n += "]"
		}
		return n
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func pkgPath(t types.Type) string {
	if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
		return x.Obj().Pkg().Path()
	}
	return ""
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (m *Machine) structField(st *types.Struct, i int, index []int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	ix := make([]Value, len(index))
	for k, n := range index {
		ix[k] = cInt(uint64(n))
	}
	// StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
	return Value{P: &Agg{[]Value{cStr(f.Name()), cStr(pkg), m.typeIface(m.rt(f.Type())), cStr(st.Tag(i)), {}, {P: &Slice{ix}}, cBool(f.Anonymous())}}}
}

func (m *Machine) cells(x rval) []Value {
	switch x.r.T.Underlying().(type) {
	case *types.Slice:
		return m.sliceOf(m.rvGetRef(x))
	case *types.Array:
		if x.flags&rvAddr != 0 {
			return m.asPtr(x.c).P.(*Agg).E
		}
		return x.c.P.(*Agg).E
	}
	m.unsupported("reflect cells of %s", x.r)
	return nil
}

// rvGetRef reads without copying (for reference types).
func (m *Machine) rvGetRef(x rval) Value {
	if x.flags&rvAddr != 0 {
		p := m.asPtr(x.c)
		if _, ok := p.P.(*Agg); !ok && len(m.ss.gos) > 1 {
			m.accessAt(x.c, false)
		}
		return *p
	}
	return x.c
}

func (m *Machine) mustSet(x rval) *Value {
	if x.flags&rvAddr == 0 {
		m.rtPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if ro(x.flags) != 0 {
		m.rtPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	if len(m.ss.gos) > 1 {
		m.accessAt(x.c, true)
	}
	return m.asPtr(x.c)
}

// assignTo converts a reflect value for assignment to type t.
func (m *Machine) assignTo(y rval, t types.Type) Value {
	v := m.rvGet(y)
	if types.IsInterface(t) && !types.IsInterface(y.r.T) {
		if !m.implCached(y.r, t) {
			m.rtPanic("reflect.Set: value of type " + y.r.String() + " is not assignable to type " + t.String())
		}
		return Value{P: &Iface{T: y.r, V: v}}
	}
	if !types.AssignableTo(y.r.T, t) {
		m.rtPanic("reflect.Set: value of type " + y.r.String() + " is not assignable to type " + t.String())
	}
	return v
}

func (m *Machine) toIface(x rval) Value {
	v := m.rvGet(x)
	if types.IsInterface(x.r.T) {
		return v
	}
	return Value{P: &Iface{T: x.r, V: v}}
}

func init() {
	T := "(*reflect.rtype)."
	V := "(reflect.Value)."
	L := "internal/reflectlite."
	both := func(names []string, f IntrFn) {
		for _, n := range names {
			reg(n, f)
		}
	}
	typeOf := func(m *Machine, c *callCtx, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return Value{}
		}
		return m.typeIface(i.T)
	}
	reg("reflect.TypeOf", typeOf)
	// reflectlite.rtype is a struct{*abi.Type} value
	liteIface := func(m *Machine, r *RT) Value {
		return Value{P: &Iface{T: m.rt(m.prog.liteRtype), V: Value{P: &Agg{[]Value{{P: m.typeHandle(r)}}}}}}
	}
	reg(L+"TypeOf", func(m *Machine, c *callCtx, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return Value{}
		}
		return liteIface(m, i.T)
	})
	lrt := func(m *Machine, v Value) *RT {
		if ag, ok := v.P.(*Agg); ok {
			return m.rtOf(ag.E[0])
		}
		return m.rtOf(v)
	}
	lT := "(internal/reflectlite.rtype)."
	lV := "(internal/reflectlite.Value)."
	tfun := func(name string, f func(m *Machine, r *RT, a []Value) Value) {
		reg(T+name, func(m *Machine, c *callCtx, a []Value) Value { return f(m, m.rtOf(a[0]), a[1:]) })
		reg(lT+name, func(m *Machine, c *callCtx, a []Value) Value { return f(m, lrt(m, a[0]), a[1:]) })
	}
	tfun("Kind", func(m *Machine, r *RT, a []Value) Value { return cInt(uint64(kindOf(r.T))) })
	tfun("String", func(m *Machine, r *RT, a []Value) Value { return cStr(typeStr(r.T)) })
	tfun("Name", func(m *Machine, r *RT, a []Value) Value { return cStr(typeName(r.T)) })
	tfun("PkgPath", func(m *Machine, r *RT, a []Value) Value { return cStr(pkgPath(r.T)) })
	tfun("Comparable", func(m *Machine, r *RT, a []Value) Value { return cBool(types.Comparable(r.T)) })
	reg(T+"Elem", func(m *Machine, c *callCtx, a []Value) Value {
		e := elemOf(m.rtOf(a[0]).T)
		if e == nil {
			m.rtPanic("reflect: Elem of invalid type " + m.rtOf(a[0]).String())
		}
		return m.typeIface(m.rt(e))
	})
	reg(lT+"Elem", func(m *Machine, c *callCtx, a []Value) Value { return liteIface(m, m.rt(elemOf(lrt(m, a[0]).T))) })
	tfun("Len", func(m *Machine, r *RT, a []Value) Value { return cInt(uint64(r.T.Underlying().(*types.Array).Len())) })
	tfun("NumField", func(m *Machine, r *RT, a []Value) Value {
		return cInt(uint64(r.T.Underlying().(*types.Struct).NumFields()))
	})
	tfun("Size", func(m *Machine, r *RT, a []Value) Value { return cInt(uint64(sizes.Sizeof(r.T))) })
	tfun("Bits", func(m *Machine, r *RT, a []Value) Value { return cInt(uint64(sizes.Sizeof(r.T) * 8)) })
	reg(T+"Key", func(m *Machine, c *callCtx, a []Value) Value {
		return m.typeIface(m.rt(m.rtOf(a[0]).T.Underlying().(*types.Map).Key()))
	})
	reg(T+"Field", func(m *Machine, c *callCtx, a []Value) Value {
		i := int(m.intArg(a[1]))
		return m.structField(m.rtOf(a[0]).T.Underlying().(*types.Struct), i, []int{i})
	})
	reg(T+"FieldByName", func(m *Machine, c *callCtx, a []Value) Value {
		st := m.rtOf(a[0]).T.Underlying().(*types.Struct)
		n := m.goStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Value{P: &Agg{[]Value{m.structField(st, i, []int{i}), cBool(true)}}}
			}
		}
		m.unsupported("reflect FieldByName of promoted or missing field")
		return Value{}
	})
	sig := func(m *Machine, v Value) *types.Signature { return m.rtOf(v).T.Underlying().(*types.Signature) }
	reg(T+"NumIn", func(m *Machine, c *callCtx, a []Value) Value { return cInt(uint64(sig(m, a[0]).Params().Len())) })
	reg(T+"NumOut", func(m *Machine, c *callCtx, a []Value) Value { return cInt(uint64(sig(m, a[0]).Results().Len())) })
	reg(T+"In", func(m *Machine, c *callCtx, a []Value) Value {
		return m.typeIface(m.rt(sig(m, a[0]).Params().At(int(m.intArg(a[1]))).Type()))
	})
	reg(T+"Out", func(m *Machine, c *callCtx, a []Value) Value {
		return m.typeIface(m.rt(sig(m, a[0]).Results().At(int(m.intArg(a[1]))).Type()))
	})
	reg(T+"IsVariadic", func(m *Machine, c *callCtx, a []Value) Value { return cBool(sig(m, a[0]).Variadic()) })
	impl := func(m *Machine, r, u *RT) Value {
		if !types.IsInterface(u.T) {
			m.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return cBool(types.Implements(r.T, u.T.Underlying().(*types.Interface)))
	}
	reg(T+"Implements", func(m *Machine, c *callCtx, a []Value) Value { return impl(m, m.rtOf(a[0]), m.rtOfIface(a[1])) })
	reg(lT+"Implements", func(m *Machine, c *callCtx, a []Value) Value {
		return impl(m, lrt(m, a[0]), lrt(m, a[1].P.(*Iface).V))
	})
	assignable := func(m *Machine, r, u *RT) Value { return cBool(types.AssignableTo(r.T, u.T)) }
	reg(T+"AssignableTo", func(m *Machine, c *callCtx, a []Value) Value {
		return assignable(m, m.rtOf(a[0]), m.rtOfIface(a[1]))
	})
	reg(lT+"AssignableTo", func(m *Machine, c *callCtx, a []Value) Value {
		return assignable(m, lrt(m, a[0]), lrt(m, a[1].P.(*Iface).V))
	})
	reg(T+"ConvertibleTo", func(m *Machine, c *callCtx, a []Value) Value {
		return cBool(types.ConvertibleTo(m.rtOf(a[0]).T, m.rtOfIface(a[1]).T))
	})
	mkType := func(name string, f func(t types.Type) types.Type) {
		reg("reflect."+name, func(m *Machine, c *callCtx, a []Value) Value { return m.typeIface(m.rt(f(m.rtOfIface(a[0]).T))) })
	}
	mkType("PointerTo", func(t types.Type) types.Type { return types.NewPointer(t) })
	mkType("PtrTo", func(t types.Type) types.Type { return types.NewPointer(t) })
	mkType("SliceOf", func(t types.Type) types.Type { return types.NewSlice(t) })
	reg("reflect.MapOf", func(m *Machine, c *callCtx, a []Value) Value {
		return m.typeIface(m.rt(types.NewMap(m.rtOfIface(a[0]).T, m.rtOfIface(a[1]).T)))
	})

	// ---- constructors ----
	valueOf := func(m *Machine, c *callCtx, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return zeroRV()
		}
		return m.mkRV(i.T, i.V, 0)
	}
	both([]string{"reflect.ValueOf", L + "ValueOf"}, valueOf)
	reg("reflect.New", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.rtOfIface(a[0])
		return m.mkRV(m.rt(types.NewPointer(t.T)), Value{P: newCell(m.zero(t.T))}, 0)
	})
	reg("reflect.Zero", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.rtOfIface(a[0])
		return m.mkRV(t, m.zero(t.T), 0)
	})
	reg("reflect.MakeSlice", func(m *Machine, c *callCtx, a []Value) Value {
		t := m.rtOfIface(a[0])
		n, k := m.intArg(a[1]), m.intArg(a[2])
		if n < 0 || k < n || k > 1<<24 {
			m.rtPanic("reflect.MakeSlice: bad length")
		}
		return m.mkRV(t, Value{P: m.makeSlice(elemOf(t.T), int(n), int(k))}, 0)
	})
	mkMap := func(m *Machine, c *callCtx, a []Value) Value {
		return m.mkRV(m.rtOfIface(a[0]), Value{P: m.newMap()}, 0)
	}
	reg("reflect.MakeMap", mkMap)
	reg("reflect.MakeMapWithSize", mkMap)
	reg("reflect.Append", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		el := elemOf(x.r.T)
		var add []Value
		for _, y := range m.sliceOf(a[1]) {
			add = append(add, m.assignTo(m.rv(y), el))
		}
		return m.mkRV(x.r, m.appendTo(x.r.T, m.rvGet(x), Value{P: &Slice{add}}), 0)
	})
	reg("reflect.AppendSlice", func(m *Machine, c *callCtx, a []Value) Value {
		x, y := m.rv(a[0]), m.rv(a[1])
		return m.mkRV(x.r, m.appendTo(x.r.T, m.rvGet(x), m.rvGet(y)), 0)
	})
	reg("reflect.Copy", func(m *Machine, c *callCtx, a []Value) Value {
		x, y := m.rv(a[0]), m.rv(a[1])
		var src []Value
		if kindOf(y.r.T) == reflect.String {
			src = m.strBytes(m.rvGet(y))
		} else {
			src = m.cells(y)
		}
		return cInt(uint64(m.copyCells(m.cells(x), src)))
	})
	elem := func(m *Machine, v Value) Value {
		x := m.rv(v)
		switch u := x.r.T.Underlying().(type) {
		case *types.Pointer:
			p := m.rvGetRef(x)
			if p.P == nil {
				return zeroRV()
			}
			if sp, ok := p.P.(*SymPtr); ok {
				p = Value{P: m.fixPtr(sp)}
			}
			return m.mkRV(m.rt(u.Elem()), p, rvAddr|ro(x.flags))
		case *types.Interface:
			i, _ := m.rvGetRef(x).P.(*Iface)
			if i == nil {
				return zeroRV()
			}
			return m.mkRV(i.T, i.V, ro(x.flags))
		}
		m.rtPanic("reflect: call of reflect.Value.Elem on " + x.r.String() + " Value")
		return Value{}
	}
	both([]string{V + "Elem", lV + "Elem"}, func(m *Machine, c *callCtx, a []Value) Value { return elem(m, a[0]) })
	reg("reflect.Indirect", func(m *Machine, c *callCtx, a []Value) Value {
		if a[0].P.(*Agg).E[0].P == nil {
			return a[0]
		}
		if kindOf(m.rv(a[0]).r.T) != reflect.Ptr {
			return a[0]
		}
		return elem(m, a[0])
	})
	both([]string{V + "Kind", lV + "Kind"}, func(m *Machine, c *callCtx, a []Value) Value {
		if a[0].P.(*Agg).E[0].P == nil {
			return cInt(0)
		}
		return cInt(uint64(kindOf(m.rv(a[0]).r.T)))
	})
	reg(V+"Type", func(m *Machine, c *callCtx, a []Value) Value { return m.typeIface(m.rv(a[0]).r) })
	reg(lV+"Type", func(m *Machine, c *callCtx, a []Value) Value { return liteIface(m, m.rv(a[0]).r) })
	reg(V+"IsValid", func(m *Machine, c *callCtx, a []Value) Value { return cBool(a[0].P.(*Agg).E[0].P != nil) })
	both([]string{V + "IsNil", lV + "IsNil"}, func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		switch kindOf(x.r.T) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return cBool(m.rvGetRef(x).P == nil)
		}
		m.rtPanic("reflect: call of reflect.Value.IsNil on " + x.r.String() + " Value")
		return Value{}
	})
	reg(V+"IsZero", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		if !types.Comparable(x.r.T) {
			v := m.rvGetRef(x)
			if _, ok := v.P.(*Agg); !ok {
				return cBool(v.P == nil)
			}
			m.unsupported("reflect IsZero of %s", x.r)
		}
		if types.IsInterface(x.r.T) {
			return cBool(m.rvGetRef(x).P == nil)
		}
		if st, ok := x.r.T.Underlying().(*types.Struct); ok {
			r := m.tb.True
			ag := m.rvGet(x).P.(*Agg)
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				if types.IsInterface(ft) {
					r = m.tb.And(r, m.tb.Bool(ag.E[i].P == nil))
				} else {
					r = m.tb.And(r, m.eq(ft, ag.E[i], m.zero(ft)))
				}
			}
			return tv(r)
		}
		return tv(m.eq(x.r.T, m.rvGet(x), m.zero(x.r.T)))
	})
	reg(V+"CanAddr", func(m *Machine, c *callCtx, a []Value) Value { return cBool(m.rv(a[0]).flags&rvAddr != 0) })
	reg(V+"CanSet", func(m *Machine, c *callCtx, a []Value) Value {
		return cBool(a[0].P.(*Agg).E[0].P != nil && m.rv(a[0]).flags&(rvAddr|rvRO|rvEmbed) == rvAddr)
	})
	reg(V+"CanInterface", func(m *Machine, c *callCtx, a []Value) Value { return cBool(ro(m.rv(a[0]).flags) == 0) })
	reg(V+"Addr", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		if x.flags&rvAddr == 0 {
			m.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return m.mkRV(m.rt(types.NewPointer(x.r.T)), x.c, ro(x.flags))
	})
	reg(V+"Interface", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		if ro(x.flags) != 0 {
			m.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.toIface(x)
	})
	both([]string{V + "Len", lV + "Len"}, func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		switch kindOf(x.r.T) {
		case reflect.String:
			return cInt(uint64(m.strLen(m.rvGetRef(x))))
		case reflect.Map:
			mp, _ := m.rvGetRef(x).P.(*Map)
			if mp == nil {
				return cInt(0)
			}
			return cInt(uint64(mp.n))
		case reflect.Slice, reflect.Array:
			return cInt(uint64(len(m.cells(x))))
		case reflect.Ptr:
			if at, ok := elemOf(x.r.T).Underlying().(*types.Array); ok {
				return cInt(uint64(at.Len()))
			}
		}
		m.rtPanic("reflect: call of reflect.Value.Len on " + x.r.String() + " Value")
		return Value{}
	})
	reg(V+"Cap", func(m *Machine, c *callCtx, a []Value) Value { return cInt(uint64(cap(m.cells(m.rv(a[0]))))) })
	reg(V+"NumField", func(m *Machine, c *callCtx, a []Value) Value {
		return cInt(uint64(m.rv(a[0]).r.T.Underlying().(*types.Struct).NumFields()))
	})
	field := func(m *Machine, x rval, i int) Value {
		st, ok := x.r.T.Underlying().(*types.Struct)
		if !ok {
			m.rtPanic("reflect: call of reflect.Value.Field on " + x.r.String() + " Value")
		}
		f := st.Field(i)
		fl := x.flags &^ rvEmbed
		if !f.Exported() {
			if f.Embedded() {
				fl |= rvEmbed
			} else {
				fl |= rvRO
			}
		}
		if x.flags&rvAddr != 0 {
			ag := m.asPtr(x.c).P.(*Agg)
			return m.mkRV(m.rt(f.Type()), Value{P: &ag.E[i]}, fl)
		}
		return m.mkRV(m.rt(f.Type()), x.c.P.(*Agg).E[i], fl)
	}
	reg(V+"Field", func(m *Machine, c *callCtx, a []Value) Value { return field(m, m.rv(a[0]), int(m.intArg(a[1]))) })
	reg(V+"FieldByName", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		st := x.r.T.Underlying().(*types.Struct)
		n := m.goStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(m, x, i)
			}
		}
		return zeroRV()
	})
	reg(V+"Index", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		i := m.intArg(a[1])
		if kindOf(x.r.T) == reflect.String {
			b := m.strBytes(m.rvGetRef(x))
			return m.mkRV(m.rt(types.Typ[types.Uint8]), b[i], 0)
		}
		cs := m.cells(x)
		if i < 0 || i >= int64(len(cs)) {
			m.rtPanic("reflect: slice index out of range")
		}
		fl := ro(x.flags)
		if kindOf(x.r.T) == reflect.Slice || x.flags&rvAddr != 0 {
			return m.mkRV(m.rt(elemOf(x.r.T)), Value{P: &cs[i]}, fl|rvAddr)
		}
		return m.mkRV(m.rt(elemOf(x.r.T)), cs[i], fl)
	})
	reg(V+"Slice", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		i, j := m.intArg(a[1]), m.intArg(a[2])
		if kindOf(x.r.T) == reflect.String {
			return m.mkRV(x.r, mkStr(m.strBytes(m.rvGetRef(x))[i:j]), 0)
		}
		cs := m.cells(x)
		if i < 0 || j < i || j > int64(cap(cs)) {
			m.rtPanic("reflect.Value.Slice: slice index out of bounds")
		}
		t := x.r
		if at, ok := x.r.T.Underlying().(*types.Array); ok {
			if x.flags&rvAddr == 0 {
				m.rtPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			t = m.rt(types.NewSlice(at.Elem()))
		}
		return m.mkRV(t, Value{P: &Slice{cs[i:j]}}, 0)
	})
	reg(V+"Set", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		p := m.mustSet(x)
		m.store(p, m.assignTo(m.rv(a[1]), x.r.T))
		return Value{}
	})
	reg(lV+"Set", intrinsics[V+"Set"].fn)
	setN := func(name string) {
		reg(V+name, func(m *Machine, c *callCtx, a []Value) Value {
			x := m.rv(a[0])
			p := m.mustSet(x)
			_, w, _ := classify(x.r.T)
			m.store(p, m.convInt(a[1], 64, true, w))
			return Value{}
		})
	}
	setN("SetInt")
	setN("SetUint")
	reg(V+"SetBool", func(m *Machine, c *callCtx, a []Value) Value { m.store(m.mustSet(m.rv(a[0])), a[1]); return Value{} })
	reg(V+"SetString", func(m *Machine, c *callCtx, a []Value) Value { m.store(m.mustSet(m.rv(a[0])), a[1]); return Value{} })
	reg(V+"SetBytes", func(m *Machine, c *callCtx, a []Value) Value { m.store(m.mustSet(m.rv(a[0])), a[1]); return Value{} })
	reg(V+"SetFloat", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		m.store(m.mustSet(x), m.convert(types.Typ[types.Float64], x.r.T, a[1]))
		return Value{}
	})
	reg(V+"SetLen", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		p := m.mustSet(x)
		m.store(p, Value{P: &Slice{m.sliceOf(*p)[:m.intArg(a[1])]}})
		return Value{}
	})
	getN := func(name string) {
		reg(V+name, func(m *Machine, c *callCtx, a []Value) Value {
			x := m.rv(a[0])
			nc, w, s := classify(x.r.T)
			if nc != ncInt || s != (name == "Int") {
				m.rtPanic("reflect: call of reflect.Value." + name + " on " + x.r.String() + " Value")
			}
			return m.convInt(m.rvGet(x), w, s, 64)
		})
	}
	getN("Int")
	getN("Uint")
	reg(V+"Bool", func(m *Machine, c *callCtx, a []Value) Value { return m.rvGet(m.rv(a[0])) })
	reg(V+"Float", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		return m.convert(x.r.T, types.Typ[types.Float64], m.rvGet(x))
	})
	reg(V+"String", func(m *Machine, c *callCtx, a []Value) Value {
		if a[0].P.(*Agg).E[0].P == nil {
			return cStr("<invalid Value>")
		}
		x := m.rv(a[0])
		if kindOf(x.r.T) == reflect.String {
			return m.rvGet(x)
		}
		return cStr("<" + typeStr(x.r.T) + " Value>")
	})
	reg(V+"Bytes", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		if at, ok := x.r.T.Underlying().(*types.Array); ok {
			if scalarWidth(at.Elem()) != 8 {
				m.rtPanic("reflect.Value.Bytes of non-byte array")
			}
			if x.flags&rvAddr == 0 {
				m.rtPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			cs := m.cells(x)
			return Value{P: &Slice{cs[:len(cs):len(cs)]}}
		}
		if scalarWidth(elemOf(x.r.T)) != 8 {
			m.rtPanic("reflect.Value.Bytes of non-byte slice")
		}
		return m.rvGetRef(x)
	})
	reg(V+"Convert", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		t := m.rtOfIface(a[1])
		v := m.rvGet(x)
		if !types.ConvertibleTo(x.r.T, t.T) {
			m.rtPanic("reflect.Value.Convert: value of type " + x.r.String() + " cannot be converted to type " + t.String())
		}
		if types.IsInterface(t.T) {
			if types.IsInterface(x.r.T) {
				return m.mkRV(t, v, 0)
			}
			return m.mkRV(t, Value{P: &Iface{T: x.r, V: v}}, 0)
		}
		if types.Identical(x.r.T.Underlying(), t.T.Underlying()) {
			return m.mkRV(t, v, ro(x.flags))
		}
		if _, ok := x.r.T.Underlying().(*types.Pointer); ok {
			return m.mkRV(t, v, ro(x.flags))
		}
		return m.mkRV(t, m.convert(x.r.T, t.T, v), ro(x.flags))
	})
	reg(V+"MapIndex", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		mt := x.r.T.Underlying().(*types.Map)
		mp, _ := m.rvGetRef(x).P.(*Map)
		e := m.mapFind(mt.Key(), mp, m.assignTo(m.rv(a[1]), mt.Key()))
		if e == nil {
			return zeroRV()
		}
		return m.mkRV(m.rt(mt.Elem()), copyVal(e.V), 0)
	})
	reg(V+"SetMapIndex", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		mt := x.r.T.Underlying().(*types.Map)
		mp, _ := m.rvGetRef(x).P.(*Map)
		k := m.assignTo(m.rv(a[1]), mt.Key())
		if a[2].P.(*Agg).E[0].P == nil {
			m.mapDelete(mt.Key(), mp, k)
			return Value{}
		}
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapSet(mt.Key(), mp, k, m.assignTo(m.rv(a[2]), mt.Elem()))
		return Value{}
	})
	reg(V+"MapKeys", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		mt := x.r.T.Underlying().(*types.Map)
		mp, _ := m.rvGetRef(x).P.(*Map)
		var out []Value
		if mp != nil {
			for _, e := range mp.ents {
				if e.live {
					out = append(out, m.mkRV(m.rt(mt.Key()), copyVal(e.K), 0))
				}
			}
		}
		return Value{P: &Slice{out}}
	})
	// MapIter{m Value, hiter}: position kept in a side object in cell 1
	reg(V+"MapRange", func(m *Machine, c *callCtx, a []Value) Value {
		it := m.zero(m.prog.mapIter)
		it.P.(*Agg).E[0] = a[0]
		it.P.(*Agg).E[1] = Value{P: &Opaque{What: "map iterator", X: -1}}
		return Value{P: newCell(it)}
	})
	iter := func(m *Machine, v Value) (*Agg, rval, int) {
		ag := m.asPtr(v).P.(*Agg)
		return ag, m.rv(ag.E[0]), ag.E[1].P.(*Opaque).X.(int)
	}
	reg("(*reflect.MapIter).Next", func(m *Machine, c *callCtx, a []Value) Value {
		ag, x, pos := iter(m, a[0])
		mp, _ := m.rvGetRef(x).P.(*Map)
		if mp == nil {
			return cBool(false)
		}
		for pos++; pos < len(mp.ents); pos++ {
			if mp.ents[pos].live {
				break
			}
		}
		m.store(&ag.E[1], Value{P: &Opaque{What: "map iterator", X: pos}})
		return cBool(pos < len(mp.ents))
	})
	reg("(*reflect.MapIter).Key", func(m *Machine, c *callCtx, a []Value) Value {
		_, x, pos := iter(m, a[0])
		mp := m.rvGetRef(x).P.(*Map)
		return m.mkRV(m.rt(x.r.T.Underlying().(*types.Map).Key()), copyVal(mp.ents[pos].K), 0)
	})
	reg("(*reflect.MapIter).Value", func(m *Machine, c *callCtx, a []Value) Value {
		_, x, pos := iter(m, a[0])
		mp := m.rvGetRef(x).P.(*Map)
		return m.mkRV(m.rt(x.r.T.Underlying().(*types.Map).Elem()), copyVal(mp.ents[pos].V), 0)
	})
	regTail(V+"Call", func(m *Machine, c *callCtx, a []Value) Value {
		x := m.rv(a[0])
		s := x.r.T.Underlying().(*types.Signature)
		var args []Value
		in := m.sliceOf(a[1])
		if s.Variadic() {
			m.unsupported("reflect call of variadic function")
		}
		if len(in) != s.Params().Len() {
			m.rtPanic("reflect: Call with wrong argument count")
		}
		for i, y := range in {
			args = append(args, m.assignTo(m.rv(y), s.Params().At(i).Type()))
		}
		wrap := func(m *Machine, r Value) Value {
			n := s.Results().Len()
			out := make([]Value, n)
			for i := range out {
				v := r
				if n > 1 {
					v = r.P.(*Agg).E[i]
				}
				out[i] = m.mkRV(m.rt(s.Results().At(i).Type()), v, 0)
			}
			return Value{P: &Slice{out}}
		}
		f, ok := m.rvGetRef(x).P.(*Closure)
		if !ok {
			m.rtPanic("reflect: call of nil function")
		}
		v, pushed := m.invoke(c.fr, f, args)
		if pushed {
			m.frames[len(m.frames)-1].post = wrap
			return Value{}
		}
		return wrap(m, v)
	})
	reg(V+"Pointer", func(m *Machine, c *callCtx, a []Value) Value {
		m.unsupported("reflect.Value.Pointer")
		return Value{}
	})
	swapper := func(m *Machine, c *callCtx, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			m.rtPanic("Swapper of nil")
		}
		cs := m.sliceOf(i.V)
		return Value{P: &Closure{Intr: &Intrinsic{name: "swap", fn: func(m *Machine, c *callCtx, a []Value) Value {
			x, y := m.intArg(a[0]), m.intArg(a[1])
			p, q := copyVal(cs[x]), copyVal(cs[y])
			m.store(&cs[x], q)
			m.store(&cs[y], p)
			return Value{}
		}}}}
	}
	both([]string{"reflect.Swapper", L + "Swapper"}, swapper)
	reg("reflect.DeepEqual", func(m *Machine, c *callCtx, a []Value) Value {
		x, _ := a[0].P.(*Iface)
		y, _ := a[1].P.(*Iface)
		if x == nil || y == nil {
			return cBool(x == nil && y == nil)
		}
		if x.T != y.T {
			return cBool(false)
		}
		return tv(m.deepEq(x.T.T, x.V, y.V, 0))
	})
}

// deepEq is reflect.DeepEqual as a term.
func (m *Machine) deepEq(t types.Type, a, b Value, depth int) *Term {
	tb := m.tb
	if depth > 60 {
		m.unsupported("DeepEqual depth")
	}
	if tn := typeStr(t); tn == "big.Int" {
		g := func(v Value) *Term {
			if x, ok := v.P.(*Agg).E[0].P.(*Term); ok {
				return x
			}
			return tb.Const(bigW, 0)
		}
		return tb.Eq(g(a), g(b))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a.P == b.P {
			return tb.True
		}
		if a.P == nil || b.P == nil {
			return tb.False
		}
		return m.deepEq(u.Elem(), *m.asPtr(a), *m.asPtr(b), depth+1)
	case *types.Slice:
		if (a.P == nil) != (b.P == nil) {
			return tb.False
		}
		x, y := m.sliceOf(a), m.sliceOf(b)
		if len(x) != len(y) {
			return tb.False
		}
		if scalarWidth(u.Elem()) == 8 {
			return m.arrEq(u.Elem(), x, y)
		}
		r := tb.True
		for i := range x {
			r = tb.And(r, m.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.P.(*Agg).E, b.P.(*Agg).E
		if scalarWidth(u.Elem()) == 8 {
			return m.arrEq(u.Elem(), x, y)
		}
		r := tb.True
		for i := range x {
			r = tb.And(r, m.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.P.(*Agg).E, b.P.(*Agg).E
		r := tb.True
		for i := range x {
			r = tb.And(r, m.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
			if r == tb.False {
				return r
			}
		}
		return r
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return tb.Bool(x == nil && y == nil)
		}
		if x.T != y.T {
			return tb.False
		}
		return m.deepEq(x.T.T, x.V, y.V, depth+1)
	case *types.Map:
		x, _ := a.P.(*Map)
		y, _ := b.P.(*Map)
		if x == nil || y == nil {
			return tb.Bool((x == nil) == (y == nil))
		}
		if x.n != y.n {
			return tb.False
		}
		r := tb.True
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			f := m.mapFind(u.Key(), y, e.K)
			if f == nil {
				return tb.False
			}
			r = tb.And(r, m.deepEq(u.Elem(), e.V, f.V, depth+1))
		}
		return r
	case *types.Signature:
		return tb.Bool(a.P == nil && b.P == nil)
	}
	return m.eq(t, a, b)
}

var _ = sort.Strings
