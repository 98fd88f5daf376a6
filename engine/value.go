package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is any Go value of the interpreted program.
//   - concrete scalars (bool, integers, floats as bits): P == nil, N
//   - symbolic scalars: P is *Term
//   - nil pointers, slices, maps, functions, interfaces: P == nil
//   - strings: P is string (nil for ""), *SymStr or *OpaqueStr
//   - pointers: *Value or *SymPtr
//   - structs, arrays, tuples: *Agg
//   - slices: *Slice, maps: *Map, interfaces: *Iface, functions: *Closure
type Value struct {
	N uint64
	P any
}

type Agg struct{ E []Value }

type Slice struct{ E []Value }

// Lazy is a byte slice made with a symbolic size; the size is fixed on first use.
type Lazy struct {
	n *Term
	s *Slice
}

type Iface struct {
	T *RT
	V Value
}

type Closure struct {
	Fn   *ssa.Function
	Free []Value
	Intr *Intrinsic // engine-made functions (bound natively)
	Data any
}

type SymStr struct{ B []Value }

// OpaqueStr is text produced by formatting; its content is not modelled.
type OpaqueStr struct{ What string }

// SymPtr points at one of several cells, selected by idx (0..len-1).
type SymPtr struct {
	E   []Value
	Idx *Term
}

type mapEnt struct {
	K, V Value
	live bool
}

// Map is an insertion ordered association list with an index of concrete keys.
type Map struct {
	ents  []*mapEnt
	index map[string]int // concrete key text -> position
	nsym  int            // live entries with symbolic keys
	n     int            // live entries
	id    int
}

type MapIter struct {
	m     *Map
	str   []Value // for strings: bytes
	isStr bool
	pos   int
	left  []int // permutation mode: positions not yet visited
	perm  bool
}

// Opaque is a handle for a host object with no interpreted structure.
type Opaque struct {
	What string
	X    any
}

func cInt(n uint64) Value { return Value{N: n} }
func cBool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func cStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func tv(t *Term) Value {
	if t.op == OConst && t.w <= 64 {
		return Value{N: t.k}
	}
	return Value{P: t}
}

func (v Value) isSym() bool { _, ok := v.P.(*Term); return ok }

// term turns a scalar into a term of the given width (0: bool).
func (m *Machine) term(v Value, w uint16) *Term {
	if t, ok := v.P.(*Term); ok {
		if t.w != w {
			panic(fmt.Sprintf("term width %d, want %d", t.w, w))
		}
		return t
	}
	if v.P != nil {
		m.unsupported("scalar expected, have %T", v.P)
	}
	return m.tb.Const(w, v.N)
}

// copyVal copies aggregates deeply so that the result shares no cells.
func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		e := make([]Value, len(a.E))
		for i := range e {
			if _, ok := a.E[i].P.(*Agg); ok {
				e[i] = copyVal(a.E[i])
			} else {
				e[i] = a.E[i]
			}
		}
		return Value{P: &Agg{e}}
	}
	return v
}

// store writes v to cell p, keeping the identity of nested cells.
func (m *Machine) store(p *Value, v Value) {
	if a, ok := v.P.(*Agg); ok {
		if d, ok := p.P.(*Agg); ok && len(d.E) == len(a.E) {
			if d == a {
				return
			}
			for i := range a.E {
				m.store(&d.E[i], a.E[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.logging {
		m.trail = append(m.trail, undo{p: p, old: *p})
	}
	*p = v
}

// assume that an Agg never replaces a non-Agg cell except at initialisation.

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		e := make([]Value, u.NumFields())
		for i := range e {
			e[i] = m.zero(u.Field(i).Type())
		}
		return Value{P: &Agg{e}}
	case *types.Array:
		e := make([]Value, u.Len())
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range e {
				e[i] = m.zero(u.Elem())
			}
		}
		return Value{P: &Agg{e}}
	case *types.Tuple:
		e := make([]Value, u.Len())
		for i := range e {
			e[i] = m.zero(u.At(i).Type())
		}
		return Value{P: &Agg{e}}
	}
	return Value{}
}

func newCell(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

// RT is a canonical runtime type.
type RT struct {
	T          types.Type
	id         int
	methods    map[string]*ssa.Function
	handle     *Value // identity used for reflect.Type pointers
	name       string
	eqNo       int8 // 0 unknown, 1 comparable, 2 not
	namedBasic bool
}

func (m *Machine) rt(t types.Type) *RT {
	if r, ok := m.rtByPtr[t]; ok {
		return r
	}
	t2 := types.Unalias(t)
	if x := m.rtMap.At(t2); x != nil {
		r := x.(*RT)
		m.rtByPtr[t] = r
		return r
	}
	r := &RT{T: t2, id: len(m.rts), methods: map[string]*ssa.Function{}}
	m.rts = append(m.rts, r)
	m.rtMap.Set(t2, r)
	m.rtByPtr[t] = r
	return r
}

func (r *RT) String() string {
	if r.name == "" {
		r.name = types.TypeString(r.T, nil)
	}
	return r.name
}

// ---- equality ----

// eq returns the (possibly symbolic) equality of two values of one type.
func (m *Machine) eq(t types.Type, a, b Value) *Term {
	tb := m.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return m.strEq(a, b)
		case u.Info()&types.IsFloat != 0:
			if a.isSym() || b.isSym() {
				m.unsupported("symbolic float comparison")
			}
			return tb.Bool(m.floatOf(a, u) == m.floatOf(b, u))
		case u.Kind() == types.UnsafePointer:
			return tb.Bool(a.P == b.P)
		case u.Info()&types.IsComplex != 0:
			m.unsupported("complex")
		}
		if a.P == nil && b.P == nil {
			return tb.Bool(a.N == b.N)
		}
		w := widthOf(u)
		return tb.Eq(m.term(a, w), m.term(b, w))
	case *types.Pointer:
		return m.ptrEq(a, b)
	case *types.Struct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := tb.True
		for i := range x.E {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tb.And(r, m.eq(u.Field(i).Type(), x.E[i], y.E[i]))
			if r == tb.False {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		return m.arrEq(u.Elem(), x.E, y.E)
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return tb.Bool(x == nil && y == nil)
		}
		if x.T != y.T {
			return tb.False
		}
		if !types.Comparable(x.T.T) {
			m.goPanicRuntime("comparing uncomparable type " + x.T.String())
		}
		return m.eq(x.T.T, x.V, y.V)
	case *types.Chan:
		return tb.Bool(a.P == b.P)
	case *types.Signature, *types.Slice, *types.Map:
		// only comparison with nil is legal
		return tb.Bool(a.P == nil && b.P == nil)
	case *types.TypeParam:
		m.unsupported("type param eq")
	}
	m.unsupported("eq on %v", t)
	return nil
}

func (m *Machine) ptrEq(a, b Value) *Term {
	if x, ok := a.P.(*SymPtr); ok {
		if y, ok := b.P.(*SymPtr); ok && x == y {
			return m.tb.True
		}
		m.unsupported("symbolic pointer comparison")
	}
	if _, ok := b.P.(*SymPtr); ok {
		m.unsupported("symbolic pointer comparison")
	}
	return m.tb.Bool(a.P == b.P)
}

// wide concatenates the bytes of a byte-like cell list into one term.
func (m *Machine) wide(e []Value) *Term {
	tb := m.tb
	var r *Term
	for i := len(e) - 1; i >= 0; i-- {
		t := m.term(e[i], 8)
		if r == nil {
			r = t
		} else {
			r = tb.Concat(t, r)
		}
	}
	return r
}

func (m *Machine) arrEq(el types.Type, x, y []Value) *Term {
	tb := m.tb
	if len(x) == 0 {
		return tb.True
	}
	if w := scalarWidth(el); w == 8 {
		sym := false
		for i := range x {
			xs, ys := x[i].P != nil, y[i].P != nil
			if !xs && !ys {
				if x[i].N != y[i].N {
					return tb.False
				}
			} else {
				sym = true
			}
		}
		if !sym {
			return tb.True
		}
		return tb.Eq(m.wide(x), m.wide(y))
	}
	r := tb.True
	for i := range x {
		r = tb.And(r, m.eq(el, x[i], y[i]))
		if r == tb.False {
			return r
		}
	}
	return r
}

// scalarWidth is the bit width of an integer type, 0 when not an integer.
func scalarWidth(t types.Type) uint16 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return widthOf(b)
	}
	return 0
}

func widthOf(b *types.Basic) uint16 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Float32:
		return 32
	}
	return 64
}

func isSigned(b *types.Basic) bool {
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// ---- strings ----

func (m *Machine) strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := range out {
			out[i].N = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.B
	case *OpaqueStr:
		m.unsupported("content of formatted text (%s)", s.What)
	}
	m.unsupported("string expected, have %T", v.P)
	return nil
}

// mkStr builds a string from byte cells (copying).
func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].P != nil {
			c := make([]Value, len(b))
			copy(c, b)
			return Value{P: &SymStr{c}}
		}
	}
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(b[i].N)
	}
	return Value{P: string(s)}
}

func (m *Machine) strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	case *OpaqueStr:
		m.unsupported("length of formatted text (%s)", s.What)
	}
	m.unsupported("string expected, have %T", v.P)
	return 0
}

func (m *Machine) goStr(v Value) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *OpaqueStr:
		m.unsupported("content of formatted text (%s)", s.What)
	case *SymStr:
		m.unsupported("symbolic string used concretely")
	}
	m.unsupported("string expected, have %T", v.P)
	return ""
}

func (m *Machine) strEq(a, b Value) *Term {
	if x, ok := a.P.(string); ok {
		if y, ok := b.P.(string); ok {
			return m.tb.Bool(x == y)
		}
	}
	if a.P == nil && b.P == nil {
		return m.tb.True
	}
	if _, ok := a.P.(*OpaqueStr); ok && b.P == nil {
		return m.tb.False
	}
	if _, ok := b.P.(*OpaqueStr); ok && a.P == nil {
		return m.tb.False
	}
	if m.strLen(a) != m.strLen(b) {
		return m.tb.False
	}
	x, y := m.strBytes(a), m.strBytes(b)
	return m.arrEq(types.Typ[types.Uint8], x, y)
}

// keyText is a canonical text for fully concrete map keys; ok is false when
// the key has symbolic parts.
func (m *Machine) keyText(buf []byte, t types.Type, v Value) ([]byte, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch s := v.P.(type) {
			case nil:
				return append(buf, "0:"...), true
			case string:
				buf = fmt.Appendf(buf, "%d:", len(s))
				return append(buf, s...), true
			case *OpaqueStr:
				m.unsupported("formatted text as map key (%s)", s.What)
			}
			return nil, false
		}
		if v.P != nil {
			if u.Kind() == types.UnsafePointer {
				return fmt.Appendf(buf, "%p,", v.P), true
			}
			return nil, false
		}
		return fmt.Appendf(buf, "%x,", v.N), true
	case *types.Struct:
		a := v.P.(*Agg)
		ok := true
		for i := range a.E {
			if buf, ok = m.keyText(buf, u.Field(i).Type(), a.E[i]); !ok {
				return nil, false
			}
		}
		return buf, true
	case *types.Array:
		a := v.P.(*Agg)
		if scalarWidth(u.Elem()) == 8 {
			for i := range a.E {
				if a.E[i].P != nil {
					return nil, false
				}
				buf = append(buf, byte(a.E[i].N))
			}
			return buf, true
		}
		ok := true
		for i := range a.E {
			if buf, ok = m.keyText(buf, u.Elem(), a.E[i]); !ok {
				return nil, false
			}
		}
		return buf, true
	case *types.Interface:
		x, _ := v.P.(*Iface)
		if x == nil {
			return append(buf, "nil,"...), true
		}
		if !types.Comparable(x.T.T) {
			m.goPanicRuntime("hash of unhashable type " + x.T.String())
		}
		buf = fmt.Appendf(buf, "T%d:", x.T.id)
		return m.keyText(buf, x.T.T, x.V)
	case *types.Pointer, *types.Chan:
		if v.P == nil {
			return append(buf, "nil,"...), true
		}
		if _, ok := v.P.(*SymPtr); ok {
			m.unsupported("symbolic pointer as key")
		}
		return fmt.Appendf(buf, "%p,", v.P), true
	}
	m.unsupported("map key of type %v", t)
	return nil, false
}
