package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type undo struct {
	p   *Value
	old Value
	fn  func()
}

type deferRec struct {
	fn      *Closure
	args    []Value
	builtin string
	next    *deferRec
}

type panicRec struct {
	val       Value
	recovered bool
	where     string
}

const (
	mNormal = iota
	mRunDefers
	mPanicking
	mRecovering
)

type Frame struct {
	code    *Code
	regs    []Value
	blk, pc int
	defers  *deferRec
	mode    int8
	isDefer bool
	nested  bool // returning from this frame ends a nested run
	pan     *panicRec
	post    func(m *Machine, r Value) Value
}

// Machine interprets one program instance symbolically.
type Machine struct {
	prog        *Prog
	tb          *TB
	sol         *Solver
	rtMap       typeutil.Map
	rtByPtr     map[types.Type]*RT
	rts         []*RT
	codes       map[*ssa.Function]*Code
	funcVals    map[*ssa.Function]*Closure
	globals     map[*ssa.Global]*Value
	pkgInit     map[*ssa.Package]int8
	methodCache map[methKey]*ssa.Function

	frames     []*Frame
	ss         schedState
	insGranted bool
	locks      map[*Value]lockState
	wgs        map[*Value]int
	syncVC     map[any][]uint32
	shadows    map[any]*shadow
	trail      []undo
	logging    bool
	noFork     int
	mergeOut   []Value
	mapIDs     int

	// path state
	pc       []*Term
	pcSet    map[*Term]bool
	decs     []byte
	decPos   int
	inputs   []input
	hashes   []hashApp
	covers   []string
	observes []observe
	notes    []string
	model    *Model
	ins      counters // at the start of the current instruction
	cps      []*choicePoint
	steps    int64
	uf       []ufApp
	permMaps bool
	result   Value

	w         *worker
	maxSteps  int64
	retVal    Value
	panicOut  *panicRec
	ext       map[string]any
	growCache map[[3]int]int
	freeRegs  [64][][]Value
}

type counters struct {
	trail, decs, inputs, hashes, covers, observes, notes, uf, pc int
}

type methKey struct {
	r *RT
	n string
}

type pathAbort struct {
	kind string // "assume", "unsupported", "violation-stop", "steps", "done"
	msg  string
}

type goPanic struct{ v Value }

func (m *Machine) unsupported(f string, a ...any) {
	if m.noFork >= mergeFork {
		panic(mergeFail{})
	}
	panic(pathAbort{"unsupported", fmt.Sprintf(f, a...) + " @ " + m.where()})
}

func newMachine(p *Prog, w *worker) *Machine {
	tb := newTB()
	m := &Machine{prog: p, tb: tb, w: w, rtByPtr: map[types.Type]*RT{}, codes: map[*ssa.Function]*Code{}, funcVals: map[*ssa.Function]*Closure{},
		globals: map[*ssa.Global]*Value{}, pkgInit: map[*ssa.Package]int8{}, methodCache: map[methKey]*ssa.Function{}, pcSet: map[*Term]bool{},
		ext: map[string]any{}, locks: map[*Value]lockState{}, wgs: map[*Value]int{}, syncVC: map[any][]uint32{}, shadows: map[any]*shadow{}, growCache: map[[3]int]int{}, maxSteps: 1 << 40}
	m.sol = newSolver(tb, p.opt.quickMs, p.opt.hardMs)
	m.sol.deadline = p.deadline
	return m
}

func (m *Machine) where() string {
	if len(m.frames) == 0 {
		return "?"
	}
	var sb strings.Builder
	n := 0
	for i := len(m.frames) - 1; i >= 0 && n < 12; i-- {
		fr := m.frames[i]
		pos := ""
		if fr.code.blocks != nil && fr.pc < len(fr.code.blocks[fr.blk].ins) {
			in := fr.code.blocks[fr.blk].ins[fr.pc].ssa
			p := m.prog.ssa.Fset.Position(in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
			}
		}
		fmt.Fprintf(&sb, "%s(%s) < ", fr.code.name, pos)
		n++
	}
	return sb.String()
}

func shortFile(f string) string {
	p := strings.Split(f, "/")
	if len(p) > 2 {
		p = p[len(p)-2:]
	}
	return strings.Join(p, "/")
}

// goPanicRuntime raises a Go run-time panic in the interpreted program.
func (m *Machine) goPanicRuntime(msg string) {
	rt := m.prog.runtimeErrorType
	panic(goPanic{Value{P: &Iface{T: m.rt(rt), V: cStr("runtime error: " + msg)}}})
}

func (fr *Frame) get(o opnd) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.code.consts[-1-o]
}

func (m *Machine) newRegs(n int) []Value {
	return make([]Value, n)
}

func (m *Machine) push(fn *Closure, args []Value) *Frame {
	c := m.codeOf(fn.Fn)
	if c.blocks == nil {
		m.unsupported("function without body: %s", c.name)
	}
	if !c.inited {
		for _, p := range c.pkgs {
			m.ensureInit(p)
		}
		c.inited = true
	}
	c.runs++
	if len(m.frames) > 3000 {
		m.unsupported("call depth")
	}
	fr := &Frame{code: c, regs: m.newRegs(c.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Fn.Params):], fn.Free)
	m.frames = append(m.frames, fr)
	return fr
}

// poisoned standard library packages: their initialisers are never run and
// reads of their globals are refused.
func poisonPkg(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "net", "sync", "testing", "log", "log/slog", "os/signal", "os/exec", "net/http", "internal/poll", "internal/cpu", "internal/godebug", "internal/reflectlite", "crypto/rand", "crypto/tls", "crypto/x509", "plugin", "runtime/debug":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/internal")
}

func (m *Machine) ensureInit(p *ssa.Package) {
	if m.pkgInit[p] != 0 {
		return
	}
	m.pkgInit[p] = 1
	path := p.Pkg.Path()
	if poisonPkg(path) {
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	m.runNested(m.funcVal(init), nil)
	m.pkgInit[p] = 2
}

// runNested runs a function to completion outside the exploration (no forks).
func (m *Machine) runNested(fn *Closure, args []Value) Value {
	save, log, ins := m.frames, m.logging, m.ins
	m.frames = nil
	m.logging = false
	m.noFork++
	defer func() {
		m.frames, m.logging, m.ins = save, log, ins
		m.noFork--
	}()
	fr := m.push(fn, args)
	fr.nested = true
	m.run()
	if m.panicOut != nil {
		p := m.panicOut
		m.panicOut = nil
		m.unsupported("panic in nested run of %s: %s", fn.Fn, m.panicText(p.val))
	}
	return m.retVal
}

// run steps until the stack is empty (or a nested frame returned).
func (m *Machine) run() {
	for {
		if m.runProtected() {
			return
		}
	}
}

func (m *Machine) runProtected() (done bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(yieldNow); ok {
				done = false
				return
			}
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			if len(m.frames) == 0 {
				panic(fmt.Sprintf("go panic without frames: %v", gp))
			}
			fr := m.frames[len(m.frames)-1]
			fr.pan = &panicRec{val: gp.v, where: m.where()}
			fr.mode = mPanicking
			done = false
		}
	}()
	for {
		if m.ss.sched && m.noFork == 0 {
			m.ins = counters{len(m.trail), m.decPos, len(m.inputs), len(m.hashes), len(m.covers), len(m.observes), len(m.notes), len(m.uf), len(m.pc)}
			m.insGranted = false
			if m.schedule() {
				return true
			}
		}
		n := len(m.frames)
		if n == 0 {
			return true
		}
		fr := m.frames[n-1]
		m.insGranted = m.ss.granted
		m.ins = counters{len(m.trail), m.decPos, len(m.inputs), len(m.hashes), len(m.covers), len(m.observes), len(m.notes), len(m.uf), len(m.pc)}
		m.steps++
		if m.steps&1023 == 0 {
			if m.steps > m.maxSteps {
				panic(pathAbort{"steps", "step limit: " + m.where()})
			}
			if m.w != nil && m.w.stopped() {
				panic(pathAbort{"stopped", "time budget"})
			}
		}
		if fr.mode != mNormal {
			if m.stepDefer(fr) {
				return true
			}
			continue
		}
		if m.step(fr) {
			return true
		}
	}
}

// stepDefer performs one action of a frame that runs deferred calls.
func (m *Machine) stepDefer(fr *Frame) (done bool) {
	if fr.mode == mPanicking && fr.pan.recovered {
		fr.mode = mRecovering
		fr.pan = nil
	}
	if d := fr.defers; d != nil {
		if d.fn.Intr != nil || (d.fn.Fn != nil && m.codeOf(d.fn.Fn).intr != nil) {
			in := d.fn.Intr
			if in == nil {
				in = m.codeOf(d.fn.Fn).intr
			}
			if in.tail {
				m.unsupported("deferred intrinsic %s", in.name)
			}
			func() {
				defer func() {
					// A deferred call that panics is over; one that has to
					// wait (yieldNow) or that is cut short runs again.
					if r := recover(); r != nil {
						if _, ok := r.(goPanic); ok {
							fr.defers = d.next
						}
						panic(r)
					}
				}()
				in.fn(m, &callCtx{fr: fr, fn: d.fn, name: in.name}, d.args)
			}()
			fr.defers = d.next
			return false
		}
		nf := m.push(d.fn, d.args)
		nf.isDefer = true
		fr.defers = d.next
		return false
	}
	switch fr.mode {
	case mRunDefers:
		fr.mode = mNormal
		fr.pc++
	case mRecovering:
		fr.mode = mNormal
		if fr.code.recover >= 0 {
			fr.blk, fr.pc = fr.code.recover, 0
			return false
		}
		res := make([]Value, len(fr.code.zres))
		for i, t := range fr.code.zres {
			res[i] = m.zero(t)
		}
		return m.doReturn(fr, res)
	case mPanicking:
		pan := fr.pan
		n := len(m.frames)
		m.frames = m.frames[:n-1]
		if fr.nested || n == 1 {
			// (also in a goroutine: it ends the program)
			m.panicOut = pan
			return true
		}
		up := m.frames[n-2]
		up.pan = pan
		up.mode = mPanicking
	}
	return false
}

func tuple(res []Value) Value {
	switch len(res) {
	case 0:
		return Value{}
	case 1:
		return res[0]
	}
	return Value{P: &Agg{res}}
}

func (m *Machine) doReturn(fr *Frame, res []Value) (done bool) {
	r := tuple(res)
	if fr.post != nil {
		r = fr.post(m, r)
	}
	n := len(m.frames)
	m.frames = m.frames[:n-1]
	if n == 1 && !fr.nested && m.ss.cur != 0 {
		m.goroutineEnd()
		return false
	}
	if fr.nested || n == 1 {
		m.retVal = r
		return true
	}
	up := m.frames[n-2]
	if fr.isDefer {
		return false
	}
	in := &up.code.blocks[up.blk].ins[up.pc]
	if in.dst >= 0 {
		up.regs[in.dst] = r
	}
	up.pc++
	return false
}

func (m *Machine) panicText(v Value) string {
	i, _ := v.P.(*Iface)
	if i == nil {
		return "nil"
	}
	switch s := i.V.P.(type) {
	case string:
		return s
	case *OpaqueStr:
		return s.What
	case *Value:
		if a, ok := s.P.(*Agg); ok {
			for _, e := range a.E {
				if t, ok := e.P.(string); ok {
					return i.T.String() + "{" + t + "}"
				}
				if t, ok := e.P.(*OpaqueStr); ok {
					return i.T.String() + "{" + t.What + "}"
				}
			}
		}
	}
	return i.T.String()
}

func (m *Machine) jump(fr *Frame, k int) {
	b := &fr.code.blocks[fr.blk]
	to, edge := b.succs[k], b.edgeIx[k]
	m.enter(fr, to, edge)
}

func (m *Machine) enter(fr *Frame, to, edge int) {
	nb := &fr.code.blocks[to]
	switch len(nb.phis) {
	case 0:
	case 1:
		fr.regs[nb.phis[0].dst] = fr.get(nb.phis[0].edges[edge])
	default:
		var tmp [8]Value
		vals := tmp[:0]
		for i := range nb.phis {
			vals = append(vals, fr.get(nb.phis[i].edges[edge]))
		}
		for i := range nb.phis {
			fr.regs[nb.phis[i].dst] = vals[i]
		}
	}
	fr.blk, fr.pc = to, 0
}

func (m *Machine) asPtr(v Value) *Value {
	switch p := v.P.(type) {
	case *Value:
		return p
	case nil:
		m.goPanicRuntime("invalid memory address or nil pointer dereference")
	case *SymPtr:
		return m.fixPtr(p)
	case *Opaque:
		m.unsupported("access to %s", p.What)
	}
	m.unsupported("pointer expected, have %T", v.P)
	return nil
}

func (m *Machine) fixPtr(p *SymPtr) *Value {
	i := m.concretize(p.Idx)
	return &p.E[i]
}

func (m *Machine) load(t types.Type, v Value) Value {
	if p, ok := v.P.(*Value); ok {
		if _, ok := p.P.(*Agg); ok {
			return copyVal(*p)
		}
		return *p
	}
	if p, ok := v.P.(*SymPtr); ok {
		if nc, w, _ := classify(t); nc == ncInt || nc == ncBool {
			return m.symSelect(p.E, p.Idx, w)
		}
		return copyVal(*m.fixPtr(p))
	}
	return copyVal(*m.asPtr(v))
}

// symSelect reads cells[idx] of scalar cells (idx already known in range).
func (m *Machine) symSelect(cells []Value, idx *Term, w uint16) Value {
	tb := m.tb
	lo, hi := 0, len(cells)-1
	if idx.w <= 64 {
		if idx.lo > uint64(lo) {
			lo = int(idx.lo)
		}
		if idx.hi < uint64(hi) {
			hi = int(idx.hi)
		}
	}
	if hi < lo {
		hi = lo
	}
	conc := hi > lo && len(cells) <= 256
	for i := lo; i <= hi && conc; i++ {
		conc = cells[i].P == nil
	}
	if conc && w > 0 {
		if t := tb.Lookup(idx, w, func(v uint64) uint64 { return cells[v].N }, uint64(len(cells))); t != nil {
			return tv(t)
		}
	}
	var build func(l, h int) *Term
	build = func(l, h int) *Term {
		if l == h {
			return m.term(cells[l], w)
		}
		mid := (l + h) / 2
		return tb.Ite(tb.Ule(idx, tb.Const(idx.w, uint64(mid))), build(l, mid), build(mid+1, h))
	}
	return tv(build(lo, hi))
}

func (m *Machine) storeTo(addr Value, v Value) {
	switch p := addr.P.(type) {
	case *Value:
		m.store(p, v)
	case *SymPtr:
		i := m.concretize(p.Idx)
		m.store(&p.E[i], v)
	default:
		m.store(m.asPtr(addr), v)
	}
}

// index checks an index against a length; it returns either a concrete index
// or a symbolic one.
func (m *Machine) index(v Value, w uint16, signed bool, n int) (int, *Term) {
	t, ok := v.P.(*Term)
	if !ok {
		i := int64(v.N)
		if signed {
			i = toSigned(v.N, w)
		} else if v.N > math.MaxInt64 {
			i = -1
		}
		if i < 0 || i >= int64(n) {
			m.goPanicRuntime(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	tb := m.tb
	if signed {
		t = tb.SExt(t, 64)
	} else {
		t = tb.ZExt(t, 64)
	}
	if !m.branch(tb.Ult(t, tb.Const(64, uint64(n)))) {
		m.goPanicRuntime(fmt.Sprintf("index out of range with length %d", n))
	}
	if n == 1 {
		return 0, nil
	}
	if n > 32 && m.noFork == 0 {
		// large tables: the path often fixes the index
		if m.ensureModel() {
			v := m.model.eval(t).u
			if r, _ := m.query(tb.Not(tb.Eq(t, tb.Const(64, v)))); r == Unsat {
				return int(v), nil
			}
		}
	}
	return 0, t
}

func (m *Machine) sliceOf(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case *Slice:
		return s.E
	case *Lazy:
		if s.s == nil {
			n := m.concretize(s.n)
			if n > 1<<26 {
				m.unsupported("use of a slice of %d bytes", n)
			}
			s.s = &Slice{make([]Value, n)}
			m.undoFn(func() { s.s = nil })
		}
		return s.s.E
	}
	m.unsupported("slice expected, have %T", v.P)
	return nil
}

// intArg returns a concrete non-symbolic int (concretizing when needed).
func (m *Machine) intArg(v Value) int64 {
	if t, ok := v.P.(*Term); ok {
		return toSigned(m.concretize(t), t.w)
	}
	return int64(v.N)
}

func (m *Machine) step(fr *Frame) (done bool) {
	in := &fr.code.blocks[fr.blk].ins[fr.pc]
	switch in.op {
	case iNop:
		fr.regs[in.dst] = fr.get(in.x)
	case iAlloc:
		fr.regs[in.dst] = Value{P: newCell(m.zero(in.t))}
	case iBinOp:
		fr.regs[in.dst] = m.binop(in, fr.get(in.x), fr.get(in.y))
	case iLoad:
		if len(m.ss.gos) > 1 {
			m.accessAt(fr.get(in.x), false)
		}
		fr.regs[in.dst] = m.load(in.t, fr.get(in.x))
	case iStore:
		if len(m.ss.gos) > 1 {
			m.accessAt(fr.get(in.x), true)
		}
		m.storeTo(fr.get(in.x), fr.get(in.y))
	case iJump:
		m.jump(fr, 0)
		return false
	case iIf:
		c := fr.get(in.x)
		if t, ok := c.P.(*Term); ok {
			replay := m.decPos < len(m.decs)
			if (replay && m.decs[m.decPos] == dMerged) || (!replay && in.noMerge < 4 && m.prog.opt.merge) {
				mr := m.tryMerge(fr, t)
				if mr != 0 {
					if replay {
						m.decPos++
					} else {
						m.record(dMerged)
					}
				} else if replay {
					m.unsupported("replay diverged: merge failed")
				}
				if mr == 1 {
					return false
				}
				if mr == 2 {
					return m.doReturn(fr, m.mergeRes(fr))
				}
				in.noMerge++
			}
			if m.branch(t) {
				m.jump(fr, 0)
			} else {
				m.jump(fr, 1)
			}
			return false
		}
		if c.N != 0 {
			m.jump(fr, 0)
		} else {
			m.jump(fr, 1)
		}
		return false
	case iCall:
		return m.doCall(fr, in)
	case iReturn:
		res := make([]Value, len(in.args))
		for i, a := range in.args {
			res[i] = fr.get(a)
		}
		return m.doReturn(fr, res)
	case iFieldAddr:
		p := m.asPtr(fr.get(in.x))
		a, ok := p.P.(*Agg)
		if !ok {
			m.unsupported("field of non-struct cell (%T)", p.P)
		}
		fr.regs[in.dst] = Value{P: &a.E[in.n]}
	case iField:
		fr.regs[in.dst] = fr.get(in.x).P.(*Agg).E[in.n]
	case iExtract:
		a, ok := fr.get(in.x).P.(*Agg)
		if !ok {
			m.unsupported("extract from %T in %s", fr.get(in.x).P, fr.code.name)
		}
		fr.regs[in.dst] = a.E[in.n]
	case iIndexAddr:
		xv := fr.get(in.x)
		var cells []Value
		switch u := in.t2.Underlying().(type) {
		case *types.Slice:
			cells = m.sliceOf(xv)
		case *types.Pointer:
			_ = u
			cells = m.asPtr(xv).P.(*Agg).E
		}
		i, t := m.index(fr.get(in.y), in.w, in.signed, len(cells))
		if t != nil {
			fr.regs[in.dst] = Value{P: &SymPtr{cells, t}}
		} else {
			fr.regs[in.dst] = Value{P: &cells[i]}
		}
	case iIndex:
		xv := fr.get(in.x)
		var cells []Value
		if s, ok := xv.P.(string); ok && !fr.get(in.y).isSym() {
			i, _ := m.index(fr.get(in.y), in.w, in.signed, len(s))
			fr.regs[in.dst] = Value{N: uint64(s[i])}
			break
		}
		if a, ok := xv.P.(*Agg); ok {
			cells = a.E
		} else {
			cells = m.strBytes(xv)
		}
		i, t := m.index(fr.get(in.y), in.w, in.signed, len(cells))
		if t != nil {
			if nc, w, _ := classify(in.t); nc == ncInt || nc == ncBool {
				fr.regs[in.dst] = m.symSelect(cells, t, w)
			} else {
				fr.regs[in.dst] = cells[m.concretize(t)]
			}
		} else {
			fr.regs[in.dst] = cells[i]
		}
	case iNot:
		v := fr.get(in.x)
		if t, ok := v.P.(*Term); ok {
			fr.regs[in.dst] = tv(m.tb.Not(t))
		} else {
			fr.regs[in.dst] = Value{N: v.N ^ 1}
		}
	case iNeg:
		v := fr.get(in.x)
		switch {
		case in.nc == ncFloat:
			b := in.t.Underlying().(*types.Basic)
			fr.regs[in.dst] = mkFloat(-m.floatOf(v, b), b)
		case v.isSym():
			fr.regs[in.dst] = tv(m.tb.Neg(v.P.(*Term)))
		default:
			fr.regs[in.dst] = Value{N: -v.N & maskN(in.w)}
		}
	case iCompl:
		v := fr.get(in.x)
		if t, ok := v.P.(*Term); ok {
			fr.regs[in.dst] = tv(m.tb.BNot(t))
		} else {
			fr.regs[in.dst] = Value{N: ^v.N & maskN(in.w)}
		}
	case iConvert:
		fr.regs[in.dst] = m.convert(in.t2, in.t, fr.get(in.x))
	case iMakeInterface:
		fr.regs[in.dst] = Value{P: &Iface{T: in.aux.(*RT), V: fr.get(in.x)}}
	case iMakeClosure:
		free := make([]Value, len(in.args))
		for i, a := range in.args {
			free[i] = fr.get(a)
		}
		fr.regs[in.dst] = Value{P: &Closure{Fn: in.aux.(*ssa.Function), Free: free}}
	case iMakeMap:
		fr.regs[in.dst] = Value{P: m.newMap()}
	case iMakeSlice:
		if t, ok := fr.get(in.x).P.(*Term); ok && fr.get(in.y).P == t && t.w == 64 && t.hi < 1<<40 {
			if el := in.t2.Underlying(); scalarWidth(el) == 8 {
				fr.regs[in.dst] = Value{P: &Lazy{n: t}}
				break
			}
		}
		n := m.intArg(fr.get(in.x))
		c := m.intArg(fr.get(in.y))
		if n == c && n > 1<<24 && n < 1<<40 && scalarWidth(in.t2.Underlying()) == 8 {
			fr.regs[in.dst] = Value{P: &Lazy{n: m.tb.Const(64, uint64(n))}}
			break
		}
		if n < 0 || n > 1<<24 {
			m.goPanicRuntime("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			m.goPanicRuntime("makeslice: cap out of range")
		}
		fr.regs[in.dst] = Value{P: m.makeSlice(in.t2, int(n), int(c))}
	case iMapUpdate:
		if len(m.ss.gos) > 1 {
			m.accessMap(fr.get(in.x), true)
		}
		mp, ok := fr.get(in.x).P.(*Map)
		if !ok {
			if fr.get(in.x).P == nil {
				panic(goPanic{Value{P: &Iface{T: m.rt(m.prog.runtimeErrorType), V: cStr("assignment to entry in nil map")}}})
			}
			m.unsupported("map update on %T", fr.get(in.x).P)
		}
		mt := in.t.Underlying().(*types.Map)
		m.mapSet(mt.Key(), mp, fr.get(in.y), fr.get(in.z))
	case iLookup:
		if len(m.ss.gos) > 1 {
			m.accessMap(fr.get(in.x), false)
		}
		fr.regs[in.dst] = m.lookup(in, fr.get(in.x), fr.get(in.y))
	case iRange:
		if len(m.ss.gos) > 1 {
			m.accessMap(fr.get(in.x), false)
		}
		fr.regs[in.dst] = m.rangeOver(in.t2, fr.get(in.x))
	case iNext:
		fr.regs[in.dst] = m.next(in, fr.get(in.x))
	case iSlice:
		fr.regs[in.dst] = m.slice(fr, in)
	case iSliceToArr:
		s := m.sliceOf(fr.get(in.x))
		if len(s) < in.n {
			m.goPanicRuntime("cannot convert slice to array: length too short")
		}
		if fr.get(in.x).P == nil {
			fr.regs[in.dst] = Value{}
			break
		}
		fr.regs[in.dst] = Value{P: newCell(Value{P: &Agg{s[:in.n:in.n]}})}
	case iTypeAssert:
		fr.regs[in.dst] = m.typeAssert(in, fr.get(in.x))
	case iPanic:
		v := fr.get(in.x)
		if v.P == nil {
			m.goPanicRuntime("panic called with nil argument")
		}
		panic(goPanic{v})
	case iDefer:
		if in.n == 1 {
			m.unsupported("defer in range-over-func body")
		}
		d := &deferRec{next: fr.defers}
		fn, args := m.callee(fr, in)
		if fn == nil {
			if in.call.builtin == "" {
				m.unsupported("defer of nil func")
			}
			name := in.call.builtin
			cs := in.call
			fn = &Closure{Intr: &Intrinsic{name: "builtin " + name, fn: func(m *Machine, c *callCtx, a []Value) Value { return m.builtin(c.fr, name, cs, a, nil) }}}
		}
		d.fn, d.args = fn, args
		fr.defers = d
	case iRunDefers:
		if fr.defers != nil {
			fr.mode = mRunDefers
			return false
		}
	case iMakeChan:
		fr.regs[in.dst] = Value{P: &Chan{cap: int(m.intArg(fr.get(in.x))), elem: in.t.Underlying().(*types.Chan).Elem()}}
	case iGo:
		m.goStmt(fr, in)
	case iSend:
		m.sendStmt(fr, in)
	case iRecv:
		v := m.recvExpr(fr, in)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
	case iSelect:
		v := m.selectStmt(fr, in)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
	default:
		m.unsupported("instruction %v", in.ssa)
	}
	fr.pc++
	return false
}

// callee resolves the function and arguments of a call; fn is nil for builtins.
func (m *Machine) callee(fr *Frame, in *Instr) (*Closure, []Value) {
	cs := in.call
	args := make([]Value, 0, len(in.args)+1)
	if cs.method != nil {
		iv, _ := fr.get(in.x).P.(*Iface)
		if iv == nil {
			if o, ok := fr.get(in.x).P.(*Opaque); ok {
				m.unsupported("method %s on %s", cs.method.Name(), o.What)
			}
			m.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		args = append(args, iv.V)
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		return m.funcVal(m.methodFor(iv.T, cs.method)), args
	}
	for _, a := range in.args {
		args = append(args, fr.get(a))
	}
	if cs.fn != nil {
		return m.funcVal(cs.fn), args
	}
	if cs.builtin != "" {
		return nil, args
	}
	switch f := fr.get(in.x).P.(type) {
	case *Closure:
		return f, args
	case nil:
		m.goPanicRuntime("invalid memory address or nil pointer dereference")
	case *Opaque:
		m.unsupported("call of %s", f.What)
	}
	m.unsupported("call of %T", fr.get(in.x).P)
	return nil, nil
}

func (m *Machine) methodFor(r *RT, meth *types.Func) *ssa.Function {
	name := meth.Name()
	if !meth.Exported() {
		name = meth.Pkg().Path() + "." + name
	}
	if f, ok := r.methods[name]; ok {
		return f
	}
	f := m.prog.ssa.LookupMethod(r.T, meth.Pkg(), meth.Name())
	if f == nil {
		m.unsupported("method %s not found on %s", meth.Name(), r)
	}
	r.methods[name] = f
	return f
}

func (m *Machine) doCall(fr *Frame, in *Instr) (done bool) {
	fn, args := m.callee(fr, in)
	if fn == nil {
		v := m.builtin(fr, in.call.builtin, in.call, args, in)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.pc++
		return false
	}
	v, pushed := m.invoke(fr, fn, args)
	if pushed {
		return false
	}
	if in.dst >= 0 {
		fr.regs[in.dst] = v
	}
	fr.pc++
	return false
}

// invoke calls fn; either a frame was pushed or the value is returned.
func (m *Machine) invoke(fr *Frame, fn *Closure, args []Value) (Value, bool) {
	in := fn.Intr
	if in == nil {
		if fn.Fn == nil {
			m.unsupported("call of broken closure")
		}
		code := m.codeOf(fn.Fn)
		in = code.intr
		if in == nil {
			if fn.Fn.Synthetic == "package initializer" {
				if m.prog.isStd(fn.Fn.Pkg) {
					return Value{}, false // lazily initialised
				}
				m.ensureInit(fn.Fn.Pkg)
				return Value{}, false
			}
			m.push(fn, args)
			return Value{}, true
		}
		code.runs++
	}
	n := len(m.frames)
	v := in.fn(m, &callCtx{fr: fr, fn: fn, name: in.name}, args)
	if in.tail && len(m.frames) != n {
		return Value{}, true
	}
	return v, false
}

// ---- arithmetic ----

func (m *Machine) binop(in *Instr, x, y Value) Value {
	tb := m.tb
	switch in.tok {
	case token.EQL, token.NEQ:
		var t *Term
		if in.nc == ncInt || in.nc == ncBool {
			if x.P == nil && y.P == nil {
				return cBool((x.N == y.N) == (in.tok == token.EQL))
			}
			t = tb.Eq(m.term(x, in.w), m.term(y, in.w))
		} else {
			xt, yt := x, y
			if _, ok := in.t.Underlying().(*types.Interface); ok {
				// mixed comparison: wrap the concrete operand
				b := in.ssa.(*ssa.BinOp)
				if !types.IsInterface(b.X.Type()) {
					xt = Value{P: &Iface{T: m.rt(b.X.Type()), V: x}}
				}
				if !types.IsInterface(b.Y.Type()) {
					yt = Value{P: &Iface{T: m.rt(b.Y.Type()), V: y}}
				}
			}
			t = m.eq(in.t, xt, yt)
		}
		if in.tok == token.NEQ {
			t = tb.Not(t)
		}
		return tv(t)
	}
	switch in.nc {
	case ncInt:
		return m.intBin(in, x, y)
	case ncFloat:
		if x.P != nil || y.P != nil {
			m.unsupported("symbolic float arithmetic")
		}
		b := in.t.Underlying().(*types.Basic)
		f, g := m.floatOf(x, b), m.floatOf(y, b)
		switch in.tok {
		case token.ADD:
			return mkFloat(f+g, b)
		case token.SUB:
			return mkFloat(f-g, b)
		case token.MUL:
			return mkFloat(f*g, b)
		case token.QUO:
			return mkFloat(f/g, b)
		case token.LSS:
			return cBool(f < g)
		case token.LEQ:
			return cBool(f <= g)
		case token.GTR:
			return cBool(f > g)
		case token.GEQ:
			return cBool(f >= g)
		}
	case ncString:
		if in.tok == token.ADD {
			return m.concatStr(x, y)
		}
		c := m.strLess(x, y, in.tok == token.LEQ || in.tok == token.GTR)
		if in.tok == token.GTR || in.tok == token.GEQ {
			// x > y == !(x <= y); x >= y == !(x < y)
			c = tb.Not(c)
		}
		return tv(c)
	case ncBool:
		switch in.tok {
		case token.AND, token.LAND:
			return tv(tb.And(m.term(x, 0), m.term(y, 0)))
		case token.OR, token.LOR:
			return tv(tb.Or(m.term(x, 0), m.term(y, 0)))
		}
	}
	m.unsupported("binop %v on %v", in.tok, in.t)
	return Value{}
}

func (m *Machine) concatStr(x, y Value) Value {
	if x.P == nil {
		return y
	}
	if y.P == nil {
		return x
	}
	if o, ok := x.P.(*OpaqueStr); ok {
		return Value{P: &OpaqueStr{o.What}}
	}
	if o, ok := y.P.(*OpaqueStr); ok {
		return Value{P: &OpaqueStr{o.What}}
	}
	a, ok1 := x.P.(string)
	b, ok2 := y.P.(string)
	if ok1 && ok2 {
		return Value{P: a + b}
	}
	xs, ys := m.strBytes(x), m.strBytes(y)
	return mkStr(append(append([]Value{}, xs...), ys...))
}

// strLess is lexicographic x<y (or x<=y).
func (m *Machine) strLess(x, y Value, orEq bool) *Term {
	if a, ok := x.P.(string); ok {
		if b, ok := y.P.(string); ok {
			return m.tb.Bool(a < b || orEq && a == b)
		}
	}
	return m.bytesLess(m.strBytes(x), m.strBytes(y), orEq)
}

func (m *Machine) bytesLess(a, b []Value, orEq bool) *Term {
	tb := m.tb
	n := min(len(a), len(b))
	if n == 0 {
		if len(a) == len(b) {
			return tb.Bool(orEq)
		}
		return tb.Bool(len(a) < len(b))
	}
	x, y := m.wide(a[:n]), m.wide(b[:n])
	if len(a) < len(b) || (len(a) == len(b) && orEq) {
		return tb.Ule(x, y)
	}
	return tb.Ult(x, y)
}

func (m *Machine) intBin(in *Instr, x, y Value) Value {
	tb := m.tb
	w := in.w
	if in.tok == token.SHL || in.tok == token.SHR {
		return m.shift(in, x, y)
	}
	if x.P == nil && y.P == nil {
		a, b := x.N, y.N
		switch in.tok {
		case token.ADD:
			return Value{N: (a + b) & maskN(w)}
		case token.SUB:
			return Value{N: (a - b) & maskN(w)}
		case token.MUL:
			return Value{N: (a * b) & maskN(w)}
		case token.QUO, token.REM:
			if b == 0 {
				m.goPanicRuntime("integer divide by zero")
			}
			op := OUDiv
			if in.tok == token.REM {
				op = OURem
			}
			if in.signed {
				op += OSDiv - OUDiv
			}
			return Value{N: foldBin(op, w, a, b)}
		case token.AND:
			return Value{N: a & b}
		case token.OR:
			return Value{N: a | b}
		case token.XOR:
			return Value{N: a ^ b}
		case token.AND_NOT:
			return Value{N: a &^ b}
		}
		lt := a < b
		if in.signed {
			lt = toSigned(a, w) < toSigned(b, w)
		}
		switch in.tok {
		case token.LSS:
			return cBool(lt)
		case token.LEQ:
			return cBool(lt || a == b)
		case token.GTR:
			return cBool(!lt && a != b)
		case token.GEQ:
			return cBool(!lt)
		}
		m.unsupported("int op %v", in.tok)
	}
	a, b := m.term(x, w), m.term(y, w)
	switch in.tok {
	case token.ADD:
		return tv(tb.Add(a, b))
	case token.SUB:
		return tv(tb.Sub(a, b))
	case token.MUL:
		return tv(tb.Mul(a, b))
	case token.QUO, token.REM:
		if b.op == OConst {
			if b.k == 0 {
				m.goPanicRuntime("integer divide by zero")
			}
		} else if m.branch(tb.Eq(b, tb.Const(w, 0))) {
			m.goPanicRuntime("integer divide by zero")
		}
		switch {
		case in.tok == token.QUO && in.signed:
			return tv(tb.SDiv(a, b))
		case in.tok == token.QUO:
			return tv(tb.UDiv(a, b))
		case in.signed:
			return tv(tb.SRem(a, b))
		default:
			return tv(tb.URem(a, b))
		}
	case token.AND:
		return tv(tb.BAnd(a, b))
	case token.OR:
		return tv(tb.BOr(a, b))
	case token.XOR:
		return tv(tb.BXor(a, b))
	case token.AND_NOT:
		return tv(tb.BAnd(a, tb.BNot(b)))
	}
	lt := func(a, b *Term) *Term {
		if in.signed {
			return tb.Slt(a, b)
		}
		return tb.Ult(a, b)
	}
	switch in.tok {
	case token.LSS:
		return tv(lt(a, b))
	case token.LEQ:
		return tv(tb.Not(lt(b, a)))
	case token.GTR:
		return tv(lt(b, a))
	case token.GEQ:
		return tv(tb.Not(lt(a, b)))
	}
	m.unsupported("int op %v", in.tok)
	return Value{}
}

func (m *Machine) shift(in *Instr, x, y Value) Value {
	tb := m.tb
	w := in.w
	_, yw, ysigned := classify(in.t2)
	if y.P == nil {
		if ysigned && toSigned(y.N, yw) < 0 {
			m.goPanicRuntime("negative shift amount")
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLShr
			if in.signed {
				op = OAShr
			}
		}
		if x.P == nil {
			return Value{N: foldBin(op, w, x.N, y.N)}
		}
		s := y.N
		if s > uint64(w) {
			s = uint64(w)
		}
		return tv(tb.Bin(op, m.term(x, w), tb.Const(w, s)))
	}
	s := m.term(y, yw)
	if ysigned {
		if m.branch(tb.Slt(s, tb.Const(yw, 0))) {
			m.goPanicRuntime("negative shift amount")
		}
	}
	a := m.term(x, w)
	var big *Term // shift amount >= width
	if yw >= w || maskN(yw) >= uint64(w) {
		big = tb.Ule(tb.Const(yw, uint64(w)), s)
	} else {
		big = tb.False
	}
	var sw *Term
	if yw > w {
		sw = tb.Extract(s, w-1, 0)
	} else {
		sw = tb.ZExt(s, w)
	}
	switch {
	case in.tok == token.SHL:
		return tv(tb.Ite(big, tb.Const(w, 0), tb.Shl(a, sw)))
	case in.signed:
		return tv(tb.Ite(big, tb.AShr(a, tb.Const(w, uint64(w-1))), tb.AShr(a, sw)))
	default:
		return tv(tb.Ite(big, tb.Const(w, 0), tb.LShr(a, sw)))
	}
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	fb, fok := from.Underlying().(*types.Basic)
	tbs, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tbs.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return m.convInt(v, widthOf(fb), isSigned(fb), widthOf(tbs))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if t, ok := v.P.(*Term); ok {
				if t.w > 32 || tbs.Kind() == types.Float32 {
					m.unsupported("symbolic int to float")
				}
				return Value{P: &SymFloat{t, isSigned(fb)}}
			}
			if isSigned(fb) {
				return mkFloat(float64(toSigned(v.N, widthOf(fb))), tbs)
			}
			return mkFloat(float64(v.N), tbs)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			if f, ok := v.P.(*SymFloat); ok {
				return m.convInt(tv(f.t), f.t.w, f.signed, widthOf(tbs))
			}
			f := m.floatOf(v, fb)
			if isSigned(tbs) {
				return Value{N: uint64(int64(f)) & maskN(widthOf(tbs))}
			}
			return Value{N: uint64(f) & maskN(widthOf(tbs))}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if _, ok := v.P.(*SymFloat); ok && tbs.Kind() == types.Float64 {
				return v
			}
			return mkFloat(m.floatOf(v, fb), tbs)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			if v.P != nil {
				m.unsupported("symbolic rune to string")
			}
			return cStr(string(rune(toSigned(v.N, widthOf(fb)))))
		}
		if fb.Kind() == types.UnsafePointer || tbs.Kind() == types.UnsafePointer {
			if fi&types.IsInteger != 0 || ti&types.IsInteger != 0 {
				m.unsupported("uintptr conversion")
			}
			return v
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if st, ok := to.Underlying().(*types.Slice); ok {
			if scalarWidth(st.Elem()) == 8 {
				b := m.strBytes(v)
				e := make([]Value, len(b))
				copy(e, b)
				return Value{P: &Slice{e}}
			}
			var e []Value
			for _, r := range m.goStr(v) {
				e = append(e, Value{N: uint64(uint32(r))})
			}
			return Value{P: &Slice{e}}
		}
	}
	if tok && tbs.Info()&types.IsString != 0 {
		if st, ok := from.Underlying().(*types.Slice); ok {
			s := m.sliceOf(v)
			if scalarWidth(st.Elem()) == 8 {
				return mkStr(s)
			}
			var sb strings.Builder
			for _, e := range s {
				if e.P != nil {
					m.unsupported("symbolic runes")
				}
				sb.WriteRune(rune(int32(e.N)))
			}
			return cStr(sb.String())
		}
	}
	// slice to array
	if at, ok := to.Underlying().(*types.Array); ok {
		if _, ok := from.Underlying().(*types.Slice); ok {
			s := m.sliceOf(v)
			if len(s) < int(at.Len()) {
				m.goPanicRuntime("cannot convert slice to array: length too short")
			}
			return copyVal(Value{P: &Agg{s[:at.Len():at.Len()]}})
		}
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v // to unsafe.Pointer
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	m.unsupported("conversion %v to %v", from, to)
	return Value{}
}

func (m *Machine) convInt(v Value, fw uint16, fs bool, tw uint16) Value {
	if t, ok := v.P.(*Term); ok {
		if tw <= fw {
			return tv(m.tb.ZExt(t, tw))
		}
		if fs {
			return tv(m.tb.SExt(t, tw))
		}
		return tv(m.tb.ZExt(t, tw))
	}
	if fs {
		return Value{N: uint64(toSigned(v.N, fw)) & maskN(tw)}
	}
	return Value{N: v.N & maskN(tw)}
}

// ---- slices ----

func (m *Machine) makeSlice(elem types.Type, n, c int) *Slice {
	e := make([]Value, c)
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range e {
			e[i] = m.zero(elem)
		}
	}
	return &Slice{e[:n]}
}

func (m *Machine) slice(fr *Frame, in *Instr) Value {
	xv := fr.get(in.x)
	if b, ok := in.t2.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		n := m.strLen(xv)
		lo, hi := int64(0), int64(n)
		if in.has&1 != 0 {
			lo = m.intArg(fr.get(in.args[0]))
		}
		if in.has&2 != 0 {
			hi = m.intArg(fr.get(in.args[1]))
		}
		if lo < 0 || hi < lo || hi > int64(n) {
			m.goPanicRuntime("slice bounds out of range")
		}
		if s, ok := xv.P.(string); ok {
			return cStr(s[lo:hi])
		}
		return mkStr(m.strBytes(xv)[lo:hi])
	}
	var e []Value
	isNil := false
	switch in.t2.Underlying().(type) {
	case *types.Pointer:
		e = m.asPtr(xv).P.(*Agg).E
	default:
		isNil = xv.P == nil
		e = m.sliceOf(xv)
	}
	lo, hi, mx := int64(0), int64(len(e)), int64(cap(e))
	bound := func(k int, def int64) int64 {
		if in.has&(1<<k) == 0 {
			return def
		}
		v := fr.get(in.args[k])
		if t, ok := v.P.(*Term); ok {
			// out of range values are decided first so that only
			// the admissible ones are enumerated
			t64 := t
			if t.w < 64 {
				t64 = m.tb.SExt(t, 64)
			}
			if !m.branch(m.tb.Ule(t64, m.tb.Const(64, uint64(cap(e))))) {
				m.goPanicRuntime("slice bounds out of range")
			}
			return int64(m.concretize(t64))
		}
		return int64(v.N)
	}
	mx = bound(2, mx)
	hi = bound(1, hi)
	lo = bound(0, lo)
	if mx < 0 || mx > int64(cap(e)) || hi < 0 || hi > mx || lo < 0 || lo > hi {
		m.goPanicRuntime(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(e)))
	}
	if isNil {
		return Value{}
	}
	return Value{P: &Slice{e[lo:hi:mx]}}
}

// ---- interfaces ----

func (m *Machine) implements(r *RT, it *types.Interface) bool {
	return types.Implements(r.T, it)
}

func (m *Machine) typeAssert(in *Instr, v Value) Value {
	iv, _ := v.P.(*Iface)
	if iv == nil && v.P != nil {
		m.unsupported("type assertion on %T", v.P)
	}
	ok := false
	var res Value
	if iv != nil {
		if in.aux != nil {
			if iv.T == in.aux.(*RT) {
				ok, res = true, iv.V
			}
		} else {
			ok = m.implCached(iv.T, in.t)
			res = v
		}
	}
	if in.commaOk {
		if !ok {
			res = m.zero(in.t)
		}
		return Value{P: &Agg{[]Value{res, cBool(ok)}}}
	}
	if !ok {
		have := "nil"
		if iv != nil {
			have = iv.T.String()
		}
		m.goPanicRuntime(fmt.Sprintf("interface conversion: interface is %s, not %s", have, in.t))
	}
	return res
}

type implKey struct {
	r *RT
	t types.Type
}

func (m *Machine) implCached(r *RT, t types.Type) bool {
	c, _ := m.ext["impl"].(map[implKey]bool)
	if c == nil {
		c = map[implKey]bool{}
		m.ext["impl"] = c
	}
	k := implKey{r, t}
	if b, ok := c[k]; ok {
		return b
	}
	b := m.implements(r, t.Underlying().(*types.Interface))
	c[k] = b
	return b
}

// ---- maps ----

func (m *Machine) newMap() *Map {
	m.mapIDs++
	return &Map{index: map[string]int{}, id: m.mapIDs}
}

func (m *Machine) undoFn(f func()) {
	if m.logging {
		m.trail = append(m.trail, undo{fn: f})
	}
}

// find locates the entry for key k, forking on symbolic equality.
func (m *Machine) mapFind(kt types.Type, mp *Map, k Value) *mapEnt {
	if mp == nil {
		m.keyText(nil, kt, k) // panics on unhashable keys
		return nil
	}
	txt, conc := m.keyText(nil, kt, k)
	if conc {
		if i, ok := mp.index[string(txt)]; ok {
			return mp.ents[i]
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if !e.live {
			continue
		}
		t := m.eq(kt, e.K, k)
		if t == m.tb.False {
			continue
		}
		if m.branch(t) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(kt types.Type, mp *Map, k, v Value) {
	if e := m.mapFind(kt, mp, k); e != nil {
		old := e.V
		e.V = copyVal(v)
		m.undoFn(func() { e.V = old })
		return
	}
	e := &mapEnt{K: copyVal(k), V: copyVal(v), live: true}
	txt, conc := m.keyText(nil, kt, k)
	pos := len(mp.ents)
	mp.ents = append(mp.ents, e)
	mp.n++
	key := string(txt)
	if conc {
		mp.index[key] = pos
	} else {
		mp.nsym++
	}
	m.undoFn(func() {
		mp.ents = mp.ents[:pos]
		mp.n--
		if conc {
			delete(mp.index, key)
		} else {
			mp.nsym--
		}
	})
}

func (m *Machine) mapDelete(kt types.Type, mp *Map, k Value) {
	if mp == nil {
		return
	}
	e := m.mapFind(kt, mp, k)
	if e == nil {
		return
	}
	e.live = false
	mp.n--
	txt, conc := m.keyText(nil, kt, e.K)
	key := string(txt)
	var pos int
	if conc {
		pos = mp.index[key]
		delete(mp.index, key)
	} else {
		mp.nsym--
	}
	m.undoFn(func() {
		e.live = true
		mp.n++
		if conc {
			mp.index[key] = pos
		} else {
			mp.nsym++
		}
	})
}

func (m *Machine) lookup(in *Instr, x, k Value) Value {
	mt, ok := in.t2.Underlying().(*types.Map)
	if !ok { // string index
		cells := m.strBytes(x)
		i, t := m.index(k, in.w, in.signed, len(cells))
		if t != nil {
			return m.symSelect(cells, t, 8)
		}
		return cells[i]
	}
	mp, _ := x.P.(*Map)
	if mp == nil && x.P != nil {
		m.unsupported("map lookup on %T", x.P)
	}
	e := m.mapFind(mt.Key(), mp, k)
	var v Value
	if e != nil {
		v = copyVal(e.V)
	} else {
		v = m.zero(mt.Elem())
	}
	if in.commaOk {
		return Value{P: &Agg{[]Value{v, cBool(e != nil)}}}
	}
	return v
}

func (m *Machine) rangeOver(t types.Type, x Value) Value {
	if _, ok := t.Underlying().(*types.Map); ok {
		mp, _ := x.P.(*Map)
		it := &MapIter{m: mp}
		if m.permMaps && mp != nil && m.noFork == 0 {
			it.perm = true
			for i, e := range mp.ents {
				if e.live {
					it.left = append(it.left, i)
				}
			}
		}
		return Value{P: it}
	}
	it := &MapIter{isStr: true, str: m.strBytes(x)}
	return Value{P: it}
}

func (m *Machine) next(in *Instr, x Value) Value {
	it := x.P.(*MapIter)
	if it.isStr {
		if it.pos >= len(it.str) {
			return Value{P: &Agg{[]Value{{}, {}, {}}}}
		}
		p := it.pos
		b := it.str[p]
		var r Value
		n := 1
		if b.P == nil && b.N < 0x80 {
			r = b
		} else if b.P == nil {
			// decode with the bytes that are concrete
			var buf []byte
			for i := p; i < len(it.str) && i < p+4; i++ {
				if it.str[i].P != nil {
					m.unsupported("symbolic multi-byte rune")
				}
				buf = append(buf, byte(it.str[i].N))
			}
			for i, c := range string(buf) {
				if i == 0 {
					r = Value{N: uint64(uint32(c))}
				} else {
					n = i
					break
				}
				n = len(buf)
			}
		} else {
			if !m.branch(m.tb.Ult(m.term(b, 8), m.tb.Const(8, 0x80))) {
				m.unsupported("symbolic non-ASCII rune")
			}
			r = tv(m.tb.ZExt(m.term(b, 8), 32))
		}
		it.pos += n
		m.undoFn(func() { it.pos = p })
		return Value{P: &Agg{[]Value{cBool(true), {N: uint64(p)}, r}}}
	}
	var kt, vt types.Type
	if mt, ok := in.t2.Underlying().(*types.Map); ok {
		kt, vt = mt.Key(), mt.Elem()
	}
	if it.m == nil {
		return Value{P: &Agg{[]Value{{}, m.zero(kt), m.zero(vt)}}}
	}
	if it.perm {
		for len(it.left) > 0 {
			i := 0
			if len(it.left) > 1 {
				i = m.choose(len(it.left))
			}
			old := it.left
			pos := old[i]
			nl := append(append([]int{}, old[:i]...), old[i+1:]...)
			it.left = nl
			m.undoFn(func() { it.left = old })
			if e := it.m.ents[pos]; e.live {
				return Value{P: &Agg{[]Value{cBool(true), copyVal(e.K), copyVal(e.V)}}}
			}
		}
		return Value{P: &Agg{[]Value{{}, m.zero(kt), m.zero(vt)}}}
	}
	p0 := it.pos
	for it.pos < len(it.m.ents) {
		e := it.m.ents[it.pos]
		it.pos++
		if e.live {
			m.undoFn(func() { it.pos = p0 })
			return Value{P: &Agg{[]Value{cBool(true), copyVal(e.K), copyVal(e.V)}}}
		}
	}
	m.undoFn(func() { it.pos = p0 })
	return Value{P: &Agg{[]Value{{}, m.zero(kt), m.zero(vt)}}}
}

var _ = big.NewInt
