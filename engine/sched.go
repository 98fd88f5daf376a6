package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines, channels and locks. Every goroutine has its own stack of frames;
// exactly one runs. Before an operation other goroutines can see (channel
// operations, atomics, locks, wait groups) the scheduler may hand over to any
// goroutine that can go on; all choices are explored, up to a bound on the
// number of preemptions (switches away from a goroutine that could have gone
// on). Without goroutines nothing of this costs anything.
//
// Between such operations goroutines run undisturbed, which is only right if
// they do not race: plain loads and stores and uses of maps are checked
// against vector clocks, and a race is a violation of its own.

const (
	gRun = iota
	gBlock
	gDone
)

// Gor is a goroutine.
type Gor struct {
	id      int
	frames  []*Frame
	state   int8
	cases   []waitCase // operations it waits for
	lock    *Value     // lock, wait group it waits for
	lockW   int8       // 0: write lock, 1: read lock, 2: wait group, 3: all others
	wake    *wakeRec   // what a partner did for it
	seq     int
	vc      []uint32
	started string
}

type waitCase struct {
	ch   *Chan
	send bool
	val  Value
}

type wakeRec struct {
	idx    int
	val    Value
	ok     bool
	closed bool // a send on a channel that was closed meanwhile
}

// Chan is a channel.
type Chan struct {
	cap    int
	buf    []Value
	closed bool
	elem   types.Type
}

type schedState struct {
	gos      []*Gor
	cur      int
	sched    bool // a scheduling decision is due
	granted  bool // the decision for the next visible operation has been made
	preempts int
	ops      int
	seq      int
	bound    int // preemptions, -1: switch at blocking operations only
	maxOps   int // <0: more operations are a violation
	fair     int // after so many operations in a row others get their turn
	run      int // consecutive operations of the current goroutine
}

type yieldNow struct{}

// snapshot for a choice point; the state at the start of the instruction.
func (m *Machine) snapSched() schedState {
	s := m.ss
	s.granted = m.insGranted
	if s.gos == nil {
		return s
	}
	gs := make([]*Gor, len(s.gos))
	cur := m.frames
	for i, g := range s.gos {
		c := *g
		if i != s.cur {
			m.frames = g.frames
			c.frames = m.cloneFrames()
		} else {
			c.frames = nil
		}
		c.vc = append([]uint32(nil), g.vc...)
		gs[i] = &c
	}
	m.frames = cur
	s.gos = gs
	return s
}

func (m *Machine) ensureGos() {
	if m.ss.gos == nil {
		m.ss.gos = []*Gor{{id: 0, vc: []uint32{1}}}
	}
}

// visible is called at the start of an operation other goroutines can see.
func (m *Machine) visible() {
	if m.ss.gos == nil {
		return
	}
	if m.noFork >= mergeFork {
		panic(mergeFail{})
	}
	if m.noFork > 0 {
		return
	}
	if m.ss.granted {
		m.ss.granted = false
		return
	}
	m.ss.sched = true
	panic(yieldNow{})
}

// visibleCh: the same for operations with effects that are never merged.
func (m *Machine) visibleCh() {
	if m.noFork >= mergeFork {
		panic(mergeFail{})
	}
	m.visible()
}

// block suspends the current goroutine; its instruction runs again later.
func (m *Machine) block(cases []waitCase, lock *Value, lockW int8) {
	if m.noFork >= mergeFork {
		panic(mergeFail{})
	}
	if m.noFork > 0 {
		m.unsupported("blocking operation in a nested run")
	}
	m.ensureGos()
	g := m.ss.gos[m.ss.cur]
	g.state = gBlock
	g.cases, g.lock, g.lockW = cases, lock, lockW
	m.ss.seq++
	g.seq = m.ss.seq
	m.ss.sched = true
	panic(yieldNow{})
}

func (m *Machine) enabled(g *Gor) bool {
	switch g.state {
	case gRun:
		return true
	case gBlock:
		if g.lock != nil || g.lockW == 3 {
			return m.lockReady(g)
		}
	}
	return false
}

func (m *Machine) lockReady(g *Gor) bool {
	switch g.lockW {
	case 0:
		l := m.locks[g.lock]
		return !l.w && l.r == 0
	case 1:
		return !m.locks[g.lock].w
	case 2:
		return m.wgs[g.lock] == 0
	}
	for _, o := range m.ss.gos {
		if o != g && o.lockW != 3 && m.enabled(o) {
			return false
		}
	}
	return true
}

// schedule picks the goroutine that goes on; true: the run is over.
func (m *Machine) schedule() bool {
	s := &m.ss
	var en []int
	curOn := false
	if g := s.gos[s.cur]; m.enabled(g) {
		en = append(en, s.cur)
		curOn = true
	}
	for i, g := range s.gos {
		if i != s.cur && m.enabled(g) {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		m.panicOut = &panicRec{val: Value{P: &Iface{T: m.rt(types.Typ[types.String]), V: cStr("all goroutines are asleep - deadlock")}}, where: m.whereAll()}
		return true
	}
	k := 0
	switch {
	case curOn && len(en) > 1 && s.run >= s.fair:
		// nobody spins for ever
		for i, g := range en {
			if g > s.cur {
				k = i
				break
			}
			if k == 0 && i > 0 {
				k = i
			}
		}
	case s.bound < 0 || (curOn && s.preempts >= s.bound):
	default:
		k = m.choose(len(en))
	}
	s.ops++
	if s.maxOps > 0 && s.ops > s.maxOps {
		panic(pathAbort{"assume", "more visible operations than the bound"})
	}
	if s.maxOps < 0 && s.ops > -s.maxOps {
		m.panicOut = &panicRec{val: Value{P: &Iface{T: m.rt(types.Typ[types.String]), V: cStr("no end in sight")}}, where: m.whereAll()}
		return true
	}
	s.sched = false
	to := en[k]
	if curOn && to != s.cur && s.run < s.fair {
		s.preempts++
	}
	if to == s.cur {
		s.run++
	} else {
		s.run = 0
	}
	if to != s.cur {
		s.gos[s.cur].frames = m.frames
		m.frames = s.gos[to].frames
		s.gos[to].frames = nil
		s.cur = to
	}
	g := s.gos[to]
	if g.state == gBlock {
		g.state = gRun
		g.cases, g.lock, g.lockW = nil, nil, 0
	}
	s.granted = true
	return false
}

func (m *Machine) whereAll() string {
	out := ""
	cur := m.frames
	for i, g := range m.ss.gos {
		if g.state == gDone {
			continue
		}
		if i != m.ss.cur {
			m.frames = g.frames
		} else {
			m.frames = cur
		}
		out += fmt.Sprintf("[%d] %s; ", i, m.where())
	}
	m.frames = cur
	return out
}

func (m *Machine) goStmt(fr *Frame, in *Instr) {
	if m.noFork >= mergeFork {
		panic(mergeFail{})
	}
	if m.noFork > 0 {
		m.unsupported("go statement in a nested run")
	}
	fn, args := m.callee(fr, in)
	if fn == nil || fn.Intr != nil || fn.Fn == nil || m.codeOf(fn.Fn).intr != nil {
		m.unsupported("go statement on an intrinsic")
	}
	m.ensureGos()
	s := &m.ss
	me := s.gos[s.cur]
	save := m.frames
	m.frames = nil
	m.push(fn, args)
	g := &Gor{id: len(s.gos), frames: m.frames}
	m.frames = save
	g.vc = append([]uint32(nil), me.vc...)
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	s.gos = append(s.gos, g)
	m.tick(me)
}

// goroutineEnd: the bottom frame of a goroutine other than main returned.
func (m *Machine) goroutineEnd() {
	m.ss.gos[m.ss.cur].state = gDone
	m.frames = nil
	m.ss.sched = true
}

// ---- vector clocks ----

func (m *Machine) tick(g *Gor) { g.vc[g.id]++ }

func joinVC(a, b []uint32) []uint32 {
	n := max(len(a), len(b))
	out := make([]uint32, n)
	copy(out, a)
	for i, x := range b {
		if x > out[i] {
			out[i] = x
		}
	}
	return out
}

func (m *Machine) acquire(obj any) {
	if m.ss.gos == nil {
		return
	}
	g := m.ss.gos[m.ss.cur]
	if v, ok := m.syncVC[obj]; ok {
		g.vc = joinVC(g.vc, v)
	}
}

func (m *Machine) release(obj any) {
	if m.ss.gos == nil {
		return
	}
	g := m.ss.gos[m.ss.cur]
	old, had := m.syncVC[obj]
	m.syncVC[obj] = joinVC(old, g.vc)
	m.undoFn(func() {
		if had {
			m.syncVC[obj] = old
		} else {
			delete(m.syncVC, obj)
		}
	})
	m.tick(g)
}

// handOver orders what g did before everything o does from now on.
func (m *Machine) handOver(g, o *Gor) {
	o.vc = joinVC(o.vc, g.vc)
	m.tick(g)
}

type shadow struct {
	wg      int
	wclk    uint32
	reads   []uint32
	areads  []uint32 // atomic ones
	awrites []uint32
	wpos    string
}

// race notes an access to a cell and reports one that is not ordered with an
// earlier conflicting one.
func (m *Machine) race(cell any, write bool) { m.access(cell, write, false) }

// raceAtomic notes an atomic access (or one by a lock) to the cell at p.
func (m *Machine) raceAtomic(p *Value, write bool) {
	if m.noFork > 0 || len(m.ss.gos) < 2 {
		return
	}
	for {
		a, ok := p.P.(*Agg)
		if !ok || len(a.E) == 0 {
			break
		}
		p = &a.E[0]
	}
	m.access(p, write, true)
}

func (m *Machine) access(cell any, write, atomic bool) {
	g := m.ss.gos[m.ss.cur]
	old := m.shadows[cell]
	later := func(cs []uint32) bool {
		for i, c := range cs {
			if c > 0 && i != g.id && (i >= len(g.vc) || g.vc[i] < c) {
				return true
			}
		}
		return false
	}
	if old != nil {
		if old.wclk > 0 && old.wg != g.id && (old.wg >= len(g.vc) || g.vc[old.wg] < old.wclk) {
			m.reportRace(old.wpos)
		}
		if write && later(old.reads) {
			m.reportRace("an earlier read")
		}
		if !atomic && (later(old.awrites) || write && later(old.areads)) {
			m.reportRace("an earlier atomic access")
		}
	}
	nw := &shadow{}
	if old != nil {
		*nw = *old
	}
	note := func(l []uint32) []uint32 {
		if g.id < len(l) && l[g.id] == g.vc[g.id] {
			return l
		}
		l = append([]uint32(nil), l...)
		for len(l) <= g.id {
			l = append(l, 0)
		}
		l[g.id] = g.vc[g.id]
		return l
	}
	switch {
	case atomic && write:
		nw.awrites = note(nw.awrites)
	case atomic:
		nw.areads = note(nw.areads)
	case write:
		*nw = shadow{wg: g.id, wclk: g.vc[g.id]}
		if m.prog.opt.verbose {
			nw.wpos = m.where()
		}
	default:
		if old != nil && g.id < len(old.reads) && old.reads[g.id] == g.vc[g.id] {
			return
		}
		nw.reads = note(nw.reads)
	}
	m.shadows[cell] = nw
	m.undoFn(func() {
		if old == nil {
			delete(m.shadows, cell)
		} else {
			m.shadows[cell] = old
		}
	})
}

func (m *Machine) raceVal(p *Value, write bool) {
	if a, ok := p.P.(*Agg); ok {
		if len(a.E) > 4096 {
			return
		}
		for i := range a.E {
			m.raceVal(&a.E[i], write)
		}
		return
	}
	m.race(p, write)
}

func (m *Machine) reportRace(other string) {
	if m.w == nil {
		return
	}
	panic(goPanic{Value{P: &Iface{T: m.rt(types.Typ[types.String]), V: cStr("data race")}}})
}

// accessAt is called for plain loads and stores while goroutines exist.
func (m *Machine) accessAt(ptr Value, write bool) {
	if m.noFork > 0 {
		return
	}
	if p, ok := ptr.P.(*Value); ok && p != nil {
		m.raceVal(p, write)
	}
}

// accessCells is accessAt for the cells of a slice.
func (m *Machine) accessCells(cs []Value, write bool) {
	if m.noFork > 0 || len(m.ss.gos) < 2 {
		return
	}
	for i := range cs {
		m.raceVal(&cs[i], write)
	}
}

func (m *Machine) accessMap(v Value, write bool) {
	if m.noFork > 0 {
		return
	}
	if mp, ok := v.P.(*Map); ok && mp != nil {
		m.race(mp, write)
	}
}

// ---- channels ----

func (m *Machine) chanOf(v Value) *Chan {
	switch c := v.P.(type) {
	case *Chan:
		return c
	case nil:
		return nil
	}
	m.unsupported("channel %T", v.P)
	return nil
}

func (m *Machine) chSet(c *Chan, buf []Value, closed bool) {
	ob, oc := c.buf, c.closed
	c.buf, c.closed = buf, closed
	m.undoFn(func() { c.buf, c.closed = ob, oc })
}

// partner finds the goroutine that has waited longest for the other side.
func (m *Machine) partner(c *Chan, send bool) (*Gor, int) {
	var best *Gor
	bi := 0
	for i, g := range m.ss.gos {
		if i == m.ss.cur || g.state != gBlock || g.wake != nil {
			continue
		}
		for k, w := range g.cases {
			if w.ch == c && w.send == send && (best == nil || g.seq < best.seq) {
				best, bi = g, k
				break
			}
		}
	}
	return best, bi
}

func (m *Machine) me() *Gor {
	if m.ss.gos == nil {
		return nil
	}
	return m.ss.gos[m.ss.cur]
}

func (m *Machine) wakeUp(g *Gor, w *wakeRec) {
	g.wake = w
	g.state = gRun
	g.cases = nil
}

func (m *Machine) takeWake() *wakeRec {
	g := m.me()
	if g == nil || g.wake == nil {
		return nil
	}
	w := g.wake
	g.wake = nil
	if w.closed {
		panic(goPanic{Value{P: &Iface{T: m.rt(m.prog.runtimeErrorType), V: cStr("send on closed channel")}}})
	}
	return w
}

// canSend, doSend, canRecv, doRecv: one case of a channel operation.
func (m *Machine) canSend(c *Chan) bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	g, _ := m.partner(c, false)
	return g != nil
}

func (m *Machine) doSend(c *Chan, v Value) {
	if c.closed {
		panic(goPanic{Value{P: &Iface{T: m.rt(m.prog.runtimeErrorType), V: cStr("send on closed channel")}}})
	}
	v = copyVal(v)
	if g, k := m.partner(c, false); g != nil {
		m.handOver(m.me(), g)
		if c.cap == 0 {
			m.handOver(g, m.me())
		}
		m.wakeUp(g, &wakeRec{idx: k, val: v, ok: true})
		return
	}
	m.chSet(c, append(append([]Value(nil), c.buf...), v), false)
	m.acquire(c)
	m.release(c)
}

func (m *Machine) canRecv(c *Chan) bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) > 0 {
		return true
	}
	g, _ := m.partner(c, true)
	return g != nil
}

func (m *Machine) doRecv(c *Chan) (Value, bool) {
	m.acquire(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		buf := append([]Value(nil), c.buf[1:]...)
		if g, k := m.partner(c, true); g != nil {
			buf = append(buf, g.cases[k].val)
			m.handOver(g, m.me())
			m.wakeUp(g, &wakeRec{idx: k})
		}
		m.chSet(c, buf, c.closed)
		m.release(c)
		return v, true
	}
	if g, k := m.partner(c, true); g != nil && !c.closed {
		v := g.cases[k].val
		m.handOver(g, m.me())
		m.handOver(m.me(), g)
		m.wakeUp(g, &wakeRec{idx: k})
		return v, true
	}
	return m.zero(c.elem), false
}

func (m *Machine) closeChan(v Value) {
	m.visibleCh()
	c := m.chanOf(v)
	if c == nil {
		panic(goPanic{Value{P: &Iface{T: m.rt(m.prog.runtimeErrorType), V: cStr("close of nil channel")}}})
	}
	if c.closed {
		panic(goPanic{Value{P: &Iface{T: m.rt(m.prog.runtimeErrorType), V: cStr("close of closed channel")}}})
	}
	m.chSet(c, c.buf, true)
	m.release(c)
	for {
		g, k := m.partner(c, false)
		if g == nil {
			break
		}
		m.handOver(m.me(), g)
		m.wakeUp(g, &wakeRec{idx: k, val: m.zero(c.elem)})
	}
	for {
		g, k := m.partner(c, true)
		if g == nil {
			break
		}
		m.wakeUp(g, &wakeRec{idx: k, closed: true})
	}
}

func (m *Machine) sendStmt(fr *Frame, in *Instr) {
	m.visibleCh()
	if m.takeWake() != nil {
		return
	}
	c, v := m.chanOf(fr.get(in.x)), fr.get(in.y)
	if !m.canSend(c) {
		m.block([]waitCase{{c, true, copyVal(v)}}, nil, 0)
	}
	m.doSend(c, v)
}

func (m *Machine) recvExpr(fr *Frame, in *Instr) Value {
	m.visibleCh()
	var v Value
	var ok bool
	if w := m.takeWake(); w != nil {
		v, ok = w.val, w.ok
	} else {
		c := m.chanOf(fr.get(in.x))
		if !m.canRecv(c) {
			m.block([]waitCase{{c, false, Value{}}}, nil, 0)
		}
		v, ok = m.doRecv(c)
	}
	if in.commaOk {
		return Value{P: &Agg{[]Value{v, cBool(ok)}}}
	}
	return v
}

func (m *Machine) selectStmt(fr *Frame, in *Instr) Value {
	x := in.ssa.(*ssa.Select)
	m.visibleCh()
	k := -1
	var val Value
	ok := false
	if w := m.takeWake(); w != nil {
		k, val, ok = w.idx, w.val, w.ok
	} else {
		var cases []waitCase
		var ready []int
		for i, st := range x.States {
			c := m.chanOf(fr.get(in.args[2*i]))
			w := waitCase{ch: c, send: st.Dir == types.SendOnly}
			if w.send {
				w.val = copyVal(fr.get(in.args[2*i+1]))
				if m.canSend(c) {
					ready = append(ready, i)
				}
			} else if m.canRecv(c) {
				ready = append(ready, i)
			}
			cases = append(cases, w)
		}
		switch {
		case len(ready) > 0:
			k = ready[m.choose(len(ready))]
			if cases[k].send {
				m.doSend(cases[k].ch, cases[k].val)
			} else {
				val, ok = m.doRecv(cases[k].ch)
			}
		case x.Blocking:
			m.block(cases, nil, 0)
		}
	}
	out := []Value{cInt(uint64(int64(k))), cBool(ok)}
	for i, st := range x.States {
		if st.Dir == types.SendOnly {
			continue
		}
		if i == k {
			out = append(out, val)
		} else {
			out = append(out, m.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	return Value{P: &Agg{out}}
}

// ---- locks ----

type lockState struct {
	w bool
	r int
}

type readersOf struct{ p *Value }

func (m *Machine) setLock(p *Value, l lockState) {
	old := m.locks[p]
	m.locks[p] = l
	m.undoFn(func() { m.locks[p] = old })
}

func (m *Machine) fatal(msg string) {
	panic(goPanic{Value{P: &Iface{T: m.rt(types.Typ[types.String]), V: cStr("fatal error: " + msg)}}})
}

func init() {
	lock := func(kind int8, try bool) func(m *Machine, c *callCtx, a []Value) Value {
		return func(m *Machine, c *callCtx, a []Value) Value {
			m.visible()
			if m.noFork >= mergeFork {
				panic(mergeFail{})
			}
			p := m.asPtr(a[0])
			m.raceAtomic(p, true)
			l := m.locks[p]
			if l.w || (kind == 0 && l.r > 0) {
				if try {
					return cBool(false)
				}
				m.block(nil, p, kind)
			}
			if kind == 0 {
				l.w = true
			} else {
				l.r++
			}
			m.setLock(p, l)
			m.acquire(p)
			if kind == 0 {
				m.acquire(readersOf{p})
			}
			if try {
				return cBool(true)
			}
			return Value{}
		}
	}
	unlock := func(kind int8, what string) func(m *Machine, c *callCtx, a []Value) Value {
		return func(m *Machine, c *callCtx, a []Value) Value {
			m.visible()
			if m.noFork >= mergeFork {
				panic(mergeFail{})
			}
			p := m.asPtr(a[0])
			m.raceAtomic(p, true)
			l := m.locks[p]
			if kind == 0 {
				if !l.w {
					m.fatal("sync: " + what)
				}
				l.w = false
			} else {
				if l.r == 0 {
					m.fatal("sync: " + what)
				}
				l.r--
			}
			m.setLock(p, l)
			// readers are ordered with writers only
			if kind == 0 {
				m.release(p)
			} else {
				m.release(readersOf{p})
			}
			return Value{}
		}
	}
	reg("(*sync.Mutex).Lock", lock(0, false))
	reg("(*sync.Mutex).TryLock", lock(0, true))
	reg("(*sync.Mutex).Unlock", unlock(0, "unlock of unlocked mutex"))
	reg("(*sync.RWMutex).Lock", lock(0, false))
	reg("(*sync.RWMutex).TryLock", lock(0, true))
	reg("(*sync.RWMutex).Unlock", unlock(0, "Unlock of unlocked RWMutex"))
	reg("(*sync.RWMutex).RLock", lock(1, false))
	reg("(*sync.RWMutex).TryRLock", lock(1, true))
	reg("(*sync.RWMutex).RUnlock", unlock(1, "RUnlock of unlocked RWMutex"))
	wgAdd := func(m *Machine, p *Value, n int) {
		m.visible()
		old := m.wgs[p]
		if old+n < 0 {
			panic(goPanic{Value{P: &Iface{T: m.rt(types.Typ[types.String]), V: cStr("sync: negative WaitGroup counter")}}})
		}
		m.wgs[p] = old + n
		m.undoFn(func() { m.wgs[p] = old })
		if n < 0 {
			m.release(p)
		}
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, c *callCtx, a []Value) Value {
		wgAdd(m, m.asPtr(a[0]), int(int64(m.intArg(a[1]))))
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, c *callCtx, a []Value) Value {
		wgAdd(m, m.asPtr(a[0]), -1)
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, c *callCtx, a []Value) Value {
		m.visible()
		p := m.asPtr(a[0])
		if m.wgs[p] > 0 {
			m.block(nil, p, 2)
		}
		m.acquire(p)
		return Value{}
	})
	reg("verif/harness/nd.Schedules", func(m *Machine, c *callCtx, a []Value) Value {
		m.ss.bound, m.ss.maxOps, m.ss.fair = int(m.intArg(a[0])), int(m.intArg(a[1])), int(m.intArg(a[2]))
		return Value{}
	})
	reg("verif/harness/nd.Settle", func(m *Machine, c *callCtx, a []Value) Value {
		m.visible()
		n := 0
		if m.ss.gos != nil {
			for i, o := range m.ss.gos {
				if i == m.ss.cur {
					continue
				}
				if m.enabled(o) {
					m.block(nil, nil, 3)
				}
				if o.state != gDone {
					n++
				}
			}
		}
		return cInt(uint64(n))
	})
}

const (
	atomLoad  = 1
	atomStore = 2
)

// atomicOp marks an atomic operation on a cell.
func (m *Machine) atomicOp(p *Value, kind int) {
	if m.ss.gos == nil {
		return
	}
	m.visible()
	m.raceAtomic(p, kind&atomStore != 0)
	if kind&atomLoad != 0 {
		m.acquire(p)
	}
	if kind&atomStore != 0 {
		m.release(p)
	}
}
