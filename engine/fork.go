package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"
)

type input struct {
	name string
	kind string // "u8","u16","u32","u64","bool","big","choice"
	w    uint16
	t    *Term  // nil for choices
	n    uint64 // choice value
}

type observe struct {
	name  string
	v     []*Term // rendered as numbers
	bytes bool
	txt   string
}

type hashApp struct {
	fn   string
	in   []Value // bytes
	out  *Term
	conc bool
}

type ufApp struct {
	fn  string
	in  *Term
	out *Term
}

type choicePoint struct {
	frames []*Frame
	cnt    counters
	pcLen  int
	dec    []byte // decisions made within the instruction up to and including the flipped one
	model  *Model // model of the alternative (nil: unknown)
	steps  int64
	ss     schedState
}

const (
	dTrue    = 1
	dImplied = 2
	dMerged  = 4
)

func (m *Machine) cloneFrames() []*Frame {
	out := make([]*Frame, len(m.frames))
	for i, f := range m.frames {
		c := *f
		c.regs = make([]Value, len(f.regs))
		copy(c.regs, f.regs)
		if f.pan != nil {
			p := *f.pan
			c.pan = &p
		}
		out[i] = &c
	}
	return out
}

// assumeTerm adds a conjunct to the path condition.
func (m *Machine) addPC(t *Term) {
	if t.op == OAnd {
		m.addPC(t.a)
		m.addPC(t.b)
		return
	}
	if t == m.tb.True || m.pcSet[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.pcSet[t] = true
}

func (m *Machine) truncPC(n int) {
	for _, t := range m.pc[n:] {
		delete(m.pcSet, t)
	}
	m.pc = m.pc[:n]
}

func intersects(a, b []uint32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			return true
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return false
}

// slicePC returns the conjuncts of the path condition related to the
// variables of t.
func (m *Machine) slicePC(t *Term) []*Term {
	want := map[uint32]bool{}
	for _, v := range t.vars {
		want[v] = true
	}
	used := make([]bool, len(m.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vars {
					if !want[v] {
						want[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// query checks satisfiability of the path condition plus t.
func (m *Machine) query(t *Term) (SatRes, *Model) {
	if t == m.tb.False {
		return Unsat, nil
	}
	if m.pcSet[m.tb.Not(t)] {
		statCacheHits.Add(1)
		return Unsat, nil
	}
	conj := append(m.slicePC(t), flatAnd(t, nil)...)
	res, upd := m.sol.Check(conj)
	if res == Sat {
		if m.model != nil {
			return Sat, m.model.with(upd)
		}
		mod := newModel()
		mod.vals = upd
		return Sat, mod
	}
	return res, nil
}

func flatAnd(t *Term, out []*Term) []*Term {
	if t.op == OAnd {
		return flatAnd(t.b, flatAnd(t.a, out))
	}
	return append(out, t)
}

// ensureModel makes m.model satisfy the path condition. It returns false if
// the solver could not provide one.
func (m *Machine) ensureModel() bool {
	if m.model != nil {
		return true
	}
	res, upd := Sat, map[uint32]bv{}
	done := map[*Term]bool{}
	for _, c := range m.pc {
		if done[c] {
			continue
		}
		sl := m.slicePC(c)
		for _, x := range sl {
			done[x] = true
		}
		r, u := m.sol.Check(sl)
		if r == Unsat {
			panic(pathAbort{"infeasible", ""})
		}
		if r == Unknown {
			res = Unknown
			break
		}
		for k, v := range u {
			upd[k] = v
		}
	}
	if res != Sat {
		return false
	}
	m.model = newModel()
	m.model.vals = upd
	return true
}

// branch decides a condition on the current path, recording a choice point
// when both sides are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.k == 1
	}
	if m.noFork > 0 {
		if m.noFork >= mergeFork {
			panic(mergeFail{})
		}
		m.unsupported("symbolic branch during initialisation")
	}
	if m.decPos < len(m.decs) {
		d := m.decs[m.decPos]
		m.decPos++
		side := d&dTrue != 0
		if d&dImplied == 0 {
			m.addSide(c, side)
			if m.model != nil && m.model.evalBool(c) != side {
				m.model = nil
			}
		}
		return side
	}
	if m.pcSet[c] {
		m.record(dTrue | dImplied)
		return true
	}
	nc := m.tb.Not(c)
	if m.pcSet[nc] {
		m.record(dImplied)
		return false
	}
	var side bool
	if m.ensureModel() {
		side = m.model.evalBool(c)
	} else {
		// no model: find a feasible side
		r, mod := m.query(c)
		side = r != Unsat
		if r == Sat {
			m.model = nil // slices only; keep lazily recomputed
			_ = mod
		}
	}
	other := nc
	if !side {
		other = c
	}
	res, mod := m.query(other)
	if res == Unsat {
		d := byte(dImplied)
		if side {
			d |= dTrue
		}
		m.record(d)
		return side
	}
	if res == Unknown {
		statUnknownBranches.Add(1)
		mod = nil
	}
	// choice point for the other side
	alt := append([]byte{}, m.decs[m.ins.decs:]...)
	od := byte(0)
	if !side {
		od = dTrue
	}
	alt = append(alt, od)
	m.cps = append(m.cps, &choicePoint{frames: m.cloneFrames(), cnt: m.ins, pcLen: m.ins.pc, dec: alt, model: mod, steps: m.steps, ss: m.snapSched()})
	statForks.Add(1)
	if forkSites != nil {
		noteFork(m.where())
	}
	d := byte(0)
	if side {
		d = dTrue
	}
	m.record(d)
	m.addSide(c, side)
	return side
}

func (m *Machine) addSide(c *Term, side bool) {
	if side {
		m.addPC(c)
	} else {
		m.addPC(m.tb.Not(c))
	}
}

func (m *Machine) record(d byte) {
	m.decs = append(m.decs, d)
	m.decPos = len(m.decs)
}

// assume restricts the path; infeasible paths end.
func (m *Machine) assume(c *Term) {
	if c == m.tb.True {
		return
	}
	if c == m.tb.False {
		panic(pathAbort{"assume", ""})
	}
	if m.noFork > 0 {
		m.unsupported("assume during initialisation")
	}
	if m.decPos < len(m.decs) {
		// replaying: feasibility of the prefix is known
		m.addPC(c)
		if m.model != nil && !m.model.evalBool(c) {
			m.model = nil
		}
		return
	}
	if m.pcSet[c] {
		return
	}
	if m.model != nil && m.model.evalBool(c) {
		m.addPC(c)
		return
	}
	res, mod := m.query(c)
	if res == Unsat {
		panic(pathAbort{"assume", ""})
	}
	if m.model == nil {
		mod = nil
	}
	m.addPC(c)
	m.model = mod
}

// choose picks one of n alternatives (all explored).
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.noFork > 0 {
		if m.noFork >= mergeFork {
			panic(mergeFail{})
		}
		m.unsupported("choice during initialisation")
	}
	// unary encoding: "take i" decisions
	for i := 0; i < n-1; i++ {
		if m.decPos < len(m.decs) {
			d := m.decs[m.decPos]
			m.decPos++
			if d&dTrue != 0 {
				return i
			}
			continue
		}
		alt := append([]byte{}, m.decs[m.ins.decs:]...)
		alt = append(alt, 0)
		m.cps = append(m.cps, &choicePoint{frames: m.cloneFrames(), cnt: m.ins, pcLen: m.ins.pc, dec: alt, model: m.model, steps: m.steps, ss: m.snapSched()})
		statForks.Add(1)
		m.record(dTrue)
		return i
	}
	return n - 1
}

const maxConcretize = 512

// concretize fixes a term to a concrete value, exploring all of them.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if m.noFork >= mergeFork {
		panic(mergeFail{})
	}
	if t.w > 64 {
		m.unsupported("concretize wide term")
	}
	for i := 0; i < maxConcretize; i++ {
		var v uint64
		if m.decPos < len(m.decs) {
			// replay: candidate values are regenerated from the interval walk
			v = m.concCandidate(t, i)
		} else {
			v = m.concCandidate(t, i)
		}
		if m.branch(m.tb.Eq(t, m.tb.Const(t.w, v))) {
			return v
		}
	}
	m.unsupported("more than %d values when concretizing %v", maxConcretize, t)
	return 0
}

// concCandidate proposes values in a deterministic order (independent of
// solver models, so that replay of decision prefixes is possible): the
// smallest feasible value not yet excluded.
func (m *Machine) concCandidate(t *Term, i int) uint64 {
	// small domains: walk the interval
	if t.hi-t.lo < maxConcretize {
		return t.lo + uint64(i)
	}
	// otherwise the smallest value: binary search with the solver
	lo, hi := t.lo, t.hi
	if i > 0 {
		// values below the previous candidates are excluded by the path condition
	}
	tb := m.tb
	for lo < hi {
		mid := lo + (hi-lo)/2
		res, _ := m.query(tb.Ule(t, tb.Const(t.w, mid)))
		switch res {
		case Sat:
			hi = mid
		case Unsat:
			lo = mid + 1
		default:
			m.unsupported("solver gave no answer while concretizing")
		}
	}
	return lo
}

// restore rewinds to a choice point and takes its alternative.
func (m *Machine) restore(cp *choicePoint) {
	m.rollback(cp.cnt.trail)
	m.frames = cp.frames
	m.ss = cp.ss
	m.truncPC(cp.pcLen)
	m.decs = append(m.decs[:cp.cnt.decs], cp.dec...)
	m.decPos = cp.cnt.decs
	m.inputs = m.inputs[:cp.cnt.inputs]
	m.hashes = m.hashes[:cp.cnt.hashes]
	m.covers = m.covers[:cp.cnt.covers]
	m.observes = m.observes[:cp.cnt.observes]
	m.notes = m.notes[:cp.cnt.notes]
	m.uf = m.uf[:cp.cnt.uf]
	m.model = cp.model
	m.steps = cp.steps
	m.panicOut = nil
}

func (m *Machine) rollback(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		u := &m.trail[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
		*u = undo{}
	}
	m.trail = m.trail[:n]
}

// ---- if-conversion ----

const mergeFork = 1 << 20

type mergeFail struct{}

// tryMerge executes both sides of a symbolic branch up to the immediate
// post-dominator when they are free of side effects and merges the results.
// 0: not possible, 1: merged (frame moved to the join), 2: both sides return.
func (m *Machine) tryMerge(fr *Frame, c *Term) (res int) {
	if m.noFork > 0 && m.noFork < mergeFork {
		return 0
	}
	b := &fr.code.blocks[fr.blk]
	if b.ipdom == -2 {
		return 0
	}
	if b.ipdom == -1 && (fr.defers != nil || fr.post != nil || fr.nested) {
		return 0
	}
	if m.pcSet[c] || m.pcSet[m.tb.Not(c)] {
		return 0
	}
	blk, pc := fr.blk, fr.pc
	saved := append([]Value(nil), fr.regs...)
	nframes := len(m.frames)
	m.noFork += mergeFork
	insSave := m.ins
	steps := m.steps
	defer func() {
		m.noFork -= mergeFork
		m.ins = insSave
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeFail, goPanic:
			case pathAbort:
			default:
				panic(r)
			}
			m.steps = steps
			m.frames = m.frames[:nframes]
			copy(fr.regs, saved)
			fr.blk, fr.pc = blk, pc
			statMergeFail.Add(1)
			res = 0
		}
	}()
	budget := 400
	vals := m.mergeBoth(fr, blk, c, b.ipdom, &budget, 0)
	statMerges.Add(1)
	if b.ipdom == -1 {
		m.mergeOut = vals
		fr.blk, fr.pc = blk, pc
		return 2
	}
	nb := &fr.code.blocks[b.ipdom]
	for i := range nb.phis {
		fr.regs[nb.phis[i].dst] = vals[i]
	}
	fr.blk, fr.pc = b.ipdom, 0
	return 1
}

func (m *Machine) mergeRes(fr *Frame) []Value {
	v := m.mergeOut
	m.mergeOut = nil
	return v
}

func (m *Machine) mergeBoth(fr *Frame, blk int, c *Term, join int, budget *int, depth int) []Value {
	if depth > 12 {
		panic(mergeFail{})
	}
	var out, live [2][]Value
	var lv []liveReg
	if join >= 0 {
		lv = fr.code.liveAt(join)
	}
	saved := append([]Value(nil), fr.regs...)
	for k := 0; k < 2; k++ {
		b := &fr.code.blocks[blk]
		out[k] = m.mergeWalk(fr, b.succs[k], b.edgeIx[k], join, budget, depth)
		live[k] = make([]Value, len(lv))
		for i, l := range lv {
			live[k][i] = fr.regs[l.reg]
		}
		copy(fr.regs, saved)
	}
	for i, l := range lv {
		fr.regs[l.reg] = m.mergeVal(l.t, c, live[0][i], live[1][i])
	}
	res := make([]Value, len(out[0]))
	for i := range res {
		var t types.Type
		if join == -1 {
			t = fr.code.zres[i]
		} else {
			t = fr.code.blocks[join].phis[i].t
		}
		res[i] = m.mergeVal(t, c, out[0][i], out[1][i])
	}
	return res
}

// mergeWalk runs from a block entry to the join (or to a return for join -1).
func (m *Machine) mergeWalk(fr *Frame, to, edge, join int, budget *int, depth int) []Value {
	for {
		nb := &fr.code.blocks[to]
		if to == join {
			vals := make([]Value, len(nb.phis))
			for i := range nb.phis {
				vals[i] = fr.get(nb.phis[i].edges[edge])
			}
			return vals
		}
		m.enter(fr, to, edge)
		blk := to
		for pc := 0; ; pc++ {
			in := &fr.code.blocks[blk].ins[pc]
			*budget--
			if *budget < 0 {
				panic(mergeFail{})
			}
			fr.blk, fr.pc = blk, pc
			switch in.op {
			case iJump:
				to, edge = nb.succs[0], nb.edgeIx[0]
			case iIf:
				cv := fr.get(in.x)
				if t, ok := cv.P.(*Term); ok {
					ip := fr.code.blocks[blk].ipdom
					if ip == -2 {
						panic(mergeFail{})
					}
					vals := m.mergeBoth(fr, blk, t, ip, budget, depth+1)
					if ip == -1 {
						if join != -1 {
							panic(mergeFail{})
						}
						return vals
					}
					if ip == join {
						return vals
					}
					jb := &fr.code.blocks[ip]
					for i := range jb.phis {
						fr.regs[jb.phis[i].dst] = vals[i]
					}
					// continue inside the inner join block
					blk, pc = ip, -1
					nb = jb
					continue
				}
				k := 0
				if cv.N == 0 {
					k = 1
				}
				to, edge = nb.succs[k], nb.edgeIx[k]
			case iReturn:
				if join != -1 {
					panic(mergeFail{})
				}
				vals := make([]Value, len(in.args))
				for i, a := range in.args {
					vals[i] = fr.get(a)
				}
				return vals
			case iNop, iBinOp, iLoad, iFieldAddr, iField, iExtract, iIndex, iIndexAddr, iNot, iNeg, iCompl, iConvert, iMakeInterface:
				m.step(fr)
				continue
			case iCall:
				if in.call.builtin == "len" || in.call.builtin == "cap" || in.call.builtin == "min" || in.call.builtin == "max" {
					m.step(fr)
					continue
				}
				if in.call.fn != nil && in.call.builtin == "" && depth < 6 {
					m.mergeCall(fr, in, budget, depth)
					continue
				}
				panic(mergeFail{})
			default:
				panic(mergeFail{})
			}
			break
		}
	}
}

// mergeCall evaluates a side-effect free call inside a merge region.
func (m *Machine) mergeCall(fr *Frame, in *Instr, budget *int, depth int) {
	fn, args := m.callee(fr, in)
	code := m.codeOf(fn.Fn)
	if code.intr != nil {
		if !code.intr.pure {
			panic(mergeFail{})
		}
		v := code.intr.fn(m, &callCtx{fr: fr, fn: fn, name: code.intr.name}, args)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		return
	}
	if code.blocks == nil || code.recover >= 0 {
		panic(mergeFail{})
	}
	if !code.inited {
		for _, p := range code.pkgs {
			m.ensureInit(p)
		}
		code.inited = true
	}
	code.runs++
	nf := &Frame{code: code, regs: make([]Value, code.nregs)}
	copy(nf.regs, args)
	copy(nf.regs[len(fn.Fn.Params):], fn.Free)
	m.frames = append(m.frames, nf)
	n := len(m.frames)
	defer func() { m.frames = m.frames[:n-1] }()
	vals := m.mergeWalkEntry(nf, budget, depth+1)
	if in.dst >= 0 {
		fr.regs[in.dst] = tuple(vals)
	}
}

func (m *Machine) mergeWalkEntry(fr *Frame, budget *int, depth int) []Value {
	return m.mergeWalk(fr, 0, 0, -1, budget, depth)
}

func (m *Machine) mergeVal(t types.Type, c *Term, a, b Value) Value {
	if a == b {
		return a
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if nc, w, _ := classify(t); nc == ncInt || nc == ncBool {
			return tv(m.tb.Ite(c, m.term(a, w), m.term(b, w)))
		}
	case *types.Struct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		e := make([]Value, len(x.E))
		for i := range e {
			e[i] = m.mergeVal(u.Field(i).Type(), c, x.E[i], y.E[i])
		}
		return Value{P: &Agg{e}}
	case *types.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		e := make([]Value, len(x.E))
		for i := range e {
			e[i] = m.mergeVal(u.Elem(), c, x.E[i], y.E[i])
		}
		return Value{P: &Agg{e}}
	case *types.Tuple:
		x, y := a.P.(*Agg), b.P.(*Agg)
		e := make([]Value, len(x.E))
		for i := range e {
			e[i] = m.mergeVal(u.At(i).Type(), c, x.E[i], y.E[i])
		}
		return Value{P: &Agg{e}}
	case *types.Interface:
		x, ok1 := a.P.(*Iface)
		y, ok2 := b.P.(*Iface)
		if ok1 && ok2 && x.T == y.T {
			return Value{P: &Iface{T: x.T, V: m.mergeVal(x.T.T, c, x.V, y.V)}}
		}
	}
	panic(mergeFail{})
}

func describe(t *Term) string { return fmt.Sprint(t) }

// forkSites counts the choice points per place, for debugging.
var (
	forkSites map[string]int
	forkMu    sync.Mutex
)

func init() {
	if os.Getenv("GOSYM_FORKS") != "" {
		forkSites = map[string]int{}
	}
}

func noteFork(at string) {
	forkMu.Lock()
	forkSites[at]++
	forkMu.Unlock()
}

func printForks() {
	var at []string
	for a := range forkSites {
		at = append(at, a)
	}
	sort.Slice(at, func(i, j int) bool { return forkSites[at[i]] > forkSites[at[j]] })
	for i, a := range at {
		if i == 25 {
			break
		}
		fmt.Fprintf(os.Stderr, "%6d %s\n", forkSites[a], a)
	}
}
