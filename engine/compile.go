package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iBad iop = iota
	iAlloc
	iBinOp
	iCall
	iNop // changetype-like copy
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iNot
	iNeg
	iLoad
	iCompl
	iRecv
	iMakeChan
	iSend
	iSelect
)

type opnd = int32

type numClass uint8

const (
	ncOther numClass = iota
	ncBool
	ncInt
	ncFloat
	ncString
)

type Instr struct {
	op      iop
	nc      numClass
	signed  bool
	w       uint16
	tok     token.Token
	dst     int32
	x, y, z opnd
	has     uint8 // slice: bit0 low, bit1 high, bit2 max
	commaOk bool
	n       int
	t, t2   types.Type
	args    []opnd
	aux     any
	ssa     ssa.Instruction
	call    *callSite
	noMerge int
}

type callSite struct {
	fn      *ssa.Function
	builtin string
	method  *types.Func
	sig     *types.Signature
	argT    []types.Type
}

type phi struct {
	dst   int32
	edges []opnd
	t     types.Type
}

type block struct {
	phis   []phi
	ins    []Instr
	succs  []int
	preds  []int
	edgeIx []int     // for each succ: index of the edge within that block's preds
	ipdom  int       // immediate post dominator, -1 exit, -2 unknown
	live   []liveReg // see liveAt
	liveOK bool
}

// liveReg is a register that code after a join may read.
type liveReg struct {
	reg int32
	t   types.Type
}

type Code struct {
	regOf   map[ssa.Value]int32
	fn      *ssa.Function
	name    string
	nregs   int
	consts  []Value
	blocks  []block
	pkgs    []*ssa.Package // packages whose globals are referenced
	inited  bool
	intr    *Intrinsic
	recover int
	zres    []types.Type
	runs    int64
	inRepo  bool
	deferFn bool
}

func (m *Machine) codeOf(fn *ssa.Function) *Code {
	if c, ok := m.codes[fn]; ok {
		return c
	}
	c := m.compile(fn)
	m.codes[fn] = c
	return c
}

type compiler struct {
	m    *Machine
	c    *Code
	regs map[ssa.Value]int32
	cidx map[ssa.Value]opnd
	pk   map[*ssa.Package]bool
}

func (cc *compiler) reg(v ssa.Value) int32 {
	if r, ok := cc.regs[v]; ok {
		return r
	}
	r := int32(cc.c.nregs)
	cc.c.nregs++
	cc.regs[v] = r
	return r
}

func (cc *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		if o, ok := cc.cidx[v]; ok {
			return o
		}
		var val Value
		switch x := x.(type) {
		case *ssa.Const:
			val = cc.m.constVal(x)
		case *ssa.Global:
			val = Value{P: cc.m.global(x)}
			if !cc.pk[x.Pkg] {
				cc.pk[x.Pkg] = true
				cc.c.pkgs = append(cc.c.pkgs, x.Pkg)
			}
		case *ssa.Function:
			val = Value{P: cc.m.funcVal(x)}
		case *ssa.Builtin:
			val = Value{P: &Opaque{What: "builtin " + x.Name()}}
		}
		cc.c.consts = append(cc.c.consts, val)
		o := opnd(-len(cc.c.consts))
		cc.cidx[v] = o
		return o
	}
	return cc.reg(v)
}

func (m *Machine) funcVal(fn *ssa.Function) *Closure {
	if c, ok := m.funcVals[fn]; ok {
		return c
	}
	c := &Closure{Fn: fn}
	m.funcVals[fn] = c
	return c
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := newCell(m.zero(g.Type().(*types.Pointer).Elem()))
	m.globals[g] = p
	return p
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		// type parameter constants in generic (uninstantiated) bodies
		return Value{P: &Opaque{What: "const " + c.String()}}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return cBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return cStr(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w := widthOf(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & maskN(w)}
		}
		if u, ok := constant.Uint64Val(v); ok {
			return Value{N: u & maskN(w)}
		}
		bi, _ := new(big.Int).SetString(v.ExactString(), 10)
		return Value{N: bi.Uint64() & maskN(w)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return mkFloat(f, b)
	case b.Info()&types.IsComplex != 0:
		return Value{P: &Opaque{What: "complex"}}
	}
	return Value{P: &Opaque{What: "const"}}
}

func mkFloat(f float64, b *types.Basic) Value {
	if b.Kind() == types.Float32 {
		return Value{N: uint64(math.Float32bits(float32(f)))}
	}
	return Value{N: math.Float64bits(f)}
}

// SymFloat is the float64 of a symbolic integer of at most 53 bits.
type SymFloat struct {
	t      *Term
	signed bool
}

func (m *Machine) floatOf(v Value, b *types.Basic) float64 {
	if v.P != nil {
		m.unsupported("symbolic float")
	}
	if b.Kind() == types.Float32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}

func classify(t types.Type) (nc numClass, w uint16, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ncOther, 0, false
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return ncBool, 0, false
	case b.Info()&types.IsInteger != 0:
		return ncInt, widthOf(b), isSigned(b)
	case b.Info()&types.IsFloat != 0:
		return ncFloat, widthOf(b), true
	case b.Info()&types.IsString != 0:
		return ncString, 0, false
	}
	return ncOther, 0, false
}

func (m *Machine) compile(fn *ssa.Function) *Code {
	c := &Code{fn: fn, name: fn.String(), recover: -1}
	c.inRepo = m.prog.inRepo(fn)
	c.intr = m.prog.intrinsicFor(fn)
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.zres = append(c.zres, res.At(i).Type())
	}
	if c.intr != nil {
		return c
	}
	if fn.Blocks == nil {
		return c
	}
	c.regOf = map[ssa.Value]int32{}
	cc := &compiler{m: m, c: c, regs: c.regOf, cidx: map[ssa.Value]opnd{}, pk: map[*ssa.Package]bool{}}
	for _, p := range fn.Params {
		cc.reg(p)
	}
	for _, p := range fn.FreeVars {
		cc.reg(p)
	}
	c.blocks = make([]block, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		blk := &c.blocks[bi]
		blk.ipdom = -2
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
			ix := 0
			for i, p := range s.Preds {
				if p == b {
					ix = i
				}
			}
			blk.edgeIx = append(blk.edgeIx, ix)
		}
		if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
			// both edges into the same block: first and second occurrence
			k := 0
			for i, p := range b.Succs[0].Preds {
				if p == b {
					blk.edgeIx[k] = i
					k++
				}
			}
		}
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, p.Index)
		}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := phi{dst: cc.reg(p), t: p.Type()}
				for _, e := range p.Edges {
					ph.edges = append(ph.edges, cc.op(e))
				}
				blk.phis = append(blk.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if selfStore(in) {
				continue
			}
			blk.ins = append(blk.ins, cc.instr(in))
		}
	}
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	postdom(c)
	return c
}

// selfStore: "return result, f(&result)" with result a named result. The
// language leaves open whether result is read before or after the call; the
// SSA form reads it before, the compiler that builds the real code after,
// where storing the result in itself does nothing.
func selfStore(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	a, ok := st.Addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	ld, ok := st.Val.(*ssa.UnOp)
	return ok && ld.Op == token.MUL && ld.X == a && ld.Block() == st.Block()
}

func (cc *compiler) callSite(common *ssa.CallCommon, i *Instr) {
	cs := &callSite{sig: common.Signature()}
	i.call = cs
	if common.IsInvoke() {
		cs.method = common.Method
		i.x = cc.op(common.Value)
	} else {
		switch f := common.Value.(type) {
		case *ssa.Function:
			cs.fn = f
		case *ssa.Builtin:
			cs.builtin = f.Name()
		default:
			i.x = cc.op(common.Value)
		}
	}
	for _, a := range common.Args {
		i.args = append(i.args, cc.op(a))
		cs.argT = append(cs.argT, a.Type())
	}
}

func (cc *compiler) instr(in ssa.Instruction) Instr {
	i := Instr{ssa: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		i.dst = cc.reg(v)
		i.t = v.Type()
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		i.op = iAlloc
		i.t = x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		i.op = iBinOp
		i.tok = x.Op
		i.x, i.y = cc.op(x.X), cc.op(x.Y)
		i.t = x.X.Type()
		i.nc, i.w, i.signed = classify(i.t)
		if x.Op == token.SHL || x.Op == token.SHR {
			i.t2 = x.Y.Type()
		} else if _, ok := i.t.Underlying().(*types.Interface); !ok {
			if _, ok := x.Y.Type().Underlying().(*types.Interface); ok {
				i.t = x.Y.Type()
			}
		}
	case *ssa.Call:
		i.op = iCall
		cc.callSite(&x.Call, &i)
	case *ssa.ChangeInterface:
		i.op = iNop
		i.x = cc.op(x.X)
	case *ssa.ChangeType:
		i.op = iNop
		i.x = cc.op(x.X)
	case *ssa.Convert:
		i.op = iConvert
		i.x = cc.op(x.X)
		i.t2 = x.X.Type()
		i.nc, i.w, i.signed = classify(i.t2)
	case *ssa.MultiConvert:
		i.op = iConvert
		i.x = cc.op(x.X)
		i.t2 = x.X.Type()
		i.nc, i.w, i.signed = classify(i.t2)
	case *ssa.Defer:
		i.op = iDefer
		cc.callSite(&x.Call, &i)
		if x.DeferStack != nil {
			i.y = cc.op(x.DeferStack)
			i.n = 1
		}
	case *ssa.Extract:
		i.op = iExtract
		i.x = cc.op(x.Tuple)
		i.n = x.Index
	case *ssa.Field:
		i.op = iField
		i.x = cc.op(x.X)
		i.n = x.Field
	case *ssa.FieldAddr:
		i.op = iFieldAddr
		i.x = cc.op(x.X)
		i.n = x.Field
	case *ssa.Go:
		i.op = iGo
		cc.callSite(&x.Call, &i)
	case *ssa.If:
		i.op = iIf
		i.x = cc.op(x.Cond)
	case *ssa.Index:
		i.op = iIndex
		i.x, i.y = cc.op(x.X), cc.op(x.Index)
		i.t2 = x.X.Type()
		_, i.w, i.signed = classify(x.Index.Type())
	case *ssa.IndexAddr:
		i.op = iIndexAddr
		i.x, i.y = cc.op(x.X), cc.op(x.Index)
		i.t2 = x.X.Type()
		_, i.w, i.signed = classify(x.Index.Type())
	case *ssa.Jump:
		i.op = iJump
	case *ssa.Lookup:
		i.op = iLookup
		i.x, i.y = cc.op(x.X), cc.op(x.Index)
		i.t2 = x.X.Type()
		i.commaOk = x.CommaOk
		_, i.w, i.signed = classify(x.Index.Type())
	case *ssa.MakeChan:
		i.op = iMakeChan
		i.x = cc.op(x.Size)
	case *ssa.MakeClosure:
		i.op = iMakeClosure
		i.aux = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			i.args = append(i.args, cc.op(b))
		}
	case *ssa.MakeInterface:
		i.op = iMakeInterface
		i.x = cc.op(x.X)
		i.aux = cc.m.rt(x.X.Type())
	case *ssa.MakeMap:
		i.op = iMakeMap
	case *ssa.MakeSlice:
		i.op = iMakeSlice
		i.x, i.y = cc.op(x.Len), cc.op(x.Cap)
		i.t2 = x.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MapUpdate:
		i.op = iMapUpdate
		i.x, i.y, i.z = cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		i.t = x.Map.Type()
	case *ssa.Next:
		i.op = iNext
		i.x = cc.op(x.Iter)
		i.commaOk = x.IsString
		if r, ok := x.Iter.(*ssa.Range); ok {
			i.t2 = r.X.Type()
		}
	case *ssa.Panic:
		i.op = iPanic
		i.x = cc.op(x.X)
	case *ssa.Range:
		i.op = iRange
		i.x = cc.op(x.X)
		i.t2 = x.X.Type()
	case *ssa.Return:
		i.op = iReturn
		for _, r := range x.Results {
			i.args = append(i.args, cc.op(r))
		}
	case *ssa.RunDefers:
		i.op = iRunDefers
	case *ssa.Select:
		i.op = iSelect
		for _, st := range x.States {
			i.args = append(i.args, cc.op(st.Chan))
			if st.Send != nil {
				i.args = append(i.args, cc.op(st.Send))
			} else {
				i.args = append(i.args, cc.op(st.Chan))
			}
		}
	case *ssa.Send:
		i.op = iSend
		i.x, i.y = cc.op(x.Chan), cc.op(x.X)
	case *ssa.Slice:
		i.op = iSlice
		i.x = cc.op(x.X)
		i.t2 = x.X.Type()
		i.args = make([]opnd, 3)
		for k, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				i.has |= 1 << k
				i.args[k] = cc.op(v)
			}
		}
	case *ssa.SliceToArrayPointer:
		i.op = iSliceToArr
		i.x = cc.op(x.X)
		i.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *ssa.Store:
		i.op = iStore
		i.x, i.y = cc.op(x.Addr), cc.op(x.Val)
	case *ssa.TypeAssert:
		i.op = iTypeAssert
		i.x = cc.op(x.X)
		i.t = x.AssertedType
		i.commaOk = x.CommaOk
		if _, ok := x.AssertedType.Underlying().(*types.Interface); !ok {
			i.aux = cc.m.rt(x.AssertedType)
		}
	case *ssa.UnOp:
		i.x = cc.op(x.X)
		i.nc, i.w, i.signed = classify(x.X.Type())
		switch x.Op {
		case token.NOT:
			i.op = iNot
		case token.SUB:
			i.op = iNeg
		case token.MUL:
			i.op = iLoad
			i.nc, i.w, i.signed = classify(x.Type())
		case token.XOR:
			i.op = iCompl
		case token.ARROW:
			i.op = iRecv
			i.commaOk = x.CommaOk
		}
	default:
		panic(fmt.Sprintf("instr %T", in))
	}
	return i
}

// postdom computes immediate post-dominators (virtual exit: -1).
func postdom(c *Code) {
	n := len(c.blocks)
	exit := n
	// reverse postorder on the reversed graph
	preds := make([][]int, n+1) // reversed-graph preds = successors
	succs := make([][]int, n+1) // reversed-graph succs
	for i := range c.blocks {
		b := &c.blocks[i]
		if len(b.succs) == 0 {
			preds[i] = append(preds[i], exit)
			succs[exit] = append(succs[exit], i)
		}
		for _, s := range b.succs {
			preds[i] = append(preds[i], s)
			succs[s] = append(succs[s], i)
		}
	}
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, s := range succs[x] {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, x)
	}
	dfs(exit)
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exit] = exit
	for changed := true; changed; {
		changed = false
		for k := len(order) - 1; k >= 0; k-- {
			x := order[k]
			if x == exit {
				continue
			}
			nd := -1
			for _, p := range preds[x] {
				if num[p] < 0 || idom[p] < 0 {
					continue
				}
				if nd < 0 {
					nd = p
					continue
				}
				a, b := nd, p
				for a != b {
					for num[a] < num[b] {
						a = idom[a]
					}
					for num[b] < num[a] {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd != idom[x] {
				idom[x] = nd
				changed = true
			}
		}
	}
	for i := range c.blocks {
		switch {
		case idom[i] == exit:
			c.blocks[i].ipdom = -1
		case idom[i] < 0:
			c.blocks[i].ipdom = -2
		default:
			c.blocks[i].ipdom = idom[i]
		}
	}
}

// liveAt returns the registers set in blocks that strictly dominate block b
// and read in blocks that can be reached from b. Merging the sides of a loop
// exit has to merge them, there are no phis for them.
func (c *Code) liveAt(b int) []liveReg {
	blk := &c.blocks[b]
	if blk.liveOK {
		return blk.live
	}
	blk.liveOK = true
	join := c.fn.Blocks[b]
	reach := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		if reach[x] {
			return
		}
		reach[x] = true
		for _, s := range x.Succs {
			visit(s)
		}
	}
	visit(join)
	for v, r := range c.regOf {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil || in.Block() == join || !in.Block().Dominates(join) || v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			if ub := u.Block(); ub != nil && reach[ub] {
				blk.live = append(blk.live, liveReg{r, v.Type()})
				break
			}
		}
	}
	sort.Slice(blk.live, func(i, j int) bool { return blk.live[i].reg < blk.live[j].reg })
	return blk.live
}
