package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
)

// Integer reasoning: queries made of sums, differences, constant multiples and
// comparisons are handed to z3 as linear integer arithmetic, with an exact
// translation of the wrap-around of machine words. Sums of several wide words
// are hard for bit-blasting and easy there.

var statLIA atomic.Int64

type lia struct {
	s       *Solver
	cmd     *exec.Cmd
	inRaw   io.WriteCloser
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[*Term]bool
	frag    map[*Term]int // 1 in the fragment, 2 not
	sums    map[*Term]bool
}

func (l *lia) start() {
	l.close()
	l.cmd = exec.Command(solverBin(), "-in", "-smt2")
	in, err := l.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := l.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := l.cmd.Start(); err != nil {
		panic(err)
	}
	l.inRaw, l.in, l.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	l.defined = map[*Term]bool{}
	l.in.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout 1000)\n")
}

func (l *lia) close() {
	if l.cmd != nil {
		l.inRaw.Close()
		l.cmd.Process.Kill()
		l.cmd.Wait()
		l.cmd = nil
	}
}

// has tells whether t is in the fragment.
func (l *lia) has(t *Term) bool {
	if t == nil {
		return true
	}
	if r, ok := l.frag[t]; ok {
		return r == 1
	}
	r := l.has1(t) && l.has(t.a) && l.has(t.b) && l.has(t.c)
	l.frag[t] = 2
	if r {
		l.frag[t] = 1
	}
	return r
}

func (l *lia) has1(t *Term) bool {
	if t.w > 64 {
		return false
	}
	switch t.op {
	case OConst, OVar, ONot, OAnd, OOr, OEq, OIte, OAdd, OSub, OConcat, OSExt, OUlt, OUle, OSlt, OSle:
		return true
	case OExtract:
		// low parts that lose nothing
		return t.a.w <= 64 && uint16(t.k&0xffffffff) == 0 && t.a.hi <= maskN(t.w)
	case OMul:
		return (t.a.isConst() || t.b.isConst()) && !l.mulWraps(t)
	case OUDiv, OURem:
		return t.b.isConst() && t.b.k != 0
	case OLShr:
		return t.b.isConst() && t.b.k < uint64(t.w)
	}
	return false
}

func (l *lia) mulWraps(t *Term) bool {
	p := new(big.Int).Mul(new(big.Int).SetUint64(t.a.hi), new(big.Int).SetUint64(t.b.hi))
	return p.Cmp(new(big.Int).SetUint64(maskN(t.w))) > 0
}

// hasSum tells whether wide sums or differences occur.
func (l *lia) hasSum(t *Term) bool {
	if t == nil || t.op == OConst || t.op == OVar {
		return false
	}
	if r, ok := l.sums[t]; ok {
		return r
	}
	r := t.w >= 16 && (t.op == OAdd || t.op == OSub) && !t.a.isConst() && !t.b.isConst()
	r = r || l.hasSum(t.a) || l.hasSum(t.b) || l.hasSum(t.c)
	l.sums[t] = r
	return r
}

func pow2s(w uint16) string { return new(big.Int).Lsh(big.NewInt(1), uint(w)).String() }

func (l *lia) ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			return t.ref()
		}
		return fmt.Sprint(t.k)
	}
	return t.ref()
}

// signed is the signed value of a word.
func (l *lia) signed(t *Term) string {
	half := uint64(1) << (t.w - 1)
	r := l.ref(t)
	switch {
	case t.hi < half:
		return r
	case t.lo >= half:
		return fmt.Sprintf("(- %s %s)", r, pow2s(t.w))
	}
	return fmt.Sprintf("(ite (< %s %d) %s (- %s %s))", r, half, r, r, pow2s(t.w))
}

func (l *lia) body(t *Term) string {
	a, b := "", ""
	if t.a != nil {
		a = l.ref(t.a)
	}
	if t.b != nil {
		b = l.ref(t.b)
	}
	switch t.op {
	case ONot, OAnd, OOr, OEq, OIte:
		s := "(" + opNames[t.op] + " " + a
		if t.b != nil {
			s += " " + b
		}
		if t.c != nil {
			s += " " + l.ref(t.c)
		}
		return s + ")"
	case OAdd:
		sum := fmt.Sprintf("(+ %s %s)", a, b)
		if m := maskN(t.w); t.a.hi <= m-t.b.hi {
			return sum
		}
		return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", sum, pow2s(t.w), sum, sum, pow2s(t.w))
	case OSub:
		dif := fmt.Sprintf("(- %s %s)", a, b)
		if t.a.lo >= t.b.hi {
			return dif
		}
		return fmt.Sprintf("(ite (>= %s %s) %s (+ %s %s))", a, b, dif, dif, pow2s(t.w))
	case OMul:
		return fmt.Sprintf("(* %s %s)", a, b)
	case OUDiv:
		return fmt.Sprintf("(div %s %s)", a, b)
	case OURem:
		return fmt.Sprintf("(mod %s %s)", a, b)
	case OLShr:
		return fmt.Sprintf("(div %s %s)", a, pow2s(uint16(t.b.k)))
	case OConcat:
		if t.a.isConst() && t.a.k == 0 {
			return b
		}
		return fmt.Sprintf("(+ (* %s %s) %s)", a, pow2s(t.b.w), b)
	case OExtract:
		return a
	case OSExt:
		half := uint64(1) << (t.a.w - 1)
		if t.a.hi < half {
			return a
		}
		add := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.w)), new(big.Int).Lsh(big.NewInt(1), uint(t.a.w)))
		return fmt.Sprintf("(ite (< %s %d) %s (+ %s %s))", a, half, a, a, add)
	case OUlt:
		return fmt.Sprintf("(< %s %s)", a, b)
	case OUle:
		return fmt.Sprintf("(<= %s %s)", a, b)
	case OSlt:
		return fmt.Sprintf("(< %s %s)", l.signed(t.a), l.signed(t.b))
	case OSle:
		return fmt.Sprintf("(<= %s %s)", l.signed(t.a), l.signed(t.b))
	}
	panic("lia: operator")
}

func (l *lia) define(t *Term) {
	if t.op == OConst || l.defined[t] {
		return
	}
	l.defined[t] = true
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			l.define(x)
		}
	}
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	if t.op == OVar {
		fmt.Fprintf(l.in, "(declare-const %s %s)\n", t.ref(), sort)
		if t.w > 0 {
			fmt.Fprintf(l.in, "(assert (and (<= 0 %s) (< %s %s)))\n", t.ref(), t.ref(), pow2s(t.w))
		}
		return
	}
	fmt.Fprintf(l.in, "(define-fun %s () %s %s)\n", t.ref(), sort, l.body(t))
}

func (l *lia) check(conj []*Term) (SatRes, map[uint32]bv) {
	sums := false
	for _, c := range conj {
		if !l.has(c) {
			return Unknown, nil
		}
		sums = sums || l.hasSum(c)
	}
	if !sums {
		return Unknown, nil
	}
	if l.cmd == nil || len(l.defined) > 200000 {
		l.start()
	}
	for _, c := range conj {
		l.define(c)
	}
	l.in.WriteString("(push)\n")
	for _, c := range conj {
		fmt.Fprintf(l.in, "(assert %s)\n", c.ref())
	}
	l.in.WriteString("(check-sat)\n")
	l.in.Flush()
	sv := &Solver{out: l.out}
	line, err := sv.readLine()
	if err != nil {
		l.close()
		return Unknown, nil
	}
	res := Unknown
	var upd map[uint32]bv
	switch line {
	case "unsat":
		res = Unsat
	case "sat":
		vs := l.s.varsOf(conj)
		l.in.WriteString("(get-value (")
		for _, v := range vs {
			l.in.WriteString(v.ref() + " ")
		}
		l.in.WriteString("))\n")
		l.in.Flush()
		sx, err := sv.readSexpr()
		if err != nil {
			l.close()
			return Unknown, nil
		}
		upd = parseInts(sx, l.s.tb)
		if upd == nil || !l.s.confirm(conj, upd) {
			fmt.Fprintln(os.Stderr, "integer model does not satisfy the query:", firstN(sx, 300))
			upd = nil
			break
		}
		res = Sat
	case "unknown", "timeout":
	default:
		fmt.Fprintln(os.Stderr, "integer solver says:", line)
		l.close()
		return Unknown, nil
	}
	l.in.WriteString("(pop)\n")
	if res != Unknown {
		statLIA.Add(1)
	}
	return res, upd
}

func parseInts(sx string, tb *TB) map[uint32]bv {
	upd := map[uint32]bv{}
	toks := strings.FieldsFunc(sx, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	if len(toks)%2 != 0 {
		return nil
	}
	for i := 0; i < len(toks); i += 2 {
		var id uint32
		if _, err := fmt.Sscanf(toks[i], "v%d", &id); err != nil || tb.varBy[id] == nil {
			return nil
		}
		switch v := toks[i+1]; v {
		case "true":
			upd[id] = bv{u: 1}
		case "false":
			upd[id] = bv{}
		default:
			b, ok := new(big.Int).SetString(v, 10)
			if !ok {
				return nil
			}
			upd[id] = norm(tb.varBy[id].w, b)
		}
	}
	return upd
}
