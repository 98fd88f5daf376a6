package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int8

const (
	Unknown SatRes = iota
	Sat
	Unsat
)

// global statistics (all workers)
var (
	statQueries   atomic.Int64 // queries sent to a solver
	statSat       atomic.Int64
	statUnsat     atomic.Int64
	statUnknown   atomic.Int64
	statCacheHits atomic.Int64 // answered from cached verdicts / models
	statSolverNs  atomic.Int64
	statFallback  atomic.Int64
)

// Solver is one z3 process driven through SMT-LIB text.
type Solver struct {
	tb       *TB
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	defined  map[*Term]bool
	ndef     int
	quickMs  int
	hardMs   int
	deadline time.Time
	cache    map[string]cacheEnt
	muls     map[*Term]bool
	truths   map[*Term]*truth
	lia      *lia
}

type cacheEnt struct {
	res SatRes
	upd map[uint32]bv
}

func solverBin() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func newSolver(tb *TB, quickMs, hardMs int) *Solver {
	s := &Solver{tb: tb, quickMs: quickMs, hardMs: hardMs, cache: map[string]cacheEnt{}, truths: map[*Term]*truth{}}
	s.lia = &lia{s: s, frag: map[*Term]int{}, sums: map[*Term]bool{}}
	return s
}

func (s *Solver) start() {
	s.close()
	s.cmd = exec.Command(solverBin(), "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.ndef = 0
	s.in.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.quickMs)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// define emits definitions for t and everything below it.
func define(w *bufio.Writer, t *Term, done map[*Term]bool) {
	if t.op == OConst || done[t] {
		return
	}
	done[t] = true
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			define(w, x, done)
		}
	}
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", t.ref(), t.sort())
		return
	}
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", t.ref(), t.sort(), t.body())
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// readSexpr reads one balanced s-expression.
func (s *Solver) readSexpr() (string, error) {
	var sb strings.Builder
	depth, started := 0, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '(' {
			depth++
			started = true
		}
		if started {
			sb.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func (s *Solver) varsOf(conj []*Term) []*Term {
	var vs []uint32
	for _, c := range conj {
		vs = unionVars(vs, c.vars)
	}
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = s.tb.varBy[v]
	}
	return out
}

func cacheKey(conj []*Term) string {
	ids := make([]uint32, len(conj))
	for i, c := range conj {
		ids[i] = c.id
	}
	// insertion sort (short lists, mostly sorted)
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	b := make([]byte, 0, 4*len(ids))
	for _, i := range ids {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

// Check decides the conjunction. On Sat it returns values of all variables
// occurring in it.
func (s *Solver) Check(conj []*Term) (SatRes, map[uint32]bv) {
	for _, c := range conj {
		if c == s.tb.False {
			return Unsat, nil
		}
	}
	if res, upd, ok := s.small(conj); ok {
		return res, upd
	}
	key := cacheKey(conj)
	if e, ok := s.cache[key]; ok {
		statCacheHits.Add(1)
		return e.res, e.upd
	}
	if refutes(s.tb, conj) {
		statRange.Add(1)
		if os.Getenv("GOSYM_CHECK") != "" {
			if res, _ := s.check(conj); res == Sat {
				panic("interval reasoning refuted a satisfiable query")
			}
		}
		s.cache[key] = cacheEnt{Unsat, nil}
		return Unsat, nil
	}
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		statUnknown.Add(1)
		return Unknown, nil
	}
	res, upd := s.lia.check(conj)
	if os.Getenv("GOSYM_CHECK") != "" && res == Unsat {
		if res, _ := s.check(conj); res == Sat {
			panic("integer reasoning refuted a satisfiable query")
		}
	}
	if res == Unknown {
		res, upd = s.check(conj)
	}
	if res == Unknown {
		statFallback.Add(1)
		var ok bool
		if res, upd, ok = s.cubes(conj); !ok {
			res, upd = s.hard(conj)
		}
	}
	if d := time.Since(t0); os.Getenv("GOSYM_SLOW") != "" && d > time.Second {
		fmt.Fprintf(os.Stderr, "slow query %v res=%d: %v\n", d, res, conj[len(conj)-1])
	}
	statSolverNs.Add(int64(time.Since(t0)))
	statQueries.Add(1)
	switch res {
	case Sat:
		statSat.Add(1)
	case Unsat:
		statUnsat.Add(1)
	default:
		statUnknown.Add(1)
	}
	if res != Unknown {
		s.cache[key] = cacheEnt{res, upd}
	}
	return res, upd
}

func (s *Solver) check(conj []*Term) (SatRes, map[uint32]bv) {
	if s.cmd == nil || len(s.defined) > 400000 {
		s.start()
	}
	for _, c := range conj {
		define(s.in, c, s.defined)
	}
	s.in.WriteString("(push)\n")
	for _, c := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	ms := s.quickMs
	if s.hardMs > 0 && s.hasMul(conj) {
		ms = min(ms, 400) // more likely decided by integer reasoning
	}
	fmt.Fprintf(s.in, "(check-sat-using (try-for (then simplify propagate-values solve-eqs simplify bit-blast sat) %d))\n", ms)
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.close()
		return Unknown, nil
	}
	var upd map[uint32]bv
	res := Unknown
	switch {
	case line == "sat":
		res = Sat
		vs := s.varsOf(conj)
		if len(vs) == 0 {
			upd = map[uint32]bv{}
			break
		}
		s.in.WriteString("(get-value (")
		for _, v := range vs {
			s.in.WriteString(v.ref() + " ")
		}
		s.in.WriteString("))\n")
		s.in.Flush()
		sx, err := s.readSexpr()
		if err != nil {
			s.close()
			return Unknown, nil
		}
		upd = parseValues(sx, s.tb)
		if upd == nil || !s.confirm(conj, upd) {
			fmt.Fprintln(os.Stderr, "solver model does not satisfy the query:", firstN(sx, 300))
			res, upd = Unknown, nil
		}
	case line == "unsat":
		res = Unsat
	case line == "unknown" || line == "timeout":
	default:
		fmt.Fprintln(os.Stderr, "solver says:", line)
		s.close()
		return Unknown, nil
	}
	s.in.WriteString("(pop)\n")
	return res, upd
}

// hasMul tells whether wide multiplications or divisions occur.
func (s *Solver) hasMul(conj []*Term) bool {
	if s.muls == nil {
		s.muls = map[*Term]bool{}
	}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || t.op == OConst || t.op == OVar {
			return false
		}
		if r, ok := s.muls[t]; ok {
			return r
		}
		r := t.w >= 32 && (t.op == OMul || t.op == OUDiv || t.op == OURem || t.op == OSDiv || t.op == OSRem)
		r = r || t.w >= 256 && (t.op == OAdd || t.op == OSub) || walk(t.a) || walk(t.b) || walk(t.c)
		s.muls[t] = r
		return r
	}
	for _, c := range conj {
		if walk(c) {
			return true
		}
	}
	return false
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (s *Solver) confirm(conj []*Term, upd map[uint32]bv) bool {
	m := newModel()
	m.vals = upd
	for _, c := range conj {
		if !m.evalBool(c) {
			return false
		}
	}
	return true
}

func parseValues(sx string, tb *TB) map[uint32]bv {
	// ((v1 #x00) (v2 true) ...)
	upd := map[uint32]bv{}
	toks := strings.FieldsFunc(sx, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(toks); i += 2 {
		var id uint32
		if _, err := fmt.Sscanf(toks[i], "v%d", &id); err != nil {
			return nil
		}
		t := tb.varBy[id]
		if t == nil {
			return nil
		}
		v := toks[i+1]
		switch {
		case v == "true":
			upd[id] = bv{u: 1}
		case v == "false":
			upd[id] = bv{}
		case strings.HasPrefix(v, "#x"):
			b, ok := new(big.Int).SetString(v[2:], 16)
			if !ok {
				return nil
			}
			upd[id] = norm(t.w, b)
		case strings.HasPrefix(v, "#b"):
			b, ok := new(big.Int).SetString(v[2:], 2)
			if !ok {
				return nil
			}
			upd[id] = norm(t.w, b)
		case v == "_" && i+3 < len(toks) && strings.HasPrefix(toks[i+2], "bv"):
			b, ok := new(big.Int).SetString(toks[i+2][2:], 10)
			if !ok {
				return nil
			}
			upd[id] = norm(t.w, b)
			i += 2
		default:
			return nil
		}
	}
	return upd
}

// hard runs a portfolio of solvers on one query.
func (s *Solver) hard(conj []*Term) (SatRes, map[uint32]bv) {
	if s.hardMs == 0 {
		return Unknown, nil
	}
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	done := map[*Term]bool{}
	w.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	for _, c := range conj {
		define(w, c, done)
	}
	for _, c := range conj {
		fmt.Fprintf(w, "(assert %s)\n", c.ref())
	}
	w.Flush()
	base := buf.String()
	vs := s.varsOf(conj)
	gv := "(get-value ("
	for _, v := range vs {
		gv += v.ref() + " "
	}
	gv += "))\n"
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, statFallback.Load()), []byte(base+"(check-sat)\n"), 0o644)
	}
	type rr struct {
		res SatRes
		upd map[uint32]bv
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.hardMs)*time.Millisecond)
	defer cancel()
	run := func(ch chan rr, text string, bin string, args ...string) {
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Stdin = strings.NewReader(text)
		out, _ := cmd.Output()
		o := strings.TrimSpace(string(out))
		switch {
		case strings.HasPrefix(o, "unsat"):
			ch <- rr{res: Unsat}
		case strings.HasPrefix(o, "sat"):
			upd := parseValues(o[3:], s.tb)
			if upd != nil {
				ch <- rr{Sat, upd}
				return
			}
			ch <- rr{}
		default:
			ch <- rr{}
		}
	}
	ch := make(chan rr, 3)
	n := 3
	go run(ch, base+"(check-sat)\n"+gv, solverBin(), "-in", "-smt2")
	go run(ch, base+"(check-sat)\n"+gv, "cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", "-q")
	go run(ch, base+"(check-sat)\n"+gv, "cvc5", "--lang=smt2", "--produce-models", "-q")
	for i := 0; i < n; i++ {
		r := <-ch
		if r.res == Sat && !s.confirm(conj, r.upd) {
			continue
		}
		if r.res != Unknown {
			return r.res, r.upd
		}
	}
	return Unknown, nil
}

// truth is the truth table of a condition over one variable of at most 8 bits.
type truth [4]uint64

var statSmall atomic.Int64

// small decides conjunctions over a single variable of at most 8 bits by
// their truth tables.
func (s *Solver) small(conj []*Term) (SatRes, map[uint32]bv, bool) {
	if len(conj) == 0 || len(conj[0].vars) != 1 {
		return 0, nil, false
	}
	v := conj[0].vars[0]
	for _, c := range conj[1:] {
		if len(c.vars) != 1 || c.vars[0] != v {
			return 0, nil, false
		}
	}
	vt := s.tb.varBy[v]
	if vt.w > 8 {
		return 0, nil, false
	}
	acc := truth{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	for _, c := range conj {
		t := s.table(c, vt)
		for i := range acc {
			acc[i] &= t[i]
		}
	}
	statSmall.Add(1)
	for i := range acc {
		if acc[i] != 0 {
			return Sat, map[uint32]bv{v: {u: uint64(64*i + bits.TrailingZeros64(acc[i]))}}, true
		}
	}
	return Unsat, nil, true
}

func (s *Solver) table(c, v *Term) *truth {
	if t, ok := s.truths[c]; ok {
		return t
	}
	t := new(truth)
	n := uint64(1) << v.w
	if v.w == 0 {
		n = 2
	}
	m := newModel()
	for x := uint64(0); x < n; x++ {
		clear(m.memo)
		m.vals[v.id] = bv{u: x}
		if m.evalBool(c) {
			t[x>>6] |= 1 << (x & 63)
		}
	}
	s.truths[c] = t
	return t
}
