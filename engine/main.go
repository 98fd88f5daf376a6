package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	statForks           atomic.Int64
	statMerges          atomic.Int64
	statMergeFail       atomic.Int64
	statUnknownBranches atomic.Int64
)

const repoMod = "github.com/iotaledger/iota.go/v4"

type options struct {
	quickMs, hardMs int
	merge           bool
	tier            int
	verbose         bool
	workers         int
}

// Prog is the loaded program shared by all machines.
type Prog struct {
	deadline         time.Time
	ssa              *ssa.Program
	opt              options
	redirect         map[string]*ssa.Function
	modelErr         types.Type
	runtimeErrorType types.Type
	rtypePtr         types.Type
	liteRtype        types.Type
	mapIter          types.Type
	props            *ssa.Package
	known            map[string]bool
}

func (p *Prog) knownID(id string) bool { return p.known[id] }

func pkgPathOf(fn *ssa.Function) string {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	pp := pkgPathOf(fn)
	return pp == repoMod || strings.HasPrefix(pp, repoMod+"/")
}

// isStd tells packages that are initialised lazily (on first use).
func (p *Prog) isStd(pkg *ssa.Package) bool {
	path := pkg.Pkg.Path()
	if strings.HasPrefix(path, "verif/") {
		return false
	}
	return path != repoMod && !strings.HasPrefix(path, repoMod+"/") && !strings.Contains(path, "iotaledger/hive.go")
}

var redirectTable = map[string]string{
	"(crypto.Hash).New":       "HashNew",
	"(crypto.Hash).Available": "HashAvailable",
	"encoding/json.Marshal":   "JSONMarshal",
	"encoding/json.Unmarshal": "JSONUnmarshal",

	"net/http.NewRequestWithContext": "NewRequest",
	"(*net/http.Client).Do":          "ClientDo",
	"context.WithTimeout":            "WithTimeout",

	"github.com/iotaledger/iota-crypto-demo/pkg/slip10.DeriveKeyFromPath": "DeriveKeyFromPath",
	"github.com/iotaledger/iota-crypto-demo/pkg/bip39.EntropyToMnemonic":  "EntropyToMnemonic",
	"github.com/iotaledger/iota-crypto-demo/pkg/bip39.MnemonicToEntropy":  "MnemonicToEntropy",
	"github.com/iotaledger/iota-crypto-demo/pkg/bip39.MnemonicToSeed":     "MnemonicToSeed",
	"github.com/iotaledger/iota-crypto-demo/pkg/bip39.ParseMnemonic":      "ParseMnemonic",
}

func loadProg(dir string, opt options) (*Prog, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		BuildFlags: []string{"-tags=math_big_pure_go,purego", "-mod=readonly"},
		Env:        goEnv(),
	}
	pkgs, err := packages.Load(cfg, "verif/harness/props", "verif/harness/models")
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors while loading", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{ssa: prog, opt: opt, redirect: map[string]*ssa.Function{}, known: map[string]bool{}}
	pk := func(path string) *ssa.Package { return prog.ImportedPackage(path) }
	models := pk("verif/harness/models")
	p.props = pk("verif/harness/props")
	if models == nil || p.props == nil {
		return nil, fmt.Errorf("harness packages missing")
	}
	p.modelErr = models.Type("Err").Type()
	p.runtimeErrorType = models.Type("RuntimeError").Type()
	p.rtypePtr = types.NewPointer(pk("reflect").Type("rtype").Type())
	p.liteRtype = pk("internal/reflectlite").Type("rtype").Type()
	p.mapIter = pk("reflect").Type("MapIter").Type()
	for from, to := range redirectTable {
		f := models.Func(to)
		if f == nil {
			return nil, fmt.Errorf("model %s missing", to)
		}
		p.redirect[from] = f
	}
	return p, nil
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// ---- scheduling ----

type job struct {
	h      *harnessRun
	prefix []byte
}

type sample struct {
	Harness string   `json:"harness"`
	Tier    int      `json:"tier"`
	Inputs  []inVal  `json:"inputs"`
	Repeat  int      `json:"repeat,omitempty"`
	Covers  []string `json:"covers,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Hashes  int      `json:"hashes,omitempty"`
	Msg     string   `json:"msg,omitempty"`
	Panic   string   `json:"panic,omitempty"`
}

type harnessRun struct {
	name   string
	fn     *ssa.Function
	cfg    harnessCfg
	start  time.Time
	active atomic.Int64 // jobs queued or running
	mu     sync.Mutex
	paths  int64 // finished
	cut    int64 // infeasible / assumed away
	insts  int64
	assert int64
	covers map[string]int64
	viol   map[string][]*violation // by message
	incon  map[string]int
	unsup  map[string]int
	samps  []*sample
	seen   int64
	bad    bool
	wall   time.Duration
	maxPC  int
}

type scheduler struct {
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []job
	idle     atomic.Int64
	pending  int // jobs queued + running
	deadline time.Time
	timedOut atomic.Bool
	n        int
}

func (s *scheduler) put(j job) {
	s.mu.Lock()
	s.jobs = append(s.jobs, j)
	s.pending++
	s.mu.Unlock()
	s.cond.Signal()
}

func (s *scheduler) get() (job, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.idle.Add(1)
	defer s.idle.Add(-1)
	for len(s.jobs) == 0 {
		if s.pending == 0 {
			s.cond.Broadcast()
			return job{}, false
		}
		s.cond.Wait()
	}
	j := s.jobs[0]
	s.jobs = s.jobs[1:]
	return j, true
}

func (s *scheduler) done() {
	s.mu.Lock()
	s.pending--
	if s.pending == 0 {
		s.cond.Broadcast()
	}
	s.mu.Unlock()
}

type worker struct {
	s       *scheduler
	p       *Prog
	m       *Machine
	h       *harnessRun
	asserts int64
	rng     uint64
	funcs   map[string]bool
}

func (w *worker) stopped() bool {
	if w.s.timedOut.Load() {
		return true
	}
	if time.Now().After(w.s.deadline) {
		w.s.timedOut.Store(true)
		return true
	}
	if w.s.idle.Load() > 0 {
		w.donate()
	}
	return false
}

func (w *worker) donate() {
	m := w.m
	if len(m.cps) == 0 {
		return
	}
	w.s.mu.Lock()
	enough := len(w.s.jobs) >= int(w.s.idle.Load())
	w.s.mu.Unlock()
	if enough {
		return
	}
	cp := m.cps[0]
	m.cps = append(m.cps[:0:0], m.cps[1:]...)
	prefix := append(append([]byte{}, m.decs[:cp.cnt.decs]...), cp.dec...)
	w.h.active.Add(1)
	w.s.put(job{w.h, prefix})
}

func (w *worker) violation(v *violation) {
	h := w.h
	v.harness = h.name
	h.mu.Lock()
	defer h.mu.Unlock()
	k := v.known + "|" + v.msg
	if len(h.viol[k]) < 6 {
		h.viol[k] = append(h.viol[k], v)
	}
}

func (w *worker) inconclusive(msg string) {
	h := w.h
	h.mu.Lock()
	h.incon[msg]++
	h.mu.Unlock()
}

func (w *worker) newMachine() {
	if w.m != nil {
		w.collect()
		w.m.sol.close()
		w.m.sol.lia.close()
	}
	w.m = newMachine(w.p, w)
}

func (w *worker) collect() {
	for _, c := range w.m.codes {
		if c.inRepo && c.runs > 0 && c.blocks != nil {
			w.funcs[c.name] = true
		}
	}
}

func (w *worker) run() {
	for {
		j, ok := w.s.get()
		if !ok {
			break
		}
		if w.m == nil || w.m.tb.count() > 30_000_000/w.s.n*2 {
			w.newMachine()
		}
		w.h = j.h
		w.explore(j)
		j.h.mu.Lock()
		j.h.assert += w.asserts
		w.asserts = 0
		if j.h.active.Add(-1) == 0 {
			j.h.wall = time.Since(j.h.start)
		}
		j.h.mu.Unlock()
		w.s.done()
	}
	if w.m != nil {
		w.collect()
		w.m.sol.close()
		w.m.sol.lia.close()
	}
}

func (w *worker) explore(j job) {
	m := w.m
	m.resetPath()
	m.decs = append([]byte{}, j.prefix...)
	m.decPos = 0
	m.logging = true
	first := true
	for {
		if !first {
			if w.s.idle.Load() > 0 && len(m.cps) > 1 {
				w.donate()
			}
			if len(m.cps) == 0 {
				break
			}
			if w.s.timedOut.Load() {
				w.inconclusive(fmt.Sprintf("time budget exhausted (%d choice points left)", len(m.cps)))
				break
			}
			cp := m.cps[len(m.cps)-1]
			m.cps = m.cps[:len(m.cps)-1]
			m.restore(cp)
		}
		w.onePath(first)
		first = false
		m.logging = true
	}
	m.rollback(0)
	m.resetPath()
}

func (m *Machine) resetPath() {
	m.frames = nil
	m.trail = m.trail[:0]
	m.truncPC(0)
	m.decs, m.decPos = nil, 0
	m.inputs, m.hashes, m.covers, m.observes, m.notes, m.uf = nil, nil, nil, nil, nil, nil
	m.model = newModel()
	m.cps = nil
	m.steps = 0
	m.panicOut = nil
	m.noFork = 0
	m.permMaps = false
	m.logging = false
	m.ss = schedState{bound: -1, fair: 1000}
	clear(m.locks)
	clear(m.wgs)
	clear(m.syncVC)
	clear(m.shadows)
	delete(m.ext, "sigs")
}

func (w *worker) onePath(fresh bool) {
	m, h := w.m, w.h
	steps0 := m.steps
	defer func() {
		h.mu.Lock()
		h.insts += m.steps - steps0
		if len(m.pc) > h.maxPC {
			h.maxPC = len(m.pc)
		}
		h.mu.Unlock()
		r := recover()
		if r == nil {
			return
		}
		m.noFork = 0
		pa, ok := r.(pathAbort)
		if !ok {
			msg := fmt.Sprintf("engine failure: %v at %s", r, m.where())
			if w.p.opt.verbose {
				fmt.Println(msg)
				debug.PrintStack()
			}
			h.mu.Lock()
			h.unsup[firstLine(msg)]++
			h.mu.Unlock()
			return
		}
		switch pa.kind {
		case "assume":
			h.mu.Lock()
			h.cut++
			h.mu.Unlock()
		case "infeasible":
			h.mu.Lock()
			h.cut++
			h.mu.Unlock()
		case "stopped":
			w.inconclusive("time budget exhausted")
		default:
			if w.p.opt.verbose {
				h.mu.Lock()
				first := h.unsup[pa.kind+": "+firstN(pa.msg, 500)] == 0
				h.mu.Unlock()
				if first {
					fmt.Printf("UNSUPPORTED %s\n", firstN(pa.msg, 1500))
				}
			}
			h.mu.Lock()
			h.unsup[pa.kind+": "+firstN(pa.msg, 500)]++
			h.mu.Unlock()
		}
	}()
	if fresh {
		m.push(m.funcVal(h.fn), nil)
	}
	m.run()
	if p := m.panicOut; p != nil {
		m.panicOut = nil
		msg := "panic: " + m.panicText(p.val)
		if !m.ensureModel() {
			w.inconclusive("no model for a path ending in " + msg)
			return
		}
		if os.Getenv("GOSYM_CHECK") != "" {
			for i, c := range m.pc {
				if !m.model.evalBool(c) {
					fmt.Printf("MODEL BROKEN pc[%d/%d] %v decs=%v\n", i, len(m.pc), c, m.decs)
				}
			}
			fmt.Println("PC", m.pc)
		}
		v := &violation{msg: msg, where: p.where, inputs: m.inputVals(m.model), hashes: m.symHashes(), model: m.model}
		w.violation(v)
	} else {
		h.mu.Lock()
		h.paths++
		for _, c := range m.covers {
			h.covers[c]++
		}
		h.seen++
		take := -1
		const keep = 48
		if len(h.samps) < keep {
			take = len(h.samps)
			h.samps = append(h.samps, nil)
		} else {
			w.rng = w.rng*6364136223846793005 + 1442695040888963407
			if k := int64(w.rng>>33) % h.seen; k < keep {
				take = int(k)
			}
		}
		h.mu.Unlock()
		if take >= 0 && m.ensureModel() {
			s := &sample{Harness: h.name, Tier: w.p.opt.tier, Inputs: m.inputVals(m.model), Covers: append([]string{}, m.covers...), Hashes: m.symHashes()}
			for _, o := range m.observes {
				s.Obs = append(s.Obs, renderObserve(o, m.model))
			}
			h.mu.Lock()
			h.samps[take] = s
			h.mu.Unlock()
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// ---- configuration ----

type harnessCfg struct {
	Name   string   `json:"name"`
	Covers []string `json:"covers,omitempty"` // must be reached
	Tier   string   `json:"tier,omitempty"`   // "thorough": only there
	Sched  bool     `json:"sched,omitempty"`  // concurrent: replayed many times with the race detector
	Repeat int      `json:"repeat,omitempty"` // native repetitions (map order)
}

type propCfg struct {
	Harnesses   []harnessCfg `json:"harnesses"`
	Bounds      string       `json:"bounds"`
	Assumptions []string     `json:"assumptions"`
}

func runHarnesses(p *Prog, cfgs []harnessCfg, budget time.Duration) ([]*harnessRun, map[string]bool, bool) {
	s := &scheduler{deadline: time.Now().Add(budget), n: p.opt.workers}
	p.deadline = s.deadline
	s.cond = sync.NewCond(&s.mu)
	var hs []*harnessRun
	for _, c := range cfgs {
		fn := p.props.Func(c.Name)
		if fn == nil {
			fmt.Fprintf(os.Stderr, "harness %s not found\n", c.Name)
			os.Exit(2)
		}
		h := &harnessRun{name: c.Name, fn: fn, cfg: c, start: time.Now(), covers: map[string]int64{}, viol: map[string][]*violation{}, incon: map[string]int{}, unsup: map[string]int{}}
		h.active.Store(1)
		hs = append(hs, h)
		s.put(job{h, nil})
	}
	var wg sync.WaitGroup
	ws := make([]*worker, s.n)
	for i := range ws {
		ws[i] = &worker{s: s, p: p, rng: uint64(i)*7919 + 1, funcs: map[string]bool{}}
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			w.run()
		}(ws[i])
	}
	wg.Wait()
	funcs := map[string]bool{}
	for _, w := range ws {
		for f := range w.funcs {
			funcs[f] = true
		}
	}
	return hs, funcs, s.timedOut.Load()
}

func main() {
	prop := flag.String("prop", "", "property id")
	harness := flag.String("harness", "", "single harness (debugging)")
	tier := flag.String("tier", "quick", "quick or thorough")
	dir := flag.String("dir", "/verif/harness", "harness module")
	evdir := flag.String("evidence", "/verif/evidence", "evidence directory")
	budget := flag.Duration("budget", 0, "exploration time budget")
	verbose := flag.Bool("v", false, "verbose")
	nomerge := flag.Bool("nomerge", false, "disable if-conversion")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	prof := flag.String("cpuprofile", "", "")
	noreplay := flag.Bool("noreplay", false, "skip native replay")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	opt := options{quickMs: 3000, hardMs: 30000, merge: !*nomerge, verbose: *verbose, workers: *workers}
	if *tier == "thorough" {
		opt.tier = 1
		opt.hardMs = 120000
	}
	if *budget == 0 {
		*budget = 540 * time.Second
		if opt.tier == 1 {
			*budget = 3600 * time.Second
		}
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var cfgs []harnessCfg
	var pc propCfg
	if *prop != "" {
		b, err := os.ReadFile(filepath.Join(*dir, "checks.json"))
		if err != nil {
			fail(err)
		}
		var all map[string]propCfg
		if err := json.Unmarshal(b, &all); err != nil {
			fail(err)
		}
		var ok bool
		if pc, ok = all[*prop]; !ok {
			fail(fmt.Errorf("unknown property %s", *prop))
		}
		for _, h := range pc.Harnesses {
			if h.Tier == "thorough" && opt.tier == 0 {
				continue
			}
			cfgs = append(cfgs, h)
		}
	} else {
		for _, h := range strings.Split(*harness, ",") {
			cfgs = append(cfgs, harnessCfg{Name: strings.TrimSuffix(h, "!"), Sched: strings.HasSuffix(h, "!")})
		}
	}
	// native replay binary in the background
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fail(err)
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	built := make(chan error, 1)
	go func() {
		cmd := exec.Command("go", "build", "-o", bin, "./cmd/replay")
		cmd.Dir = *dir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		for _, c := range cfgs {
			if err == nil && c.Sched {
				cmd = exec.Command("go", "build", "-race", "-o", bin+"-race", "./cmd/replay")
				cmd.Dir = *dir
				cmd.Env = goEnv()
				out, err = cmd.CombinedOutput()
				break
			}
		}
		if err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		built <- err
	}()
	p, err := loadProg(*dir, opt)
	if err != nil {
		os.RemoveAll(tmp)
		fail(err)
	}
	known := loadKnown(*dir)
	for _, k := range known {
		if *prop == "" || k.Property == *prop {
			p.known[k.ID] = true
		}
	}
	tLoad := time.Since(t0)
	hs, funcs, timedOut := runHarnesses(p, cfgs, *budget)
	if err := <-built; err != nil {
		os.RemoveAll(tmp)
		fail(fmt.Errorf("building the replay driver: %v", err))
	}
	code := finish(p, *prop, *tier, *evdir, bin, tmp, pc, hs, funcs, known, timedOut, tLoad, t0, *noreplay)
	os.RemoveAll(tmp)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "gosym:", err)
	os.Exit(2)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
