package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status,omitempty"`
}

// loadKnown reads known findings: JSON lines; "fixed" entries suppress nothing.
func loadKnown(dir string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(filepath.Dir(dir), "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "fixed:") || strings.HasPrefix(l, "#") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.ID != "" {
			out = append(out, k)
		}
	}
	return out
}

type result struct {
	Violations []string `json:"violations"`
	Known      []string `json:"known"`
	Panic      string   `json:"panic"`
	Assume     bool     `json:"assume"` // an assumption failed
	Diverged   string   `json:"diverged"`
	Covers     []string `json:"covers"`
	Obs        []string `json:"obs"`
	Timeout    bool     `json:"timeout"`
}

// replayNative runs samples against the real build.
func replayNative(bin, tmp string, ss []*sample, timeout time.Duration) ([]result, error) {
	in := filepath.Join(tmp, "in.json")
	b, _ := json.Marshal(ss)
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, in)
	cmd.WaitDelay = time.Second
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GORACE=halt_on_error=1 exitcode=66")
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, firstN(stderr.String(), 500))
	}
	var rs []result
	if err := json.Unmarshal(out, &rs); err != nil {
		return nil, err
	}
	return rs, nil
}

func finish(p *Prog, prop, tier, evdir, bin, tmp string, pc propCfg, hs []*harnessRun, funcs map[string]bool, known []knownFinding, timedOut bool, tLoad time.Duration, t0 time.Time, noreplay bool) int {
	code := 0
	violations := 0
	var paths, cut, asserts, insts, validated, mismatched, hashSkipped int64
	hinfo := []any{}
	var incon []string
	knownSeen := map[string]string{}
	vacuous := false
	for _, h := range hs {
		paths += h.paths
		cut += h.cut
		asserts += h.assert
		insts += h.insts
		complete := len(h.incon) == 0 && len(h.unsup) == 0
		for _, k := range sortedKeys(h.incon) {
			incon = append(incon, fmt.Sprintf("%s: %s (x%d)", h.name, k, h.incon[k]))
		}
		for _, k := range sortedKeys(h.unsup) {
			incon = append(incon, fmt.Sprintf("%s: %s (x%d)", h.name, k, h.unsup[k]))
		}
		info := map[string]any{"harness": h.name, "paths": h.paths, "assumed_away": h.cut, "asserts": h.assert, "instructions": h.insts, "complete": complete, "wall_s": h.wall.Seconds(), "covers": h.covers, "longest_path_condition": h.maxPC}
		// validation of sampled paths
		var ss []*sample
		for _, s := range h.samps {
			if s != nil {
				ss = append(ss, s)
			}
		}
		bin := bin
		if h.cfg.Sched {
			bin += "-race"
			if h.cfg.Repeat == 0 {
				h.cfg.Repeat = 400
			}
		}
		if len(ss) > 0 && !noreplay {
			rs, err := replayNative(bin, tmp, ss, 120*time.Second)
			if err != nil {
				info["validation_error"] = firstLine(err.Error())
				fmt.Printf("note: native validation of %s failed: %v\n", h.name, firstLine(err.Error()))
				if os.Getenv("GOSYM_SLOW") != "" {
					fmt.Println(err)
				}
			}
			ok, mism, skip := 0, 0, 0
			for i, r := range rs {
				same := r.Panic == "" && !r.Assume && r.Diverged == "" && !r.Timeout && len(r.Violations) == 0 && fmt.Sprint(r.Covers) == fmt.Sprint(ss[i].Covers) && fmt.Sprint(r.Obs) == fmt.Sprint(ss[i].Obs)
				switch {
				case same:
					ok++
				case len(r.Violations) > 0 || r.Panic != "":
					// a concrete failure the encoding did not predict: the run is real
					if !r.Assume && r.Diverged == "" {
						msg := r.Panic
						if len(r.Violations) > 0 {
							msg = r.Violations[0]
						}
						k := "|native: " + msg
						var in []inVal = ss[i].Inputs
						h.viol[k] = append(h.viol[k], &violation{harness: h.name, msg: msg, inputs: in, hashes: ss[i].Hashes})
					}
					mism++
				case ss[i].Hashes > 0 || h.cfg.Sched:
					skip++
				default:
					mism++
					if mism <= 3 {
						fmt.Printf("note: native run of a %s path differs: native{panic=%q assume=%v div=%q timeout=%v covers=%v obs=%v} symbolic{covers=%v obs=%v} inputs=%v\n", h.name, r.Panic, r.Assume, r.Diverged, r.Timeout, r.Covers, r.Obs, ss[i].Covers, ss[i].Obs, shortInputs(ss[i].Inputs))
					}
				}
			}
			validated += int64(ok)
			mismatched += int64(mism)
			hashSkipped += int64(skip)
			info["native_agree"], info["native_differ"], info["native_hash_dependent"] = ok, mism, skip
		}
		// violations
		for _, k := range sortedKeys(h.viol) {
			vs := h.viol[k]
			reproduced := false
			for vi, v := range vs {
				s := &sample{Harness: h.name, Tier: p.opt.tier, Inputs: v.inputs, Repeat: h.cfg.Repeat, Msg: v.msg}
				var why string
				if noreplay {
					reproduced, why = true, "not replayed"
				} else {
					rs, err := replayNative(bin, tmp, []*sample{s}, 60*time.Second)
					if err != nil {
						reproduced, why = true, "crash: "+firstLine(err.Error())
					} else {
						r := rs[0]
						switch {
						case r.Diverged != "":
							why = "diverged: " + r.Diverged
						case r.Assume && len(r.Violations) == 0:
							why = "assumption failed natively"
						case v.known != "" && len(r.Known) > 0:
							reproduced = true
							knownSeen[v.known] = v.msg
						case len(r.Violations) > 0:
							reproduced, why = true, strings.Join(r.Violations, "; ")
						case r.Panic != "":
							reproduced, why = true, "panic: "+r.Panic
						case r.Timeout:
							reproduced, why = true, "does not terminate"
						default:
							why = "no failure natively"
						}
					}
				}
				if v.known != "" {
					if reproduced {
						if noreplay {
							knownSeen[v.known] = v.msg
						}
						break
					}
					continue
				}
				if reproduced {
					violations++
					code = 1
					os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
					path := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%s-%d.json", nonEmpty(prop, "debug"), h.name, violations))
					b, _ := json.MarshalIndent([]*sample{s}, "", " ")
					os.WriteFile(path, b, 0o644)
					fmt.Printf("harness %s: %s\n   natively: %s\n   at %s\n   inputs %s\n", h.name, v.msg, why, v.where, shortInputs(v.inputs))
					fmt.Printf("VIOLATION property=%s replay=%s\n", nonEmpty(prop, "DEBUG"), path)
					break
				}
				if vi == len(vs)-1 || p.opt.verbose {
					fmt.Printf("note: counterexample of %s (%s) did not reproduce: %s\n   at %s\n   inputs %s\n", h.name, v.msg, why, v.where, shortInputs(v.inputs))
				}
			}
			if !reproduced {
				incon = append(incon, fmt.Sprintf("%s: counterexample to %q did not reproduce natively", h.name, k))
			}
		}
		// vacuity
		for _, c := range h.cfg.Covers {
			if h.covers[c] == 0 {
				if complete && len(h.viol) == 0 {
					vacuous = true
					fmt.Printf("harness %s: required point %q was never reached\n", h.name, c)
				} else {
					incon = append(incon, fmt.Sprintf("%s: point %q not reached", h.name, c))
				}
			}
		}
		hinfo = append(hinfo, info)
		fmt.Printf("harness %s: paths=%d cut=%d asserts=%d instr=%d covers=%v wall=%.1fs complete=%v\n", h.name, h.paths, h.cut, h.assert, h.insts, h.covers, h.wall.Seconds(), complete)
	}
	for _, k := range known {
		if w, ok := knownSeen[k.ID]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s] (%s)\n", prop, k.What, k.ID, w)
		}
	}
	for i, s := range incon {
		if i < 20 {
			fmt.Printf("INCONCLUSIVE %s\n", s)
		}
	}
	solver := map[string]any{"queries": statQueries.Load(), "sat": statSat.Load(), "unsat": statUnsat.Load(), "unknown": statUnknown.Load(), "cache_hits": statCacheHits.Load(), "portfolio_fallbacks": statFallback.Load(), "solver_s_summed_over_workers": float64(statSolverNs.Load()) / 1e9}
	printForks()
	fmt.Printf("property=%s tier=%s paths=%d asserts=%d queries=%d (sat %d, unsat %d, unknown %d) solver=%.1fs merges=%d/%d forks=%d validated=%d mismatched=%d hash-dependent=%d repo functions=%d load=%.1fs total=%.1fs\n", prop, tier, paths, asserts, statQueries.Load(), statSat.Load(), statUnsat.Load(), statUnknown.Load(), float64(statSolverNs.Load())/1e9, statMerges.Load(), statMergeFail.Load(), statForks.Load(), validated, mismatched, hashSkipped, len(funcs), tLoad.Seconds(), time.Since(t0).Seconds())
	if prop != "" {
		samples := []any{}
		for _, h := range hs {
			for i, s := range h.samps {
				if s == nil || i >= 2 {
					continue
				}
				samples = append(samples, map[string]any{"harness": h.name, "inputs": shortInputs(s.Inputs), "covers": s.Covers})
			}
		}
		cov := map[string]any{
			"states":                        insts,
			"transitions":                   paths,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"states_meaning":                "SSA instructions executed symbolically (each for all values of the symbolic inputs); transitions = explored paths (path conditions)",
			"paths":                         paths,
			"assumed_away":                  cut,
			"assertions_decided":            asserts,
			"solver":                        solver,
			"if_conversions":                statMerges.Load(),
			"forks":                         statForks.Load(),
			"unknown_branches_kept":         statUnknownBranches.Load(),
			"harnesses":                     hinfo,
			"functions_encoded":             sortedKeys(funcs),
			"bounds":                        pc.Bounds,
			"inconclusive":                  incon,
			"complete":                      len(incon) == 0,
			"known_findings_seen":           knownSeen,
			"native_mismatches":             mismatched,
			"native_hash_dependent":         hashSkipped,
			"load_s":                        tLoad.Seconds(),
		}
		ev := map[string]any{"property": prop, "tier": tier, "seed": 1, "level": "model_checking", "coverage": cov, "assumptions": append([]string{}, pc.Assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": violations}
		os.MkdirAll(evdir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evdir, prop+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if code == 0 && vacuous {
		return 2
	}
	return code
}

func nonEmpty(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func shortInputs(in []inVal) string {
	var sb strings.Builder
	for i, v := range in {
		if sb.Len() > 600 {
			fmt.Fprintf(&sb, " ... (%d more)", len(in)-i)
			break
		}
		fmt.Fprintf(&sb, "%s=%s ", v.Name, v.Val)
	}
	return sb.String()
}
