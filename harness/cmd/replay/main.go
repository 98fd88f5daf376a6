// replay runs harnesses natively on recorded inputs.
//
//	replay FILE.json
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif/harness/nd"
	_ "verif/harness/props"
)

type sample struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Inputs  []nd.In `json:"inputs"`
	Repeat  int     `json:"repeat"`
}

type result struct {
	Violations []string `json:"violations"`
	Known      []string `json:"known"`
	Panic      string   `json:"panic"`
	Assume     bool     `json:"assume"`
	Diverged   string   `json:"diverged"`
	Covers     []string `json:"covers"`
	Obs        []string `json:"obs"`
	Timeout    bool     `json:"timeout"`
}

func run(s sample) (r result) {
	f := nd.Harnesses[s.Harness]
	if f == nil {
		return result{Diverged: "harness not registered: " + s.Harness}
	}
	st := &nd.State{Inputs: s.Inputs, TierV: s.Tier}
	nd.S = st
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			switch x := recover().(type) {
			case nil, nd.Stop:
			case nd.AssumeFailed:
				r.Assume = true
			case nd.Diverged:
				r.Diverged = x.What
			default:
				r.Panic = fmt.Sprint(x)
				if os.Getenv("REPLAY_STACK") != "" {
					debug.PrintStack()
				}
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		return result{Timeout: true}
	}
	r.Violations, r.Known, r.Covers, r.Obs = st.Violations, st.KnownHits, st.Covers, st.Obs
	return r
}

func main() {
	debug.SetMaxStack(256 << 20)
	// the code under test may print
	stdout := os.Stdout
	os.Stdout = os.Stderr
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var ss []sample
	if err := json.Unmarshal(b, &ss); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := make([]result, len(ss))
	for i, s := range ss {
		n := s.Repeat
		if n < 1 {
			n = 1
		}
		for k := 0; k < n; k++ {
			out[i] = run(s)
			if len(out[i].Violations) > 0 || out[i].Panic != "" || out[i].Timeout {
				break
			}
		}
	}
	j, _ := json.Marshal(out)
	stdout.Write(j)
}
