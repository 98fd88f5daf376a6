// Package nd is the interface between harnesses and the symbolic engine.
// Under the engine every function here is intercepted; natively (replay) the
// inputs come from a recorded assignment.
package nd

import (
	"fmt"
	"math/big"
	"runtime"
	"time"
)

// In is one recorded input.
type In struct {
	Name string `json:"n"`
	Val  string `json:"v"`
}

// State of the native run.
type State struct {
	Inputs     []In
	Pos        int
	TierV      int
	Violations []string
	KnownHits  []string
	Covers     []string
	Obs        []string
}

// S is the current native run.
var S = &State{}

// AssumeFailed is raised when an assumption does not hold natively.
type AssumeFailed struct{}

// Stop ends a run after a failed assertion.
type Stop struct{}

// Diverged is raised when the run asks for inputs that were not recorded.
type Diverged struct{ What string }

func next(name string) string {
	if S.Pos >= len(S.Inputs) {
		panic(Diverged{"no more inputs, want " + name})
	}
	in := S.Inputs[S.Pos]
	S.Pos++
	if in.Name != name {
		panic(Diverged{fmt.Sprintf("input %s, want %s", in.Name, name)})
	}
	return in.Val
}

func num(name string) uint64 {
	b, ok := new(big.Int).SetString(next(name), 10)
	if !ok {
		panic(Diverged{"bad number"})
	}
	return b.Uint64()
}

func U8(name string) uint8   { return uint8(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U32(name string) uint32 { return uint32(num(name)) }
func U64(name string) uint64 { return num(name) }
func Bool(name string) bool  { return num(name) != 0 }

// Int is an integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(num(name)) }

// Range64 is an unsigned integer in [lo, hi].
func Range64(name string, lo, hi uint64) uint64 { return num(name) }

// Fill makes all bytes of b arbitrary.
func Fill(name string, b []byte) {
	for i := range b {
		b[i] = U8(fmt.Sprintf("%s[%d]", name, i))
	}
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	Fill(name, b)
	return b
}

// Choice explores all values 0..n-1.
func Choice(name string, n int) int { return int(num(name)) }

// Big is an arbitrary unsigned 256-bit integer.
func Big(name string) *big.Int {
	b, ok := new(big.Int).SetString(next(name), 10)
	if !ok {
		panic(Diverged{"bad number"})
	}
	return b
}

// Assume restricts the explored executions.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		S.Violations = append(S.Violations, msg)
		panic(Stop{})
	}
}

// AssertKnown is Assert, except that a failure inside region is the known
// finding id if the findings file lists it.
func AssertKnown(c bool, msg string, id string, region bool) {
	if !c {
		if region {
			S.KnownHits = append(S.KnownHits, id)
		}
		S.Violations = append(S.Violations, msg)
		panic(Stop{})
	}
}

// Concrete explores every feasible value of v.
func Concrete(v int) int { return v }

// Fork explores both outcomes separately.
func Fork(b bool) bool { return b }

// Cover marks a point that must be reachable.
func Cover(label string) { S.Covers = append(S.Covers, label) }

// Observe records a number compared between the symbolic and the native run.
func Observe(name string, v uint64) { S.Obs = append(S.Obs, fmt.Sprintf("%s=%d", name, v)) }

func ObserveBool(name string, v bool) {
	n := 0
	if v {
		n = 1
	}
	S.Obs = append(S.Obs, fmt.Sprintf("%s=%d", name, n))
}

func ObserveBytes(name string, b []byte) { S.Obs = append(S.Obs, fmt.Sprintf("%s=%x", name, b)) }

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return S.TierV }

// MapOrders makes the engine explore all iteration orders of small maps.
func MapOrders(on bool) {}

// Trace prints debugging text in the engine.
func Trace(s string) {}

// Harnesses is the registry used natively.
var Harnesses = map[string]func(){}

// Reg registers a harness for replay.
func Reg(name string, f func()) bool {
	Harnesses[name] = f
	return true
}

// Dump prints a value in the engine (debugging).
func Dump(v any) {}

// Schedules lets the engine interrupt goroutines at every operation others can
// see, up to the given number of preemptions; paths with more than ops such
// operations are cut (0: no limit; negative: they are failures). After fair
// operations in a row others get their turn. Natively the Go scheduler decides.
func Schedules(preemptions, ops, fair int) { goroutines = runtime.NumGoroutine() }

var goroutines int

// Settle lets all other goroutines run until they are done or cannot go on,
// and returns how many are left.
func Settle() int {
	left := 0
	for i := 0; i < 60; i++ {
		if left = runtime.NumGoroutine() - goroutines; left <= 0 {
			return 0
		}
		time.Sleep(time.Duration(i) * 100 * time.Microsecond)
	}
	return left
}
