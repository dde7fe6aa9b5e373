// Package vp is the interface between harnesses and the symbolic executor.
//
// Under the executor every function below is intercepted: the nondeterministic ones return fresh symbolic
// values, Assume/Assert act on the path condition. The bodies here are used when a counterexample (or a
// sampled path) is replayed natively against the real build: values come from the recorded model.
package vp

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"sync"
)

type replayData struct {
	Inputs map[string]uint64 `json:"inputs"`
	Params map[string]int    `json:"params"`
}

var (
	mu     sync.Mutex
	data   replayData
	ctr    = map[string]int{}
	Failed []string
	Obs    []string
	Covers []string
	Missed bool
)

// Load reads the inputs of a replay.
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &data)
}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := ctr[name]
	ctr[name] = n + 1
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	return data.Inputs[name]
}

func Bool(name string) bool       { return get(name)&1 == 1 }
func Byte(name string) byte       { return byte(get(name)) }
func U16(name string) uint16      { return uint16(get(name)) }
func U32(name string) uint32      { return uint32(get(name)) }
func U64(name string) uint64      { return get(name) }
func I32(name string) int32       { return int32(get(name)) }
func I64(name string) int64       { return int64(get(name)) }
func Float64(name string) float64 { return math.Float64frombits(get(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(get(name))) }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := get(name)
	Assume(v <= uint64(hi-lo))
	return lo + int(v)
}

// Choose forks into n alternatives.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(get(name))
}

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name + "." + strconv.Itoa(i)))
	}
	return b
}

// String returns a string of n symbolic bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Param returns a bound of the job.
func Param(name string) int {
	v, ok := data.Params[name]
	if !ok {
		panic("vp: no parameter " + name)
	}
	return v
}

type assumeFailed struct{}

// Assume restricts the exploration.
func Assume(c bool) {
	if !c {
		mu.Lock()
		Missed = true
		mu.Unlock()
		panic(assumeFailed{})
	}
}

// IsAssume tells whether a recovered value is a failed assumption.
func IsAssume(r interface{}) bool { _, ok := r.(assumeFailed); return ok }

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		Failed = append(Failed, label)
		mu.Unlock()
		fmt.Println("ASSERT-FAILED " + label)
	}
}

// Cover records that a path of interest was reached.
func Cover(label string) {
	mu.Lock()
	Covers = append(Covers, label)
	mu.Unlock()
}

// Observe records values that are compared between the executor and the native run.
func Observe(label string, vals ...interface{}) {
	var sb strings.Builder
	for i, v := range vals {
		if i > 0 {
			sb.WriteByte(' ')
		}
		switch x := v.(type) {
		case nil:
			sb.WriteString("nil")
		case string:
			fmt.Fprintf(&sb, "%x", x)
		case []byte:
			fmt.Fprintf(&sb, "%x", x)
		case float64:
			fmt.Fprintf(&sb, "f%x", math.Float64bits(x))
		case float32:
			fmt.Fprintf(&sb, "f%x", math.Float32bits(x))
		default:
			fmt.Fprint(&sb, x)
		}
	}
	mu.Lock()
	Obs = append(Obs, label+"="+sb.String())
	mu.Unlock()
}

// Symbolic is true under the executor.
func Symbolic() bool { return false }

// Conc forks over the values of v in [lo,hi].
func Conc(v, lo, hi int) int { return v }

type endSig struct{}

// End ends the run successfully.
func End() { panic(endSig{}) }

// IsEnd tells whether a recovered value is End.
func IsEnd(r interface{}) bool { _, ok := r.(endSig); return ok }

// And, Or and Implies do not fork under the executor.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// Ite selects without forking.
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
