// Package sym is the interface between harnesses and the symbolic engine.
// Compiled natively it replays a recorded assignment; inside the engine every
// function here is an intrinsic.
package sym

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"
)

type inputVal struct {
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

var (
	mu       sync.Mutex
	inputs   map[string]inputVal
	used     map[string]int
	tier     int
	observed []string
	missing  []string
)

// AssertionFailed is panicked by a failing Assert in native mode.
type AssertionFailed struct{ Label string }

// AssumptionFailed is panicked by a failing Assume in native mode.
type AssumptionFailed struct{}

// Load sets the assignment to replay.
func Load(in map[string]inputVal, t int) {
	inputs, used, tier, observed, missing = in, map[string]int{}, t, nil, nil
}

// LoadJSON decodes and sets the assignment.
func LoadJSON(b []byte, t int) error {
	m := map[string]inputVal{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	Load(m, t)
	return nil
}

// Observed returns what Observe recorded.
func Observed() []string { return observed }

// Missing returns inputs requested but absent from the assignment.
func Missing() []string { return missing }

func get(name string) (uint64, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := used[name]
	used[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := inputs[name]
	if !ok {
		missing = append(missing, name)
		return 0, false
	}
	u, err := strconv.ParseUint(v.Val, 10, 64)
	if err != nil {
		missing = append(missing, name)
	}
	return u, err == nil
}

// Int is an arbitrary int.
func Int(name string) int { u, _ := get(name); return int(u) }

// IntRange is an arbitrary int in [lo, hi].
func IntRange(name string, lo, hi int) int {
	u, ok := get(name)
	if !ok {
		return lo
	}
	return int(u)
}

// Byte is an arbitrary byte.
func Byte(name string) byte { u, _ := get(name); return byte(u) }

// Bool is an arbitrary bool.
func Bool(name string) bool { u, _ := get(name); return u == 1 }

// Float64 is an arbitrary float64 (one NaN).
func Float64(name string) float64 { u, _ := get(name); return math.Float64frombits(u) }

// OneOf is an arbitrary one of the given floats (symbolic index, no fork).
func OneOf(name string, vals ...float64) float64 { u, _ := get(name); return vals[u] }

// Bytes is a string of n arbitrary bytes.
func Bytes(name string, n int) string {
	mu.Lock()
	defer mu.Unlock()
	k := used[name]
	used[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := inputs[name]
	if !ok {
		missing = append(missing, name)
		return string(make([]byte, n))
	}
	b, _ := hex.DecodeString(v.Val)
	return string(b)
}

// Choose is an arbitrary int in [0, n), decided by forking.
func Choose(name string, n int) int { u, _ := get(name); return int(u) }

// NumCPU makes the machine's CPU count arbitrary in [1, max].
func NumCPU(max int) int { get("#numcpu"); return runtime.NumCPU() }

// SetNumCPU fixes the machine's CPU count in the engine.
func SetNumCPU(n int) {}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(AssumptionFailed{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		panic(AssertionFailed{label})
	}
}

// Cover marks a reachability witness.
func Cover(label string) {}

// Observe records a scalar or string for comparing the engine with the real code.
func Observe(label string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	var s string
	switch x := v.(type) {
	case nil:
		s = "n0"
	case string:
		s = fmt.Sprintf("s%x", x)
	case bool:
		s = "b0"
		if x {
			s = "b1"
		}
	case float64:
		if x != x {
			x = math.NaN()
		}
		s = fmt.Sprintf("f%x", math.Float64bits(x))
	case int:
		s = fmt.Sprintf("i%x", uint64(x))
	case byte:
		s = fmt.Sprintf("i%x", uint64(x))
	default:
		panic(fmt.Sprintf("Observe(%T)", v))
	}
	observed = append(observed, label+"="+s)
}

// And, Or are branch-free.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Implies is branch-free.
func Implies(a, b bool) bool { return Or(!a, b) }

// IfInt is a branch-free conditional.
func IfInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IfFloat is a branch-free conditional.
func IfFloat(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// Same is bit equality of floats, all NaNs being equal.
func Same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

func setMapOrder(k int) {}

// AnyMapOrder lets map iteration go forwards or backwards (insertion order), or alternate.
func AnyMapOrder() { setMapOrder(Choose("#maporder", 3)) }

// SymbolicRand makes random choices of at most 8 alternatives arbitrary.
func SymbolicRand(on bool) {}

// AllSchedules explores goroutine schedules with at most n preemptions.
func AllSchedules(n int) {}

// OneSchedule returns to a fixed schedule.
func OneSchedule() {}

// DetectRaces turns on happens-before race detection.
func DetectRaces() {}

// Merge switches if-conversion on or off.
func Merge(on bool) {}

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return tier }

// Quick selects by tier.
func Quick(q, t int) int {
	if Tier() == 0 {
		return q
	}
	return t
}

// Symbolic reports whether the harness runs inside the engine.
func Symbolic() bool { return false }

func liveGoroutines() int { return -1 }

// NoLeak asserts that no goroutine started by the code is still running or
// blocked (natively: waits for them a little, by count).
func NoLeak(label string) {
	if n := liveGoroutines(); n >= 0 {
		Assert(n == 0, label)
		return
	}
	for i := 0; i < 50; i++ {
		if runtime.NumGoroutine() <= baseGoroutines {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	Assert(false, label)
}

var baseGoroutines = 1

// SetBase records the goroutine count before a replay.
func SetBase(n int) { baseGoroutines = n }

// StepLimit bounds the following part of the harness.
func StepLimit(n int) { stepLimit(n) }
func stepLimit(n int) {}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssertionFailed, AssumptionFailed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// NoPanic asserts that f does not panic.
func NoPanic(label string, f func()) {
	Assert(!Panics(f), label)
}

// JSONRoundTrip marshals src and unmarshals into dst (both pointers).
func JSONRoundTrip(src, dst interface{}) bool { return jsonRoundTrip(src, dst) }

func jsonRoundTrip(src, dst interface{}) bool {
	b, err := json.Marshal(src)
	if err != nil {
		return false
	}
	return json.Unmarshal(b, dst) == nil
}

var saved *os.File
var pr *os.File
var capDone chan []byte

func startCapture() {
	r, w, _ := os.Pipe()
	saved = os.Stdout
	os.Stdout = w
	pr = w
	capDone = make(chan []byte, 1)
	go func() {
		var b bytes.Buffer
		io.Copy(&b, r)
		capDone <- b.Bytes()
	}()
}

func stopCapture() string {
	os.Stdout = saved
	pr.Close()
	return string(<-capDone)
}

// Stdout runs f and returns what it printed.
func Stdout(f func()) string {
	startCapture()
	f()
	return stopCapture()
}

var dirs []string

// TempDir is a fresh directory.
func TempDir() string {
	d, err := os.MkdirTemp("", "verifsym")
	if err != nil {
		panic(err)
	}
	dirs = append(dirs, d)
	return d
}

// Cleanup removes the directories made by TempDir.
func Cleanup() {
	for _, d := range dirs {
		os.RemoveAll(d)
	}
	dirs = nil
}

var testingInit sync.Once

// RunTest runs f as a test and tells whether the test failed.
func RunTest(f func(t *testing.T)) bool {
	testingInit.Do(testing.Init)
	t := new(testing.T)
	f(t)
	return t.Failed()
}
