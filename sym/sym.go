// Package sym is the interface between a harness and the symbolic executor.
//
// Under the executor every function here is an intrinsic. Compiled natively (replay) the same
// functions read the concrete inputs of a counterexample or of a sampled path.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
)

var (
	mu       sync.Mutex
	inputs   map[string]uint64
	seq      = map[string]int{}
	observed []string
	thorough bool
	Failures int
)

// Load reads the inputs for a native run.
func Load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var v struct {
		Inputs map[string]uint64
		Tier   string
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	inputs, thorough = v.Inputs, v.Tier == "thorough"
	return nil
}

// Observed returns the log of Observe calls.
func Observed() []string {
	mu.Lock()
	defer mu.Unlock()
	return observed
}

// Rand, when set, draws the inputs of a native run: a number in [0, n), or any for n = 0.
// OnFail, when set, is called when an assertion fails.
var OnFail func()

var Rand func(name string, n uint64) uint64

func get(name string) uint64 {
	if Rand != nil {
		return Rand(name, 0)
	}
	mu.Lock()
	defer mu.Unlock()
	n := seq[name]
	seq[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return inputs[name]
}

type assumeFailed struct{}

func Bool(name string) bool       { return get(name) != 0 }
func Int64(name string) int64     { return int64(get(name)) }
func Uint64(name string) uint64   { return get(name) }
func Int32(name string) int32     { return int32(get(name)) }
func Uint32(name string) uint32   { return uint32(get(name)) }
func Byte(name string) byte       { return byte(get(name)) }
func Float64(name string) float64 { return math.Float64frombits(get(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(get(name))) }

// Int returns a symbolic integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if Rand != nil {
		return lo + int(Rand(name, uint64(hi-lo+1)))
	}
	v := int(get(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Choice returns a concrete value in [0, n), forking over all of them.
func Choice(name string, n int) int { return Int(name, 0, n-1) }

// Flip returns a concrete boolean, forking over both.
func Flip(name string) bool { return Int(name, 0, 1) != 0 }

// String returns a string of up to max ASCII bytes.
func String(name string, max int) string {
	n := Int(name+".len", 0, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
		Assume(b[i] < 0x80)
	}
	return string(b)
}

// StringN returns a string of exactly n arbitrary bytes.
func StringN(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("SYM-ASSUME-FAILED")
		os.Exit(3)
	}
}

// Assert is the property.
func Assert(label string, c bool, msg ...any) {
	if !c {
		fmt.Printf("SYM-FAIL %s\t%s\n", label, strings.TrimSpace(fmt.Sprintln(msg...)))
		if OnFail != nil {
			OnFail()
		}
		os.Exit(1)
	}
}

// Fail reports a violation.
func Fail(label string, msg ...any) { Assert(label, false, msg...) }

// Known marks the path: a violation on a path where c holds is the known finding id.
func Known(id string, c bool) {
	if c {
		fmt.Printf("SYM-KNOWN %s\n", id)
	}
}

// Cover names a situation that must be reached.
func Cover(name string) {}

// Observe logs a value that the symbolic and native executions must agree on.
func Observe(name string, v any) {
	s := ""
	switch x := v.(type) {
	case nil:
		s = "nil"
	case bool:
		s = fmt.Sprint(x)
	case string:
		s = fmt.Sprintf("%q", x)
	case int:
		s = fmt.Sprint(uint64(x))
	case int64:
		s = fmt.Sprint(uint64(x))
	case int32:
		s = fmt.Sprint(uint64(x))
	case uint64, uint32, byte:
		s = fmt.Sprint(x)
	case float64, float32:
		s = fmt.Sprint(x)
	default:
		return
	}
	mu.Lock()
	observed = append(observed, name+"="+s)
	mu.Unlock()
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func EqStr(a, b string) bool { return a == b }
func IfInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IfFloat(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IfFloat32(c bool, a, b float32) float32 {
	if c {
		return a
	}
	return b
}

// stacks returns the goroutine dump without the current goroutine.
func stacks() []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Split(string(buf), "\n\n")[1:]
}

func quiet() bool {
	for _, s := range stacks() {
		h, _, _ := strings.Cut(s, "\n")
		i := strings.IndexByte(h, '[')
		if i < 0 {
			continue
		}
		st := h[i+1:]
		st = strings.TrimSuffix(st, "]:")
		st, _, _ = strings.Cut(st, ",")
		switch st {
		case "running", "runnable", "syscall", "sleep", "semacquire-sleep":
			if strings.Contains(s, "os/signal") {
				continue
			}
			return false
		}
	}
	return true
}

// Quiesce waits until no other goroutine can run without time passing.
func Quiesce() {
	for i, n := 0, 0; n < 3 && i < 3000; i++ {
		time.Sleep(200 * time.Microsecond)
		if quiet() {
			n++
		} else {
			n = 0
		}
	}
}

var baseGoroutines = -1

// Start is called by the replay driver just before the harness.
func Start() { baseGoroutines = runtime.NumGoroutine() }

// Live is the number of goroutines other than the harness's own.
func Live() int {
	for i := 0; i < 50; i++ {
		if runtime.NumGoroutine() == baseGoroutines {
			return 0
		}
		time.Sleep(time.Millisecond)
	}
	return runtime.NumGoroutine() - baseGoroutines
}

// Explore turns on interleaving exploration: up to preempts preemptions, over the next maxPoints scheduling points.
func Explore(preempts, maxPoints int) {}

// Delays turns interleaving exploration on: all schedules with up to n delays, where a delay is to pass over the goroutine
// that a deterministic scheduler would run next, over the next maxPoints scheduling points.
func Delays(n, maxPoints int) {}

// Selects bounds the select statements that take another than the first of several ready cases, to n of a run; -1 is no bound.
func Selects(n int) {}

// Sequential turns interleaving exploration off.
func Sequential() {}

// MapOrders makes map iteration order a choice.
func MapOrders(on bool) {}

// NoTimers stops timers from ever firing.
func NoTimers(on bool) {}

// DetectRaces turns the data race detector on.
func DetectRaces() {}

// Symbolic is true under the executor.
func Symbolic() bool { return false }

// Thorough is true in the thorough tier.
func Thorough() bool { return thorough }

// SameMessage reports whether two messages are the same object.
func SameMessage(a, b proto.Message) bool { return a == b }

// RealNow is the executor's clock, in nanoseconds.
func RealNow() int64 { return time.Now().UnixNano() }
