// Package v holds the harness primitives. Under the symbolic executor every function here is
// intercepted and its body never runs; the bodies below replay one recorded assignment natively.
package v

import (
	"encoding/json"
	"fmt"
	"os"
	"testing/synctest"
	"time"
)

// Obs is one observed value.
type Obs struct {
	Name string   `json:"name"`
	V    []uint64 `json:"v"`
	Raw  string   `json:"raw"`
}

// Report is what a native run produced.
type Report struct {
	Outcome string   `json:"outcome"` // ok, assert, assume, panic
	ID      string   `json:"id"`
	Msg     string   `json:"msg"`
	Obs     []Obs    `json:"obs"`
	Covers  []string `json:"covers"`
}

var (
	mu     spin
	vec    = map[string]uint64{}
	counts = map[string]int{}
	rep    Report
	tier   int
	start  time.Time
	// RandFn etc. may be served from the vector.
)

// Setup installs a vector (native replay only).
func Setup(vector map[string]uint64, t int) { vec, tier, start = vector, t, time.Now() }

// Finish prints the report and ends the process.
func Finish(outcome, id, msg string) {
	mu.Lock()
	rep.Outcome, rep.ID, rep.Msg = outcome, id, msg
	b, _ := json.Marshal(rep)
	fmt.Printf("\nVREPORT %s\n", b)
	os.Exit(0)
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, counts[name])
	counts[name]++
	return vec[k]
}

// Next exposes raw vector values to the environment hooks.
func Next(name string) uint64 { return next(name) }

func Byte(name string) byte  { return byte(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func Bool(name string) bool  { return next(name)&1 == 1 }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int { return lo + int(next(name)) }

// Choose is a concretised integer in [lo,hi]: one path per value.
func Choose(name string, lo, hi int) int { return lo + int(next(name)) }

// Bytes is a slice of n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Concrete forks over the feasible values of n.
func Concrete(n int) int { return n }

// Split forks on c.
func Split(c bool) bool { return c }

func Assume(c bool) {
	if !c {
		Finish("assume", "", "")
	}
}

func Assert(c bool, id string) {
	if !c {
		Finish("assert", id, "")
	}
}

// Stop ends the path successfully.
func Stop() { Finish("ok", "", "") }

// Cover records that id was reached.
func Cover(id string) {
	mu.Lock()
	defer mu.Unlock()
	for _, c := range rep.Covers {
		if c == id {
			return
		}
	}
	rep.Covers = append(rep.Covers, id)
}

// Observe records values compared between the encoding and the real run.
func Observe(name string, vals ...any) {
	mu.Lock()
	defer mu.Unlock()
	for _, x := range vals {
		o := Obs{Name: name}
		switch t := x.(type) {
		case nil:
			o.Raw = "nil"
		case bool:
			o.V = []uint64{0}
			if t {
				o.V[0] = 1
			}
		case int:
			o.V = []uint64{uint64(t)}
		case int64:
			o.V = []uint64{uint64(t)}
		case byte:
			o.V = []uint64{uint64(t)}
		case uint16:
			o.V = []uint64{uint64(t)}
		case uint32:
			o.V = []uint64{uint64(t)}
		case uint64:
			o.V = []uint64{t}
		case string:
			o.Raw = "str"
			for i := 0; i < len(t); i++ {
				o.V = append(o.V, uint64(t[i]))
			}
		case []byte:
			o.Raw = "slice"
			for _, c := range t {
				o.V = append(o.V, uint64(c))
			}
		case []uint16:
			o.Raw = "slice"
			for _, c := range t {
				o.V = append(o.V, uint64(c))
			}
		case []bool:
			o.Raw = "slice"
			for _, c := range t {
				if c {
					o.V = append(o.V, 1)
				} else {
					o.V = append(o.V, 0)
				}
			}
		default:
			o.Raw = "non-nil"
		}
		rep.Obs = append(rep.Obs, o)
	}
}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteU16(c bool, a, b uint16) uint16 {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// EqBytes compares without branching.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return tier }

// Symbolic reports whether the symbolic executor runs the harness.
func Symbolic() bool { return false }

// Interleave makes scheduling nondeterministic from here on (with that many preemptions).
func Interleave(preemptions int) {
	if schedOn {
		startSched(preemptions)
	}
}

// Sequential restores deterministic scheduling.
func Sequential() { stopSched() }

// Yield is a scheduling point.
func Yield() { SchedPoint() }

// Now is the virtual time in nanoseconds since the start of the run.
func Now() int64 { return int64(time.Since(start)) }

// Wait blocks until every other goroutine is blocked.
func Wait() {
	if schedActive() {
		schedWait()
		return
	}
	synctest.Wait()
}

// MaxSteps bounds the instructions of a path.
func MaxSteps(n int) {}

// Live is the number of live goroutines of the harness (symbolic only).
func Live() int { return -1 }
