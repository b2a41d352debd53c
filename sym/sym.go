// Package sym is the harness-side interface of the symbolic engine. Under the
// engine every function here is an intrinsic; compiled natively it replays the
// concrete values of a counterexample or of a predicted trace.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

type trace struct {
	Entry  string              `json:"entry"`
	Values map[string][]uint64 `json:"values"`
}

var (
	mu       sync.Mutex
	cur      trace
	seq      map[string]int
	obs      []string
	reached  []string
	failures []string
	start    = time.Now()
	quick    = time.Millisecond * 30
)

type skip struct{}
type assumeFailed struct{ what string }

type result struct {
	Obs      []string `json:"obs"`
	Failures []string `json:"failures"`
	Reached  []string `json:"reached"`
	Skipped  bool     `json:"skipped"`
	Assume   string   `json:"assume"`
	Panic    string   `json:"panic"`
}

// Main runs the traces in the file named by VERIF_REPLAY.
func Main(entries map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	var ts []trace
	if err := json.Unmarshal(b, &ts); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	for _, t := range ts {
		f := entries[t.Entry]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no such entry", t.Entry)
			os.Exit(9)
		}
		r := runOne(t, f)
		j, _ := json.Marshal(r)
		fmt.Printf("RESULT %s\n", j)
	}
}

func runOne(t trace, f func()) (r result) {
	mu.Lock()
	cur = t
	seq = map[string]int{}
	obs, reached, failures = nil, nil, nil
	start = time.Now()
	mu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			switch e := p.(type) {
			case skip:
				r.Skipped = true
			case assumeFailed:
				r.Assume = e.what
			default:
				r.Panic = fmt.Sprint(p)
				if r.Panic == "" {
					r.Panic = "panic"
				}
				if os.Getenv("VERIF_STACK") != "" {
					buf := make([]byte, 1<<16)
					os.Stderr.Write(buf[:runtime.Stack(buf, false)])
				}
			}
		}
		mu.Lock()
		r.Obs, r.Failures, r.Reached = obs, failures, reached
		mu.Unlock()
	}()
	f()
	return
}

func fresh(name string) string {
	k := seq[name]
	seq[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s~%d", name, k)
}

func val(name string) uint64 {
	v := cur.Values[name]
	if len(v) == 0 {
		return 0
	}
	return v[0]
}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	return val(fresh(name))
}

func Bool(name string) bool     { return get(name)&1 != 0 }
func Byte(name string) byte     { return byte(get(name)) }
func Uint16(name string) uint16 { return uint16(get(name)) }
func Uint32(name string) uint32 { return uint32(get(name)) }
func Uint64(name string) uint64 { return get(name) }
func Int64(name string) int64   { return int64(get(name)) }

// Int is a symbolic int in [lo, hi].
func Int(name string, lo, hi int) int {
	v := int(int64(get(name)))
	if v < lo || v > hi {
		panic(assumeFailed{"range of " + name})
	}
	return v
}

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	mu.Lock()
	defer mu.Unlock()
	name = fresh(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose explores every value in [0, n).
func Choose(name string, n int) int {
	k := int(get(name))
	if k < 0 || k >= n {
		return 0
	}
	return k
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{"assumption"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		failures = append(failures, msg)
		mu.Unlock()
	}
}

func Fail(msg string) {
	Assert(false, msg)
	panic(skip{})
}

// Skip ends the path: nothing to check here.
func Skip() { panic(skip{}) }

// Virtual marks what depends on virtual time, which cannot be run natively.
func Virtual() { panic(skip{}) }

// Reach records that an interesting point was reached (vacuity guard).
func Reach(name string) {
	mu.Lock()
	reached = append(reached, name)
	mu.Unlock()
}

// Observe records a value that the native run must reproduce.
func Observe(key string, v interface{}) {
	s := "?"
	switch x := v.(type) {
	case bool:
		s = fmt.Sprint(x)
	case string:
		s = fmt.Sprintf("%x", x)
	case []byte:
		s = fmt.Sprintf("%x", x)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		s = fmt.Sprint(x)
	case nil:
		return
	}
	mu.Lock()
	obs = append(obs, key+"="+s)
	mu.Unlock()
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool   { return bytes.Equal(a, b) }
func EqStr(a, b string) bool     { return a == b }
func LessBytes(a, b []byte) bool { return bytes.Compare(a, b) < 0 }

// Pick makes a value concrete, exploring each feasible one.
func Pick(x int) int { return x }

func Preempt(n int)      {}
func TimerRaces(b bool)  {}
func FreeBlock(b bool)   {}
func MapOrders(b bool)   {}
func HashOrder(mode int) {}
func LenCap(n int)       {}
func Thorough() bool     { return os.Getenv("VERIF_TIER") == "thorough" }
func Symbolic() bool     { return false }

// Settle waits until nothing else can run.
func Settle() { time.Sleep(quick) }

// Advance lets virtual time pass.
func Advance(d time.Duration) {
	if d > 3*time.Second {
		d = 3 * time.Second
	}
	time.Sleep(d)
}

// Idle lets a long virtual time pass in which nothing is meant to happen. Real
// time passes as well only when a counterexample is replayed, and for at most
// some 75 s.
func Idle(d time.Duration) {
	most := quick
	if os.Getenv("VERIF_FULL") != "" {
		most = 75 * time.Second
	}
	if d > most {
		d = most
	}
	time.Sleep(d)
}

// Blocked is the number of goroutines other than this one.
func Blocked() int { return runtime.NumGoroutine() - 1 }

// Elapsed is the virtual time since the start of the path.
func Elapsed() time.Duration { return time.Since(start) }
