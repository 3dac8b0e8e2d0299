// Package vsym is the interface between a harness and the symbolic executor.
//
// Under the executor every function below is intercepted: inputs are SMT
// variables, Choice forks, Assume and Assert are solver queries. Compiled
// natively the same functions read the inputs of one concrete run from a
// replay file, so a counterexample is an ordinary execution of the real code.
package vsym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type inputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    uint64 `json:"v"`
	S    string `json:"s,omitempty"`
}

type replay struct {
	Tier   string     `json:"tier"`
	Inputs []inputVal `json:"inputs"`
}

var (
	mu     sync.Mutex
	inputs = map[string]inputVal{}
	names  = map[string]int{}
	tier   = "quick"
	obs    []string
)

func get(name, kind string) inputVal {
	mu.Lock()
	defer mu.Unlock()
	names[name]++
	if k := names[name]; k > 1 {
		name += "~" + strconv.Itoa(k)
	}
	v, ok := inputs[name]
	if !ok {
		finish("noinput", "no value for input "+name)
	}
	return v
}

// Inputs: arbitrary values within the stated inclusive range.

func Int(name string, lo, hi int) int          { return int(get(name, "int").V) }
func Int64(name string, lo, hi int64) int64    { return int64(get(name, "int64").V) }
func Int32(name string, lo, hi int32) int32    { return int32(get(name, "int32").V) }
func Int16(name string, lo, hi int16) int16    { return int16(get(name, "int16").V) }
func Int8(name string, lo, hi int8) int8       { return int8(get(name, "int8").V) }
func Uint64(name string, lo, hi uint64) uint64 { return get(name, "uint64").V }
func Uint32(name string, lo, hi uint32) uint32 { return uint32(get(name, "uint32").V) }
func Uint16(name string, lo, hi uint16) uint16 { return uint16(get(name, "uint16").V) }
func Byte(name string, lo, hi byte) byte       { return byte(get(name, "uint8").V) }
func Bool(name string) bool                    { return get(name, "bool").V != 0 }

// Float64 is any bit pattern.
func Float64(name string) float64 { return math.Float64frombits(get(name, "float64").V) }

// String is any byte string of min..max bytes; StringIn restricts the bytes to
// those of charset.
func String(name string, min, max int) string { return str(name, "string") }
func StringIn(name string, min, max int, charset string) string {
	return str(name, "string")
}
func Bytes(name string, min, max int) []byte { return []byte(str(name, "bytes")) }

func str(name, kind string) string {
	b, err := hex.DecodeString(get(name, kind).S)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Choice forks over 0..n-1.
func Choice(name string, n int) int { return int(get(name, "choice").V) }

// Bound is a tier dependent constant.
func Bound(name string, quick, thorough int) int { return int(get(name, "bound").V) }
func Tier() string                               { return tier }

// Symbolic tells whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

func Assume(c bool) {
	if !c {
		finish("infeasible", "")
	}
}

func Assert(c bool, msg string) {
	if !c {
		finish("violation", msg)
	}
}
func Fail(msg string) { finish("violation", msg) }

// Reach marks a point every run of the check must be able to reach.
func Reach(label string) {}

func ObserveInt(label string, v int64)  { observe(label + "=" + strconv.FormatInt(v, 10)) }
func ObserveStr(label string, v string) { observe(label + "=" + v) }
func ObserveBool(label string, v bool)  { observe(label + "=" + strconv.FormatBool(v)) }

func observe(s string) {
	mu.Lock()
	defer mu.Unlock()
	obs = append(obs, s)
}

// Quiesce waits until every other goroutine is finished or blocked.
func Quiesce() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// MapOrder(true): iteration order of small maps becomes a choice.
func MapOrder(on bool) {}

// SymClock: every reading of the clock advances it by an arbitrary amount of
// at most maxStep.
func SymClock(maxStep time.Duration) {}

// ClockNow is the virtual clock without advancing it; Advance moves it.
func ClockNow() time.Duration { return time.Since(start) }
func Advance(d time.Duration) { time.Sleep(d) }

var start = time.Now()

func Stdout() string     { return "" }
func Signal(sig int)     {}
func OnExit(f func(int)) {}
func Done()              { finish("ok", "") }
func Blocked() int       { return 0 }
func Goroutines() int    { return runtime.NumGoroutine() }
func Yield()             { runtime.Gosched() }

// Panics runs f and reports whether it panicked, and with what.
func Panics(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			if e, ok := r.(error); ok {
				msg = e.Error()
			} else if s, ok := r.(string); ok {
				msg = s
			} else {
				msg = "panic"
			}
		}
	}()
	f()
	return "", false
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg,omitempty"`
	Obs    []string `json:"obs,omitempty"`
}

var once sync.Once

func finish(status, msg string) {
	once.Do(func() {
		j, _ := json.Marshal(result{status, msg, obs})
		fmt.Printf("\nVSYM-RESULT %s\n", j)
		os.Stdout.Sync()
		if status == "violation" {
			os.Exit(3)
		}
		os.Exit(0)
	})
	select {}
}

// Main replays one run: replay HARNESS INPUTS.json
func Main(hs map[string]func()) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: replay HARNESS INPUTS.json")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	tier = r.Tier
	for _, i := range r.Inputs {
		inputs[i.Name] = i
	}
	f := hs[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	}
	f()
	mu.Lock()
	defer mu.Unlock()
	finish("ok", "")
}
