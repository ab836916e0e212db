// Package sym is the interface between the harnesses and the symbolic engine.
// The engine intercepts every function of this package that has the comment
// "intrinsic"; the bodies below are the native semantics, used when a
// counterexample or a witness is replayed against the compiled code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
)

type input struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

type request struct {
	H      string   `json:"h"`
	Inputs []input  `json:"inputs"`
	Obs    []string `json:"obs,omitempty"`
}

// Result is what a native run of a harness did.
type Result struct {
	Outcome string   `json:"outcome"` // ok, assume, assert, panic, diverged
	Msg     string   `json:"msg,omitempty"`
	Obs     []string `json:"obs,omitempty"`
}

type stop struct{ outcome, msg string }

var (
	cur     request
	pos     int
	obs     []string
	tier    int
	base    uint64
	limit   int64
	racing  bool
	oracles []byte
)

func next(k string) uint64 {
	if pos >= len(cur.Inputs) {
		panic(stop{"diverged", "more inputs than the symbolic path had"})
	}
	in := cur.Inputs[pos]
	if in.K != k {
		panic(stop{"diverged", fmt.Sprintf("input %d is %s, wanted %s", pos, in.K, k)})
	}
	pos++
	return in.V
}

// Run executes one request natively.
func Run(harnesses map[string]func(), line []byte, t int) (res Result) {
	cur = request{}
	if err := json.Unmarshal(line, &cur); err != nil {
		return Result{Outcome: "error", Msg: err.Error()}
	}
	pos, obs, tier, limit = 0, nil, t, 0
	f := harnesses[cur.H]
	if f == nil {
		return Result{Outcome: "error", Msg: "no harness " + cur.H}
	}
	defer func() {
		res.Obs = obs
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				res.Outcome, res.Msg = s.outcome, s.msg
				return
			}
			res.Outcome, res.Msg = "panic", fmt.Sprint(r)
		}
	}()
	f()
	if pos != len(cur.Inputs) {
		return Result{Outcome: "diverged", Msg: "inputs left over"}
	}
	return Result{Outcome: "ok"}
}

// Symbolic inputs (intrinsic).
func Byte() byte     { return byte(next("u8")) }
func Bool() bool     { return next("bool") != 0 }
func Uint16() uint16 { return uint16(next("u16")) }
func Uint32() uint32 { return uint32(next("u32")) }
func Uint64() uint64 { return next("u64") }

// Choose returns any of 0..n-1; the engine enumerates them (intrinsic).
func Choose(n int) int { return int(next("choose")) }

// Bytes returns n symbolic bytes with no spare capacity (intrinsic).
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b[:n:n]
}

// Str returns a string of n symbolic bytes.
func Str(n int) string { return string(Bytes(n)) }

// UpTo returns a value in lo..hi.
func UpTo(lo, hi int) int { return lo + Choose(hi-lo+1) }

// Assume discards the execution unless c holds (intrinsic).
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert states the property (intrinsic).
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"assert", msg})
	}
}

// Fail is Assert(false) (intrinsic).
func Fail(msg string) { panic(stop{"assert", msg}) }

// Reach marks a point every run must be able to get to (intrinsic).
func Reach(label string) {}

// Known marks the rest of the path as lying in the class of a known finding (intrinsic).
func Known(id string) {}

// Obs* record values that the native run must reproduce (intrinsic).
func ObsBytes(label string, b []byte) { obs = append(obs, fmt.Sprintf("%s=%x", label, b)) }
func ObsInt(label string, v uint64)   { obs = append(obs, fmt.Sprintf("%s=%d", label, v)) }
func ObsBool(label string, v bool) {
	n := 0
	if v {
		n = 1
	}
	obs = append(obs, fmt.Sprintf("%s=%d", label, n))
}

// MapOrder selects the map iteration orders explored: 0 insertion order,
// 1 also reversed, 2 every order of up to four entries, 3 reversed only (intrinsic).
func MapOrder(mode int) {}

// Room multiplies the bounds on steps and decisions of this path (intrinsic).
func Room(n int) {}

// AllocLimit asserts that no single allocation from here on exceeds n bytes;
// 0 ends the region (intrinsic). Natively only the total can be seen, so the
// limit is a multiple there.
func AllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if n == 0 && limit > 0 && int64(ms.TotalAlloc-base) > 4*limit+(256<<10) {
		panic(stop{"assert", fmt.Sprintf("allocation of more than %d bytes", limit)})
	}
	base, limit = ms.TotalAlloc, int64(n)
}

// DepthLimit asserts that the call depth from here on stays below n; 0 ends it (intrinsic).
func DepthLimit(n int) {}

// Symbolic reports whether the engine is executing the harness (intrinsic).
func Symbolic() bool { return false }

// Tier is 0 for quick and 1 for thorough (intrinsic).
func Tier() int { return tier }

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if Tier() > 0 {
		return thorough
	}
	return quick
}

// Parallel runs f and g as two threads: the engine executes one after the other
// and reports every pair of conflicting accesses to memory that existed before,
// neither ordered nor guarded by a common lock (intrinsic).
func Parallel(f, g func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	var mu sync.Mutex
	var bad interface{}
	for _, h := range []func(){f, g, f, g} {
		h := h
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					bad = r
					mu.Unlock()
				}
			}()
			<-start
			for i := 0; i < 200; i++ {
				h()
			}
		}()
	}
	close(start)
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

// Main serves replay requests: one JSON request per line on the given file.
func Main(harnesses map[string]func()) {
	t := 0
	if os.Getenv("VERIF_TIER") == "thorough" {
		t = 1
	}
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, l := range strings.Split(string(data), "\n") {
		if l != "" {
			enc.Encode(Run(harnesses, []byte(l), t))
		}
	}
}
