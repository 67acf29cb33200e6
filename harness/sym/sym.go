// Package sym is the interface between harnesses and the symbolic interpreter.
// The bodies below are what runs natively, when a counterexample is replayed against
// the real code; under symbolic execution every function here is an intrinsic.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sync"
)

type failure struct{ msg string }
type infeasible struct{}

var (
	vals     []uint64
	pos      int
	obs      []string
	covers   []string
	thorough bool
	mu       sync.Mutex // for covers
	quiet    bool
)

func next() uint64 {
	if pos >= len(vals) {
		pos++
		return 0
	}
	v := vals[pos]
	pos++
	return v
}

// Byte returns an arbitrary byte.
func Byte() byte { return byte(next()) }

// Bool returns an arbitrary bool.
func Bool() bool { return next()&1 == 1 }

// Uint64 returns an arbitrary uint64.
func Uint64() uint64 { return next() }

// Int returns an arbitrary integer in [lo, hi], kept symbolic.
func Int(lo, hi int) int {
	v := next()
	if v > uint64(hi-lo) {
		panic(infeasible{})
	}
	return lo + int(v)
}

// Choice returns each of 0..n-1, on separate paths.
func Choice(n int) int {
	v := next()
	if v >= uint64(n) {
		panic(infeasible{})
	}
	return int(v)
}

// String returns an arbitrary string of n bytes.
func String(n int) string { return string(Bytes(n)) }

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// ByteIn returns an arbitrary byte of set.
func ByteIn(set string) byte {
	b := Byte()
	Assume(In(b, set))
	return b
}

// StringIn returns n arbitrary bytes of set.
func StringIn(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(set)
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(infeasible{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(failure{msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(failure{msg}) }

// Cover records that a label was reached.
func Cover(label string) {
	mu.Lock()
	defer mu.Unlock()
	if !quiet {
		covers = append(covers, label)
	}
}

// Observe records a value for comparing the interpreter with the real execution.
func Observe(name string, v interface{}) { obs = append(obs, name+"="+show(v)) }

func show(v interface{}) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case []string:
		s := "["
		for _, x := range v {
			s += fmt.Sprintf("%q,", x)
		}
		return s + "]"
	case []int:
		s := "["
		for _, x := range v {
			s += fmt.Sprint(x) + ","
		}
		return s + "]"
	case bool, int, int32, uint8, uint32, uint64, int64:
		return fmt.Sprint(v)
	case float64:
		return fmt.Sprintf("%x", math.Float64bits(v))
	}
	return "?"
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

func IteRune(c bool, a, b rune) rune {
	if c {
		return a
	}
	return b
}

func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// In reports whether b is one of the bytes of set.
func In(b byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			return true
		}
	}
	return false
}

// Conc makes x concrete, one path per value.
func Conc(x int) int { return x }

// ConcBool makes b concrete.
func ConcBool(b bool) bool { return b }

// Thorough reports whether this is the thorough tier.
func Thorough() bool { return thorough }

// Symbolic reports whether the code is being executed symbolically.
func Symbolic() bool { return false }

// Freeze: from here on, the code may not write to anything that exists now.
func Freeze() {}

// Thaw ends Freeze.
func Thaw() {}

// Shared runs f as one of several concurrent callers: f may not write to anything that
// exists already. Natively, f runs in several goroutines (under the race detector).
func Shared(f func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var p interface{}
	quiet = true
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					p = r
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	quiet = false
	if p != nil {
		panic(p)
	}
	f()
}

// MergeWide and NoMerge tune the interpreter; they do not change what is computed.
func MergeWide(on bool) {}
func NoMerge(on bool)   {}

// H is a registered harness.
type H struct {
	Name  string
	Fn    func(int)
	Setup func(int)
}

type request struct {
	Name     string   `json:"name"`
	Job      int      `json:"job"`
	Vals     []uint64 `json:"vals"`
	Thorough bool     `json:"thorough"`
}

type response struct {
	Kind   string   `json:"kind"` // ok, infeasible, assert, panic
	Msg    string   `json:"msg"`
	Stack  string   `json:"stack,omitempty"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers,omitempty"`
}

func run(h H, q request, setup bool) (r response) {
	vals, pos, obs, covers, thorough = q.Vals, 0, nil, nil, q.Thorough
	defer func() {
		r.Obs, r.Covers = obs, covers
		if e := recover(); e != nil {
			switch e := e.(type) {
			case failure:
				r.Kind, r.Msg = "assert", e.msg
			case infeasible:
				r.Kind = "infeasible"
			default:
				r.Kind, r.Msg = "panic", fmt.Sprint(e)
				r.Stack = string(debug.Stack())
			}
		}
	}()
	if h.Setup != nil && setup {
		h.Setup(q.Job)
	}
	h.Fn(q.Job)
	r.Kind = "ok"
	return
}

// Main reads requests from standard input, one JSON object a line, and answers each.
func Main(hs []H) {
	debug.SetMaxStack(256 << 20)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	last := ""
	for in.Scan() {
		var q request
		if err := json.Unmarshal(in.Bytes(), &q); err != nil {
			out.Encode(response{Kind: "error", Msg: err.Error()})
			continue
		}
		found := false
		for _, h := range hs {
			if h.Name == q.Name {
				found = true
				key := fmt.Sprint(q.Name, q.Job)
				out.Encode(run(h, q, key != last))
				last = key
			}
		}
		if !found {
			out.Encode(response{Kind: "error", Msg: "no harness " + q.Name})
		}
	}
}
