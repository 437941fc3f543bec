package cp

// Harness API. Inside the symbolic engine the functions below are intercepted by name; natively (replay under
// go test -overlay) they read the input values of one counterexample or path model.

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"time"
)

type vCtx struct {
	inputs map[string]interface{}
	names  map[string]int
	traces []vTraceEnt
}

type vTraceEnt struct {
	Name string
	Val  string
}

type vStop struct{ status, label, detail string }

var vCur *vCtx

func vUniq(n string) string {
	vCur.names[n]++
	if k := vCur.names[n]; k > 1 {
		return n + "." + strconv.Itoa(k)
	}
	return n
}

func vRead(n string) interface{} {
	return vCur.inputs[vUniq(n)]
}

// vFloat is an arbitrary float in [lo,hi] (NaN bounds: unbounded on that side, FP mode only).
func vFloat(name string, lo, hi float64) float64 {
	switch x := vRead(name).(type) {
	case float64:
		return x
	case string:
		switch x {
		case "NaN":
			return math.NaN()
		case "+Inf":
			return math.Inf(1)
		case "-Inf":
			return math.Inf(-1)
		case "-0":
			return math.Copysign(0, -1)
		}
	}
	return lo
}

// vAngle is an arbitrary angle in [lo,hi]; its sine and cosine are a symbolic point of the unit circle.
func vAngle(name string, lo, hi float64) float64 { return vFloat(name, lo, hi) }

func vIntIn(name string, lo int) int {
	if s, ok := vRead(name).(string); ok {
		n, _ := strconv.ParseInt(s, 10, 64)
		return int(n)
	}
	return lo
}

func vInt(name string, lo, hi int) int { return vIntIn(name, lo) }

func vUint(name string, lo, hi uint) uint {
	if s, ok := vRead(name).(string); ok {
		n, _ := strconv.ParseUint(s, 10, 64)
		return uint(n)
	}
	return lo
}

func vBool(name string) bool {
	b, _ := vRead(name).(bool)
	return b
}

// vChoose explores every value 0..n-1 as a separate path.
func vChoose(name string, n int) int { return vIntIn(name, 0) }

func vAssume(c bool) {
	if !c {
		panic(vStop{"assume", "", ""})
	}
}

func vAssert(c bool, label string) {
	if !c {
		panic(vStop{"fail", label, ""})
	}
}

// vClose asserts |a-b| <= tol.
func vClose(a, b, tol float64, label string) {
	vTrace(label, a)
	// natively allow for rounding proportional to the magnitudes involved
	t := tol + 1e-9*(math.Abs(a)+math.Abs(b))
	if !(a == b || math.Abs(a-b) <= t) {
		panic(vStop{"fail", label, fmt.Sprintf("%v vs %v", a, b)})
	}
}

func vCover(label string) {}

func vTrace(name string, x float64) {
	vCur.traces = append(vCur.traces, vTraceEnt{name, strconv.FormatFloat(x, 'g', -1, 64)})
}

func vMode(m string) {}

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vAnd(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func vOr(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func vNot(a bool) bool        { return !a }
func vImplies(a, b bool) bool { return !a || b }
func vIff(a, b bool) bool     { return a == b }

func vIte(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// vPanics reports whether f panics.
func vPanics(f func()) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(vStop); ok {
				panic(x)
			}
			r = true
		}
	}()
	f()
	return false
}

// vSteps bounds the number of instructions from here to the end of the path (symbolic engine only).
func vSteps(n int) {}

func vSymbolic() bool { return false }

type vCase struct {
	Harness string
	Inputs  map[string]interface{}
}

func vReplayMain(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		return
	}
	var cases []vCase
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		panic(err)
	}
	defer out.Close()
	for _, c := range cases {
		ctx := &vCtx{inputs: c.Inputs, names: map[string]int{}}
		vCur = ctx
		type res struct {
			Status, Label, Detail string
			Traces                []vTraceEnt
		}
		ch := make(chan res, 1)
		go func() {
			r := res{Status: "ok"}
			defer func() {
				if x := recover(); x != nil {
					if s, ok := x.(vStop); ok {
						r.Status, r.Label, r.Detail = s.status, s.label, s.detail
					} else {
						r.Status, r.Label = "panic", fmt.Sprint(x)
					}
				}
				r.Traces = ctx.traces
				ch <- r
			}()
			f := hs[c.Harness]
			if f == nil {
				r.Status = "missing"
				return
			}
			f()
		}()
		var r res
		hung := false
		select {
		case r = <-ch:
		case <-time.After(10 * time.Second):
			r = res{Status: "timeout", Label: "did not terminate within 10 s"}
			hung = true
		}
		j, _ := json.Marshal(r)
		out.Write(append(j, '\n'))
		if hung {
			// the hung goroutine still owns vCur; later cases get a fresh context
			continue
		}
	}
}
