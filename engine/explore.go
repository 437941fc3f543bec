package main

import (
	"fmt"
	"go/token"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const tokLSS, tokGTR = token.LSS, token.GTR

type Violation struct {
	Harness string
	Label   string
	Cands   []map[string]interface{}
	Trail   string
}

type Sample struct {
	Harness string
	Inputs  map[string]interface{}
	Traces  []TraceVal
	Trail   string
}

type TraceVal struct {
	I    int
	Name string
	Val  float64
}

// Explorer drives one harness function.
type Explorer struct {
	in       *Interp
	fn       *ssa.Function
	thorough bool
	seed     int64
	deadline time.Time
	maxPaths int64

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []work
	active  int
	stopped bool

	paths, pruned, completed, limited, unsupp          atomic.Int64
	decisions, unknownBranches                         atomic.Int64
	assertConst, assertTriv, assertProved, witnessHits atomic.Int64
	steps                                              atomic.Int64

	viol       []Violation
	violCount  map[string]int
	inconc     map[string]int
	covers     map[string]int
	samples    []Sample
	notes      map[string]int
	maxSamples int
	inputsMax  int
}

type Worker struct {
	solver *Solver
}

func newExplorer(in *Interp, fn *ssa.Function) *Explorer {
	ex := &Explorer{in: in, fn: fn, violCount: map[string]int{}, inconc: map[string]int{}, covers: map[string]int{}, notes: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) expired() bool { return time.Now().After(ex.deadline) }

type work struct {
	pre  []int64
	seed map[string]interface{}
}

func (ex *Explorer) push(pre work) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, pre)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) enough(label string) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.violCount[label] >= 3
}

func (ex *Explorer) addViolation(label string, c []map[string]interface{}, trail string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.violCount[label]++
	ex.viol = append(ex.viol, Violation{ex.fn.Name(), label, c, trail})
}

func (ex *Explorer) inconclusive(label, why string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.inconc[label+": "+why]++
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.notes[s]++
}

func (ex *Explorer) run(workers []*Worker) {
	ex.queue = []work{{}}
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				ex.mu.Lock()
				for len(ex.queue) == 0 && ex.active > 0 && !ex.stopped {
					ex.cond.Wait()
				}
				if len(ex.queue) == 0 || ex.stopped {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				if ex.paths.Load() >= ex.maxPaths || ex.expired() {
					ex.stopped = true
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				pre := ex.queue[len(ex.queue)-1]
				ex.queue = ex.queue[:len(ex.queue)-1]
				ex.active++
				ex.mu.Unlock()
				ex.paths.Add(1)
				ex.onePath(w, pre)
				ex.mu.Lock()
				ex.active--
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
}

func (ex *Explorer) newPath(w *Worker, pre []int64) *Path {
	seed := ex.seed
	for _, d := range pre {
		seed = seed*31 + d + 7
	}
	return &Path{ex: ex, w: w, prefix: pre, in: ex.in,
		memo: map[string]int{}, nonneg: map[string]bool{}, pcset: map[string]bool{}, facts: map[string]ivl{}, varDefs: map[string][]*Term{},
		names: map[string]int{}, noted: map[string]bool{}, globals: map[interface{}]*value{}, addrs: map[*value]uint64{},
		nextAdr: 0xc000010000, pools: map[*value][]value{}, rng: rand.New(rand.NewSource(seed)), maxSteps: 20_000_000}
}

func (ex *Explorer) onePath(w *Worker, wk work) {
	p := ex.newPath(w, wk.pre)
	var seeds []map[string]interface{}
	if wk.seed != nil {
		seeds = append(seeds, wk.seed)
	}
	p.initPoints(seeds)
	outcome := "done"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathPruned:
				outcome = "pruned"
			case pathViolated:
				outcome = "violated"
			case pathLimit:
				outcome = "limit"
				if string(r) == "steps" || string(r) == "recursion" {
					// a bound on execution length was exceeded: candidate non-termination
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(pathViolated); !ok {
									ex.note(fmt.Sprint("while reporting a limit: ", r))
								}
							}
						}()
						p.violate("terminates within the step bound", tTrue)
					}()
				} else {
					ex.note("limit: " + string(r))
				}
			case unsupported:
				outcome = "unsupported"
				ex.note("unsupported: " + string(r))
			case targetPanic:
				outcome = "panic"
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(pathViolated); !ok {
								ex.note(fmt.Sprint("while reporting a panic: ", r))
							}
						}
					}()
					p.violate("no panic: "+panicString(r.v), tTrue)
				}()
			default:
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(r)
				}
				outcome = "unsupported"
				ex.note(fmt.Sprintf("engine error: %v (choices %v)", r, p.trail))
			}
		}()
		if init := ex.in.pkg.Func("init"); init != nil {
			p.callFn(nil, init, nil, nil)
		}
		p.steps = 0
		p.callFn(nil, ex.fn, nil, nil)
	}()
	ex.steps.Add(p.steps)
	switch outcome {
	case "done":
		ex.completed.Add(1)
		ex.mu.Lock()
		for _, c := range p.covers {
			ex.covers[c]++
		}
		if len(p.inputs) > ex.inputsMax {
			ex.inputsMax = len(p.inputs)
		}
		want := len(ex.samples) < ex.maxSamples && p.rng.Intn(4) == 0 || len(ex.samples) < 2
		ex.mu.Unlock()
		if want && !ex.expired() {
			ex.sample(p)
		}
	case "pruned":
		ex.pruned.Add(1)
	case "limit":
		ex.limited.Add(1)
	case "unsupported":
		ex.unsupp.Add(1)
	}
}

func panicString(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case iface:
		return panicString(v.v)
	}
	return fmt.Sprintf("%v", v)
}

// sample obtains a model of a completed path and the values the engine predicts for its traces.
func (ex *Explorer) sample(p *Path) {
	defer func() {
		if r := recover(); r != nil {
			ex.note(fmt.Sprint("sample: ", r))
		}
	}()
	if len(p.pts) > 0 && !p.hasBV() {
		// a witness point satisfies the path condition with margin: compare there
		pt := p.pts[len(p.pts)-1]
		s := Sample{Harness: ex.fn.Name(), Inputs: p.inputValues(nil), Trail: p.trailString()}
		for k, v := range p.ptInputs(pt) {
			s.Inputs[k] = v
		}
		for ti, t := range p.traceVals {
			if f, ok := pt.val(t.v); ok {
				s.Traces = append(s.Traces, TraceVal{ti, t.name, f})
			}
		}
		ex.mu.Lock()
		ex.samples = append(ex.samples, s)
		ex.mu.Unlock()
		return
	}
	m, r := p.model(1)
	if r != Sat {
		return
	}
	s := Sample{Harness: ex.fn.Name(), Inputs: p.inputValues(m), Trail: p.trailString()}
	// values of atoms under the chosen inputs
	val := map[int]float64{}
	ok := map[int]bool{}
	for _, a := range p.atoms {
		if x, has := m[a.name]; has {
			if f, good := realValue(x); good {
				val[a.id], ok[a.id] = f, true
			}
		} else if a.input != nil {
			if f, good := s.Inputs[a.input.Name].(float64); good {
				val[a.id], ok[a.id] = f, true
			}
		}
	}
	for ti, t := range p.traceVals {
		switch v := t.v.(type) {
		case float64:
			s.Traces = append(s.Traces, TraceVal{ti, t.name, v})
		case *RealV:
			n, good := evalPoly(v.N, val, ok)
			for _, f := range v.D {
				d, g := evalPoly(f.p, val, ok)
				good = good && g
				for k := 0; k < f.e; k++ {
					n /= d
				}
			}
			if good {
				s.Traces = append(s.Traces, TraceVal{ti, t.name, n})
			}
		}
	}
	ex.mu.Lock()
	ex.samples = append(ex.samples, s)
	ex.mu.Unlock()
}

func evalPoly(q *Poly, val map[int]float64, ok map[int]bool) (float64, bool) {
	s := 0.0
	for _, m := range q.t {
		x := m.c
		for i := 0; i < len(m.key); i += 4 {
			id, e := keyAtom(m.key, i)
			if !ok[id] {
				return 0, false
			}
			for ; e > 0; e-- {
				x *= val[id]
			}
		}
		s += x
	}
	return s, true
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
