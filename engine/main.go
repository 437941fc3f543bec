// Command engine: symbolic execution of the real code of /repo (from go/ssa) with an SMT solver deciding
// every assertion. See /verif/DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const cpPath = "github.com/jakecoffman/cp/v2"

type runCfg struct {
	prop, repo, verif, only, tier string
	seed                          int64
	verbose                       bool
	workers                       int
}

func main() {
	var c runCfg
	var list bool
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.repo, "repo", "/repo", "repository")
	flag.StringVar(&c.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&c.only, "only", "", "only harnesses matching this regexp")
	flag.BoolVar(&c.verbose, "v", false, "verbose")
	flag.IntVar(&c.workers, "j", runtime.NumCPU(), "workers")
	flag.BoolVar(&list, "list", false, "list harnesses")
	var replay string
	flag.StringVar(&replay, "replay", "", "re-run a recorded counterexample natively")
	flag.Parse()
	c.tier = os.Getenv("VERIF_TIER")
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if c.seed == 0 {
		c.seed = 1
	}
	if replay != "" {
		os.Exit(replayOne(c, replay))
	}
	os.Exit(run(c))
}

func replayOne(c runCfg, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rc replayCase
	if err := json.Unmarshal(b, &rc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res, err := nativeReplay(c, harnessFiles(c), []string{rc.Harness}, []replayCase{rc})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %s %s %s\n", rc.Harness, res[0].Status, res[0].Label, res[0].Detail)
	if res[0].Status == "ok" || res[0].Status == "assume" {
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	return 1
}

func harnessFiles(c runCfg) []string {
	fs, _ := filepath.Glob(filepath.Join(c.verif, "harness", strings.ToLower(c.prop)+"*.go"))
	sort.Strings(fs)
	return append([]string{filepath.Join(c.verif, "harness", "api.go"), filepath.Join(c.verif, "harness", "util.go")}, fs...)
}

type harnessResult struct {
	ex   *Explorer
	wall time.Duration
}

// directives in harness doc comments: //verif:paths N  //verif:time SECONDS //verif:thorough (only in thorough tier)
type directives struct {
	paths    int64
	time     float64
	thorough bool
	bounds   string
	partial  bool
}

var dirRe = regexp.MustCompile(`(?m)^//verif:(\w+)\s*(.*)$`)

func parseDirectives(files []string, name string) directives {
	d := directives{paths: 200000, time: 120}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		i := bytes.Index(b, []byte("\nfunc "+name+"("))
		if i < 0 {
			continue
		}
		// preceding comment block
		lines := strings.Split(string(b[:i]), "\n")
		for k := len(lines) - 1; k >= 0 && strings.HasPrefix(lines[k], "//"); k-- {
			if m := dirRe.FindStringSubmatch(lines[k]); m != nil {
				switch m[1] {
				case "paths":
					d.paths, _ = strconv.ParseInt(strings.TrimSpace(m[2]), 10, 64)
				case "time":
					d.time, _ = strconv.ParseFloat(strings.TrimSpace(m[2]), 64)
				case "thorough":
					d.thorough = true
				case "partial":
					d.partial = true
				case "bounds":
					d.bounds = strings.TrimSpace(m[2]) + " " + d.bounds
				}
			}
		}
	}
	return d
}

func run(c runCfg) int {
	t0 := time.Now()
	files := harnessFiles(c)
	if len(files) < 2 {
		fmt.Fprintln(os.Stderr, "no harness for", c.prop)
		return 2
	}
	overlay := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		overlay[filepath.Join(c.repo, "zz_verif_"+filepath.Base(f))] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: c.repo, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil || len(pkgs) != 1 || len(pkgs[0].Errors) > 0 {
		fmt.Fprintln(os.Stderr, "loading failed:", err)
		if len(pkgs) > 0 {
			for _, e := range pkgs[0].Errors {
				fmt.Fprintln(os.Stderr, e)
			}
		}
		return 2
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ps[0].Build()
	in := &Interp{prog: prog, pkg: ps[0]}
	var fns []*ssa.Function
	for _, m := range ps[0].Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "VH_") {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	pool := &SolverPool{z3: lookPath("z3-new", "z3"), cvc5: lookPath("cvc5")}
	var workers []*Worker
	for i := 0; i < c.workers; i++ {
		workers = append(workers, &Worker{solver: &Solver{pool: pool}})
	}
	defer func() {
		for _, w := range workers {
			w.solver.close()
		}
	}()
	budget := 600.0
	if c.tier == "thorough" {
		budget = 3000
	}
	var results []harnessResult
	var dirs []directives
	for _, fn := range fns {
		if c.only != "" {
			if ok, _ := regexp.MatchString(c.only, fn.Name()); !ok {
				continue
			}
		}
		d := parseDirectives(files, fn.Name())
		if d.thorough && c.tier != "thorough" {
			continue
		}
		left := budget - time.Since(t0).Seconds()
		lim := d.time
		if c.tier == "thorough" {
			lim *= 4
			d.paths *= 10
		}
		if lim > left {
			lim = left
		}
		if lim < 1 {
			lim = 1
		}
		ex := newExplorer(in, fn)
		ex.seed = c.seed
		ex.thorough = c.tier == "thorough"
		ex.deadline = time.Now().Add(time.Duration(lim * float64(time.Second)))
		ex.maxPaths = d.paths
		ex.maxSamples = 6
		h0 := time.Now()
		ex.run(workers)
		results = append(results, harnessResult{ex, time.Since(h0)})
		dirs = append(dirs, d)
		if c.verbose {
			fmt.Printf("%-44s paths=%d done=%d pruned=%d unsupp=%d limit=%d proved=%d triv=%d const=%d inconc=%d viol=%d cut=%v %.1fs\n", fn.Name(), ex.paths.Load(), ex.completed.Load(), ex.pruned.Load(), ex.unsupp.Load(), ex.limited.Load(),
				ex.assertProved.Load(), ex.assertTriv.Load(), ex.assertConst.Load(), len(ex.inconc), len(ex.viol), ex.stopped, time.Since(h0).Seconds())
			for _, k := range sortedKeys(ex.notes) {
				fmt.Println("   note:", k, ex.notes[k])
			}
			for _, k := range sortedKeys(ex.inconc) {
				fmt.Println("   inconclusive:", k, ex.inconc[k])
			}
			for _, v := range ex.viol {
				b, _ := json.Marshal(v.Cands)
				fmt.Println("   candidate:", v.Label, string(b))
			}
		}
	}
	return finish(c, files, fns, results, dirs, in, pool, t0)
}

func lookPath(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
		for _, d := range []string{"/usr/local/bin/", "/usr/bin/", "/opt/veriftools/bin/"} {
			if _, err := os.Stat(d + n); err == nil {
				return d + n
			}
		}
	}
	return names[0]
}

func finish(c runCfg, files []string, fns []*ssa.Function, results []harnessResult, dirs []directives, in *Interp, pool *SolverPool, t0 time.Time) int {
	var cases []replayCase
	type ref struct{ r, v, k int }
	var refs []ref
	for i, r := range results {
		for j, v := range r.ex.viol {
			for k, in := range v.Cands {
				cases = append(cases, replayCase{Harness: v.Harness, Inputs: in})
				refs = append(refs, ref{i, j, k})
			}
		}
	}
	nv := len(cases)
	var sampRef []Sample
	for _, r := range results {
		for _, s := range r.ex.samples {
			cases = append(cases, replayCase{Harness: s.Harness, Inputs: s.Inputs})
			sampRef = append(sampRef, s)
		}
	}
	exit := 0
	violations := 0
	var unreproduced, discrepancies []string
	validated := 0
	traceCmp := 0
	notComparable := 0
	known := loadKnown(c)
	knownHit := map[string]bool{}
	var nat []replayResult
	if len(cases) > 0 {
		var err error
		var names []string
		for _, f := range fns {
			names = append(names, f.Name())
		}
		nat, err = nativeReplay(c, files, names, cases)
		if err != nil {
			fmt.Fprintln(os.Stderr, "native replay failed:", err)
			return 2
		}
	}
	done := map[string]bool{}
	reproduced := map[string]bool{}
	for i := 0; i < nv; i++ {
		rf := refs[i]
		v := results[rf.r].ex.viol[rf.v]
		id := v.Harness + "/" + v.Label
		bad := nat[i].Status == "fail" || nat[i].Status == "panic" || nat[i].Status == "timeout"
		if !bad || done[id] {
			continue
		}
		reproduced[id] = true
		done[id] = true
		if kf, ok := known[c.prop+"/"+v.Harness+"/"+nat[i].Label]; ok {
			if !knownHit[kf] {
				knownHit[kf] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, kf)
			}
			continue
		}
		violations++
		exit = 1
		dir := filepath.Join(c.verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", c.prop, v.Harness, violations))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": c.prop, "harness": v.Harness, "symbolic_label": v.Label, "native_status": nat[i].Status, "native_label": nat[i].Label, "detail": nat[i].Detail, "inputs": cases[i].Inputs, "path": v.Trail,
			"how": "bash /verif/check.sh replay " + c.prop + " <this file>"}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		fmt.Printf("  harness %s: %s (native: %s %s)\n", v.Harness, v.Label, nat[i].Status, nat[i].Label)
	}
	for _, r := range results {
		for _, v := range r.ex.viol {
			id := v.Harness + "/" + v.Label
			if !reproduced[id] && !done["u"+id] {
				done["u"+id] = true
				unreproduced = append(unreproduced, id)
			}
		}
	}
	for i, s := range sampRef {
		nr := nat[nv+i]
		switch nr.Status {
		case "ok":
			validated++
			for _, t := range s.Traces {
				if t.I < len(nr.Traces) && nr.Traces[t.I].Name == t.Name {
					traceCmp++
					d := float64(nr.Traces[t.I].Val) - t.Val
					if d < 0 {
						d = -d
					}
					sc := 1.0
					if t.Val > 1 || t.Val < -1 {
						sc = t.Val
						if sc < 0 {
							sc = -sc
						}
					}
					if d > 1e-5*sc {
						discrepancies = append(discrepancies, fmt.Sprintf("%s %s: engine %g native %g", s.Harness, t.Name, t.Val, float64(nr.Traces[t.I].Val)))
					}
				}
			}
		case "assume":
			notComparable++
		default:
			discrepancies = append(discrepancies, fmt.Sprintf("%s: path model gives native %s %s %s", s.Harness, nr.Status, nr.Label, nr.Detail))
		}
	}
	writeEvidence(c, results, dirs, in, pool, t0, violations, unreproduced, discrepancies, validated, traceCmp, notComparable, sampRef)
	if c.verbose {
		for _, d := range discrepancies {
			fmt.Println("discrepancy:", d)
		}
		fmt.Printf("validated=%d traces=%d notcomparable=%d queries=%d solver=%.1fs wall=%.1fs\n", validated, traceCmp, notComparable, pool.stats.Queries, float64(pool.stats.SolverNS)/1e9, time.Since(t0).Seconds())
		for k := range pool.stats.N {
			for r := range pool.stats.N[k] {
				if pool.stats.N[k][r] > 0 {
					fmt.Printf("  kind %d %v: %d queries %.1fs\n", k, Result(r), pool.stats.N[k][r], float64(pool.stats.NS[k][r])/1e9)
				}
			}
		}
	}
	for _, u := range unreproduced {
		fmt.Println("note: unreproduced candidate (encoding discrepancy, not reported):", u)
	}
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", c.prop, c.tier, time.Since(t0).Seconds())
	}
	return exit
}

func loadKnown(c runCfg) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if x := re.FindStringSubmatch(l); x != nil {
			m[x[1]+"/"+x[2]+"/"+x[3]] = x[4]
		}
	}
	return m
}

func writeEvidence(c runCfg, results []harnessResult, dirs []directives, in *Interp, pool *SolverPool, t0 time.Time, violations int, unrep, disc []string, validated, traceCmp, notComp int, samples []Sample) {
	var paths, decisions, pruned, completed, unsupp, limited, proved, triv, konst, unkBr, steps int64
	covers := map[string]int{}
	var hs []map[string]interface{}
	var reduced []string
	var bounds []string
	for i, r := range results {
		ex := r.ex
		paths += ex.paths.Load()
		decisions += ex.decisions.Load()
		pruned += ex.pruned.Load()
		completed += ex.completed.Load()
		unsupp += ex.unsupp.Load()
		limited += ex.limited.Load()
		proved += ex.assertProved.Load()
		triv += ex.assertTriv.Load()
		konst += ex.assertConst.Load()
		unkBr += ex.unknownBranches.Load()
		steps += ex.steps.Load()
		for k, v := range ex.covers {
			covers[ex.fn.Name()+":"+k] += v
		}
		h := map[string]interface{}{"harness": ex.fn.Name(), "paths": ex.paths.Load(), "completed": ex.completed.Load(), "pruned_by_assumption": ex.pruned.Load(), "assertions_proved_by_solver": ex.assertProved.Load(), "assertions_decided_by_normal_form": ex.assertTriv.Load() + ex.assertConst.Load(), "wall_s": r.wall.Seconds(), "exhausted_within_bounds": !ex.stopped && ex.unsupp.Load() == 0 && ex.limited.Load() == 0 && len(ex.inconc) == 0, "symbolic_inputs": ex.inputsMax}
		if dirs[i].bounds != "" {
			h["bounds"] = dirs[i].bounds
			bounds = append(bounds, ex.fn.Name()+": "+dirs[i].bounds)
		}
		if len(ex.covers) > 0 {
			h["reached"] = ex.covers
		}
		if len(ex.inconc) > 0 {
			h["inconclusive"] = ex.inconc
			reduced = append(reduced, fmt.Sprintf("%s: %d assertion(s) not decided by the solver", ex.fn.Name(), len(ex.inconc)))
		}
		if len(ex.notes) > 0 {
			h["notes"] = ex.notes
		}
		if ex.stopped {
			reduced = append(reduced, ex.fn.Name()+": exploration stopped at its path/time budget")
		}
		if ex.unsupp.Load() > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d path(s) left the encodable subset", ex.fn.Name(), ex.unsupp.Load()))
		}
		if ex.completed.Load() == 0 && len(ex.viol) == 0 {
			reduced = append(reduced, ex.fn.Name()+": no path completed (vacuous)")
		}
		hs = append(hs, h)
	}
	var enc []string
	in.used.Range(func(k, v interface{}) bool {
		f := k.(*ssa.Function)
		n := f.String()
		if strings.Contains(n, ".VH_") || strings.Contains(n, ".v") && strings.HasPrefix(f.Name(), "v") && len(f.Name()) > 1 && f.Name()[1] >= 'A' && f.Name()[1] <= 'Z' {
			return true
		}
		pos := in.prog.Fset.Position(f.Pos())
		if strings.Contains(pos.Filename, "zz_verif_") {
			return true
		}
		enc = append(enc, strings.ReplaceAll(n, cpPath+".", ""))
		return true
	})
	sort.Strings(enc)
	var smp []interface{}
	for i, s := range samples {
		if i >= 4 {
			break
		}
		smp = append(smp, map[string]interface{}{"harness": s.Harness, "inputs": s.Inputs, "path": s.Trail})
	}
	if smp == nil {
		smp = []interface{}{}
	}
	st := &pool.stats
	cov := map[string]interface{}{
		"states": paths, "transitions": decisions, "traces_validated_against_impl": validated, "samples": smp,
		"meaning":                           "states = symbolic paths explored (each stands for every input satisfying its path condition); transitions = branch decisions put to the solver; traces_validated_against_impl = models of explored paths re-run natively against /repo with no assertion failing",
		"engine_values_compared_natively":   traceCmp,
		"native_runs_not_comparable":        notComp,
		"assertions_proved_by_solver":       proved,
		"assertions_decided_by_normal_form": triv + konst,
		"queries_discharged":                st.Queries, "queries_sat": st.Sat, "queries_unsat": st.Unsat, "queries_unknown": st.Unknown, "query_cache_hits": st.CacheHits, "solver_errors": st.Errors,
		"solver_time_s":                     float64(atomic.LoadInt64(&st.SolverNS)) / 1e9,
		"solvers":                           "z3-new (z3 5.x; nlsat fallback), cvc5 fallback",
		"paths_completed":                   completed,
		"paths_pruned":                      pruned,
		"branches_with_unknown_feasibility": unkBr,
		"ssa_instructions_executed":         steps,
		"functions_encoded":                 enc,
		"functions_encoded_count":           len(enc),
		"harnesses":                         hs,
		"bounds":                            bounds,
		"reduced_bounds":                    reduced,
		"covers":                            covers,
		"unreproduced_candidates":           unrep,
		"encoding_discrepancies":            disc,
		"exhaustive":                        len(reduced) == 0,
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"floats are exact reals (double-rounded coefficients) except in bit-precise FP harnesses; NaN and infinities arise only where the code divides by zero or uses them explicitly",
			"assertions carry absolute tolerances stated in the harness; rounding error beyond the tolerance is outside the claim",
			"x+c with |c|<1e-12 equals x unless x is zero; |x| < 1e15 for symbolic x",
			"map iteration order is insertion order; pointer hashes are one fixed assignment; sync.Pool is LIFO",
			"the default (release) build of the package; fmt/log output is not modelled",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}
