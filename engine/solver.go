package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Stats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, Second, Third, Errors int64
	SolverNS                                                       int64
	NS, N                                                          [3][3]int64 // by kind and result
}

type memoEnt struct {
	res    Result
	model  map[string]string
	effort int
}

type SolverPool struct {
	memo  sync.Map
	stats Stats
	z3    string
	cvc5  string
}

// Solver is one worker's pair of solver processes.
type Solver struct {
	pool *SolverPool
	z    *proc
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan string
}

func startProc(path string, args ...string) (*proc, error) {
	cmd := exec.Command(path, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, out: make(chan string, 1024)}
	go func() {
		sc := bufio.NewReaderSize(o, 1<<20)
		for {
			l, err := sc.ReadString('\n')
			if l != "" {
				p.out <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(p.out)
				return
			}
		}
	}()
	return p, nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	go p.cmd.Wait()
	go func() {
		for range p.out {
		}
	}()
}

// ask sends text followed by an echo marker and returns the lines up to the marker.
func (p *proc) ask(text string, limit time.Duration) ([]string, bool) {
	if _, err := io.WriteString(p.in, text+"\n(echo \"=done=\")\n"); err != nil {
		return nil, false
	}
	var lines []string
	t := time.NewTimer(limit)
	defer t.Stop()
	for {
		select {
		case l, ok := <-p.out:
			if !ok {
				return lines, false
			}
			if l == "=done=" || l == "\"=done=\"" {
				return lines, true
			}
			lines = append(lines, l)
		case <-t.C:
			return lines, false
		}
	}
}

func (s *Solver) close() {
	if s.z != nil {
		s.z.kill()
		s.z = nil
	}
}

var traceQ = os.Getenv("VERIF_TRACEQ") != ""

// runZ3 runs one self-contained script.
func (s *Solver) runZ3(body, check string, vars []string, ms int) (Result, map[string]string) {
	if s.z == nil {
		p, err := startProc(s.pool.z3, "-in")
		if err != nil {
			panic(err)
		}
		s.z = p
	}
	var b strings.Builder
	b.WriteString("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", ms)
	b.WriteString(body)
	b.WriteString(check)
	t0 := time.Now()
	lines, ok := s.z.ask(b.String(), time.Duration(ms)*time.Millisecond*2+3*time.Second)
	atomic.AddInt64(&s.pool.stats.SolverNS, int64(time.Since(t0)))
	if !ok {
		s.close()
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case l == "unknown" || l == "timeout":
		case strings.HasPrefix(l, "(error"):
			if !strings.Contains(l, "canceled") && !strings.Contains(l, "timeout") {
				atomic.AddInt64(&s.pool.stats.Errors, 1)
				if traceQ || os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "solver error:", l, "\n", b.String())
				}
			}
			return Unknown, nil
		}
	}
	if res == Sat && len(vars) > 0 {
		m := map[string]string{}
		lines, ok := s.z.ask("(get-value ("+strings.Join(vars, " ")+"))", 10*time.Second)
		if !ok {
			s.close()
			return Sat, nil
		}
		parseValues(strings.Join(lines, "\n"), m)
		return Sat, m
	}
	return res, nil
}

func (s *Solver) runCVC5(body string, ms int) Result {
	t0 := time.Now()
	cmd := exec.Command(s.pool.cvc5, "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + body + "(check-sat)\n")
	out, _ := cmd.Output()
	atomic.AddInt64(&s.pool.stats.SolverNS, int64(time.Since(t0)))
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "(error") {
			return Unknown
		}
		if l == "sat" {
			return Sat
		}
		if l == "unsat" {
			return Unsat
		}
	}
	return Unknown
}

// Query decides a self-contained script (declarations and assertions). vars: names whose model values are wanted.
// kind: 0 = plain (linear/BV), 1 = nonlinear reals, 2 = FP.
func (s *Solver) Query(body string, vars []string, kind int, wantModel bool, effort int) (Result, map[string]string) {
	st := &s.pool.stats
	if v, ok := s.pool.memo.Load(body); ok {
		e := v.(*memoEnt)
		if e.res != Unknown && (e.res == Unsat || !wantModel || e.model != nil) {
			atomic.AddInt64(&st.CacheHits, 1)
			return e.res, e.model
		}
		if e.res == Unknown && e.effort >= effort {
			atomic.AddInt64(&st.CacheHits, 1)
			return Unknown, nil
		}
	}
	atomic.AddInt64(&st.Queries, 1)
	if !wantModel {
		vars = nil
	}
	t0 := time.Now()
	var res Result
	var m map[string]string
	switch kind {
	case 0:
		res, m = s.runZ3(body, "(check-sat)\n", vars, 4000*effort)
	case 2:
		res, m = s.runZ3(body, "(check-sat)\n", vars, 20000*effort)
		if res == Unknown {
			atomic.AddInt64(&st.Second, 1)
			res, m = s.runZ3(body, "(check-sat-using (then simplify fpa2bv simplify bit-blast sat))\n", vars, 40000*effort)
		}
	default:
		res, m = s.runZ3(body, "(check-sat)\n", vars, 1200*effort)
		if res == Unknown {
			atomic.AddInt64(&st.Second, 1)
			ms := 2500 * effort
			res, m = s.runZ3(body, fmt.Sprintf("(check-sat-using (try-for (then simplify propagate-values solve-eqs purify-arith elim-term-ite qfnra-nlsat) %d))\n", ms), vars, ms)
			if res == Unknown && effort > 1 {
				atomic.AddInt64(&st.Third, 1)
				r := s.runCVC5(body, 3000*effort)
				if r == Unsat {
					res = r
				} else if r == Sat && !wantModel {
					res = Sat
				}
			}
		}
	}
	d := int64(time.Since(t0))
	atomic.AddInt64(&st.NS[kind][res], d)
	atomic.AddInt64(&st.N[kind][res], 1)
	switch res {
	case Sat:
		atomic.AddInt64(&st.Sat, 1)
	case Unsat:
		atomic.AddInt64(&st.Unsat, 1)
	default:
		atomic.AddInt64(&st.Unknown, 1)
	}
	if traceQ {
		fmt.Fprintf(os.Stderr, ";; query -> %v in %v\n%s\n", res, time.Since(t0), body)
	}
	s.pool.memo.Store(body, &memoEnt{res, m, effort})
	return res, m
}

// parseValues parses a get-value answer into name -> raw s-expression.
func parseValues(s string, m map[string]string) {
	toks := tokenize(s)
	pos := 0
	var parse func() sx
	parse = func() sx {
		if pos >= len(toks) {
			return sx{}
		}
		t := toks[pos]
		pos++
		if t != "(" {
			return sx{atom: t}
		}
		var l []sx
		for pos < len(toks) && toks[pos] != ")" {
			l = append(l, parse())
		}
		pos++
		return sx{list: l, isList: true}
	}
	top := parse()
	for _, e := range top.list {
		if len(e.list) == 2 {
			m[e.list[0].String()] = e.list[1].String()
		}
	}
}

type sx struct {
	atom   string
	list   []sx
	isList bool
}

func (x sx) String() string {
	if !x.isList {
		return x.atom
	}
	var p []string
	for _, e := range x.list {
		p = append(p, e.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseSx(s string) sx {
	toks := tokenize(s)
	pos := 0
	var parse func() sx
	parse = func() sx {
		if pos >= len(toks) {
			return sx{}
		}
		t := toks[pos]
		pos++
		if t != "(" {
			return sx{atom: t}
		}
		var l []sx
		for pos < len(toks) && toks[pos] != ")" {
			l = append(l, parse())
		}
		pos++
		return sx{list: l, isList: true}
	}
	return parse()
}

// realValue converts a solver real (decimal, fraction, negation) to float64.
func realValue(s string) (float64, bool) {
	r, ok := ratOf(parseSx(s))
	if !ok {
		return 0, false
	}
	f, _ := r.Float64()
	return f, true
}

func ratOf(x sx) (*big.Rat, bool) {
	if !x.isList {
		a := strings.TrimSuffix(x.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		return r, ok
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r, ok := ratOf(x.list[1])
		if !ok {
			return nil, false
		}
		return r.Neg(r), true
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, ok1 := ratOf(x.list[1])
		b, ok2 := ratOf(x.list[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return a.Quo(a, b), true
	}
	return nil, false
}

func bvValue(s string) (uint64, bool) {
	if strings.HasPrefix(s, "#x") {
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	}
	if strings.HasPrefix(s, "#b") {
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

func fpValue(s string) (float64, bool) {
	x := parseSx(s)
	if x.isList && len(x.list) == 4 && x.list[0].atom == "_" {
		switch x.list[1].atom {
		case "+zero":
			return 0, true
		case "-zero":
			return math.Copysign(0, -1), true
		case "+oo":
			return math.Inf(1), true
		case "-oo":
			return math.Inf(-1), true
		case "NaN":
			return math.NaN(), true
		}
	}
	if x.isList && len(x.list) == 4 && x.list[0].atom == "fp" {
		a, ok1 := bvValue(x.list[1].atom)
		b, ok2 := bvValue(x.list[2].atom)
		c, ok3 := bvValue(x.list[3].atom)
		if ok1 && ok2 && ok3 {
			return math.Float64frombits(a<<63 | b<<52 | c), true
		}
	}
	return 0, false
}
