package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
)

// control-flow signals raised as Go panics by the engine
type unsupported string
type pathPruned struct{}   // assumption unsatisfiable
type pathViolated struct{} // violation recorded, path ends
type pathLimit string      // step bound exceeded

type Atom struct {
	id    int
	name  string
	kind  string
	iv    ivl
	defs  []*Term
	sq    *Poly // reduction: atom^2 -> sq
	arg   *Poly // sqrt/trig argument
	input *Input
	trigC int // for angle atoms: cos/sin atom ids (0 = none; ids start at 1)
	trigS int
	ev    func(pt *point) (float64, bool)
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // float,int,uint,u32,bool,choice
	Lo   float64
	Hi   float64
	atom int
	term *Term
	val  interface{} // concrete choice
	ang  bool
}

type pcEnt struct {
	t     *Term
	atoms map[int]bool
	vars  map[string]bool
	// closed under the definitions of the atoms and variables
	clA map[int]bool
	clV map[string]bool
}

// close adds everything the definitions of the given atoms and variables mention.
func (p *Path) closeDefs(e *pcEnt) {
	if e.clA != nil {
		return
	}
	e.clA, e.clV = map[int]bool{}, map[string]bool{}
	for id := range e.atoms {
		e.clA[id] = true
	}
	for v := range e.vars {
		e.clV[v] = true
	}
	doneA, doneV := map[int]bool{}, map[string]bool{}
	for changed := true; changed; {
		changed = false
		for id := range e.clA {
			if !doneA[id] {
				doneA[id] = true
				changed = true
				for _, d := range p.atom(id).defs {
					d.collect(e.clA, e.clV)
				}
			}
		}
		for v := range e.clV {
			if !doneV[v] {
				doneV[v] = true
				changed = true
				for _, d := range p.varDefs[v] {
					d.collect(e.clA, e.clV)
				}
			}
		}
	}
}

type Path struct {
	ex     *Explorer
	w      *Worker
	prefix []int64
	trail  []int64
	pos    int

	atoms   []*Atom
	memo    map[string]int // structural key -> atom id
	pc      []pcEnt
	pcset   map[string]bool
	nonneg  map[string]bool // normalised polynomials known to be sums of squares
	facts   map[string]ivl
	vars    []*Term
	varDefs map[string][]*Term
	inputs  []*Input
	names   map[string]int

	fpMode     bool
	iteMode    bool
	steps      int64
	maxSteps   int64
	noted      map[string]bool
	traceVals  []traceEnt
	covers     []string
	asserts    int
	symAsserts int
	maybe      bool // some decision was taken on an unknown feasibility answer

	globals map[interface{}]*value
	addrs   map[*value]uint64
	nextAdr uint64
	pools   map[*value][]value
	depth   int
	pts     []*point
	rng     *rand.Rand
	in      *Interp
	trigOf  map[int][2]value
}

func (p *Path) atomName(id int) string { return p.atoms[id-1].name }
func (p *Path) atom(id int) *Atom      { return p.atoms[id-1] }

func (p *Path) newAtom(kind, name string, iv ivl) *Atom {
	a := &Atom{id: len(p.atoms) + 1, kind: kind, iv: iv}
	if name == "" {
		name = fmt.Sprintf("%s_%d", kind, a.id)
	}
	a.name = name
	p.atoms = append(p.atoms, a)
	return a
}

func (p *Path) uniq(name string) string {
	p.names[name]++
	if n := p.names[name]; n > 1 {
		return fmt.Sprintf("%s.%d", name, n)
	}
	return name
}

// ---- intervals ----

func (p *Path) monoIv(m mono) ivl {
	r := ivl{m.c, m.c}
	for i := 0; i < len(m.key); i += 4 {
		id, e := keyAtom(m.key, i)
		r = ivMul(r, ivPow(p.atom(id).iv, e))
	}
	return r
}

func (p *Path) polyIv(q *Poly) ivl {
	if len(q.t) == 0 {
		return ivl{0, 0}
	}
	r := ivl{0, 0}
	for i := 0; i < len(q.t); i++ {
		m := q.t[i]
		// a x + b x^2 (keys of the same atom with exponents 1 and 2 are adjacent only when no product sorts between)
		if len(m.key) == 4 && m.key[3] == 1 {
			k2 := m.key[:3] + "\x02"
			j := sort.Search(len(q.t), func(k int) bool { return q.t[k].key >= k2 })
			if j < len(q.t) && q.t[j].key == k2 {
				id, _ := keyAtom(m.key, 0)
				r = ivAdd(r, quadIv(q.t[j].c, m.c, p.atom(id).iv))
				continue
			}
		}
		if len(m.key) == 4 && m.key[3] == 2 {
			k1 := m.key[:3] + "\x01"
			j := sort.Search(len(q.t), func(k int) bool { return q.t[k].key >= k1 })
			if j < len(q.t) && q.t[j].key == k1 {
				continue
			}
		}
		r = ivAdd(r, p.monoIv(m))
	}
	if len(p.facts) > 0 {
		if k, c, s, ok := splitConst(q); ok {
			if f, ok := p.facts[k]; ok {
				f = ivAdd(ivMul(f, ivl{s, s}), ivl{c, c})
				// facts are exact relations between the program's own values: allow for rounding
				eps := 1e-12 * (math.Abs(c) + math.Abs(s))
				f.lo -= eps
				f.hi += eps
				if f.lo > r.lo {
					r.lo = f.lo
				}
				if f.hi < r.hi {
					r.hi = f.hi
				}
			}
		}
	}
	return r
}

// quadIv bounds a x^2 + b x over an interval.
func quadIv(a, b float64, x ivl) ivl {
	v := -b / (2 * a)
	f := func(t float64) ivl {
		if math.IsInf(t, 0) {
			if a > 0 {
				return ivl{math.Inf(1), math.Inf(1)}
			}
			return ivl{math.Inf(-1), math.Inf(-1)}
		}
		y := a*t*t + b*t
		e := 4e-16 * (math.Abs(a*t*t) + math.Abs(b*t))
		return ivl{down(y - e), up(y + e)}
	}
	l, h := f(x.lo), f(x.hi)
	r := ivl{math.Min(l.lo, h.lo), math.Max(l.hi, h.hi)}
	if v >= x.lo-1e-9*math.Abs(v) && v <= x.hi+1e-9*math.Abs(v) {
		w := f(v)
		r.lo, r.hi = math.Min(r.lo, w.lo), math.Max(r.hi, w.hi)
	}
	return r
}

// splitConst writes q = s*base + c with base's leading coefficient 1; returns base's key.
func splitConst(q *Poly) (key string, c, s float64, ok bool) {
	b := q
	if len(q.t) > 0 && q.t[0].key == "" {
		c = q.t[0].c
		b = &Poly{t: q.t[1:]}
	}
	if len(b.t) == 0 {
		return "", 0, 0, false
	}
	s = b.lead()
	if s != 1 {
		b = b.divc(s)
	}
	return b.key(), c, s, true
}

func (p *Path) addFact(t *Term) {
	if t.op != "le" && t.op != "lt" && t.op != "eq" {
		return
	}
	k, c, s, ok := splitConst(t.p)
	if !ok {
		return
	}
	// s*base + c <= 0
	f, had := p.facts[k]
	if !had {
		f = ivAll
	}
	b := -c / s
	if t.op == "eq" {
		f = ivl{math.Max(f.lo, b), math.Min(f.hi, b)}
	} else if s > 0 {
		f.hi = math.Min(f.hi, b)
	} else {
		f.lo = math.Max(f.lo, b)
	}
	p.facts[k] = f
	// single linear atom: refine its interval
	n := len(t.p.t)
	if (n == 1 && c == 0) || (n == 2 && t.p.t[0].key == "") {
		m := t.p.t[n-1]
		if len(m.key) == 4 && m.key[3] == 1 {
			id, _ := keyAtom(m.key, 0)
			a := p.atom(id)
			if f.lo > a.iv.lo {
				a.iv.lo = f.lo
			}
			if f.hi < a.iv.hi {
				a.iv.hi = f.hi
			}
		}
	}
}

// eval3 tries to decide a term without the solver: 1 true, 0 false, -1 unknown.
func (p *Path) eval3(t *Term) int {
	switch t.op {
	case "true":
		return 1
	case "false":
		return 0
	}
	if p.pcset[t.key()] {
		return 1
	}
	if p.pcset[mkNot(t).key()] {
		return 0
	}
	switch t.op {
	case "le":
		iv := p.polyIv(t.p)
		if iv.hi < 0 || (iv.hi <= 0) {
			return 1
		}
		if iv.lo > 0 {
			return 0
		}
		if p.pcset[(&Term{op: "lt", p: t.p}).key()] || p.pcset[mkRealCmp("eq", t.p).key()] {
			return 1
		}
		if len(p.nonneg) > 0 && len(t.p.t) <= 300 && p.nonneg[normPoly(t.p.neg()).key()] {
			return 1
		}
	case "lt":
		iv := p.polyIv(t.p)
		if iv.hi < 0 {
			return 1
		}
		if iv.lo >= 0 {
			return 0
		}
		if p.pcset[mkRealCmp("eq", t.p).key()] {
			return 0
		}
		if len(p.nonneg) > 0 && len(t.p.t) <= 300 && p.nonneg[normPoly(t.p).key()] {
			return 0
		}
		if p.pcset[mkRealCmp("ne", t.p).key()] && p.pcset[(&Term{op: "le", p: t.p}).key()] {
			return 1
		}
	case "eq", "ne":
		iv := p.polyIv(t.p)
		r := -1
		if iv.lo > 0 || iv.hi < 0 {
			r = 0
		} else {
			for _, pp := range []*Poly{t.p, t.p.neg()} {
				if x := mkRealCmp("lt", pp); p.pcset[x.key()] {
					r = 0
				}
			}
		}
		if r >= 0 && t.op == "ne" {
			r = 1 - r
		}
		return r
	case "not":
		r := p.eval3(t.args[0])
		if r >= 0 {
			r = 1 - r
		}
		return r
	case "and":
		all := 1
		for _, a := range t.args {
			switch p.eval3(a) {
			case 0:
				return 0
			case -1:
				all = -1
			}
		}
		return all
	case "or":
		any := 0
		for _, a := range t.args {
			switch p.eval3(a) {
			case 1:
				return 1
			case -1:
				any = -1
			}
		}
		return any
	}
	return -1
}

// ---- path condition ----

func (p *Path) add(t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			p.add(a)
		}
		return
	}
	if t.op == "true" || p.pcset[t.key()] {
		return
	}
	p.pcset[t.key()] = true
	e := pcEnt{t: t, atoms: map[int]bool{}, vars: map[string]bool{}}
	t.collect(e.atoms, e.vars)
	p.pc = append(p.pc, e)
	p.addFact(t)
	p.ptFilter(t)
}

type cone struct {
	body  string
	names []string
	kind  int
	atoms map[int]bool
	vars  map[string]bool
	npc   int // path-condition entries included
}

// build makes the self-contained script for pc-slice ∧ extra: the path-condition entries that share an atom with it.
func (p *Path) build(extra ...*Term) cone { return p.buildCone(false, extra...) }

// buildFull also includes the entries whose atoms' definitions share an input with it; what build leaves out is
// only ever a weakening, so Unsat of the small cone stands, while Sat is confirmed with the full one.
func (p *Path) buildFull(extra ...*Term) cone { return p.buildCone(true, extra...) }

func (p *Path) buildCone(full bool, extra ...*Term) cone {
	atoms := map[int]bool{}
	vars := map[string]bool{}
	for _, t := range extra {
		t.collect(atoms, vars)
	}
	doneA := map[int]bool{}
	doneV := map[string]bool{}
	usedPC := make([]bool, len(p.pc))
	var defs []*Term
	defOf := map[int][]*Term{}
	defV := map[string][]*Term{}
	for changed := true; changed; {
		changed = false
		for id := range atoms {
			if doneA[id] {
				continue
			}
			doneA[id] = true
			changed = true
			a := p.atom(id)
			defOf[id] = a.defs
			for _, d := range a.defs {
				d.collect(atoms, vars)
			}
		}
		for v := range vars {
			if doneV[v] {
				continue
			}
			doneV[v] = true
			changed = true
			defV[v] = p.varDefs[v]
			for _, d := range p.varDefs[v] {
				d.collect(atoms, vars)
			}
		}
		for i := range p.pc {
			if usedPC[i] {
				continue
			}
			hit := false
			pa, pv := p.pc[i].atoms, p.pc[i].vars
			if full {
				p.closeDefs(&p.pc[i])
				pa, pv = p.pc[i].clA, p.pc[i].clV
			}
			for id := range pa {
				if atoms[id] {
					hit = true
					break
				}
			}
			if !hit {
				for v := range pv {
					if vars[v] {
						hit = true
						break
					}
				}
			}
			if hit {
				usedPC[i] = true
				changed = true
				for id := range p.pc[i].atoms {
					atoms[id] = true
				}
				for v := range p.pc[i].vars {
					vars[v] = true
				}
			}
		}
	}
	var ids []int
	for id := range atoms {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		defs = append(defs, defOf[id]...)
	}
	c := cone{atoms: atoms, vars: vars}
	var b strings.Builder
	for _, id := range ids {
		n := p.atomName(id)
		c.names = append(c.names, n)
		b.WriteString("(declare-const " + n + " Real)\n")
	}
	for _, v := range p.vars {
		if vars[v.name] {
			c.names = append(c.names, v.name)
			switch v.sort {
			case SBool:
				b.WriteString("(declare-const " + v.name + " Bool)\n")
			case SBV:
				fmt.Fprintf(&b, "(declare-const %s (_ BitVec %d))\n", v.name, v.w)
			case SFP:
				b.WriteString("(declare-const " + v.name + " (_ FloatingPoint 11 53))\n")
				c.kind = 2
			}
			defs = append(defs, defV[v.name]...)
		}
	}
	nl := false
	put := func(t *Term) {
		if !nl && nonlinear(t) {
			nl = true
		}
		b.WriteString("(assert " + t.smt(p.atomName) + ")\n")
	}
	for _, d := range defs {
		put(d)
	}
	for i, u := range usedPC {
		if u {
			c.npc++
			put(p.pc[i].t)
		}
	}
	for _, t := range extra {
		put(t)
	}
	if nl && c.kind == 0 {
		c.kind = 1
	}
	c.body = b.String()
	return c
}

func nonlinear(t *Term) bool {
	if t.p != nil {
		return t.p.degree() > 1
	}
	for _, a := range t.args {
		if nonlinear(a) {
			return true
		}
	}
	return false
}

func (p *Path) query(extra ...*Term) Result {
	for _, t := range extra {
		if t.op == "false" {
			return Unsat
		}
	}
	if p.ex.expired() {
		panic(pathLimit("time"))
	}
	return p.queryEff(1, extra...)
}

func (p *Path) queryEff(eff int, extra ...*Term) Result {
	c := p.build(extra...)
	r, _ := p.w.solver.Query(c.body, c.names, c.kind, false, eff)
	if r != Unsat {
		if d := p.buildFull(extra...); d.npc > c.npc {
			r, _ = p.w.solver.Query(d.body, d.names, d.kind, false, eff)
		}
	}
	return r
}

// branch decides a symbolic condition, forking the exploration when both sides are feasible.
func (p *Path) branch(t *Term) bool {
	switch p.eval3(t) {
	case 1:
		return true
	case 0:
		return false
	}
	take := func(b bool) bool {
		if b {
			p.add(t)
		} else {
			p.add(mkNot(t))
		}
		return b
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		return take(d == 1)
	}
	nt := mkNot(t)
	rt, seedT := p.feasible(t)
	if rt == Unsat {
		p.rec(0)
		return take(false)
	}
	rf, seedF := p.feasible(nt)
	if rf == Unsat {
		p.rec(1)
		take(true)
		if seedT != nil {
			p.ptAdd(seedT)
		}
		return true
	}
	if rt == Unknown || rf == Unknown {
		p.maybe = true
		p.ex.unknownBranches.Add(1)
	}
	if seedF == nil {
		if w := p.ptWitness(nt); w != nil {
			seedF = p.ptInputs(w)
		}
	}
	p.forkSeed(0, seedF)
	p.rec(1)
	take(true)
	if seedT != nil {
		p.ptAdd(seedT)
	}
	return true
}

var fullBranch = os.Getenv("VERIF_FULLBRANCH") != ""

// feasible decides pc ∧ t: a witness point, or else the solver (whose model becomes a new point).
func (p *Path) feasible(t *Term) (Result, map[string]interface{}) {
	if p.ptWitness(t) != nil {
		p.ex.witnessHits.Add(1)
		return Sat, nil
	}
	if p.ex.expired() {
		panic(pathLimit("time"))
	}
	c := p.build(t)
	r, m := p.w.solver.Query(c.body, c.names, c.kind, c.kind != 2, 1)
	if r == Sat {
		if d := p.buildFull(t); d.npc > c.npc && (d.kind == 0 || fullBranch) {
			c = d
			r, m = p.w.solver.Query(c.body, c.names, c.kind, c.kind != 2, 1)
		}
	}
	if r != Sat || m == nil || c.kind == 2 {
		return r, nil
	}
	// complete the model from an existing point for inputs outside the slice
	seed := map[string]interface{}{}
	if len(p.pts) > 0 {
		seed = p.ptInputs(p.pts[0])
	}
	iv := p.inputValues(m)
	for _, in := range p.inputs {
		inCone := in.atom != 0 && c.atoms[in.atom] || in.term != nil && c.vars[in.term.name]
		if inCone || seed[in.Name] == nil {
			seed[in.Name] = iv[in.Name]
		}
	}
	return Sat, seed
}

func (p *Path) rec(d int64) {
	p.trail = append(p.trail, d)
	p.pos = len(p.trail)
	p.prefix = p.trail
	p.ex.decisions.Add(1)
}

func (p *Path) fork(d int64) { p.forkSeed(d, nil) }

func (p *Path) forkSeed(d int64, seed map[string]interface{}) {
	np := make([]int64, len(p.trail)+1)
	copy(np, p.trail)
	np[len(p.trail)] = d
	p.ex.push(work{np, seed})
}

// choose forks over n concrete alternatives (no solver involved).
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(int64(i))
	}
	p.rec(0)
	return 0
}

// data records a solver-provided value so that re-execution sees the same one.
func (p *Path) data(f func() int64) int64 {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		return d
	}
	v := f()
	p.rec(v)
	return v
}

// inPrefix reports whether this point was already examined by the path that forked this one.
func (p *Path) inPrefix() bool { return p.pos < len(p.prefix) }

func (p *Path) assume(t *Term) {
	switch p.eval3(t) {
	case 1:
		return
	case 0:
		panic(pathPruned{})
	}
	var seed map[string]interface{}
	if !p.inPrefix() {
		var r Result
		r, seed = p.feasible(t)
		if r == Unsat {
			panic(pathPruned{})
		}
	}
	p.add(t)
	if seed != nil {
		p.ptAdd(seed)
	}
}

// model finds values for every input under pc ∧ extra, component by component.
func (p *Path) model(eff int, extra ...*Term) (map[string]string, Result) {
	m := map[string]string{}
	c := p.buildFull(extra...)
	r, mm := p.w.solver.Query(c.body, c.names, c.kind, true, eff)
	if r != Sat {
		return nil, r
	}
	for k, v := range mm {
		m[k] = v
	}
	seenA, seenV := c.atoms, c.vars
	for i := range p.pc {
		e := &p.pc[i]
		done := true
		for id := range e.atoms {
			if !seenA[id] {
				done = false
			}
		}
		for v := range e.vars {
			if !seenV[v] {
				done = false
			}
		}
		if done {
			continue
		}
		c := p.buildFull(e.t)
		r, mm := p.w.solver.Query(c.body, c.names, c.kind, true, eff)
		if r != Sat {
			return nil, r
		}
		for k, v := range mm {
			m[k] = v
		}
		for id := range c.atoms {
			seenA[id] = true
		}
		for v := range c.vars {
			seenV[v] = true
		}
	}
	return m, Sat
}

// inputValues turns a model into concrete input values for the native run.
func (p *Path) inputValues(m map[string]string) map[string]interface{} {
	out := map[string]interface{}{}
	for _, in := range p.inputs {
		switch in.Kind {
		case "choice":
			out[in.Name] = in.val
		case "float":
			if in.atom != 0 {
				a := p.atom(in.atom)
				if in.ang && a.trigC != 0 {
					c, ok1 := m[p.atomName(a.trigC)]
					s, ok2 := m[p.atomName(a.trigS)]
					if ok1 || ok2 {
						cv, _ := realValue(c)
						sv, _ := realValue(s)
						out[in.Name] = math.Atan2(sv, cv)
						continue
					}
				}
				if s, ok := m[a.name]; ok {
					if f, ok := realValue(s); ok {
						out[in.Name] = math.Max(in.Lo, math.Min(in.Hi, f))
						continue
					}
				}
				lo, hi := math.Max(in.Lo, -1e6), math.Min(in.Hi, 1e6)
				out[in.Name] = math.Round((lo+(hi-lo)*(0.1+0.8*p.rng.Float64()))*1e6) / 1e6
				if v := out[in.Name].(float64); v < in.Lo || v > in.Hi {
					out[in.Name] = in.Lo
				}
			} else if in.term != nil {
				f := 1.0
				if s, ok := m[in.term.name]; ok {
					f, _ = fpValue(s)
				}
				switch {
				case f != f:
					out[in.Name] = "NaN"
				case math.IsInf(f, 1):
					out[in.Name] = "+Inf"
				case math.IsInf(f, -1):
					out[in.Name] = "-Inf"
				case f == 0 && math.Signbit(f):
					out[in.Name] = "-0"
				default:
					out[in.Name] = f
				}
			}
		case "bool":
			v := false
			if s, ok := m[in.term.name]; ok {
				v = s == "true"
			}
			out[in.Name] = v
		default: // bit-vectors
			var v uint64
			if s, ok := m[in.term.name]; ok {
				v, _ = bvValue(s)
			} else if in.Lo > 0 {
				v = uint64(in.Lo)
			}
			if in.Kind == "int" {
				out[in.Name] = fmt.Sprint(int64(v))
			} else {
				out[in.Name] = fmt.Sprint(v)
			}
		}
	}
	return out
}

// check is an assertion: the solver must refute its negation under the path condition.
func (p *Path) check(t *Term, label string, strong ...*Term) {
	p.asserts++
	if t.op == "true" {
		if !p.inPrefix() {
			p.ex.assertConst.Add(1)
		}
		return
	}
	if p.inPrefix() {
		return
	}
	p.symAsserts++
	if t.op != "false" && p.pcset[t.key()] {
		p.ex.assertTriv.Add(1)
		return
	}
	neg := mkNot(t)
	if t.op != "false" {
		r := p.query(neg)
		if r == Unknown {
			r = p.queryEff(4, neg)
		}
		if r == Unsat {
			p.ex.assertProved.Add(1)
			return
		}
		if r == Unknown {
			p.ex.inconclusive(label, "solver answered unknown")
			return
		}
	}
	p.violate(label, neg, strong...)
}

// violate records candidate models for pc ∧ neg and ends the path.
func (p *Path) violate(label string, neg *Term, strong ...*Term) {
	if p.ex.enough(label) {
		panic(pathViolated{})
	}
	var cands []map[string]interface{}
	last := Unknown
	try := func(extra ...*Term) {
		if len(cands) >= 3 {
			return
		}
		m, r := p.model(2, extra...)
		if r == Sat {
			cands = append(cands, p.inputValues(m))
		}
		last = r
	}
	if w := p.ptWitness(neg); w != nil && !p.hasBV() {
		in := p.inputValues(nil)
		for k, v := range p.ptInputs(w) {
			in[k] = v
		}
		if p.query(neg) == Sat || neg.op == "true" {
			cands = append(cands, in)
		}
	}
	// prefer counterexamples away from the decision boundary
	var interior []*Term
	for _, in := range p.inputs {
		if in.atom != 0 && !in.ang && in.Hi > in.Lo && !math.IsInf(in.Hi-in.Lo, 0) {
			w := in.Hi - in.Lo
			lo := in.Lo + w*(0.02+0.2*p.rng.Float64())
			hi := in.Hi - w*(0.02+0.2*p.rng.Float64())
			x := polyAtom(in.atom)
			interior = append(interior, mkRealCmp("le", polyAdd(x.neg(), polyConst(lo))), mkRealCmp("le", polyAdd(x, polyConst(-hi))))
		}
	}
	negs := append([]*Term{}, strong...)
	if neg.op == "lt" || neg.op == "le" {
		for _, m := range []float64{1e-1, 1e-3} {
			negs = append(negs, mkRealCmp("le", polyAdd(neg.p, polyConst(m))))
		}
	}
	negs = append(negs, neg)
	for _, n := range negs {
		try(append([]*Term{n}, interior...)...)
		if len(cands) > 0 {
			break
		}
	}
	for _, n := range negs {
		k := len(cands)
		try(n)
		if len(cands) > k {
			break
		}
	}
	try(neg)
	if len(cands) == 0 && last == Unsat {
		// the whole path condition refutes it, although the part around the assertion did not
		p.ex.assertProved.Add(1)
		if neg.op == "true" {
			panic(pathPruned{})
		}
		return
	}
	if len(cands) == 0 {
		if os.Getenv("VERIF_DEBUG") != "" {
			c := p.buildFull(neg)
			fmt.Fprintln(os.Stderr, "NO MODEL for", label, "maybe=", p.maybe, "\n"+c.body)
			for i := range p.pc {
				fmt.Fprintln(os.Stderr, "pc:", p.pc[i].t.smt(p.atomName))
			}
			for _, t := range p.traceVals {
				fmt.Fprintln(os.Stderr, "trace:", t.name, t.v)
			}
		}
		p.ex.inconclusive(label, "no model for the violated assertion")
		panic(pathViolated{})
	}
	p.ex.addViolation(label, cands, p.trailString())
	panic(pathViolated{})
}

func (p *Path) trailString() string {
	var b strings.Builder
	for i, d := range p.trail {
		if i > 0 {
			b.WriteByte('.')
		}
		fmt.Fprint(&b, d)
		if b.Len() > 400 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}
