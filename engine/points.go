package main

import "math"

// Witness points: concrete input assignments that satisfy the current path condition. They only ever
// establish that a branch side is feasible (sparing a satisfiable solver query); every refutation and
// every assertion is decided by the solver.

type point struct {
	vals  []float64 // by atom id-1
	ok    []bool
	bools map[string]bool
	seed  map[string]interface{}
}

const nPoints = 20

func (p *Path) initPoints(seeds []map[string]interface{}) {
	for i := 0; i < nPoints; i++ {
		p.pts = append(p.pts, &point{bools: map[string]bool{}})
	}
	for _, s := range seeds {
		p.pts = append(p.pts, &point{bools: map[string]bool{}, seed: s})
	}
}

func (p *Path) ptInput(pt *point, in *Input) float64 {
	if pt.seed != nil {
		if f, ok := pt.seed[in.Name].(float64); ok {
			return f
		}
	}
	lo, hi := math.Max(in.Lo, -1e3), math.Min(in.Hi, 1e3)
	if lo > hi {
		lo, hi = in.Lo, in.Hi
	}
	return lo + (hi-lo)*p.rng.Float64()
}

// ptAtom extends every point with a new atom's value.
func (p *Path) ptAtom(a *Atom) {
	for _, pt := range p.pts {
		p.ptEval(pt, a)
	}
}

func (p *Path) ptEval(pt *point, a *Atom) {
	var v float64
	ok := false
	switch {
	case a.input != nil:
		v, ok = p.ptInput(pt, a.input), true
	case a.ev != nil:
		v, ok = a.ev(pt)
	}
	if v != v || math.IsInf(v, 0) {
		ok = false
	}
	for len(pt.vals) < a.id {
		pt.vals = append(pt.vals, 0)
		pt.ok = append(pt.ok, false)
	}
	pt.vals[a.id-1], pt.ok[a.id-1] = v, ok
}

// poly value and magnitude scale
func (pt *point) poly(q *Poly) (v, scale float64, ok bool) {
	for _, m := range q.t {
		x := m.c
		for i := 0; i < len(m.key); i += 4 {
			id, e := keyAtom(m.key, i)
			if id > len(pt.vals) || !pt.ok[id-1] {
				return 0, 0, false
			}
			for ; e > 0; e-- {
				x *= pt.vals[id-1]
			}
		}
		v += x
		scale += math.Abs(x)
	}
	return v, scale, true
}

func (pt *point) real(r *RealV) (float64, bool) {
	v, _, ok := pt.poly(r.N)
	if !ok {
		return 0, false
	}
	for _, f := range r.D {
		d, _, ok := pt.poly(f.p)
		if !ok || d == 0 {
			return 0, false
		}
		for k := 0; k < f.e; k++ {
			v /= d
		}
	}
	return v, true
}

func (pt *point) val(v value) (float64, bool) {
	switch v := v.(type) {
	case float64:
		return v, true
	case *RealV:
		return pt.real(v)
	}
	return 0, false
}

// term: 1 true, 0 false (both with a safety margin), -1 cannot tell.
func (pt *point) term(t *Term) int {
	switch t.op {
	case "true":
		return 1
	case "false":
		return 0
	case "var":
		if t.sort == SBool {
			if b, ok := pt.bools[t.name]; ok {
				if b {
					return 1
				}
				return 0
			}
		}
		return -1
	case "le", "lt", "eq", "ne":
		v, sc, ok := pt.poly(t.p)
		if !ok {
			return -1
		}
		eps := 1e-9 * sc
		switch {
		case v < -eps:
			if t.op == "eq" {
				return 0
			}
			return 1
		case v > eps:
			if t.op == "ne" {
				return 1
			}
			return 0
		}
		return -1
	case "not":
		r := pt.term(t.args[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	case "and":
		res := 1
		for _, a := range t.args {
			switch pt.term(a) {
			case 0:
				return 0
			case -1:
				res = -1
			}
		}
		return res
	case "or":
		res := 0
		for _, a := range t.args {
			switch pt.term(a) {
			case 1:
				return 1
			case -1:
				res = -1
			}
		}
		return res
	}
	return -1
}

// ptFilter keeps the points that satisfy a newly added constraint.
func (p *Path) ptFilter(t *Term) {
	k := 0
	for _, pt := range p.pts {
		if pt.term(t) == 1 {
			p.pts[k] = pt
			k++
		}
	}
	p.pts = p.pts[:k]
}

// ptWitness looks for a point satisfying t.
func (p *Path) ptWitness(t *Term) *point {
	for _, pt := range p.pts {
		if pt.term(t) == 1 {
			return pt
		}
	}
	return nil
}

// ptAdd turns a solver model into a point, when it satisfies the path condition with margin.
func (p *Path) ptAdd(seed map[string]interface{}) {
	pt := &point{bools: map[string]bool{}, seed: seed}
	for _, in := range p.inputs {
		if in.Kind == "bool" {
			b, _ := seed[in.Name].(bool)
			pt.bools[in.term.name] = b
		}
	}
	for _, a := range p.atoms {
		p.ptEval(pt, a)
	}
	for i := range p.pc {
		if pt.term(p.pc[i].t) != 1 {
			return
		}
	}
	p.pts = append(p.pts, pt)
}

// ptInputs extracts a point's input assignment (to seed the path forked to the other side).
func (p *Path) ptInputs(pt *point) map[string]interface{} {
	out := map[string]interface{}{}
	for _, in := range p.inputs {
		if in.atom != 0 && in.atom <= len(pt.vals) {
			out[in.Name] = pt.vals[in.atom-1]
		} else if in.Kind == "bool" {
			if b, ok := pt.bools[in.term.name]; ok {
				out[in.Name] = b
			}
		}
	}
	return out
}

func (p *Path) hasBV() bool {
	for _, v := range p.vars {
		if v.sort != SBool {
			return true
		}
	}
	return false
}
