package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SFP
)

// Term is a solver term of sort Bool, BitVec(w) or Float64. Real-valued terms are polynomials and
// occur only inside the comparison operators "le", "lt", "eq", "ne" (p <= 0, p < 0, ...).
type Term struct {
	op   string // "true","false","var","const","le","lt","eq","ne","and","or","not","ite", or an SMT operator
	sort SortKind
	w    int
	args []*Term
	p    *Poly
	name string  // var
	bv   uint64  // const BV
	fp   float64 // const FP
	k    string
}

var tTrue = &Term{op: "true"}
var tFalse = &Term{op: "false"}

func (t *Term) key() string {
	if t.k != "" {
		return t.k
	}
	switch t.op {
	case "true", "false":
		t.k = t.op
	case "var":
		t.k = t.name
	case "const":
		if t.sort == SBV {
			t.k = fmt.Sprintf("#%d:%d", t.bv, t.w)
		} else {
			t.k = fmt.Sprintf("#f%x", math.Float64bits(t.fp))
		}
	case "le", "lt", "eq", "ne":
		t.k = "(" + t.op + " " + t.p.key() + ")"
	default:
		var b strings.Builder
		b.WriteString("(")
		b.WriteString(t.op)
		for _, a := range t.args {
			b.WriteString(" ")
			b.WriteString(a.key())
		}
		b.WriteString(")")
		t.k = b.String()
	}
	return t.k
}

func mkRealCmp(op string, p *Poly) *Term {
	if c, ok := p.isConst(); ok {
		var r bool
		switch op {
		case "le":
			r = c <= 0
		case "lt":
			r = c < 0
		case "eq":
			r = c == 0
		case "ne":
			r = c != 0
		}
		return mkBool(r)
	}
	l := p.lead()
	if op == "eq" || op == "ne" {
		if l != 1 {
			p = p.divc(l)
		}
	} else if a := math.Abs(l); a != 1 {
		p = p.divc(a)
	}
	return &Term{op: op, p: p}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkNot(t *Term) *Term {
	switch t.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.args[0]
	case "le":
		return mkRealCmp("lt", t.p.neg())
	case "lt":
		return mkRealCmp("le", t.p.neg())
	case "eq":
		return &Term{op: "ne", p: t.p}
	case "ne":
		return &Term{op: "eq", p: t.p}
	}
	return &Term{op: "not", args: []*Term{t}}
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.op == "false" {
			return tFalse
		}
		if t.op == "true" {
			continue
		}
		sub := []*Term{t}
		if t.op == "and" {
			sub = t.args
		}
		for _, s := range sub {
			if !seen[s.key()] {
				seen[s.key()] = true
				out = append(out, s)
			}
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Term{op: "and", args: out}
}

func mkOr(ts ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.op == "true" {
			return tTrue
		}
		if t.op == "false" {
			continue
		}
		sub := []*Term{t}
		if t.op == "or" {
			sub = t.args
		}
		for _, s := range sub {
			if !seen[s.key()] {
				seen[s.key()] = true
				out = append(out, s)
			}
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Term{op: "or", args: out}
}

func mkEqBool(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if b.op == "true" {
		return a
	}
	if a.op == "false" {
		return mkNot(b)
	}
	if b.op == "false" {
		return mkNot(a)
	}
	if a.key() == b.key() {
		return tTrue
	}
	return &Term{op: "=", args: []*Term{a, b}}
}

func mkBVConst(v uint64, w int) *Term {
	if w < 64 {
		v &= (1 << uint(w)) - 1
	}
	return &Term{op: "const", sort: SBV, w: w, bv: v}
}

func mkFPConst(f float64) *Term { return &Term{op: "const", sort: SFP, fp: f} }

func maskW(v uint64, w int) uint64 {
	if w < 64 {
		v &= (1 << uint(w)) - 1
	}
	return v
}

func sext(v uint64, w int) int64 {
	return int64(v<<uint(64-w)) >> uint(64-w)
}

// mkOp builds a BV/FP/Bool operator application with light constant folding.
func mkOp(op string, sort SortKind, w int, args ...*Term) *Term {
	allConst := true
	for _, a := range args {
		if a.op != "const" {
			allConst = false
		}
	}
	if allConst && len(args) == 2 && args[0].sort == SBV {
		a, b, aw := args[0].bv, args[1].bv, args[0].w
		switch op {
		case "bvadd":
			return mkBVConst(a+b, aw)
		case "bvsub":
			return mkBVConst(a-b, aw)
		case "bvmul":
			return mkBVConst(a*b, aw)
		case "bvand":
			return mkBVConst(a&b, aw)
		case "bvor":
			return mkBVConst(a|b, aw)
		case "bvxor":
			return mkBVConst(a^b, aw)
		case "=":
			return mkBool(a == b)
		case "bvult":
			return mkBool(a < b)
		case "bvule":
			return mkBool(a <= b)
		case "bvslt":
			return mkBool(sext(a, aw) < sext(b, aw))
		case "bvsle":
			return mkBool(sext(a, aw) <= sext(b, aw))
		}
	}
	if len(args) == 2 && sort == SBool {
		if args[0].key() == args[1].key() {
			switch op {
			case "=":
				return tTrue
			case "bvult", "bvslt":
				return tFalse
			case "bvule", "bvsle":
				return tTrue
			}
		}
	}
	return &Term{op: op, sort: sort, w: w, args: args}
}

func mkIteTerm(c, a, b *Term) *Term {
	if c.op == "true" {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a.key() == b.key() {
		return a
	}
	if a.sort == SBool && a.op == "true" && b.op == "false" {
		return c
	}
	if a.sort == SBool && a.op == "false" && b.op == "true" {
		return mkNot(c)
	}
	return &Term{op: "ite", sort: a.sort, w: a.w, args: []*Term{c, a, b}}
}

func fpSMT(f float64) string {
	b := math.Float64bits(f)
	if f != f {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
}

func (t *Term) smt(name func(int) string) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "var":
		return t.name
	case "const":
		if t.sort == SBV {
			return fmt.Sprintf("(_ bv%d %d)", t.bv, t.w)
		}
		return fpSMT(t.fp)
	case "le":
		return "(<= " + t.p.smt(name) + " 0.0)"
	case "lt":
		return "(< " + t.p.smt(name) + " 0.0)"
	case "eq":
		return "(= " + t.p.smt(name) + " 0.0)"
	case "ne":
		return "(not (= " + t.p.smt(name) + " 0.0))"
	}
	var b strings.Builder
	b.WriteString("(")
	b.WriteString(t.op)
	for _, a := range t.args {
		b.WriteString(" ")
		b.WriteString(a.smt(name))
	}
	b.WriteString(")")
	return b.String()
}

// collect gathers the real atoms and named variables of a term.
func (t *Term) collect(atoms map[int]bool, vars map[string]bool) {
	switch t.op {
	case "var":
		vars[t.name] = true
	case "le", "lt", "eq", "ne":
		t.p.atoms(atoms)
	default:
		for _, a := range t.args {
			a.collect(atoms, vars)
		}
	}
}

var _ = bits.Len
