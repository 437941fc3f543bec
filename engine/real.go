package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

type fac struct {
	p *Poly
	e int
}

// RealV is N / prod(D) with every factor of D known to be positive.
type RealV struct {
	N *Poly
	D []fac
	c *float64
}

const tinyConst = 1e-12
const hugeConst = 1e15

func rv(p *Poly) value {
	if c, ok := p.isConst(); ok {
		return c
	}
	return &RealV{N: p}
}

func mkReal(n *Poly, d []fac) value {
	if c, ok := n.isConst(); ok && c == 0 {
		return 0.0
	}
	if len(d) == 0 {
		return rv(n)
	}
	return &RealV{N: n, D: d}
}

// lift returns the polynomial/denominator form of a finite concrete or symbolic value.
func lift(v value) *RealV {
	switch v := v.(type) {
	case float64:
		return &RealV{N: polyConst(v)}
	case *RealV:
		return v
	}
	panic(unsupported(fmt.Sprintf("not a real: %T", v)))
}

func (r *RealV) key() string {
	var b strings.Builder
	b.WriteString(r.N.key())
	for _, f := range r.D {
		fmt.Fprintf(&b, "/%s^%d", f.p.key(), f.e)
	}
	return b.String()
}

// ---- polynomial product with reductions (sqrt^2 -> arg, sin^2 -> 1-cos^2) ----

func (p *Path) mulP(a, b *Poly) *Poly { return p.reduce(polyMulRaw(a, b)) }

func (p *Path) reduce(q *Poly) *Poly {
	for iter := 0; iter < 40; iter++ {
		need := false
	scan:
		for _, m := range q.t {
			for i := 0; i < len(m.key); i += 4 {
				if m.key[i+3] >= 2 {
					id, _ := keyAtom(m.key, i)
					if p.atom(id).sq != nil {
						need = true
						break scan
					}
				}
			}
		}
		if !need {
			return q
		}
		acc := map[string]*coefAcc{}
		for _, m := range q.t {
			hit := -1
			for i := 0; i < len(m.key); i += 4 {
				if m.key[i+3] >= 2 {
					id, _ := keyAtom(m.key, i)
					if p.atom(id).sq != nil {
						hit = i
						break
					}
				}
			}
			if hit < 0 {
				accAdd(acc, m.key, m.c)
				continue
			}
			id, e := keyAtom(m.key, hit)
			rest := m.key[:hit]
			if e%2 == 1 {
				rest += atomKey(id, 1)
			}
			rest += m.key[hit+4:]
			r := p.atom(id).sq
			pw := r
			for k := 1; k < e/2; k++ {
				pw = polyMulRaw(pw, r)
			}
			for _, n := range pw.t {
				accAdd(acc, keyMul(rest, n.key), m.c*n.c)
			}
			if len(acc) > polyCap {
				panic(unsupported("polynomial too large"))
			}
		}
		q = polyFromAcc(acc)
	}
	return q
}

func (p *Path) powP(a *Poly, e int) *Poly {
	r := polyOne
	for i := 0; i < e; i++ {
		r = p.mulP(r, a)
	}
	return r
}

// lcm returns the least common multiple of two factored denominators and the cofactors.
func (p *Path) lcm(a, b []fac) (l []fac, ca, cb *Poly) {
	ca, cb = polyOne, polyOne
	if len(a) == 0 && len(b) == 0 {
		return nil, ca, cb
	}
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].p.key() < b[j].p.key()):
			l = append(l, a[i])
			cb = p.mulP(cb, p.powP(a[i].p, a[i].e))
			i++
		case i >= len(a) || b[j].p.key() < a[i].p.key():
			l = append(l, b[j])
			ca = p.mulP(ca, p.powP(b[j].p, b[j].e))
			j++
		default:
			x := a[i]
			if b[j].e > x.e {
				ca = p.mulP(ca, p.powP(x.p, b[j].e-x.e))
				x.e = b[j].e
			} else if a[i].e > b[j].e {
				cb = p.mulP(cb, p.powP(x.p, a[i].e-b[j].e))
			}
			l = append(l, x)
			i++
			j++
		}
	}
	return
}

func mergeD(a, b []fac) []fac {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	var l []fac
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].p.key() < b[j].p.key()):
			l = append(l, a[i])
			i++
		case i >= len(a) || b[j].p.key() < a[i].p.key():
			l = append(l, b[j])
			j++
		default:
			l = append(l, fac{a[i].p, a[i].e + b[j].e})
			i++
			j++
		}
	}
	return l
}

// simplify cancels common factors.
func (p *Path) simplify(n *Poly, d []fac) value {
	if len(n.t) == 0 {
		return 0.0
	}
	if len(d) == 0 {
		return rv(n)
	}
	out := make([]fac, 0, len(d))
	for _, f := range d {
		for f.e > 0 {
			q, ok := p.divExact(n, f.p)
			if !ok {
				break
			}
			n = q
			f.e--
		}
		if f.e > 0 {
			out = append(out, f)
		}
	}
	return mkReal(n, out)
}

// divExact divides n by f when the division is exact (leading-term division, bounded effort).
func (p *Path) divExact(n, f *Poly) (*Poly, bool) {
	if len(f.t) > len(n.t) {
		return nil, false
	}
	// quick necessary test: the leading and trailing monomials must divide
	lf := f.t[len(f.t)-1]
	var qt []mono
	r := n
	for steps := 0; len(r.t) > 0; steps++ {
		if steps > 60 {
			return nil, false
		}
		lr := r.t[len(r.t)-1]
		k, ok := keyDiv(lr.key, lf.key)
		if !ok {
			return nil, false
		}
		c := lr.c / lf.c
		qt = append(qt, mono{k, c})
		sub := &Poly{t: make([]mono, len(f.t))}
		for i, m := range f.t {
			sub.t[i] = mono{keyMul(m.key, k), -m.c * c}
		}
		sort.Slice(sub.t, func(i, j int) bool { return sub.t[i].key < sub.t[j].key })
		r2 := polyAdd(r, sub)
		if len(r2.t) > 0 && r2.t[len(r2.t)-1].key >= lr.key {
			return nil, false
		}
		r = r2
	}
	sort.Slice(qt, func(i, j int) bool { return qt[i].key < qt[j].key })
	for i := 1; i < len(qt); i++ {
		if qt[i].key == qt[i-1].key {
			return nil, false
		}
	}
	return &Poly{t: qt}, true
}

func keyDiv(a, b string) (string, bool) {
	if b == "" {
		return a, true
	}
	var out []byte
	i, j := 0, 0
	for j < len(b) {
		if i >= len(a) {
			return "", false
		}
		x, y := a[i:i+3], b[j:j+3]
		if x < y {
			out = append(out, a[i:i+4]...)
			i += 4
			continue
		}
		if x > y {
			return "", false
		}
		e := int(a[i+3]) - int(b[j+3])
		if e < 0 {
			return "", false
		}
		if e > 0 {
			out = append(out, x...)
			out = append(out, byte(e))
		}
		i += 4
		j += 4
	}
	out = append(out, a[i:]...)
	return string(out), true
}

// ---- arithmetic on values (float64 or *RealV) ----

func isSym(v value) bool {
	switch v.(type) {
	case *RealV, *Term:
		return true
	}
	return false
}

// Sums of squares are remembered as such: expanded, their sign is no longer evident.
func normPoly(q *Poly) *Poly {
	if l := math.Abs(q.lead()); l != 1 && l != 0 {
		return q.divc(l)
	}
	return q
}

func (p *Path) markNonneg(v value) {
	r, ok := v.(*RealV)
	if !ok || len(r.N.t) > 300 {
		return
	}
	for _, f := range r.D {
		if f.e%2 == 1 {
			return
		}
	}
	p.nonneg[normPoly(r.N).key()] = true
}

func (p *Path) isNonneg(v value) bool {
	switch v := v.(type) {
	case float64:
		return v >= 0
	case *RealV:
		for _, f := range v.D {
			if f.e%2 == 1 {
				return false
			}
		}
		return len(v.N.t) <= 300 && p.nonneg[normPoly(v.N).key()]
	}
	return false
}

func (p *Path) fadd(a, b value) value {
	r := p.fadd1(a, b)
	if len(p.nonneg) > 0 && p.isNonneg(a) && p.isNonneg(b) {
		p.markNonneg(r)
	}
	return r
}

func (p *Path) fmul(a, b value) value {
	r := p.fmul1(a, b)
	if x, ok := a.(*RealV); ok {
		if y, ok := b.(*RealV); ok && len(x.N.t) == len(y.N.t) && len(x.D) == len(y.D) && (x == y || x.key() == y.key()) {
			p.markNonneg(r)
			return r
		}
	}
	if len(p.nonneg) > 0 && p.isNonneg(a) && p.isNonneg(b) {
		p.markNonneg(r)
	}
	return r
}

func (p *Path) fadd1(a, b value) value {
	if p.isFP(a, b) {
		return p.fpOp("fp.add", a, b)
	}
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		return x + y
	}
	if xc {
		return p.addC(b.(*RealV), x)
	}
	if yc {
		return p.addC(a.(*RealV), y)
	}
	r, s := a.(*RealV), b.(*RealV)
	if len(r.D) == 0 && len(s.D) == 0 {
		return rv(polyAdd(r.N, s.N))
	}
	l, ca, cb := p.lcm(r.D, s.D)
	return p.simplify(polyAdd(p.mulP(r.N, ca), p.mulP(s.N, cb)), l)
}

func (p *Path) addC(r *RealV, c float64) value {
	if c == 0 {
		return r
	}
	if c != c || math.IsInf(c, 0) {
		return c
	}
	if math.Abs(c) >= hugeConst {
		return c
	}
	if math.Abs(c) < tinyConst {
		// x + tiny: exactly tiny when x is zero, otherwise x (stated approximation)
		if p.branch(mkRealCmp("eq", r.N)) {
			return c
		}
		return r
	}
	n := polyConst(c)
	if len(r.D) > 0 {
		_, _, cb := p.lcm(r.D, nil)
		n = p.mulP(n, cb)
	}
	return p.simplify(polyAdd(r.N, n), r.D)
}

func (p *Path) fneg(a value) value {
	switch a := a.(type) {
	case float64:
		return -a
	case *RealV:
		return &RealV{N: a.N.neg(), D: a.D}
	case *Term:
		return mkOp("fp.neg", SFP, 0, a)
	}
	panic(unsupported("fneg"))
}

func (p *Path) fsub(a, b value) value {
	if p.isFP(a, b) {
		return p.fpOp("fp.sub", a, b)
	}
	return p.fadd(a, p.fneg(b))
}

func (p *Path) fmul1(a, b value) value {
	if p.isFP(a, b) {
		return p.fpOp("fp.mul", a, b)
	}
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		return x * y
	}
	if yc {
		return p.mulC(a.(*RealV), y)
	}
	if xc {
		return p.mulC(b.(*RealV), x)
	}
	r, s := a.(*RealV), b.(*RealV)
	n := p.mulP(r.N, s.N)
	if len(r.D) == 0 && len(s.D) == 0 {
		return rv(n)
	}
	return p.simplify(n, mergeD(r.D, s.D))
}

func (p *Path) mulC(r *RealV, c float64) value {
	if c != c {
		return c
	}
	if c == 0 {
		return 0.0
	}
	if math.IsInf(c, 0) || math.Abs(c) >= hugeConst {
		switch p.sign(r) {
		case 1:
			return c
		case -1:
			return -c
		}
		return 0.0 * c
	}
	return &RealV{N: r.N.scale(c), D: r.D}
}

// sign forks on the sign of a symbolic value.
func (p *Path) sign(r *RealV) int {
	if p.branch(mkRealCmp("lt", r.N.neg())) {
		return 1
	}
	if p.branch(mkRealCmp("lt", r.N)) {
		return -1
	}
	return 0
}

func (p *Path) fdiv(a, b value) value {
	if p.isFP(a, b) {
		return p.fpOp("fp.div", a, b)
	}
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		return x / y
	}
	if yc {
		r := a.(*RealV)
		if y != y {
			return y
		}
		if math.IsInf(y, 0) {
			return 0.0
		}
		if y == 0 {
			switch p.sign(r) {
			case 1:
				return 1 / y
			case -1:
				return -1 / y
			}
			return math.NaN()
		}
		if math.Abs(y) < tinyConst {
			switch p.sign(r) {
			case 1:
				return math.Copysign(math.Inf(1), y)
			case -1:
				return -math.Copysign(math.Inf(1), y)
			}
			return 0.0
		}
		return &RealV{N: r.N.divc(y), D: r.D}
	}
	s := b.(*RealV)
	if xc && (x != x) {
		return x
	}
	sg := p.sign(s)
	if sg == 0 {
		if xc {
			return x / 0.0000 * zeroSign()
		}
		switch p.sign(a.(*RealV)) {
		case 1:
			return math.Inf(1)
		case -1:
			return math.Inf(-1)
		}
		return math.NaN()
	}
	if xc && math.IsInf(x, 0) {
		return x * float64(sg)
	}
	if xc && x == 0 {
		return 0.0
	}
	// a / (s.N / s.D) = a.N * s.D / (a.D * s.N)
	n, dp := polyConst(x), []fac(nil)
	if !xc {
		n, dp = a.(*RealV).N, a.(*RealV).D
	}
	den := s.N
	if sg < 0 {
		den = den.neg()
		n = n.neg()
	}
	// cancel common denominators first
	var num []fac
	num = append(num, s.D...)
	dd := append([]fac(nil), dp...)
	for i := range num {
		for j := range dd {
			if num[i].e > 0 && dd[j].e > 0 && num[i].p.key() == dd[j].p.key() {
				k := num[i].e
				if dd[j].e < k {
					k = dd[j].e
				}
				num[i].e -= k
				dd[j].e -= k
			}
		}
	}
	for _, f := range num {
		n = p.mulP(n, p.powP(f.p, f.e))
	}
	var d []fac
	for _, f := range dd {
		if f.e > 0 {
			d = append(d, f)
		}
	}
	c, fs := p.factor(den)
	n = n.divc(c)
	d = mergeD(d, fs)
	return p.simplify(n, d)
}

func zeroSign() float64 { return 1 }

// factor splits a positive polynomial into a constant and positive factors (nonnegative atoms are split off).
func (p *Path) factor(d *Poly) (float64, []fac) {
	var fs []fac
	// common monomial of nonnegative atoms
	if len(d.t) > 0 {
		common := map[int]int{}
		for i := 0; i < len(d.t[0].key); i += 4 {
			id, e := keyAtom(d.t[0].key, i)
			if p.atom(id).iv.lo >= 0 {
				common[id] = e
			}
		}
		for _, m := range d.t[1:] {
			if len(common) == 0 {
				break
			}
			have := map[int]int{}
			for i := 0; i < len(m.key); i += 4 {
				id, e := keyAtom(m.key, i)
				have[id] = e
			}
			for id, e := range common {
				if have[id] < e {
					if have[id] == 0 {
						delete(common, id)
					} else {
						common[id] = have[id]
					}
				}
			}
		}
		for id, e := range common {
			fs = append(fs, fac{polyAtom(id), e})
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].p.key() < fs[j].p.key() })
		if len(common) > 0 {
			q := &Poly{}
			for _, m := range d.t {
				var k []byte
				for i := 0; i < len(m.key); i += 4 {
					id, e := keyAtom(m.key, i)
					e -= common[id]
					if e > 0 {
						k = append(k, atomKey(id, e)...)
					}
				}
				q.t = append(q.t, mono{string(k), m.c})
			}
			sort.Slice(q.t, func(i, j int) bool { return q.t[i].key < q.t[j].key })
			d = q
		}
	}
	if c, ok := d.isConst(); ok {
		return c, fs
	}
	l := math.Abs(d.lead())
	if l != 1 {
		d = d.divc(l)
	}
	fs = mergeD(fs, []fac{{d, 1}})
	return l, fs
}

// cmpPoly returns a polynomial with the sign of a-b, or ok=false with a concrete ordering
// when one side is not finite (ord: -1,0,1; 2 = unordered).
func (p *Path) cmpPoly(a, b value) (q *Poly, ord int, conc bool) {
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		switch {
		case x != x || y != y:
			return nil, 2, true
		case x < y:
			return nil, -1, true
		case x > y:
			return nil, 1, true
		}
		return nil, 0, true
	}
	if xc && (x != x || math.Abs(x) >= hugeConst) {
		if x != x {
			return nil, 2, true
		}
		if x > 0 {
			return nil, 1, true
		}
		return nil, -1, true
	}
	if yc && (y != y || math.Abs(y) >= hugeConst) {
		if y != y {
			return nil, 2, true
		}
		if y > 0 {
			return nil, -1, true
		}
		return nil, 1, true
	}
	r, s := lift(a), lift(b)
	if len(r.D) == 0 && len(s.D) == 0 {
		return polySub(r.N, s.N), 0, false
	}
	_, ca, cb := p.lcm(r.D, s.D)
	return polySub(p.mulP(r.N, ca), p.mulP(s.N, cb)), 0, false
}

// fcmp builds the truth value of a op b.
func (p *Path) fcmp(op string, a, b value) *Term {
	if p.isFP(a, b) {
		x, y := p.toFP(a), p.toFP(b)
		switch op {
		case "<":
			return mkOp("fp.lt", SBool, 0, x, y)
		case "<=":
			return mkOp("fp.leq", SBool, 0, x, y)
		case ">":
			return mkOp("fp.gt", SBool, 0, x, y)
		case ">=":
			return mkOp("fp.geq", SBool, 0, x, y)
		case "==":
			return mkOp("fp.eq", SBool, 0, x, y)
		case "!=":
			return mkNot(mkOp("fp.eq", SBool, 0, x, y))
		}
	}
	q, ord, conc := p.cmpPoly(a, b)
	if conc {
		switch op {
		case "<":
			return mkBool(ord == -1)
		case "<=":
			return mkBool(ord == -1 || ord == 0)
		case ">":
			return mkBool(ord == 1)
		case ">=":
			return mkBool(ord == 1 || ord == 0)
		case "==":
			return mkBool(ord == 0)
		case "!=":
			return mkBool(ord != 0)
		}
	}
	switch op {
	case "<":
		return mkRealCmp("lt", q)
	case "<=":
		return mkRealCmp("le", q)
	case ">":
		return mkRealCmp("lt", q.neg())
	case ">=":
		return mkRealCmp("le", q.neg())
	case "==":
		return mkRealCmp("eq", q)
	case "!=":
		return mkRealCmp("ne", q)
	}
	panic("fcmp " + op)
}

// ---- derived functions ----

// named introduces (or reuses) an atom for a definitional key.
func (p *Path) named(key, kind string, iv ivl, mk func(a *Atom)) *Atom {
	if id, ok := p.memo[key]; ok {
		return p.atom(id)
	}
	a := p.newAtom(kind, "", iv)
	p.memo[key] = a.id
	mk(a)
	p.ptAtom(a)
	return a
}

func (p *Path) fsqrt(v value) value {
	switch v := v.(type) {
	case float64:
		return math.Sqrt(v)
	case *Term:
		return mkOp("fp.sqrt RNE", SFP, 0, v)
	}
	r := v.(*RealV)
	// The coefficients of expanded sums of squares are rounded, so an argument that cannot be negative in the program
	// may dip below zero by rounding here: only a clearly negative argument is a NaN, the strip between is left out.
	if !p.isNonneg(r) {
		if p.branch(mkRealCmp("lt", polyAdd(r.N, polyConst(1e-7)))) {
			return math.NaN()
		}
		p.assume(mkRealCmp("le", r.N.neg()))
	}
	n := r.N
	var d []fac
	for _, f := range r.D {
		if f.e%2 == 1 {
			n = p.mulP(n, f.p)
			f.e++
		}
		d = append(d, fac{f.p, f.e / 2})
	}
	s := p.sqrtPoly(n)
	if c, ok := s.(float64); ok {
		return mkRealOr(c, d)
	}
	sr := s.(*RealV)
	return p.simplify(sr.N, d)
}

func mkRealOr(c float64, d []fac) value {
	if len(d) == 0 || c == 0 {
		return c
	}
	return &RealV{N: polyConst(c), D: d}
}

func (p *Path) sqrtPoly(n *Poly) value {
	if c, ok := n.isConst(); ok {
		return math.Sqrt(math.Max(c, 0))
	}
	// split off even powers of a common monomial
	if len(n.t) == 1 {
		m := n.t[0]
		even := true
		for i := 0; i < len(m.key); i += 4 {
			if m.key[i+3]%2 == 1 {
				even = false
			}
		}
		if even && m.c > 0 {
			var r value = math.Sqrt(m.c)
			for i := 0; i < len(m.key); i += 4 {
				id, e := keyAtom(m.key, i)
				x := p.fabs(rv(polyAtom(id)))
				for ; e > 0; e -= 2 {
					r = p.fmul(r, x)
				}
			}
			return r
		}
	}
	if q, ok := p.polySqrt(n); ok {
		return p.fabs(rv(q))
	}
	scale := math.Abs(n.lead())
	// power-of-four scaling keeps the root exact
	if scale == 0 {
		return 0.0
	}
	base := n.divc(scale)
	iv := p.polyIv(base)
	lo, hi := 0.0, math.Inf(1)
	if iv.lo > 0 {
		lo = down(math.Sqrt(iv.lo))
	}
	if !math.IsInf(iv.hi, 0) && iv.hi > 0 {
		hi = up(math.Sqrt(iv.hi))
	}
	a := p.named("sqrt:"+base.key(), "sqrt", ivl{lo, hi}, func(a *Atom) {
		a.sq = base
		a.ev = func(pt *point) (float64, bool) {
			v, _, ok := pt.poly(base)
			return math.Sqrt(math.Max(v, 0)), ok
		}
		x := polyAtom(a.id)
		a.defs = append(a.defs,
			mkRealCmp("le", x.neg()),
			&Term{op: "eq", p: polySub(polyMulRaw(x, x), base)})
	})
	return rv(polyAtom(a.id).scale(math.Sqrt(scale)))
}

// polySqrt finds q with q^2 = n for quadratic n (linear q).
func (p *Path) polySqrt(n *Poly) (*Poly, bool) {
	if n.degree() != 2 {
		return nil, false
	}
	// find an atom with a positive square coefficient
	var base int
	var bc float64
	for _, m := range n.t {
		if len(m.key) == 4 && m.key[3] == 2 && m.c > 0 {
			base, _ = keyAtom(m.key, 0)
			bc = math.Sqrt(m.c)
			break
		}
	}
	if base == 0 {
		return nil, false
	}
	q := polyAtom(base).scale(bc)
	// remaining coefficients from cross terms with base
	for _, m := range n.t {
		var other string
		switch {
		case len(m.key) == 4 && m.key[3] == 1:
			if id, _ := keyAtom(m.key, 0); id == base {
				other = ""
			} else {
				continue
			}
		case len(m.key) == 8:
			a, _ := keyAtom(m.key, 0)
			b, _ := keyAtom(m.key, 4)
			if a == base {
				other = m.key[4:8]
			} else if b == base {
				other = m.key[0:4]
			} else {
				continue
			}
		default:
			continue
		}
		q = polyAdd(q, &Poly{t: []mono{{other, m.c / (2 * bc)}}})
	}
	r := polySub(polyMulRaw(q, q), n)
	mx := 0.0
	for _, m := range n.t {
		mx = math.Max(mx, math.Abs(m.c))
	}
	for _, m := range r.t {
		if math.Abs(m.c) > 1e-13*mx {
			return nil, false
		}
	}
	return q, true
}

func (p *Path) fabs(v value) value {
	switch v := v.(type) {
	case float64:
		return math.Abs(v)
	case *Term:
		return mkOp("fp.abs", SFP, 0, v)
	}
	r := v.(*RealV)
	t := mkRealCmp("lt", r.N)
	if p.iteMode && p.eval3(t) < 0 {
		return p.fite(t, p.fneg(r), r)
	}
	if p.branch(t) {
		return p.fneg(r)
	}
	return r
}

// fite is a value-level if-then-else (no fork).
func (p *Path) fite(c *Term, a, b value) value {
	switch c.op {
	case "true":
		return a
	case "false":
		return b
	}
	if p.isFP(a, b) {
		return mkIteTerm(c, p.toFP(a), p.toFP(b))
	}
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok && (x == y) {
			return a
		}
		if x != x || math.IsInf(x, 0) {
			if p.branch(c) {
				return a
			}
			return b
		}
	}
	if y, ok := b.(float64); ok && (y != y || math.IsInf(y, 0)) {
		if p.branch(c) {
			return a
		}
		return b
	}
	x, y := lift(a), lift(b)
	if x.key() == y.key() {
		return a
	}
	ia, ib := p.realIv(x), p.realIv(y)
	at := p.named("ite:"+c.key()+"?"+x.key()+":"+y.key(), "ite",
		ivl{math.Min(ia.lo, ib.lo), math.Max(ia.hi, ib.hi)}, func(a *Atom) {
			a.ev = func(pt *point) (float64, bool) {
				switch pt.term(c) {
				case 1:
					return pt.real(x)
				case 0:
					return pt.real(y)
				}
				return 0, false
			}
			t := &RealV{N: polyAtom(a.id)}
			a.defs = append(a.defs,
				mkOr(mkNot(c), p.fcmp("==", t, x)),
				mkOr(c, p.fcmp("==", t, y)))
		})
	return rv(polyAtom(at.id))
}

func (p *Path) realIv(r *RealV) ivl {
	iv := p.polyIv(r.N)
	for _, f := range r.D {
		d := p.polyIv(f.p)
		for k := 0; k < f.e; k++ {
			if d.lo <= 0 {
				lo, hi := math.Inf(-1), math.Inf(1)
				if iv.lo >= 0 {
					lo = 0
				}
				if iv.hi <= 0 {
					hi = 0
				}
				iv = ivl{lo, hi}
				continue
			}
			inv := ivl{down(1 / d.hi), up(1 / d.lo)}
			iv = ivMul(iv, inv)
		}
	}
	return iv
}

func (p *Path) fmin(a, b value) value {
	if p.isFP(a, b) {
		return p.fpMinMax(a, b, true)
	}
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		return math.Min(x, y)
	}
	if xc && x != x {
		return x
	}
	if yc && y != y {
		return y
	}
	t := p.fcmp("<=", a, b)
	if p.iteMode && p.eval3(t) < 0 {
		return p.fite(t, a, b)
	}
	if p.branch(t) {
		return a
	}
	return b
}

func (p *Path) fmax(a, b value) value {
	if p.isFP(a, b) {
		return p.fpMinMax(a, b, false)
	}
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		return math.Max(x, y)
	}
	if xc && x != x {
		return x
	}
	if yc && y != y {
		return y
	}
	t := p.fcmp(">=", a, b)
	if p.iteMode && p.eval3(t) < 0 {
		return p.fite(t, a, b)
	}
	if p.branch(t) {
		return a
	}
	return b
}

// ---- trigonometry ----

// trigPair returns cos/sin of a linear combination of angle atoms plus constant.
func (p *Path) trig(v value) (c, s value) {
	if f, ok := v.(float64); ok {
		return math.Cos(f), math.Sin(f)
	}
	r, ok := v.(*RealV)
	if !ok {
		panic(unsupported("trigonometry in FP mode"))
	}
	if len(r.D) == 0 {
		// integer-linear combination of degree-1 monomials plus a constant
		ok := true
		for _, m := range r.N.t {
			if m.key != "" && (m.c != math.Trunc(m.c) || math.Abs(m.c) > 4) {
				ok = false
			}
		}
		if ok {
			c, s = 1.0, 0.0
			for _, m := range r.N.t {
				var c2, s2 value
				if m.key == "" {
					c2, s2 = math.Cos(m.c), math.Sin(m.c)
				} else {
					base := &Poly{t: []mono{{m.key, 1}}}
					cc, ss := p.trigAtom(base)
					k := int(math.Abs(m.c))
					c2, s2 = 1.0, 0.0
					for i := 0; i < k; i++ {
						c2, s2 = p.fsub(p.fmul(c2, cc), p.fmul(s2, ss)), p.fadd(p.fmul(s2, cc), p.fmul(c2, ss))
					}
					if m.c < 0 {
						s2 = p.fneg(s2)
					}
				}
				c, s = p.fsub(p.fmul(c, c2), p.fmul(s, s2)), p.fadd(p.fmul(s, c2), p.fmul(c, s2))
			}
			return
		}
		// separate the constant so that shifts stay related
		k, cst, sc, okc := splitConst(r.N)
		_ = k
		if okc && cst != 0 {
			b := &Poly{t: r.N.t[1:]}
			_ = sc
			cc, ss := p.trigAtom(b)
			c2, s2 := math.Cos(cst), math.Sin(cst)
			return p.fsub(p.fmul(cc, c2), p.fmul(ss, s2)), p.fadd(p.fmul(ss, c2), p.fmul(cc, s2))
		}
		return p.trigAtom(r.N)
	}
	return p.trigKey("trig:"+r.key(), nil, r)
}

func (p *Path) trigAtom(base *Poly) (value, value) {
	// canonical sign: positive leading coefficient
	if base.lead() < 0 {
		c, s := p.trigAtom(base.neg())
		return c, p.fneg(s)
	}
	var at *Atom
	if len(base.t) == 1 && len(base.t[0].key) == 4 && base.t[0].key[3] == 1 && base.t[0].c == 1 {
		id, _ := keyAtom(base.t[0].key, 0)
		at = p.atom(id)
		if at.trigC != 0 {
			return rv(polyAtom(at.trigC)), rv(polyAtom(at.trigS))
		}
		if at.kind == "acos" || at.kind == "atan2" {
			return p.trigOf[at.id][0], p.trigOf[at.id][1]
		}
	}
	return p.trigKey("trig:"+base.key(), at, &RealV{N: base})
}

func (p *Path) trigKey(key string, at *Atom, arg *RealV) (value, value) {
	ca := p.named(key+":c", "cos", ivl{-1, 1}, func(a *Atom) {
		a.ev = func(pt *point) (float64, bool) {
			v, ok := pt.real(arg)
			return math.Cos(v), ok
		}
	})
	sa := p.named(key+":s", "sin", ivl{-1, 1}, func(a *Atom) {
		a.ev = func(pt *point) (float64, bool) {
			v, ok := pt.real(arg)
			return math.Sin(v), ok
		}
		c, s := polyAtom(ca.id), polyAtom(a.id)
		a.sq = polySub(polyOne, polyMulRaw(c, c))
		d := &Term{op: "eq", p: polySub(polyAdd(polyMulRaw(c, c), polyMulRaw(s, s)), polyOne)}
		a.defs = append(a.defs, d)
		ca.defs = append(ca.defs, d)
		for _, x := range []*Poly{c, s} {
			b1 := mkRealCmp("le", polyAdd(x, polyConst(-1)))
			b2 := mkRealCmp("le", polyAdd(x.neg(), polyConst(-1)))
			a.defs = append(a.defs, b1, b2)
		}
		if at != nil {
			at.trigC, at.trigS = ca.id, a.id
			if at.iv.lo >= 0 && at.iv.hi <= math.Pi {
				a.defs = append(a.defs, mkRealCmp("le", s.neg()))
				a.iv.lo = 0
			}
			if at.iv.lo >= -math.Pi && at.iv.hi <= 0 {
				a.defs = append(a.defs, mkRealCmp("le", s))
				a.iv.hi = 0
			}
			if at.iv.lo >= -math.Pi/2 && at.iv.hi <= math.Pi/2 {
				a.defs = append(a.defs, mkRealCmp("le", c.neg()))
				ca.iv.lo = 0
			}
		}
	})
	return rv(polyAtom(ca.id)), rv(polyAtom(sa.id))
}

func (p *Path) facos(v value) value {
	if f, ok := v.(float64); ok {
		return math.Acos(f)
	}
	r := v.(*RealV)
	if p.branch(p.fcmp(">", r, 1.0)) || p.branch(p.fcmp("<", r, -1.0)) {
		return math.NaN()
	}
	one := p.fsub(1.0, p.fmul(r, r))
	s := p.fsqrt(one)
	a := p.named("acos:"+r.key(), "acos", ivl{0, up(math.Pi)}, func(a *Atom) {
		x := polyAtom(a.id)
		a.defs = append(a.defs, mkRealCmp("le", x.neg()), mkRealCmp("le", polyAdd(x, polyConst(-math.Pi))))
		a.ev = func(pt *point) (float64, bool) {
			v, ok := pt.real(r)
			return math.Acos(v), ok
		}
		th := &RealV{N: x}
		// monotone landmarks: acos(1)=0, acos(0)=pi/2, acos(-1)=pi, and 1-c <= th^2/2, th >= sin th
		a.defs = append(a.defs,
			mkOr(mkNot(p.fcmp("==", r, 1.0)), p.fcmp("==", th, 0.0)),
			mkOr(p.fcmp("==", r, 1.0), p.fcmp(">", th, 0.0)),
			p.fcmp("<=", s, th),
			p.fcmp("<=", p.fsub(1.0, r), p.fmul(0.5, p.fmul(th, th))))
	})
	if p.trigOf == nil {
		p.trigOf = map[int][2]value{}
	}
	p.trigOf[a.id] = [2]value{r, s}
	return rv(polyAtom(a.id))
}

func (p *Path) fatan2(y, x value) value {
	if a, ok := y.(float64); ok {
		if b, ok := x.(float64); ok {
			return math.Atan2(a, b)
		}
	}
	ry, rx := lift(y), lift(x)
	r := p.fsqrt(p.fadd(p.fmul(y, y), p.fmul(x, x)))
	if p.branch(p.fcmp("==", r, 0.0)) {
		return 0.0
	}
	c, s := p.fdiv(x, r), p.fdiv(y, r)
	a := p.named("atan2:"+ry.key()+","+rx.key(), "atan2", ivl{down(-math.Pi), up(math.Pi)}, func(a *Atom) {
		a.ev = func(pt *point) (float64, bool) {
			yv, ok1 := pt.real(ry)
			xv, ok2 := pt.real(rx)
			return math.Atan2(yv, xv), ok1 && ok2
		}
		th := &RealV{N: polyAtom(a.id)}
		a.defs = append(a.defs, p.fcmp("<=", th, math.Pi), p.fcmp(">=", th, -math.Pi),
			mkOr(p.fcmp("<", y, 0.0), p.fcmp(">=", th, 0.0)),
			mkOr(p.fcmp(">=", y, 0.0), p.fcmp("<", th, 0.0)))
	})
	if p.trigOf == nil {
		p.trigOf = map[int][2]value{}
	}
	p.trigOf[a.id] = [2]value{c, s}
	return rv(polyAtom(a.id))
}

// ffloor forks over the integer part.
func (p *Path) ffloor(v value) value {
	if f, ok := v.(float64); ok {
		return math.Floor(f)
	}
	r, ok := v.(*RealV)
	if !ok {
		return mkOp("fp.roundToIntegral RTN", SFP, 0, v.(*Term))
	}
	iv := p.realIv(r)
	at := p.named("fl:"+r.key(), "fl", iv, func(a *Atom) {
		a.ev = func(pt *point) (float64, bool) { return pt.real(r) }
	})
	k := p.data(func() int64 {
		// a feasible value from the solver
		t := p.fcmp("==", &RealV{N: polyAtom(at.id)}, r)
		c := p.build(t)
		res, m := p.w.solver.Query(c.body, c.names, c.kind, true, 2)
		if res == Sat {
			if f, ok := realValue(m[at.name]); ok {
				return int64(math.Floor(f))
			}
		}
		if !math.IsInf(iv.lo, 0) && !math.IsInf(iv.hi, 0) {
			return int64(math.Floor((iv.lo + iv.hi) / 2))
		}
		panic(unsupported("floor of an unconstrained symbolic value"))
	})
	// enumerate outward from k
	lo, hi := math.Floor(iv.lo), math.Floor(iv.hi)
	for d := int64(0); d < 64; d++ {
		for _, n := range []int64{k + d, k - d} {
			if d == 0 && n != k {
				continue
			}
			f := float64(n)
			if f < lo || f > hi {
				continue
			}
			t := mkAnd(p.fcmp(">=", r, f), p.fcmp("<", r, f+1))
			if p.branch(t) {
				return f
			}
			if d == 0 {
				break
			}
		}
	}
	panic(unsupported("floor range too large"))
}

// opaque introduces an uninterpreted result with bounds.
func (p *Path) opaque(key string, iv ivl, ev func(pt *point) (float64, bool), defs func(x *RealV) []*Term) value {
	a := p.named(key, "op", iv, func(a *Atom) {
		a.ev = ev
		x := &RealV{N: polyAtom(a.id)}
		if !math.IsInf(iv.lo, 0) {
			a.defs = append(a.defs, p.fcmp(">=", x, iv.lo))
		}
		if !math.IsInf(iv.hi, 0) {
			a.defs = append(a.defs, p.fcmp("<=", x, iv.hi))
		}
		if defs != nil {
			a.defs = append(a.defs, defs(x)...)
		}
	})
	return rv(polyAtom(a.id))
}

func (p *Path) fexp(v value) value {
	if f, ok := v.(float64); ok {
		return math.Exp(f)
	}
	r := v.(*RealV)
	iv := p.realIv(r)
	return p.opaque("exp:"+r.key(), ivl{math.Max(0, down(math.Exp(iv.lo))), up(math.Exp(iv.hi))}, func(pt *point) (float64, bool) {
		v, ok := pt.real(r)
		return math.Exp(v), ok
	}, func(x *RealV) []*Term {
		return []*Term{p.fcmp(">", x, 0.0), p.fcmp(">=", x, p.fadd(r, 1.0)),
			mkOr(p.fcmp(">=", r, 0.0), p.fcmp("<", x, 1.0)), mkOr(p.fcmp("!=", r, 0.0), p.fcmp("==", x, 1.0))}
	})
}

func (p *Path) fpow(a, b value) value {
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		return math.Pow(x, y)
	}
	if yc && y == math.Trunc(y) && y >= 0 && y <= 4 {
		var r value = 1.0
		for i := 0; i < int(y); i++ {
			r = p.fmul(r, a)
		}
		return r
	}
	if xc && x == 1 {
		return 1.0
	}
	ra, rb := lift(a), lift(b)
	return p.opaque("pow:"+ra.key()+"^"+rb.key(), ivl{0, math.Inf(1)}, func(pt *point) (float64, bool) {
		x, ok1 := pt.real(ra)
		y, ok2 := pt.real(rb)
		return math.Pow(x, y), ok1 && ok2
	}, func(z *RealV) []*Term {
		pos := p.fcmp(">", a, 0.0)
		return []*Term{
			mkOr(mkNot(pos), p.fcmp(">", z, 0.0)),
			mkOr(p.fcmp("!=", b, 0.0), p.fcmp("==", z, 1.0)),
			mkOr(p.fcmp("!=", b, 1.0), p.fcmp("==", z, a)),
			mkOr(p.fcmp("!=", a, 1.0), p.fcmp("==", z, 1.0)),
			mkOr(mkNot(p.fcmp("<=", a, 1.0)), p.fcmp("<", b, 0.0), p.fcmp("<=", z, 1.0)),
		}
	})
}

// fmod forks over the truncated quotient.
func (p *Path) fmod(a, b value) value {
	x, xc := a.(float64)
	y, yc := b.(float64)
	if xc && yc {
		return math.Mod(x, y)
	}
	q := p.fdiv(a, b)
	if f, ok := q.(float64); ok {
		if f != f || math.IsInf(f, 0) {
			return math.NaN()
		}
		return p.fsub(a, p.fmul(math.Trunc(f), b))
	}
	t := p.ftrunc(q)
	return p.fsub(a, p.fmul(t, b))
}

func (p *Path) ftrunc(v value) value {
	if f, ok := v.(float64); ok {
		return math.Trunc(f)
	}
	if p.branch(p.fcmp("<", v, 0.0)) {
		return p.fneg(p.ffloor(p.fneg(v)))
	}
	return p.ffloor(v)
}

// ---- bit-precise float terms ----

func (p *Path) isFP(vs ...value) bool {
	for _, v := range vs {
		if t, ok := v.(*Term); ok && t.sort == SFP {
			return true
		}
	}
	return false
}

func (p *Path) toFP(v value) *Term {
	switch v := v.(type) {
	case float64:
		return mkFPConst(v)
	case *Term:
		return v
	}
	panic(unsupported("mixed real/FP value"))
}

func (p *Path) fpOp(op string, a, b value) value {
	return mkOp(op+" RNE", SFP, 0, p.toFP(a), p.toFP(b))
}

// fpMinMax encodes Go's math.Min/Max exactly (NaN propagation, signed zeros).
func (p *Path) fpMinMax(a, b value, min bool) value {
	x, y := p.toFP(a), p.toFP(b)
	nan := mkFPConst(math.NaN())
	isnan := func(t *Term) *Term {
		if t.op == "const" {
			return mkBool(t.fp != t.fp)
		}
		return &Term{op: "fp.isNaN", args: []*Term{t}}
	}
	neg := func(t *Term) *Term { return &Term{op: "fp.isNegative", args: []*Term{t}} }
	inf := mkFPConst(math.Inf(1))
	cmp := "fp.gt"
	zeroPick := mkIteTerm(neg(x), y, x) // max: prefer +0
	if min {
		inf = mkFPConst(math.Inf(-1))
		cmp = "fp.lt"
		zeroPick = mkIteTerm(neg(x), x, y)
	}
	isinf := func(t *Term) *Term { return mkOp("=", SBool, 0, t, inf) }
	zero := func(t *Term) *Term { return &Term{op: "fp.isZero", args: []*Term{t}} }
	r := mkIteTerm(mkOp(cmp, SBool, 0, x, y), x, y)
	r = mkIteTerm(mkAnd(zero(x), zero(y)), zeroPick, r)
	r = mkIteTerm(mkOr(isnan(x), isnan(y)), nan, r)
	r = mkIteTerm(mkOr(isinf(x), isinf(y)), inf, r)
	return r
}
