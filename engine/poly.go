package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// Symbolic reals are rational functions N/D over "atoms" (symbolic inputs, square roots,
// trigonometric pairs, if-then-else values, ...). Polynomials are kept expanded, with double
// coefficients: coefficient arithmetic rounds exactly as the program's own constant arithmetic does.

// mono.key: 4 bytes per atom {id: 3 bytes big endian, exponent: 1 byte}, sorted by atom id.
type mono struct {
	key string
	c   float64
}

type Poly struct {
	t []mono // sorted by key
	k string // cached canonical key
}

var polyZero = &Poly{}

func polyConst(f float64) *Poly {
	if f == 0 {
		return polyZero
	}
	return &Poly{t: []mono{{"", f}}}
}

var polyOne = polyConst(1)

func atomKey(id int, e int) string {
	return string([]byte{byte(id >> 16), byte(id >> 8), byte(id), byte(e)})
}

func polyAtom(id int) *Poly { return &Poly{t: []mono{{atomKey(id, 1), 1}}} }

func (p *Poly) isConst() (float64, bool) {
	if len(p.t) == 0 {
		return 0, true
	}
	if len(p.t) == 1 && p.t[0].key == "" {
		return p.t[0].c, true
	}
	return 0, false
}

func (p *Poly) key() string {
	if p.k == "" {
		var b strings.Builder
		for _, m := range p.t {
			b.WriteString(m.key)
			b.WriteByte('|')
			u := math.Float64bits(m.c)
			for i := 0; i < 8; i++ {
				b.WriteByte(byte(u >> (8 * i)))
			}
		}
		p.k = b.String()
		if p.k == "" {
			p.k = "0"
		}
	}
	return p.k
}

func (p *Poly) neg() *Poly { return p.scale(-1) }

func (p *Poly) scale(r float64) *Poly {
	if r == 0 {
		return polyZero
	}
	if r == 1 {
		return p
	}
	q := &Poly{t: make([]mono, 0, len(p.t))}
	for _, m := range p.t {
		q.t = appendMono(q.t, m.key, m.c*r)
	}
	return q
}

// divc divides every coefficient by r (rounds like the program's own division would).
func (p *Poly) divc(r float64) *Poly {
	q := &Poly{t: make([]mono, 0, len(p.t))}
	for _, m := range p.t {
		q.t = appendMono(q.t, m.key, m.c/r)
	}
	return q
}

// appendMono drops terms that only an inverse of the largest double can produce (infinite mass or moment).
func appendMono(t []mono, key string, c float64) []mono {
	if key != "" && math.Abs(c) < 1e-290 {
		return t
	}
	if math.IsNaN(c) || math.IsInf(c, 0) {
		panic(unsupported("coefficient overflow"))
	}
	return append(t, mono{key, c})
}

const cancelEps = 1.0 / (1 << 46)

// addCoef adds two coefficients; a result that is pure rounding noise is zero.
func addCoef(a, b float64) float64 {
	c := a + b
	if math.Abs(c) < cancelEps*math.Max(math.Abs(a), math.Abs(b)) {
		return 0
	}
	return c
}

func polyAdd(a, b *Poly) *Poly {
	if len(a.t) == 0 {
		return b
	}
	if len(b.t) == 0 {
		return a
	}
	q := &Poly{t: make([]mono, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) && j < len(b.t) {
		x, y := &a.t[i], &b.t[j]
		if x.key == y.key {
			c := addCoef(x.c, y.c)
			if c != 0 {
				q.t = append(q.t, mono{x.key, c})
			}
			i++
			j++
		} else if x.key < y.key {
			q.t = append(q.t, *x)
			i++
		} else {
			q.t = append(q.t, *y)
			j++
		}
	}
	q.t = append(q.t, a.t[i:]...)
	q.t = append(q.t, b.t[j:]...)
	return q
}

func polySub(a, b *Poly) *Poly { return polyAdd(a, b.neg()) }

func keyMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		x, y := a[i:i+3], b[j:j+3]
		if x == y {
			out = append(out, x...)
			e := int(a[i+3]) + int(b[j+3])
			if e > 250 {
				panic(unsupported("polynomial degree overflow"))
			}
			out = append(out, byte(e))
			i += 4
			j += 4
		} else if x < y {
			out = append(out, a[i:i+4]...)
			i += 4
		} else {
			out = append(out, b[j:j+4]...)
			j += 4
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return string(out)
}

type coefAcc struct{ c, m float64 } // running sum, max magnitude

func polyFromAcc(m map[string]*coefAcc) *Poly {
	q := &Poly{t: make([]mono, 0, len(m))}
	for k, c := range m {
		if math.Abs(c.c) > cancelEps*c.m {
			q.t = appendMono(q.t, k, c.c)
		}
	}
	sort.Slice(q.t, func(i, j int) bool { return q.t[i].key < q.t[j].key })
	return q
}

func accAdd(m map[string]*coefAcc, k string, v float64) {
	a := math.Abs(v)
	if c, ok := m[k]; ok {
		c.c += v
		if a > c.m {
			c.m = a
		}
	} else {
		m[k] = &coefAcc{v, a}
	}
}

const polyCap = 20000

func polyMulRaw(a, b *Poly) *Poly {
	if len(a.t) == 0 || len(b.t) == 0 {
		return polyZero
	}
	if c, ok := a.isConst(); ok {
		return b.scale(c)
	}
	if c, ok := b.isConst(); ok {
		return a.scale(c)
	}
	if len(a.t)*len(b.t) > 50*polyCap {
		panic(unsupported("polynomial too large"))
	}
	m := make(map[string]*coefAcc, len(a.t)*len(b.t))
	for i := range a.t {
		for j := range b.t {
			accAdd(m, keyMul(a.t[i].key, b.t[j].key), a.t[i].c*b.t[j].c)
		}
	}
	return polyFromAcc(m)
}

func keyAtom(k string, i int) (id, e int) {
	return int(k[i])<<16 | int(k[i+1])<<8 | int(k[i+2]), int(k[i+3])
}

func keyDegree(k string) int {
	s := 0
	for i := 0; i < len(k); i += 4 {
		s += int(k[i+3])
	}
	return s
}

func (p *Poly) degree() int {
	d := 0
	for _, m := range p.t {
		if s := keyDegree(m.key); s > d {
			d = s
		}
	}
	return d
}

func (p *Poly) atoms(set map[int]bool) {
	for _, m := range p.t {
		for i := 0; i < len(m.key); i += 4 {
			id, _ := keyAtom(m.key, i)
			set[id] = true
		}
	}
}

// lead returns the coefficient used to normalise the polynomial's scale.
func (p *Poly) lead() float64 {
	if len(p.t) == 0 {
		return 0
	}
	return p.t[len(p.t)-1].c
}

// ---- SMT printing ----

func smtReal(f float64) string {
	neg := f < 0
	if neg {
		f = -f
	}
	var s string
	if f == math.Trunc(f) && f < 1e18 {
		s = strconv.FormatFloat(f, 'f', 1, 64)
	} else {
		e := strconv.FormatFloat(f, 'e', -1, 64) // d.ddde±xx
		i := strings.IndexByte(e, 'e')
		mant, ex := e[:i], 0
		ex, _ = strconv.Atoi(e[i+1:])
		digits := strings.Replace(mant, ".", "", 1)
		point := 1 + ex
		switch {
		case point <= 0:
			s = "0." + strings.Repeat("0", -point) + digits
		case point >= len(digits):
			s = digits + strings.Repeat("0", point-len(digits)) + ".0"
		default:
			s = digits[:point] + "." + digits[point:]
		}
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (p *Poly) smt(name func(int) string) string {
	if len(p.t) == 0 {
		return "0.0"
	}
	var parts []string
	for _, m := range p.t {
		var fs []string
		if m.c != 1 || m.key == "" {
			fs = append(fs, smtReal(m.c))
		}
		for i := 0; i < len(m.key); i += 4 {
			id, e := keyAtom(m.key, i)
			for ; e > 0; e-- {
				fs = append(fs, name(id))
			}
		}
		if len(fs) == 1 {
			parts = append(parts, fs[0])
		} else {
			parts = append(parts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// ---- interval arithmetic (outward rounding by nextafter) ----

type ivl struct{ lo, hi float64 }

var ivAll = ivl{math.Inf(-1), math.Inf(1)}

func down(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }
func up(f float64) float64   { return math.Nextafter(f, math.Inf(1)) }

func ivAdd(a, b ivl) ivl {
	r := ivl{down(a.lo + b.lo), up(a.hi + b.hi)}
	if r.lo != r.lo {
		r.lo = math.Inf(-1)
	}
	if r.hi != r.hi {
		r.hi = math.Inf(1)
	}
	return r
}

func mulz(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	return a * b
}

func ivMul(a, b ivl) ivl {
	p := [4]float64{mulz(a.lo, b.lo), mulz(a.lo, b.hi), mulz(a.hi, b.lo), mulz(a.hi, b.hi)}
	r := ivl{p[0], p[0]}
	for _, x := range p[1:] {
		if x < r.lo {
			r.lo = x
		}
		if x > r.hi {
			r.hi = x
		}
	}
	if r.lo != 0 {
		r.lo = down(r.lo)
	}
	if r.hi != 0 {
		r.hi = up(r.hi)
	}
	return r
}

func ivPow(a ivl, e int) ivl {
	if e == 0 {
		return ivl{1, 1}
	}
	if e%2 == 0 {
		lo, hi := math.Abs(a.lo), math.Abs(a.hi)
		if lo > hi {
			lo, hi = hi, lo
		}
		if a.lo <= 0 && a.hi >= 0 {
			lo = 0
		}
		a = ivl{lo, hi}
	}
	r := a
	for i := 1; i < e; i++ {
		r = ivMul(r, a)
	}
	if e%2 == 0 && r.lo < 0 {
		r.lo = 0
	}
	return r
}
