package cp

import "math"

// c13Nearest gives the nearest points of two disjoint cores, or overlap and the least penetration (the largest
// separation along the normals of both cores' edges, which is negative).
func c13Nearest(va, vb []Vector) (p, q Vector, overlap bool, sep float64) {
	sep = math.Inf(-1)
	axes := func(x, y []Vector) {
		if len(x) < 2 {
			return
		}
		for i := range x {
			e := uSub(x[(i+1)%len(x)], x[i])
			l := math.Sqrt(uDot(e, e))
			n := Vector{e.Y / l, -e.X / l}
			s := uDot(n, uSub(y[0], x[i]))
			for _, w := range y[1:] {
				if k := uDot(n, uSub(w, x[i])); k < s {
					s = k
				}
			}
			if s > sep {
				sep = s
			}
		}
	}
	axes(va, vb)
	axes(vb, va)
	if sep <= 0 {
		return p, q, true, sep
	}
	best := math.Inf(1)
	near := func(x, y []Vector, swap bool) {
		for _, w := range x {
			for i := range y {
				z := y[0]
				if len(y) > 1 {
					z = uSegNearest(y[i], y[(i+1)%len(y)], w)
				}
				d := uSub(z, w)
				if k := uDot(d, d); k < best {
					best = k
					p, q = w, z
					if swap {
						p, q = z, w
					}
				}
			}
		}
	}
	near(va, vb, false)
	near(vb, va, true)
	return p, q, false, sep
}

func c13Deepest(set ContactPointSet) float64 {
	m := 0.0
	for i := 0; i < set.Count; i++ {
		m = uMin(m, set.Points[i].Distance)
	}
	return m
}

func c13Check(s, t *Shape) {
	va, vb := uEnds(s), uEnds(t)
	p, q, overlap, sep := c13Nearest(va, vb)
	if len(va) == 2 && !overlap {
		// a segment exactly along the normal: see VH_C12_collinear
		k := uCross(uSub(va[1], va[0]), uSub(q, p))
		vAssume(vOr(k >= 1e-3, k <= -1e-3))
	}
	set := ShapesCollide(s, t)
	uSound(s, t, set, overlap)
	if overlap {
		if sep <= -1e-3 {
			vAssert(set.Count > 0, "overlapping shapes have a contact")
			vClose(c13Deepest(set), sep-uRad(s)-uRad(t), 1e-4, "depth is the least penetration")
			vCover("overlap")
		}
	} else {
		uDist(s, t, set, p, q)
	}
	uSwap(s, t, set, !overlap)
}

func c13Polys() [][]Vector {
	return [][]Vector{
		{{-2, -1}, {3, 0}, {0, 2}},
		{{1, -2}, {1.5, 2}, {-1, 2}, {-1, -2}},
		{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}},
	}
}

func c13Poly(body *Body, k int, r float64) *Shape {
	v := c13Polys()[k]
	return NewPolyShapeRaw(body, len(v), append([]Vector{}, v...), r)
}

func c13Place(b *Body) {
	ys := []float64{-0.7, 2.3, -3.1, 0.4}
	n := 2
	if vThorough() {
		n = 4
	}
	b.SetPosition(Vector{vFloat("x", -8, 8), ys[vChoose("y", n)]})
}

// VH_C13_polypoly: two polygons.
//
//verif:bounds first of 2 polygons (3 and 4 vertices), second of 3 (boxes and shared edge directions included), at angle 0 or 0.7; radii {0,0.5}x{0.25}; x in [-8,8], 2 y (thorough 4); both orders
//verif:time 150
func VH_C13_polypoly() {
	a, b := NewBody(1, 1), NewBody(1, 1)
	s := c13Poly(a, vChoose("first", 2), []float64{0, 0.5}[vChoose("r", 2)])
	t := c13Poly(b, vChoose("second", 3), 0.25)
	if vChoose("turned", 2) == 1 {
		b.SetAngle(0.7)
	}
	c13Place(b)
	s.CacheBB()
	t.CacheBB()
	c13Check(s, t)
}

// VH_C13_segpoly: a segment and a polygon.
//
//verif:bounds 3 segments of radius {0,0.5}, 3 polygons of radius 0.25, at angle 0 or 0.7; x in [-8,8], 2 y (thorough 4); both orders
//verif:time 150
func VH_C13_segpoly() {
	a, b := NewBody(1, 1), NewBody(1, 1)
	e := [][2]Vector{{{-2, 0}, {3, 1}}, {{0, -2}, {-0.5, 2}}, {{2, 0}, {-2, 0}}}[vChoose("seg", 3)]
	s := NewSegment(a, e[0], e[1], []float64{0, 0.5}[vChoose("r", 2)])
	t := c13Poly(b, vChoose("poly", 3), 0.25)
	if vChoose("turned", 2) == 1 {
		b.SetAngle(0.7)
	}
	c13Place(b)
	s.CacheBB()
	t.CacheBB()
	c13Check(s, t)
}

// VH_C13_circlepoly: a circle and a polygon.
//
//verif:bounds circles of radius {0.5,2}, 3 polygons of radius {0,0.5}, at angle 0 or 0.7; x in [-8,8], 2 y (thorough 4); both orders
//verif:time 150
func VH_C13_circlepoly() {
	a, b := NewBody(1, 1), NewBody(1, 1)
	s := NewCircle(a, []float64{0.5, 2}[vChoose("cr", 2)], Vector{0.1, 0})
	t := c13Poly(b, vChoose("poly", 3), []float64{0, 0.5}[vChoose("r", 2)])
	if vChoose("turned", 2) == 1 {
		b.SetAngle(0.7)
	}
	c13Place(b)
	s.CacheBB()
	t.CacheBB()
	c13Check(s, t)
}

// VH_C13_warm: contacts do not depend on the simplex cached from another placement.
//
//verif:bounds polygon/polygon, segment/polygon, segment/segment, circle/polygon of radius 0.25; cached at 6 placements, then any x in [-8,8], 2 y (thorough 4)
//verif:time 100
func VH_C13_warm() {
	a, b := NewBody(1, 1), NewBody(1, 1)
	var s *Shape
	t := c13Poly(b, 1, 0.25)
	switch vChoose("kind", 4) {
	case 0:
		s = c13Poly(a, 0, 0.25)
	case 1:
		s = NewSegment(a, Vector{-2, 0}, Vector{3, 1}, 0.25)
	case 2:
		s = NewSegment(a, Vector{-2, 0}, Vector{3, 1}, 0.25)
		t = NewSegment(b, Vector{0, -2}, Vector{-0.5, 2}, 0.25)
	case 3:
		s = NewCircle(a, 1, Vector{})
	}
	s.CacheBB()
	b.SetPosition([]Vector{{-5, 0.5}, {6, -1}, {0.2, 5}, {-0.3, -6}, {0.5, 0.3}, {2.5, -0.5}}[vChoose("old", 6)])
	t.CacheBB()
	id := Collide(s, t, 0, make([]Contact, MAX_CONTACTS_PER_ARBITER)).collisionId
	c13Place(b)
	t.CacheBB()
	x := Collide(s, t, 0, make([]Contact, MAX_CONTACTS_PER_ARBITER))
	y := Collide(s, t, id, make([]Contact, MAX_CONTACTS_PER_ARBITER))
	d := func(c CollisionInfo) float64 {
		m := 1.0
		for i := 0; i < c.count; i++ {
			m = uMin(m, uDot(uSub(c.arr[i].r2, c.arr[i].r1), c.n))
		}
		return m
	}
	dx, dy := d(x), d(y)
	vAssert(vOr((x.count > 0) == (y.count > 0), vAnd(dx >= -1e-4, dy >= -1e-4)), "contact does not depend on the cache")
	if x.count > 0 && y.count > 0 {
		vClose(dx, dy, 1e-4, "depth does not depend on the cache")
		vCover("contact")
	}
}

// VH_C13_round: deeply overlapping polygons of many vertices.
//
//verif:bounds regular polygons of 8, 12 or 20 vertices of radius 4 with each other, turned by 0 or 0.1; the second at any distance in [1,2] (thorough [0,3]) of the first in 3 directions
//verif:time 200
func VH_C13_round() {
	a, b := NewBody(1, 1), NewBody(1, 1)
	n := []int{8, 12, 20}[vChoose("n", 3)]
	round := func(body *Body, turn float64) *Shape {
		v := make([]Vector, n)
		for i := range v {
			x := turn + 2*math.Pi*float64(i)/float64(n)
			v[i] = Vector{4 * math.Cos(x), 4 * math.Sin(x)}
		}
		return NewPolyShapeRaw(body, n, v, 0)
	}
	s, t := round(a, 0), round(b, []float64{0, 0.1}[vChoose("turn", 2)])
	lo, hi := 1.0, 2.0
	if vThorough() {
		lo, hi = 0, 3
	}
	d := vFloat("d", lo, hi)
	dir := []Vector{{1, 0}, {0.6, 0.8}, {-0.28, -0.96}}[vChoose("dir", 3)]
	b.SetPosition(uMul(dir, d))
	s.CacheBB()
	t.CacheBB()
	set := ShapesCollide(s, t)
	// the penetration: along the normal of an edge of either
	va, vb := uEnds(s), uEnds(t)
	sep := math.Inf(-1)
	for k, x := range [][]Vector{va, vb} {
		y := [][]Vector{vb, va}[k]
		for i := range x {
			e := uSub(s.Class.(*PolyShape).Vert((i+1)%n), s.Class.(*PolyShape).Vert(i))
			if k == 1 {
				e = uSub(t.Class.(*PolyShape).Vert((i+1)%n), t.Class.(*PolyShape).Vert(i))
			}
			l := math.Sqrt(uDot(e, e))
			m := Vector{e.Y / l, -e.X / l}
			least := math.Inf(1)
			for _, w := range y {
				least = uMin(least, uDot(m, uSub(w, x[i])))
			}
			sep = uMax(sep, least)
		}
	}
	vAssert(set.Count > 0, "overlapping shapes have a contact")
	vClose(c13Deepest(set), sep, 1e-4, "depth is the least penetration")
	vClose(uDot(set.Normal, set.Normal), 1, 1e-9, "the normal is a unit vector")
	vCover("overlap")
}
