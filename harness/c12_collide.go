package cp

import "math"

// Contacts of circles and segments. A core is the center of a circle or the line of a segment; all statements are about
// cores and radii.

// VH_C12_circles: two circles.
//
//verif:bounds radii in [0.1,5], any relative position in [-12,12]^2 (coincident included), both orders
func VH_C12_circles() {
	r1, r2 := vFloat("r1", 0.1, 5), vFloat("r2", 0.1, 5)
	a, b := NewBody(1, 1), NewBody(1, 1)
	p := uVec("p", 12)
	a.SetPosition(Vector{1, 2})
	b.SetPosition(uAdd(Vector{1, 2}, p))
	s, t := NewCircle(a, r1, Vector{}), NewCircle(b, r2, Vector{})
	s.CacheBB()
	t.CacheBB()
	set := ShapesCollide(s, t)
	R := r1 + r2
	k := uDot(p, p)
	vAssert(vImplies(k <= R*R-1e-6, set.Count == 1), "overlapping circles have one contact")
	vAssert(vImplies(k >= R*R+1e-6, set.Count == 0), "separated circles have none")
	if set.Count > 0 {
		n := set.Normal
		vClose(uDot(n, n), 1, 1e-6, "unit normal")
		q := set.Points[0]
		uClose(q.PointA, uAdd(Vector{1, 2}, uMul(n, r1)), 1e-6, "first point is on the first circle")
		uClose(q.PointB, uSub(uAdd(Vector{1, 2}, p), uMul(n, r2)), 1e-6, "second point is on the second circle")
		if k >= 1e-2 {
			vClose(uCross(n, p), 0, 1e-5, "normal is along the centers")
			vAssert(uDot(n, p) >= 0, "normal points from the first to the second")
			e := q.Distance + R
			vAssert(e >= -1e-6, "depth is at most the sum of the radii")
			vClose(e*e, k, 1e-4, "depth equals the overlap")
		}
		o := ShapesCollide(t, s)
		vAssert(o.Count == 1, "the order of the circles does not matter")
		vClose(o.Points[0].Distance, q.Distance, 1e-6, "swapped depth")
		if k >= 1e-2 {
			uClose(o.Normal, uMul(n, -1), 1e-6, "swapped normal")
			uClose(o.Points[0].PointA, q.PointB, 1e-6, "swapped points")
			uClose(o.Points[0].PointB, q.PointA, 1e-6, "swapped points")
		}
		vCover("contact")
	}
}

// VH_C12_circleseg: a circle and a segment.
//
//verif:bounds 3 concrete segments under 2 placements with radius {0,0.5}, circle radius {0.5,2} center x in [-8,8], 5 y, both orders
//verif:time 100
func VH_C12_circleseg() {
	e := [][2]Vector{{{-2, -1}, {3, 2}}, {{1, -3}, {1, 3}}, {{2, 0}, {-2, 0}}}[vChoose("seg", 3)]
	a, b := NewBody(1, 1), NewBody(1, 1)
	t := NewSegment(b, e[0], e[1], []float64{0, 0.5}[vChoose("r", 2)])
	if vChoose("place", 2) == 1 {
		b.SetPosition(Vector{1, -1})
		b.SetAngle(2)
	}
	s := NewCircle(a, []float64{0.5, 2}[vChoose("cr", 2)], Vector{})
	p := Vector{vFloat("px", -8, 8), []float64{-3.25, -1.3, 0, 0.4, 2.1}[vChoose("py", 5)]}
	a.SetPosition(p)
	s.CacheBB()
	t.CacheBB()
	x, y := b.LocalToWorld(e[0]), b.LocalToWorld(e[1])
	q := uSegNearest(x, y, p)
	// the direction is arbitrary where the center is on the line
	w := uSub(p, q)
	vAssume(uDot(w, w) >= 1e-4)
	set := ShapesCollide(s, t)
	uSound(s, t, set, false)
	uDist(s, t, set, p, q)
	uSwap(s, t, set, true)
}

// c12SegSeg gives the nearest points of two segments (cores apart) by the definition: the best of the four ends.
func c12SegSeg(va, vb []Vector) (p, q Vector, cross bool) {
	e, f := uSub(va[1], va[0]), uSub(vb[1], vb[0])
	s1, s2 := uCross(e, uSub(vb[0], va[0])), uCross(e, uSub(vb[1], va[0]))
	// An end on the line through the other segment, beyond its ends: see VH_C12_collinear.
	for _, k := range []float64{s1, s2} {
		vAssume(vOr(k >= 1e-2, k <= -1e-2))
	}
	s3, s4 := uCross(f, uSub(va[0], vb[0])), uCross(f, uSub(va[1], vb[0]))
	for _, k := range []float64{s3, s4} {
		vAssume(vOr(k >= 1e-2, k <= -1e-2))
	}
	if s1*s2 <= 0 && s3*s4 <= 0 {
		return p, q, true
	}
	best := 0.0
	for i := 0; i < 4; i++ {
		var x, y Vector
		if i < 2 {
			x = va[i]
			y = uSegNearest(vb[0], vb[1], x)
		} else {
			y = vb[i-2]
			x = uSegNearest(va[0], va[1], y)
		}
		d := uSub(x, y)
		if k := uDot(d, d); i == 0 || k < best {
			p, q, best = x, y, k
		}
	}
	return p, q, false
}

// VH_C12_segseg: two segments.
//
//verif:bounds first segment (-2,0)-(3,1) on a body turned by 0.5 or 3 (thorough: -2), second of 4 orientations (parallel and reversed included), radii {0,0.5}x{0.25}, x in [-8,8], 4 y; both orders
//verif:time 150
func VH_C12_segseg() {
	a, b := NewBody(1, 1), NewBody(1, 1)
	r := vChoose("r", 2)
	// the body of the first is turned
	turn := r
	if vThorough() {
		turn = vChoose("turn", 3)
	}
	a.SetAngle([]float64{0.5, 3, -2}[turn])
	s := NewSegment(a, a.WorldToLocal(Vector{-2, 0}), a.WorldToLocal(Vector{3, 1}), []float64{0, 0.5}[r])
	e := [][2]Vector{{{-1, 2}, {1, -1}}, {{2, 1}, {-3, 0}}, {{0, -1}, {0, 2}}, {{-2, 0}, {2, 0}}}[vChoose("seg", 4)]
	t := NewSegment(b, e[0], e[1], 0.25)
	b.SetPosition(Vector{vFloat("x", -8, 8), []float64{-2.6, -0.3, 0.7, 1.9}[vChoose("y", 4)]})
	s.CacheBB()
	t.CacheBB()
	p, q, cross := c12SegSeg(uEnds(s), uEnds(t))
	set := ShapesCollide(s, t)
	uSound(s, t, set, cross)
	if cross {
		vAssert(set.Count > 0, "crossing segments have a contact")
		vCover("crossing")
	} else {
		uDist(s, t, set, p, q)
	}
	uSwap(s, t, set, !cross)
}

// VH_C12_collinear: segments along one line.
//
//verif:bounds segments (0,0)-(3,0) and (0,0)-(2,0) or (2,0)-(0,0) moved by x in [-12,12] and y 0; the first on a body as it is or turned by half; radii {0,0.5}x{0.25}
func VH_C12_collinear() {
	a, b := NewBody(1, 1), NewBody(1, 1)
	a.SetAngle([]float64{0, math.Pi}[vChoose("turn", 2)])
	s := NewSegment(a, a.WorldToLocal(Vector{0, 0}), a.WorldToLocal(Vector{3, 0}), []float64{0, 0.5}[vChoose("r", 2)])
	e := [][2]Vector{{{0, 0}, {2, 0}}, {{2, 0}, {0, 0}}}[vChoose("seg", 2)]
	t := NewSegment(b, e[0], e[1], 0.25)
	x := vFloat("x", -12, 12)
	b.SetPosition(Vector{x, 0})
	s.CacheBB()
	t.CacheBB()
	R := uRad(s) + uRad(t)
	set := ShapesCollide(s, t)
	if x >= 3+R+1e-3 || x <= -2-R-1e-3 {
		vAssert(set.Count == 0, "separated shapes have no contact")
		vCover("separated")
	}
	if x <= 2.9 && x >= -1.9 {
		vAssert(set.Count > 0, "shapes with overlapping cores have a contact")
	}
	if (x >= 3.01 && x <= 3+R-1e-3) || (x <= -2.01 && x >= -2-R+1e-3) {
		vAssert(set.Count > 0, "shapes that touch end to end have a contact")
	}
}
