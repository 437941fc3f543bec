package cp

// VH_C09_circle: circles of any radius anywhere.
//
//verif:bounds centre offset in [-10,10] under 2 body placements, radius in [0,10], point in [-50,50] (centre included)
func VH_C09_circle() {
	b := NewBody(1, 1)
	o, r := uVec("o", 10), vFloat("r", 0, 10)
	s := NewCircle(b, r, o)
	pos, a := Vector{3, -5}, []float64{0, 0.7}[vChoose("angle", 2)]
	b.SetPosition(pos)
	b.SetAngle(a)
	s.CacheBB()
	c := uAdd(pos, uRot(o, a))
	p := uVec("p", 50)
	in := s.PointQuery(p)
	vAssert(in.Shape == s, "reports the shape")
	e := in.Distance + r
	d := uSub(p, c)
	vAssert(e >= -1e-9, "distance to the centre is not negative")
	vClose(e*e, uDot(d, d), 1e-4, "distance")
	g := in.Gradient
	vClose(uDot(g, g), 1, 1e-6, "unit gradient")
	vAssert(uDot(g, d) >= e-1e-4, "gradient points away from the centre")
	uClose(in.Point, uAdd(c, uMul(g, r)), 1e-4, "point on the surface")
	uClose(uSub(p, uMul(g, in.Distance)), in.Point, 1e-3, "surface point lies at the distance along the gradient")
	vCover("end")
}

// VH_C09_circlecentre: exactly the centre.
//
//verif:bounds any offset, radius in [0,10]
func VH_C09_circlecentre() {
	b := NewBody(1, 1)
	o, r := uVec("o", 10), vFloat("r", 0, 10)
	s := NewCircle(b, r, o)
	s.CacheBB()
	in := s.PointQuery(o)
	vClose(in.Distance, -r, 1e-9, "distance at the centre")
	g := in.Gradient
	vClose(uDot(g, g), 1, 1e-6, "unit gradient at the centre")
	q := uSub(in.Point, o)
	vClose(uDot(q, q), r*r, 1e-6, "surface point for the centre")
	vCover("end")
}

func c09Place(b *Body) (pos Vector, a float64) {
	switch vChoose("place", 3) {
	case 0:
		return
	case 1:
		pos, a = Vector{3, -5}, 0.7
	case 2:
		pos, a = Vector{-1, 2}, 4
	}
	b.SetPosition(pos)
	b.SetAngle(a)
	return
}

// VH_C09_segment: segments with and without radius.
//
//verif:bounds 3 concrete segments under 3 placements, radius in [0,5], point in [-20,20]
func VH_C09_segment() {
	ends := [][2]Vector{{{-2, -2}, {4, 6}}, {{1, 0}, {1, 5}}, {{3, 1}, {-6, 1}}}[vChoose("seg", 3)]
	b := NewBody(1, 1)
	r := vFloat("r", 0, 5)
	s := NewSegment(b, ends[0], ends[1], r)
	pos, a := c09Place(b)
	s.CacheBB()
	x, y := uAdd(pos, uRot(ends[0], a)), uAdd(pos, uRot(ends[1], a))
	p := uVec("p", 20)
	c09SegCheck(s, x, y, r, p)
}

// VH_C09_segmenton: points exactly on the core segment.
//
//verif:bounds end points in [-10,10] at least 0.1 apart, radius in [0,5], every fraction; body rotated by 0.7
func VH_C09_segmenton() {
	x, e := uVec("x", 10), uVec("e", 10)
	vAssume(uDot(e, e) >= 0.01)
	b := NewBody(1, 1)
	r := vFloat("r", 0, 5)
	s := NewSegment(b, x, uAdd(x, e), r)
	b.SetAngle([]float64{0, 0.7}[vChoose("angle", 2)])
	a := b.Angle()
	s.CacheBB()
	t := vFloat("t", 0, 1)
	p := uRot(uAdd(x, uMul(e, t)), a)
	in := s.PointQuery(p)
	vClose(in.Distance, -r, 1e-5, "distance on the core")
	g := in.Gradient
	vClose(uDot(g, g), 1, 1e-6, "unit gradient on the core")
	vClose(uDot(g, uRot(e, a)), 0, 1e-5, "gradient on the core is perpendicular to the segment")
	w := uSub(p, in.Point)
	vClose(uDot(w, w), r*r, 1e-4, "surface point for a point on the core")
	vCover("end")
}

func c09SegCheck(s *Shape, x, y Vector, r float64, p Vector) {
	in := s.PointQuery(p)
	vAssert(in.Shape == s, "reports the shape")
	e := uSub(y, x)
	t := uDot(uSub(p, x), e) / uDot(e, e)
	q := x
	if t >= 1 {
		q = y
	} else if t > 0 {
		q = uAdd(x, uMul(e, t))
	}
	d := uSub(p, q)
	k := in.Distance + r
	vAssert(k >= -1e-9, "distance to the core is not negative")
	vClose(k*k, uDot(d, d), 1e-4, "distance")
	g := in.Gradient
	vClose(uDot(g, g), 1, 1e-6, "unit gradient")
	vAssert(uDot(g, d) >= k-1e-4, "gradient points away from the core")
	uClose(in.Point, uAdd(q, uMul(g, r)), 1e-4, "point on the surface")
	uClose(uSub(p, uMul(g, in.Distance)), in.Point, 1e-3, "surface point lies at the distance along the gradient")
	if k <= 1e-5 {
		vClose(uDot(g, e), 0, 1e-5, "gradient on the core is the normal")
		vCover("core")
	} else {
		vCover("off core")
	}
}

var c09Polys = [][]Vector{
	{{1, -2}, {1, 2}, {-1, 2}, {-1, -2}},
	{{0, 0}, {4, 1}, {1, 3}},
	{{0, 0}, {4, -1}, {6, 3}, {2, 6}, {-1, 3}},
}

// VH_C09_poly: convex polygons with and without radius.
//
//verif:bounds 3 concrete polygons (4, 3, 5 vertices) under 3 placements, radius in [0,5], point in [-20,20]
func VH_C09_poly() {
	k := vChoose("poly", 3)
	verts := append([]Vector{}, c09Polys[k]...)
	b := NewBody(1, 1)
	r := vFloat("r", 0, 5)
	s := NewPolyShape(b, len(verts), verts, NewTransformIdentity(), r)
	pos, a := c09Place(b)
	s.CacheBB()
	w := make([]Vector, len(verts))
	for i, v := range c09Polys[k] {
		w[i] = uAdd(pos, uRot(v, a))
	}
	c09PolyCheck(s, w, r, uVec("p", 20))
}

// VH_C09_box: boxes of any size in their own frame.
//
//verif:bounds half sizes in [0.5,5], radius in [0,5], point in [-20,20]
func VH_C09_box() {
	b := NewBody(1, 1)
	hw, hh, r := vFloat("hw", 0.5, 5), vFloat("hh", 0.5, 5), vFloat("r", 0, 5)
	s := NewBox(b, 2*hw, 2*hh, r)
	s.CacheBB()
	p := uVec("p", 20)
	in := s.PointQuery(p)
	// signed distance to a box
	dx, dy := uAbs(p.X)-hw, uAbs(p.Y)-hh
	k := in.Distance + r
	if dx > 0 && dy > 0 {
		vAssert(k >= -1e-9, "outside a corner is positive")
		vClose(k*k, dx*dx+dy*dy, 1e-4, "corner distance")
		vCover("corner")
	} else {
		vClose(k, uMax(dx, dy), 1e-4, "side or inside distance")
		vCover("side")
	}
	g := in.Gradient
	vClose(uDot(g, g), 1, 1e-6, "unit gradient")
	uClose(uSub(p, uMul(g, in.Distance)), in.Point, 1e-3, "surface point lies at the distance along the gradient")
}

// VH_C09_polyon: points exactly on the polygon's boundary (vertices included).
//
//verif:bounds 3 concrete polygons, every boundary point, radius in [0,5]
func VH_C09_polyon() {
	k := vChoose("poly", 3)
	v := c09Polys[k]
	b := NewBody(1, 1)
	r := vFloat("r", 0, 5)
	s := NewPolyShape(b, len(v), append([]Vector{}, v...), NewTransformIdentity(), r)
	s.CacheBB()
	i := vChoose("edge", len(v))
	x, y := v[i], v[(i+1)%len(v)]
	t := vFloat("t", 0, 1)
	c09PolyCheck(s, v, r, Vector{x.X + (y.X-x.X)*t, x.Y + (y.Y-x.Y)*t})
}

func c09PolyCheck(s *Shape, v []Vector, r float64, p Vector) {
	in := s.PointQuery(p)
	vAssert(in.Shape == s, "reports the shape")
	n := len(v)
	inside := true
	for i := range v {
		e := uSub(v[(i+1)%n], v[i])
		inside = vAnd(inside, uCross(e, uSub(p, v[i])) >= 0)
	}
	k := in.Distance + r
	g := in.Gradient
	q := uSub(in.Point, uMul(g, r))
	vClose(uDot(g, g), 1, 1e-6, "unit gradient")
	uClose(uSub(p, uMul(g, in.Distance)), in.Point, 1e-3, "surface point lies at the distance along the gradient")
	on := []bool{}
	for i := range v {
		e := uSub(v[(i+1)%n], v[i])
		l := e.Length()
		h := uCross(e, uSub(q, v[i])) / l
		vAssert(h >= -1e-4, "core point is not outside the polygon")
		on = append(on, h <= 1e-4)
	}
	vAssert(vOr(on...), "core point is on the boundary")
	if inside {
		eq := []bool{}
		for i := range v {
			e := uSub(v[(i+1)%n], v[i])
			h := uCross(e, uSub(p, v[i])) / e.Length()
			vAssert(-k <= h+1e-4, "no side is nearer than reported")
			eq = append(eq, -k >= h-1e-4)
		}
		vAssert(vOr(eq...), "the reported distance is that of a side")
		vCover("inside")
		return
	}
	vAssert(k >= -1e-5, "positive outside")
	// the core point q is a point of the polygon at distance k; optimality: the polygon lies beyond the line through q
	// perpendicular to g
	if k >= 0.05 { // nearer, rounding decides which feature is nearest
		for i := range v {
			vAssert(uDot(g, uSub(v[i], q)) <= 1e-4, "no point of the polygon is nearer")
		}
	}
	vCover("outside")
}
