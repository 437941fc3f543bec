package cp

// The oracle for every shape: with R the sum of the shape's and the ray's radius and dist the distance to the core of
// the shape, a ray whose start is outside hits iff some point of it has dist <= R; then it reports the first one.

var c10Dirs = []Vector{{10, 0}, {6, 8}, {-9, 2}, {0, -12}, {-5, -12}, {3, -20}}

func c10Dir() Vector {
	n := 4
	if vThorough() {
		n = len(c10Dirs)
	}
	return c10Dirs[vChoose("dir", n)]
}

// c10Ray is any ray along one of the directions.
func c10Ray() (a, b, d Vector) {
	a = uVec("a", 12)
	d = c10Dir()
	return a, uAdd(a, d), d
}

func c10Radii() (r, r2 float64) {
	return []float64{0, 0.75, 2}[vChoose("r", 3)], []float64{0, 0.5}[vChoose("r2", 2)]
}

// c10Check: core gives the nearest core point of the shape to a point, and whether the point is inside the core.
func c10Check(s *Shape, a, b, d Vector, r, r2 float64, core func(p Vector) (Vector, bool)) {
	R := r + r2
	q, in := core(a)
	w := uSub(a, q)
	vAssume(vAnd(vNot(in), uDot(w, w) >= R*R+1e-2))
	info := SegmentQueryInfo{s, Vector{9, 9}, Vector{9, 9}, 0.5}
	hit := s.SegmentQuery(a, b, r2, &info)
	vAssert(hit == (info.Shape != nil), "verdict and shape agree")
	if !hit {
		vAssert(vAnd(info.Shape == nil, info.Alpha == 1), "a miss has fraction 1")
		uClose(info.Point, b, 0, "a miss reports the end of the ray")
	} else {
		vAssert(info.Shape == s, "hit reports the shape")
		vAssert(vAnd(info.Alpha >= -1e-9, info.Alpha <= 1+1e-9), "fraction in range")
		h := uAdd(a, uMul(d, info.Alpha))
		n := info.Normal
		vClose(uDot(n, n), 1, 1e-6, "unit normal")
		vAssert(uDot(n, d) <= 1e-6, "normal opposes the ray")
		uClose(info.Point, uSub(h, uMul(n, r2)), 1e-4, "point, fraction and radius are consistent")
		// the ray's center at the hit is at distance R along the normal from a core point
		c := uSub(h, uMul(n, R))
		q, _ := core(h)
		if R > 0 {
			uClose(q, c, 1e-3, "hit is on the surface along the normal")
		} else {
			uClose(q, h, 1e-3, "hit is on the surface")
		}
		vCover("hit")
	}
	// The shapes are convex, so the only surface point of the ray with an opposing normal is the first one. It remains
	// that a missing ray has no point well inside the swollen shape.
	if R > 0 && !hit {
		var f float64
		if c, ok := s.Class.(*Circle); ok {
			// the closest approach
			f = uMax(0, uMin(1, uDot(uSub(c.TransformC(), a), d)/uDot(d, d)))
		} else {
			f = vFloat("f", 0, 1)
		}
		p := uAdd(a, uMul(d, f))
		q, in := core(p)
		w := uSub(p, q)
		vAssert(vNot(vOr(in, uDot(w, w) <= R*R-1e-2)), "a ray through the shape hits")
		vCover("miss")
	}
}

// VH_C10_circle: circles anywhere.
//
//verif:bounds radius {0,0.75,2}, ray radius {0,0.5} (not both 0), circle under 2 placements, ray start in [-12,12]^2, 4 directions (thorough 6) of length 9 to 20
func VH_C10_circle() {
	r, r2 := c10Radii()
	if r+r2 == 0 {
		return
	}
	body := NewBody(1, 1)
	s := NewCircle(body, r, Vector{1, 2})
	c10Place(body)
	s.CacheBB()
	c := body.LocalToWorld(Vector{1, 2})
	a, b, d := c10Ray()
	c10Check(s, a, b, d, r, r2, func(p Vector) (Vector, bool) { return c, false })
}

func c10Place(b *Body) {
	if vChoose("place", 2) == 1 {
		b.SetPosition(Vector{-1, 2})
		b.SetAngle(2.5)
	}
}

// VH_C10_segment: segments with radius.
//
//verif:bounds segment (-2,-1)-(4,1) under 2 placements, radius {0,0.75,2}, ray radius {0,0.5}; ray start x in [-12,12], 5 y; 4 directions (thorough 6) of length 9 to 20
//verif:time 200
func VH_C10_segment() {
	r, r2 := c10Radii()
	if r+r2 == 0 {
		return
	}
	body := NewBody(1, 1)
	x, y := Vector{-2, -1}, Vector{4, 1}
	s := NewSegment(body, x, y, r)
	c10Place(body)
	s.CacheBB()
	x, y = body.LocalToWorld(x), body.LocalToWorld(y)
	a := Vector{vFloat("ax", -12, 12), []float64{-7, -0.75, 0.625, 2.5, 9}[vChoose("ay", 5)]}
	d := c10Dir()
	b := uAdd(a, d)
	c10Check(s, a, b, d, r, r2, func(p Vector) (Vector, bool) { return uSegNearest(x, y, p), false })
}

// VH_C10_segcross: thin segments and thin rays, described by where they cross.
//
//verif:bounds end points in [-10,10], crossing at any fraction of both, ray direction in [-10,10]^2, both sides
func VH_C10_segcross() {
	body := NewBody(1, 1)
	x, e := uVec("x", 10), Vector{vFloat("ex", 1, 10), vFloat("ey", -10, 10)}
	y := uAdd(x, e)
	s := NewSegment(body, x, y, 0)
	s.CacheBB()
	d := uVec("d", 10)
	vAssume(vOr(uCross(e, d) >= 0.1, uCross(e, d) <= -0.1))
	t, f := vFloat("t", -1, 2), vFloat("f", 0.01, 2)
	a := uSub(uAdd(x, uMul(e, t)), uMul(d, f))
	b := uAdd(a, d)
	var info SegmentQueryInfo
	hit := s.SegmentQuery(a, b, 0, &info)
	if t >= 0.01 && t <= 0.99 && f <= 0.99 {
		vAssert(hit, "crossing is a hit")
		vClose(info.Alpha, f, 1e-6, "fraction of the crossing")
		vAssert(uDot(info.Normal, d) <= 1e-6, "normal opposes the ray")
		vClose(uDot(info.Normal, e), 0, 1e-5, "normal is perpendicular to the segment")
		uClose(info.Point, uAdd(a, uMul(d, f)), 1e-5, "point of the crossing")
		vCover("crossing")
	}
	if t <= -0.01 || t >= 1.01 || f >= 1.01 {
		vAssert(vNot(hit), "no crossing is a miss")
		vCover("no crossing")
	}
}

// VH_C10_poly: convex polygons with radius.
//
//verif:bounds 2 polygons (3 and 4 vertices), first under 2 placements; radius {0,0.75,2}, ray radius {0,0.5}; ray start x in [-12,12], 4 y; 4 directions (thorough 6) of length 9 to 20
//verif:time 250
func VH_C10_poly() {
	r, r2 := c10Radii()
	body := NewBody(1, 1)
	v := [][]Vector{{{-2, -1}, {3, 0}, {0, 2}}, {{1, -2}, {1, 2}, {-1, 2}, {-1, -2}}}[vChoose("poly", 2)]
	s := NewPolyShapeRaw(body, len(v), append([]Vector{}, v...), r)
	if len(v) == 3 {
		c10Place(body)
	}
	s.CacheBB()
	w := make([]Vector, len(v))
	for i := range v {
		w[i] = body.LocalToWorld(v[i])
	}
	a := Vector{vFloat("ax", -12, 12), []float64{-7, -0.5, 1.25, 9}[vChoose("ay", 4)]}
	d := c10Dir()
	b := uAdd(a, d)
	c10Check(s, a, b, d, r, r2, func(p Vector) (Vector, bool) { return uPolyNearest(w, p) })
}

// VH_C10_inside: rays that start inside report fraction 0.
//
//verif:bounds circle, segment, polygon of concrete size and radius 1, start anywhere within the shape, ray radius {0,0.5}
func VH_C10_inside() {
	body := NewBody(1, 1)
	var s *Shape
	switch vChoose("kind", 3) {
	case 0:
		s = NewCircle(body, 1, Vector{})
	case 1:
		s = NewSegment(body, Vector{-2, 0}, Vector{2, 1}, 1)
	case 2:
		s = NewBox(body, 4, 2, 1)
	}
	s.CacheBB()
	a := Vector{vFloat("ax", -6, 6), []float64{0.5, -0.25, 1.75}[vChoose("ay", 3)]}
	r2 := []float64{0, 0.5}[vChoose("r2", 2)]
	vAssume(s.PointQuery(a).Distance <= r2-1e-3)
	var info SegmentQueryInfo
	hit := s.SegmentQuery(a, Vector{7, -3}, r2, &info)
	vAssert(hit, "start inside is a hit")
	vAssert(vAnd(info.Shape == s, info.Alpha == 0), "start inside has fraction 0")
}
