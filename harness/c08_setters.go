package cp

// c08Same compares everything observable of a changed shape (on body b) with one built anew (on body f).
func c08Same(s, n *Shape, b, f *Body) {
	vClose(s.Mass(), n.Mass(), 1e-9, "mass")
	vClose(s.Moment(), n.Moment(), 1e-6, "moment")
	vClose(s.Area(), n.Area(), 1e-6, "area")
	uClose(s.CenterOfGravity(), n.CenterOfGravity(), 1e-9, "center of gravity")
	vClose(b.Mass(), f.Mass(), 1e-9, "body mass")
	vClose(b.Moment(), f.Moment(), 1e-6, "body moment")
	uClose(b.CenterOfGravity(), f.CenterOfGravity(), 1e-9, "body center of gravity")
	x, y := s.BB(), n.BB()
	vClose(x.L, y.L, 1e-9, "bounding box left")
	vClose(x.B, y.B, 1e-9, "bounding box bottom")
	vClose(x.R, y.R, 1e-9, "bounding box right")
	vClose(x.T, y.T, 1e-9, "bounding box top")
}

func c08Queries(s, n *Shape, p Vector) {
	i, j := s.PointQuery(p), n.PointQuery(p)
	vClose(i.Distance, j.Distance, 1e-6, "point query distance")
	uClose(i.Point, j.Point, 1e-6, "point query point")
	uClose(i.Gradient, j.Gradient, 1e-6, "point query gradient")
	var si, sj SegmentQueryInfo
	hi := s.SegmentQuery(p, Vector{30, 4}, 0.5, &si)
	hj := n.SegmentQuery(p, Vector{30, 4}, 0.5, &sj)
	vAssert(hi == hj, "segment query verdict")
	vClose(si.Alpha, sj.Alpha, 1e-6, "segment query fraction")
	uClose(si.Normal, sj.Normal, 1e-6, "segment query normal")
	uClose(si.Point, sj.Point, 1e-6, "segment query point")
}

func c08Collide(s, n, o *Shape) {
	i, j := ShapesCollide(s, o), ShapesCollide(n, o)
	vAssert(i.Count == j.Count, "number of contacts")
	if i.Count > 0 {
		uClose(i.Normal, j.Normal, 1e-6, "contact normal")
		vCover("contact")
	}
	for k := 0; k < i.Count && k < j.Count; k++ {
		uClose(i.Points[k].PointA, j.Points[k].PointA, 1e-6, "contact point a")
		uClose(i.Points[k].PointB, j.Points[k].PointB, 1e-6, "contact point b")
		vClose(i.Points[k].Distance, j.Points[k].Distance, 1e-6, "contact distance")
	}
}

// c08Bodies returns two bodies in the same place, the first in a space or not.
func c08Bodies() (b, f *Body, space *Space) {
	b, f = NewBody(0, 0), NewBody(0, 0)
	for _, x := range []*Body{b, f} {
		x.SetAngle(0.3)
	}
	if vBool("in a space") {
		space = NewSpace()
		space.AddBody(b)
	}
	return
}

// c08Add attaches both shapes; the old one with its mass already set, the new one getting the same mass.
func c08Add(s, n *Shape, b, f *Body, space *Space, m float64, change func()) {
	if space != nil {
		space.AddShape(s)
	} else {
		b.AddShape(s)
	}
	f.AddShape(n)
	s.SetMass(m)
	change()
	n.SetMass(m)
	if space != nil {
		space.ReindexShape(s)
	} else {
		s.CacheBB()
	}
	n.CacheBB()
}

// VH_C08_circle: radius changes.
//
//verif:bounds old and new radius in [0.1,5], offset in [-10,10], mass in [0.1,10], query point and partner circle in [-20,20]; in a space or not
func VH_C08_circle() {
	b, f, space := c08Bodies()
	o, r0, r1 := uVec("o", 10), vFloat("r0", 0.1, 5), vFloat("r1", 0.1, 5)
	m := vFloat("m", 0.1, 10)
	s, n := NewCircle(b, r0, o), NewCircle(f, r1, o)
	c08Add(s, n, b, f, space, m, func() { s.Class.(*Circle).SetRadius(r1) })
	vClose(s.Class.(*Circle).Radius(), r1, 0, "radius is read back")
	c08Same(s, n, b, f)
	p := uVec("p", 20)
	if vBool("queries") {
		c08Queries(s, n, p)
	} else {
		ob := NewBody(1, 1)
		other := NewCircle(ob, 2, Vector{})
		ob.SetPosition(p)
		other.CacheBB()
		c08Collide(s, n, other)
	}
}

var c08Segs = [][2]Vector{{{-2, -1}, {3, 2}}, {{4, 0}, {-1, 0.5}}, {{1, -3}, {1, 3}}, {{2, 2}, {0, -4}}}

// VH_C08_segment: end points and radius change, in any order.
//
//verif:bounds 4 pairs of old and new segments, old and new radius in [0,2], mass in [0.1,10]; queries with radii 0 and 0.5 from x in [-20,20] and 3 y; in a space or not
func VH_C08_segment() {
	b, f, space := c08Bodies()
	k := vChoose("new", 4)
	x, y := c08Segs[(k+1)%4], c08Segs[k]
	query := vBool("query")
	r0, r1, m := c08Radii(query)
	s, n := NewSegment(b, x[0], x[1], r0), NewSegment(f, y[0], y[1], r1)
	first := vBool("radius first")
	c08Add(s, n, b, f, space, m, func() {
		g := s.Class.(*Segment)
		if first {
			g.SetRadius(r1)
		}
		g.SetEndpoints(y[0], y[1])
		if !first {
			g.SetRadius(r1)
		}
	})
	g, h := s.Class.(*Segment), n.Class.(*Segment)
	vClose(g.Radius(), r1, 0, "radius is read back")
	uClose(g.A(), y[0], 0, "first end is read back")
	uClose(g.B(), y[1], 0, "second end is read back")
	uClose(g.Normal(), h.Normal(), 1e-9, "normal")
	uClose(g.TransformA(), h.TransformA(), 1e-9, "first end in the world")
	uClose(g.TransformB(), h.TransformB(), 1e-9, "second end in the world")
	c08Same(s, n, b, f)
	if query {
		c08Queries(s, n, Vector{vFloat("px", -20, 20), []float64{-3, 0.5, 2}[vChoose("py", 3)]})
	}
}

// VH_C08_segmentsym: end points change to anything.
//
//verif:bounds new end points in [-10,10] at least 1 apart in x, radius in [0,2], mass in [0.1,10], query point exactly on the core segment
func VH_C08_segmentsym() {
	b, f := NewBody(0, 0), NewBody(0, 0)
	a, d := uVec("a", 10), Vector{vFloat("dx", 1, 10), vFloat("dy", -10, 10)}
	r := vFloat("r", 0, 2)
	m := vFloat("m", 0.1, 10)
	e := uAdd(a, d)
	s, n := NewSegment(b, Vector{-1, 0}, Vector{0, 3}, r), NewSegment(f, a, e, r)
	c08Add(s, n, b, f, nil, m, func() { s.Class.(*Segment).SetEndpoints(a, e) })
	c08Same(s, n, b, f)
	g, h := s.Class.(*Segment), n.Class.(*Segment)
	uClose(g.Normal(), h.Normal(), 1e-9, "normal")
	i, j := s.PointQuery(a), n.PointQuery(a)
	vClose(i.Distance, j.Distance, 1e-6, "distance at an end")
	uClose(i.Gradient, j.Gradient, 1e-6, "gradient at an end")
}

// VH_C08_segcontact: a changed segment collides like a new one.
//
//verif:bounds 4 pairs of old and new segments, radius 0.25, partner box or circle or segment of concrete size at any x in [-8,8] and one of 3 y
//verif:time 100
func VH_C08_segcontact() {
	b, f := NewBody(0, 0), NewBody(0, 0)
	k := vChoose("new", 4)
	x, y := c08Segs[(k+1)%4], c08Segs[k]
	s, n := NewSegment(b, x[0], x[1], 0.25), NewSegment(f, y[0], y[1], 0.25)
	c08Add(s, n, b, f, nil, 1, func() { s.Class.(*Segment).SetEndpoints(y[0], y[1]) })
	c08Collide(s, n, c08Partner())
}

func c08Partner() *Shape {
	ob := NewBody(1, 1)
	var o *Shape
	switch vChoose("partner", 3) {
	case 0:
		o = NewBox(ob, 2, 1, 0)
	case 1:
		o = NewSegment(ob, Vector{-1, -0.5}, Vector{1, 1}, 0.25)
	case 2:
		o = NewCircle(ob, 1, Vector{})
	}
	ob.SetPosition(Vector{vFloat("px", -8, 8), []float64{-2.3, 0.2, 1.7}[vChoose("py", 3)]})
	o.CacheBB()
	return o
}

var c08Polys = [][]Vector{
	{{-1, -1}, {2, -1}, {2, 1}, {-1, 1}},
	{{0, 0}, {4, -1}, {1, 3}},
	{{0, 0}, {4, -1}, {6, 3}, {2, 6}, {-1, 3}},
}

// c08SetPoly changes polygon s to the vertices and radius in one of the supported ways.
func c08SetPoly(s *Shape, v []Vector, r float64) {
	g := s.Class.(*PolyShape)
	how := vChoose("how", 4)
	c := append([]Vector{}, v...)
	if how%2 == 1 {
		g.SetRadius(r)
	}
	if how < 2 {
		g.SetVertsRaw(len(c), c)
	} else {
		g.SetVertsUnsafe(len(c), c, NewTransformIdentity())
	}
	if how%2 == 0 {
		g.SetRadius(r)
	}
}

// VH_C08_poly: vertices and radius change, in any order.
//
//verif:bounds 3 pairs of old and new polygons (3 to 5 vertices), old and new radius in [0,2], mass in [0.1,10]; queries with radii 0 and 0.5 from x in [-20,20] and 3 y; in a space or not
func VH_C08_poly() {
	b, f, space := c08Bodies()
	k := vChoose("new", 3)
	x, y := c08Polys[(k+1)%3], c08Polys[k]
	query := vBool("query")
	r0, r1, m := c08Radii(query)
	s := NewPolyShapeRaw(b, len(x), append([]Vector{}, x...), r0)
	n := NewPolyShapeRaw(f, len(y), append([]Vector{}, y...), r1)
	c08Add(s, n, b, f, space, m, func() { c08SetPoly(s, y, r1) })
	g, h := s.Class.(*PolyShape), n.Class.(*PolyShape)
	vClose(g.Radius(), r1, 0, "radius is read back")
	vAssert(g.Count() == h.Count(), "number of vertices")
	c08Same(s, n, b, f)
	if query {
		c08PolyQuery(s, n)
	}
}

// c08Radii: any radii and mass, or concrete ones when the shape is then queried.
func c08Radii(query bool) (r0, r1, m float64) {
	if query {
		r0 = 0.5
		if vBool("sharp") {
			r0, r1 = r1, r0
		}
		return r0, r1, 2
	}
	return vFloat("r0", 0, 2), vFloat("r1", 0, 2), vFloat("m", 0.1, 10)
}

func c08PolyQuery(s, n *Shape) {
	p := Vector{vFloat("px", -20, 20), []float64{-3, 0.5, 2}[vChoose("py", 3)]}
	i, j := s.PointQuery(p), n.PointQuery(p)
	vClose(i.Distance, j.Distance, 1e-6, "point query distance")
	var si, sj SegmentQueryInfo
	hi := s.SegmentQuery(p, Vector{30, 4}, 0.5, &si)
	hj := n.SegmentQuery(p, Vector{30, 4}, 0.5, &sj)
	vAssert(hi == hj, "segment query verdict")
	vClose(si.Alpha, sj.Alpha, 1e-6, "segment query fraction")
}

// VH_C08_polysym: vertices change to any triangle.
//
//verif:bounds new triangles with base and height in [0.1,5], radius in [0,2], mass in [0.1,10]; any body placement
func VH_C08_polysym() {
	b, f := NewBody(0, 0), NewBody(0, 0)
	w, x, h := vFloat("w", 0.1, 5), vFloat("x", 0.1, 5), vFloat("h", 0.1, 5)
	v := []Vector{{-x, 0}, {w, 0}, {0, h}}
	r := vFloat("r", 0, 2)
	m := vFloat("m", 0.1, 10)
	s := NewPolyShapeRaw(b, 3, []Vector{{0, 0}, {3, 0}, {0, 2}}, 1)
	n := NewPolyShapeRaw(f, 3, append([]Vector{}, v...), r)
	c08Add(s, n, b, f, nil, m, func() {
		g := s.Class.(*PolyShape)
		if vBool("radius first") {
			g.SetRadius(r)
			g.SetVertsRaw(3, v)
		} else {
			g.SetVertsRaw(3, v)
			g.SetRadius(r)
		}
	})
	c08Same(s, n, b, f)
}

// VH_C08_polycontact: a changed polygon collides like a new one.
//
//verif:bounds 3 old and 3 new polygons, radius 0.25, partner box, segment or circle of concrete size at any x in [-8,8] and one of 3 y
//verif:time 100
func VH_C08_polycontact() {
	b, f := NewBody(0, 0), NewBody(0, 0)
	k := vChoose("new", 3)
	x, y := c08Polys[(k+1)%3], c08Polys[k]
	s := NewPolyShapeRaw(b, len(x), append([]Vector{}, x...), 1)
	n := NewPolyShapeRaw(f, len(y), append([]Vector{}, y...), 0.25)
	c08Add(s, n, b, f, nil, 1, func() {
		s.Class.(*PolyShape).SetRadius(0.25)
		s.Class.(*PolyShape).SetVertsRaw(len(y), append([]Vector{}, y...))
	})
	c08Collide(s, n, c08Partner())
}
