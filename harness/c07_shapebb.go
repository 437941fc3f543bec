package cp

// c07Check: the box is exactly the box of the discs of radius r around the world positions of the points.
func c07Check(bb BB, pts []Vector, r float64) {
	for _, q := range pts {
		vAssert(vAnd(bb.L <= q.X-r+1e-6, bb.R >= q.X+r-1e-6), "box covers the shape in x")
		vAssert(vAnd(bb.B <= q.Y-r+1e-6, bb.T >= q.Y+r-1e-6), "box covers the shape in y")
	}
	var l, b, rr, t []bool
	for _, q := range pts {
		l = append(l, bb.L >= q.X-r-1e-6)
		rr = append(rr, bb.R <= q.X+r+1e-6)
		b = append(b, bb.B >= q.Y-r-1e-6)
		t = append(t, bb.T <= q.Y+r+1e-6)
	}
	vAssert(vOr(l...), "left side touches the shape")
	vAssert(vOr(rr...), "right side touches the shape")
	vAssert(vOr(b...), "bottom side touches the shape")
	vAssert(vOr(t...), "top side touches the shape")
	vCover("end")
}

func c07World(pts []Vector, p Vector, a float64) []Vector {
	w := make([]Vector, len(pts))
	for i, q := range pts {
		w[i] = uAdd(p, uRot(q, a))
	}
	return w
}

// c07Refresh places the body and refreshes the shape in one of the supported ways, returning the box.
func c07Refresh(b *Body, s *Shape, p Vector, a float64) BB {
	switch vChoose("refresh", 4) {
	case 0: // place first, then cache
		b.SetAngle(a)
		b.SetPosition(p)
		return s.CacheBB()
	case 1: // add to a space in place
		b.SetPosition(p)
		b.SetAngle(a)
		space := NewSpace()
		space.AddBody(b)
		space.AddShape(s)
		return s.BB()
	case 2: // teleport within a space and reindex
		space := NewSpace()
		space.AddBody(b)
		space.AddShape(s)
		b.SetPosition(p)
		b.SetAngle(a)
		space.ReindexShape(s)
		return s.BB()
	}
	// explicit transform
	s.Update(NewTransformRigid(p, a))
	return s.BB()
}

// VH_C07_circle
//
//verif:bounds offset in [-10,10], radius in [0,10], position in [-100,100], any angle
func VH_C07_circle() {
	b := NewBody(1, 1)
	o, r := uVec("o", 10), vFloat("r", 0, 10)
	s := NewCircle(b, r, o)
	p, a := uVec("p", 100), vAngle("a", -10, 10)
	bb := c07Refresh(b, s, p, a)
	c07Check(bb, c07World([]Vector{o}, p, a), r)
}

// c07Angle is either any angle or one of two fixed angles (for symbolic geometry, where both would be nonlinear).
func c07Angle(fixed bool) float64 {
	if fixed {
		return []float64{0, 2.5}[vChoose("angle", 2)]
	}
	return vAngle("a", -10, 10)
}

// VH_C07_segment
//
//verif:bounds end points in [-10,10] at 2 angles, or one concrete segment at any angle; radius in [0,10], position in [-100,100]
func VH_C07_segment() {
	b := NewBody(1, 1)
	x, y, r := Vector{-2, 1}, Vector{3, 5}, vFloat("r", 0, 10)
	sym := vBool("geometry")
	if sym {
		x, y = uVec("x", 10), uVec("y", 10)
	}
	s := NewSegment(b, x, y, r)
	p, a := uVec("p", 100), c07Angle(sym)
	bb := c07Refresh(b, s, p, a)
	c07Check(bb, c07World([]Vector{x, y}, p, a), r)
}

// VH_C07_triangle: a symbolic triangle under any placement.
//
//verif:bounds any three vertices in [-10,10] at 2 angles; radius in [0,10], position in [-100,100]
func VH_C07_triangle() {
	b := NewBody(1, 1)
	v := []Vector{uVec("u", 10), uVec("v", 10), uVec("w", 10)}
	r := vFloat("r", 0, 10)
	// SetVerts leaves the mass data (whose symbolic denominators are checked in C05/C06) alone
	s := NewPolyShapeRaw(b, 3, []Vector{{0, 0}, {1, 0}, {0, 1}}, r)
	s.Class.(*PolyShape).SetVerts(3, v)
	p, a := uVec("p", 100), c07Angle(true)
	b.SetAngle(a)
	b.SetPosition(p)
	bb := s.CacheBB()
	c07Check(bb, c07World(v, p, a), r)
}

// VH_C07_box: boxes of any size, offset and rounding.
//
//verif:bounds half sizes in [0.1,10], radius in [0,10], position in [-100,100], any angle
func VH_C07_box() {
	b := NewBody(1, 1)
	w, h, r := vFloat("w", 0.1, 20), vFloat("h", 0.1, 20), vFloat("r", 0, 10)
	s := NewBox(b, w, h, r)
	p, a := uVec("p", 100), vAngle("a", -10, 10)
	bb := c07Refresh(b, s, p, a)
	c07Check(bb, c07World([]Vector{{-w / 2, -h / 2}, {w / 2, -h / 2}, {w / 2, h / 2}, {-w / 2, h / 2}}, p, a), r)
}

// VH_C07_pentagon: a fixed pentagon under any placement.
//
//verif:bounds one concrete pentagon, radius in [0,10], position in [-100,100], any angle
func VH_C07_pentagon() {
	b := NewBody(1, 1)
	r := vFloat("r", 0, 10)
	v := []Vector{{0, 0}, {4, -1}, {6, 3}, {2, 6}, {-1, 3}}
	s := NewPolyShape(b, 5, v, NewTransformIdentity(), r)
	p, a := uVec("p", 100), vAngle("a", -10, 10)
	bb := c07Refresh(b, s, p, a)
	c07Check(bb, c07World(v, p, a), r)
}

// VH_C07_step: after a step the boxes follow the moved and rotated bodies, dynamic and kinematic alike.
//
//verif:bounds position in [-10,10], every angle before the step, one concrete velocity, one (thorough: two) angular velocities
func VH_C07_step() {
	space := NewSpace()
	b := NewBody(1, 1)
	if vBool("kinematic") {
		b = NewKinematicBody()
	}
	space.AddBody(b)
	o, r := Vector{3, 1}, vFloat("r", 0.1, 2)
	c := space.AddShape(NewCircle(b, r, o))
	x, y := Vector{-1, 0}, Vector{2, 1}
	g := space.AddShape(NewSegment(b, x, y, r))
	v := []Vector{{0, 0}, {4, -1}, {6, 3}, {2, 6}}
	q := space.AddShape(NewPolyShapeRaw(b, 4, v, r))
	p, a := uVec("p", 10), vAngle("a", -3, 3)
	w := 0.5
	if vThorough() {
		w = []float64{0.5, -2}[vChoose("w", 2)]
	}
	vel := Vector{3, -2}
	b.SetPosition(p)
	b.SetAngle(a)
	b.SetVelocityVector(vel)
	b.SetAngularVelocity(w)
	which := vChoose("shape", 3)
	// only one of the three shapes is of interest on each path; the others stay where they are cheap
	switch which {
	case 0:
		space.RemoveShape(g)
		space.RemoveShape(q)
	case 1:
		space.RemoveShape(c)
		space.RemoveShape(q)
	case 2:
		space.RemoveShape(c)
		space.RemoveShape(g)
	}
	// set the centre of rotation: the body's centre of gravity is its origin
	space.Step(1)
	np, na := uAdd(p, vel), a+w
	switch which {
	case 0:
		c07Check(c.BB(), c07World([]Vector{o}, np, na), r)
	case 1:
		c07Check(g.BB(), c07World([]Vector{x, y}, np, na), r)
	case 2:
		c07Check(q.BB(), c07World(v, np, na), r)
	}
}

// VH_C07_static: shapes on a static body follow after the documented reindexing calls.
//
//verif:bounds position in [-100,100], any angle
func VH_C07_static() {
	space := NewSpace()
	b := space.StaticBody
	o, r := uVec("o", 10), vFloat("r", 0, 10)
	s := space.AddShape(NewCircle(b, r, o))
	p, a := uVec("p", 100), vAngle("a", -10, 10)
	b.SetPosition(p)
	b.SetAngle(a)
	space.ReindexShape(s)
	c07Check(s.BB(), c07World([]Vector{o}, p, a), r)
}
