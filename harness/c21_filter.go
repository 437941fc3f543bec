package cp

func c21Filter(n string) ShapeFilter {
	return NewShapeFilter(vUint(n+"g", 0, ^uint(0)), vUint(n+"c", 0, ^uint(0)), vUint(n+"m", 0, ^uint(0)))
}

func c21Want(a, b ShapeFilter) bool {
	return vOr(vAnd(a.Group == b.Group, a.Group != 0), a.Categories&b.Mask == 0, b.Categories&a.Mask == 0)
}

// VH_C21_reject: the rejection formula, for all 64-bit patterns.
//
//verif:bounds every 64-bit group, category and mask
func VH_C21_reject() {
	a, b := c21Filter("a"), c21Filter("b")
	r := a.Reject(b)
	vAssert(vIff(r, c21Want(a, b)), "rejected exactly as documented")
	vAssert(vIff(r, b.Reject(a)), "rejection is symmetric")
	vAssert(!a.Reject(SHAPE_FILTER_ALL) || a.Categories == 0 || a.Mask == 0, "the all filter rejects only filters with no category or mask")
	vAssert(a.Reject(SHAPE_FILTER_NONE), "the none filter rejects everything")
	f := NewShapeFilter(a.Group, a.Categories, a.Mask)
	vAssert(vAnd(f.Group == a.Group, f.Categories == a.Categories, f.Mask == a.Mask), "constructor keeps the fields")
	vCover("end")
}

// VH_C21_step: in a step, two overlapping shapes touch exactly when their filters accept each other.
//
//verif:bounds every 64-bit group, category and mask of two overlapping circles
func VH_C21_step() {
	space := NewSpace()
	fa, fb := c21Filter("a"), c21Filter("b")
	b1, b2 := NewBody(1, 1), NewBody(1, 1)
	s1, s2 := NewCircle(b1, 1, Vector{}), NewCircle(b2, 1, Vector{0.5, 0})
	s1.SetFilter(fa)
	s2.SetFilter(fb)
	space.AddBody(b1)
	space.AddBody(b2)
	space.AddShape(s1)
	space.AddShape(s2)
	n := 0
	h := space.NewCollisionHandler(0, 0)
	h.PreSolveFunc = func(arb *Arbiter, space *Space, userData interface{}) bool { n++; return true }
	space.Step(0.01)
	if c21Want(fa, fb) {
		vAssert(n == 0, "rejected shapes do not collide")
		vAssert(vAnd(b1.Velocity().X == 0, b2.Velocity().X == 0), "rejected shapes do not push each other")
		vCover("rejected")
	} else {
		vAssert(n == 1, "accepted shapes collide")
		vCover("accepted")
	}
}

// VH_C21_query: filtered queries report a shape exactly when the filters accept each other.
//
//verif:bounds every 64-bit group, category and mask of the query and of the shape
func VH_C21_query() {
	space := NewSpace()
	fq, fs := c21Filter("q"), c21Filter("s")
	body := space.StaticBody
	if vBool("dynamic") {
		body = space.AddBody(NewBody(1, 1))
	}
	s := space.AddShape(NewCircle(body, 1, Vector{}))
	s.SetFilter(fs)
	space.ReindexShape(s)
	n := 0
	switch vChoose("query", 5) {
	case 0:
		if space.PointQueryNearest(Vector{0.25, 0.5}, 0.5, fq).Shape != nil {
			n++
		}
	case 1:
		space.SegmentQuery(Vector{-5, 0}, Vector{5, 0.5}, 0, fq, func(shape *Shape, point, normal Vector, alpha float64, data interface{}) { n++ }, nil)
	case 2:
		if space.SegmentQueryFirst(Vector{-5, 0}, Vector{5, 0.5}, 0, fq).Shape != nil {
			n++
		}
	case 3:
		space.BBQuery(NewBB(0, 0, 2, 2), fq, func(shape *Shape, data interface{}) { n++ }, nil)
	case 4:
		space.BBQuery(NewBB(-3, -3, 2, 2), fq, func(shape *Shape, data interface{}) { n++ }, nil)
	}
	if c21Want(fq, fs) {
		vAssert(n == 0, "rejected shapes are not reported")
		vCover("rejected")
	} else {
		vAssert(n == 1, "accepted shapes are reported once")
		vCover("accepted")
	}
}
