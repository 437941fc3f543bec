package cp

// c11Check: hull is a convex counter-clockwise polygon on input points that encloses every input (unless loose).
func c11Check(in, hull []Vector, loose bool) {
	n := len(hull)
	vAssert(n >= 1 && n <= len(in), "hull size")
	for _, h := range hull {
		var same []bool
		for _, p := range in {
			same = append(same, vAnd(p.X == h.X, p.Y == h.Y))
		}
		vAssert(vOr(same...), "hull vertices are input points")
	}
	if n == 1 {
		for _, p := range in {
			uClose(p, hull[0], 1e-9, "a single hull point means all points are equal")
		}
		vCover("point")
		return
	}
	for i := range hull {
		a, b := hull[i], hull[(i+1)%n]
		e := uSub(b, a)
		if n > 2 {
			c := hull[(i+2)%n]
			vAssert(uCross(e, uSub(c, b)) >= -1e-9, "hull is convex and counter-clockwise")
			vCover("polygon")
		}
		for _, p := range in {
			k := uCross(e, uSub(p, a))
			if !loose {
				vAssert(k >= -1e-6, "every input point is inside")
			}
		}
	}
}

func c11Run(in []Vector, tol float64) {
	v := append([]Vector{}, in...)
	first := -1
	n := ConvexHull(len(v), v, &first, tol)
	vAssert(first >= 0 && first < len(in), "index of the first vertex is in range")
	uClose(v[0], in[first], 0, "index of the first vertex")
	// the array is a permutation of the input: the hull keeps the other points
	c11Check(in, v[:n], tol > 0)
}

var c11Sets = [][]Vector{
	{{0, 0}, {4, 0}, {1, 3}},
	{{0, 0}, {0, 3}, {4, 3}, {4, 0}},
	{{0, 0}, {2, 0}, {4, 0}},
	{{1, 1}, {1, 1}, {3, 2}},
	{{5, 1}, {0, 0}, {2, 5}, {-1, 3}},
	{{0, 0}, {4, 0}, {2, 1}, {2, 3}},
	{{0, 0}, {0, 2}, {0, 4}},
	{{2, 2}, {2, 2}, {2, 2}},
	{{3, 0}, {0, 0}, {3, 3}, {1, 1}, {0, 3}},
}

func c11Insert(base []Vector, p Vector, at int) []Vector {
	in := append([]Vector{}, base[:at]...)
	in = append(in, p)
	return append(in, base[at:]...)
}

// VH_C11_one: any point added to concrete sets, in any place of the order.
//
//verif:bounds 9 concrete sets of 3 to 5 points (collinear, duplicate, containing inner points), one point in [-10,10]^2 at every index; tolerance 0
func VH_C11_one() {
	base := c11Sets[vChoose("set", len(c11Sets))]
	c11Run(c11Insert(base, uVec("p", 10), vChoose("at", len(base)+1)), 0)
}

// VH_C11_tol: the same with a positive tolerance.
//
//verif:bounds 9 concrete sets of 3 to 5 points, one point in [-10,10]^2 at every index; tolerance 0.5
func VH_C11_tol() {
	base := c11Sets[vChoose("set", len(c11Sets))]
	c11Run(c11Insert(base, uVec("p", 10), vChoose("at", len(base)+1)), 0.5)
}

// VH_C11_three: any three points.
//
//verif:bounds three points in [-10,10]^2
func VH_C11_three() {
	c11Run([]Vector{uVec("p", 10), uVec("q", 10), uVec("r", 10)}, 0)
}

// VH_C11_two: any two points added to concrete sets.
//
//verif:bounds 2 concrete sets of 3 points (thorough: 6 of up to 4), two points in [-10,10]^2 in 3 of the index patterns
//verif:time 90
func VH_C11_two() {
	n := 2
	if vThorough() {
		n = 6
	}
	base := c11Sets[[]int{0, 2, 3, 1, 4, 5}[vChoose("set", n)]]
	p, q := uVec("p", 10), uVec("q", 10)
	var in []Vector
	switch vChoose("order", 3) {
	case 0:
		in = append(append([]Vector{}, base...), p, q)
	case 1:
		in = append([]Vector{p, q}, base...)
	case 2:
		in = append(append([]Vector{p}, base...), q)
	}
	c11Run(in, 0)
}

// VH_C11_poly: polygons built from arbitrary vertices and transforms are convex with outward unit normals.
//
//verif:bounds 3 concrete sets of 3 to 4 points and one point in [-10,10]^2, transform identity, mirror or a shear; constructor and SetVertsUnsafe
func VH_C11_poly() {
	base := c11Sets[[]int{0, 1, 5}[vChoose("set", 3)]]
	in := append(append([]Vector{}, base...), uVec("p", 10))
	t := []Transform{NewTransformIdentity(), NewTransformScale(-1, 2), NewTransform(1, 0.5, 3, 0, 1, -2)}[vChoose("transform", 3)]
	b := NewBody(1, 1)
	var s *Shape
	if vBool("set") {
		s = NewBox(b, 1, 1, 0)
		s.Class.(*PolyShape).SetVertsUnsafe(len(in), append([]Vector{}, in...), t)
	} else {
		s = NewPolyShape(b, len(in), append([]Vector{}, in...), t, 0)
	}
	g := s.Class.(*PolyShape)
	w := make([]Vector, len(in))
	for i := range in {
		w[i] = t.Point(in[i])
	}
	n := g.Count()
	h := make([]Vector, n)
	for i := range h {
		h[i] = g.Vert(i)
	}
	c11Check(w, h, false)
	s.CacheBB()
	for i := range h {
		p, q := h[i], h[(i+1)%n]
		e := uSub(q, p)
		nn := g.planes[(i+1)%n].n
		vClose(uDot(nn, e), 0, 1e-5, "normal is perpendicular to its edge")
		if uDot(e, e) >= 1e-6 {
			vAssert(uCross(nn, e) >= 0, "normal points outward")
			vClose(uDot(nn, nn), 1, 1e-6, "unit normal")
		}
	}
}
