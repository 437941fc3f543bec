package cp

import "math"

// Reference integrals over a triangle with uniform density.
func c06TriArea(a, b, c Vector) float64 { return uCross(uSub(b, a), uSub(c, a)) / 2 }

// c06TriMoment is the second moment about the origin per unit mass.
func c06TriMoment(a, b, c Vector) float64 {
	return (uDot(a, a) + uDot(b, b) + uDot(c, c) + uDot(a, b) + uDot(b, c) + uDot(c, a)) / 6
}

func c06Poly(n int, m float64) []Vector {
	v := make([]Vector, n)
	for i := range v {
		v[i] = uVec("v", m)
	}
	return v
}

// c06Fan returns area, area*centroid and area*moment of the polygon as a signed fan of triangles.
func c06Fan(v []Vector) (area float64, first Vector, second float64) {
	for i := 1; i+1 < len(v); i++ {
		a := c06TriArea(v[0], v[i], v[i+1])
		area += a
		first = uAdd(first, uMul(uAdd(uAdd(v[0], v[i]), v[i+1]), a/3))
		second += a * c06TriMoment(v[0], v[i], v[i+1])
	}
	return
}

// VH_C06_poly3: triangle area, centroid and moment.
//
//verif:bounds vertex coordinates in [-10,10], |area| >= 0.1, mass and offset in [0,10] and [-10,10], radius in [0,5]
func VH_C06_poly3() { c06Check(c06Poly(3, 10)) }

// VH_C06_poly4: quadrilaterals.
//
//verif:bounds vertex coordinates in [-10,10], |area| >= 0.1, mass and offset in [0,10] and [-10,10], radius in [0,5]
func VH_C06_poly4() { c06Check(c06Poly(4, 10)) }

// VH_C06_poly5: pentagons.
//
//verif:bounds vertex coordinates in [-10,10], |area| >= 0.1, mass and offset in [0,10] and [-10,10], radius in [0,5]
func VH_C06_poly5() { c06Check(c06Poly(5, 10)) }

// VH_C06_poly6: hexagons.
//
//verif:thorough
//verif:bounds vertex coordinates in [-10,10], |area| >= 0.1, mass and offset in [0,10] and [-10,10], radius in [0,5]
func VH_C06_poly6() { c06Check(c06Poly(6, 10)) }

func c06Check(v []Vector) {
	n := len(v)
	area, first, second := c06Fan(v)
	vAssume(vOr(area >= 0.1, area <= -0.1))
	vClose(AreaForPoly(n, v, 0), area, 1e-6, "area is positive for counter-clockwise winding")
	c := CentroidForPoly(n, v)
	vClose(c.X*area, first.X, 1e-4, "centroid x")
	vClose(c.Y*area, first.Y, 1e-4, "centroid y")
	m := vFloat("m", 0, 10)
	vClose(MomentForPoly(m, n, v, Vector{}, 0)*area, m*second, 1e-3, "moment about the origin")
	o := uVec("o", 10)
	mo := MomentForPoly(m, n, v, o, 0)
	// parallel axis: I(o) = I(0) + m(2 c.o + o.o)
	vClose(mo*area, m*(second+2*uDot(first, o)+uDot(o, o)*area), 1e-2, "moment with offset")
	// starting the walk elsewhere changes nothing
	w := append(append([]Vector{}, v[1:]...), v[0])
	vClose(AreaForPoly(n, w, 0), area, 1e-6, "area is independent of the start vertex")
	uClose(CentroidForPoly(n, w), c, 1e-6, "centroid is independent of the start vertex")
	vClose(MomentForPoly(m, n, w, o, 0), mo, 1e-6, "moment is independent of the start vertex")
	r := vFloat("r", 0, 5)
	per := 0.0
	for i := range v {
		per += v[i].Distance(v[(i+1)%n])
	}
	vClose(AreaForPoly(n, v, r), area+r*per+math.Pi*r*r, 1e-6, "rounded area adds the border strip and the corners")
	vCover("end")
}

// VH_C06_basic: circles, boxes and segments.
//
//verif:bounds masses in [0,100], sizes in [0,100], coordinates in [-100,100]
func VH_C06_basic() {
	m := vFloat("m", 0, 100)
	w, h := vFloat("w", 0, 100), vFloat("h", 0, 100)
	vClose(MomentForBox(m, w, h), m*(w*w+h*h)/12, 1e-6, "box moment")
	c := uVec("c", 100)
	bb := NewBB(c.X-w/2, c.Y-h/2, c.X+w/2, c.Y+h/2)
	vClose(MomentForBox2(m, bb), m*(w*w+h*h)/12+m*uDot(c, c), 1e-2, "offset box moment (parallel axis)")
	r1, r2 := vFloat("r1", 0, 100), vFloat("r2", 0, 100)
	vClose(MomentForCircle(m, r1, r2, c), m*(r1*r1+r2*r2)/2+m*uDot(c, c), 1e-2, "annulus moment (parallel axis)")
	vClose(AreaForCircle(r1, r2), math.Pi*uAbs(r1*r1-r2*r2), 1e-6, "annulus area")
	a, e := uVec("a", 100), uVec("e", 100)
	b := uAdd(a, e)
	l := e.Length()
	r := vFloat("r", 0, 10)
	mid := Vector{a.X + e.X/2, a.Y + e.Y/2}
	vClose(MomentForSegment(m, a, b, 0), m*(uDot(e, e)/12+uDot(mid, mid)), 1e-2, "thin rod moment (parallel axis)")
	// documented: bevelling is not supported, the thick segment counts as the box enclosing the capsule
	vClose(MomentForSegment(m, a, b, r), m*(((l+2*r)*(l+2*r)+4*r*r)/12+uDot(mid, mid)), 1e-2, "thick segment moment")
	vClose(AreaForSegment(a, b, r), 2*r*l+math.Pi*r*r, 1e-6, "capsule area")
	vClose(MomentForPoly(m, 2, []Vector{a, b}, Vector{}, 0), m*(uDot(e, e)/12+uDot(mid, mid)), 1e-2, "two-vertex polygon is a rod")
	vCover("end")
}

// VH_C06_agree: a box polygon and MomentForBox agree; shapes report the same numbers for the same geometry.
//
//verif:bounds sizes in [0.1,100], densities in [0.01,100], radius in [0,10]
func VH_C06_agree() {
	w, h := vFloat("w", 0.1, 100), vFloat("h", 0.1, 100)
	v := []Vector{{w / 2, -h / 2}, {w / 2, h / 2}, {-w / 2, h / 2}, {-w / 2, -h / 2}}
	m := vFloat("m", 0, 100)
	vClose(MomentForPoly(m, 4, v, Vector{}, 0), MomentForBox(m, w, h), 1e-3, "box polygon moment equals box moment")
	vClose(AreaForPoly(4, v, 0), w*h, 1e-6, "box polygon area")
	vCover("end")
}
