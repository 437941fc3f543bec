package cp

import "math"

// VH_C04_algebra: linear operations, products, quarter turns, rotation by a unit vector, lengths.
//
//verif:bounds components in [-100,100], every angle in [-10,10]
func VH_C04_algebra() {
	a, b := uVec("a", 100), uVec("b", 100)
	s := vFloat("s", -100, 100)
	th := vAngle("th", -10, 10)
	uClose(a.Add(b), Vector{a.X + b.X, a.Y + b.Y}, 1e-9, "Add")
	uClose(a.Sub(b), Vector{a.X - b.X, a.Y - b.Y}, 1e-9, "Sub")
	uClose(a.Neg(), Vector{-a.X, -a.Y}, 1e-9, "Neg")
	uClose(a.Mult(s), Vector{a.X * s, a.Y * s}, 1e-6, "Mult")
	uClose(a.Clone(), a, 0, "Clone")
	vAssert(vIff(a.Equal(b), vAnd(a.X == b.X, a.Y == b.Y)), "Equal")
	vClose(a.Dot(b), a.X*b.X+a.Y*b.Y, 1e-6, "Dot")
	vClose(a.Cross(b), a.X*b.Y-a.Y*b.X, 1e-6, "Cross")
	uClose(a.Perp(), Vector{-a.Y, a.X}, 1e-9, "Perp is the counter-clockwise quarter turn")
	uClose(a.ReversePerp(), Vector{a.Y, -a.X}, 1e-9, "ReversePerp is the clockwise quarter turn")
	vClose(a.LengthSq(), a.X*a.X+a.Y*a.Y, 1e-6, "LengthSq")
	l := a.Length()
	vAssert(l >= 0, "Length is not negative")
	vClose(l*l, a.X*a.X+a.Y*a.Y, 1e-6, "Length")
	vClose(a.DistanceSq(b), (a.X-b.X)*(a.X-b.X)+(a.Y-b.Y)*(a.Y-b.Y), 1e-6, "DistanceSq")
	dd := a.Distance(b)
	vAssert(dd >= 0, "Distance is not negative")
	vClose(dd*dd, (a.X-b.X)*(a.X-b.X)+(a.Y-b.Y)*(a.Y-b.Y), 1e-6, "Distance")
	r := ForAngle(th)
	vClose(r.X, math.Cos(th), 1e-9, "ForAngle x")
	vClose(r.Y, math.Sin(th), 1e-9, "ForAngle y")
	uClose(a.Rotate(r), uRot(a, th), 1e-6, "Rotate is counter-clockwise rotation")
	uClose(a.Unrotate(r), uRot(a, -th), 1e-6, "Unrotate is clockwise rotation")
	uClose(a.Rotate(r).Unrotate(r), a, 1e-6, "Unrotate undoes Rotate")
	uClose(a.Rotate(r).Unrotate(b.Rotate(r)), a.Unrotate(b), 1e-5, "Rotate is an isometry (dot and cross preserved)")
	vCover("end")
}

// VH_C04_near: Near is strict distance comparison.
//
//verif:bounds components in [-100,100], distance in [0,300]
func VH_C04_near() {
	a, b := uVec("a", 100), uVec("b", 100)
	d := vFloat("d", 0, 300)
	q := (a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y)
	n := a.Near(b, d)
	vAssert(vImplies(q <= d*d-1e-6, n), "closer than the distance is near")
	vAssert(vImplies(q >= d*d+1e-6, !n), "farther than the distance is not near")
	vCover("end")
}

// VH_C04_project: Project is the orthogonal projection on the line of the other vector.
//
//verif:bounds components in [-100,100], axis length at least 0.01
func VH_C04_project() {
	a, b := uVec("a", 100), uVec("b", 100)
	vAssume(b.X*b.X+b.Y*b.Y >= 1e-4)
	p := a.Project(b)
	vClose(uCross(p, b), 0, 1e-6, "projection is parallel to the axis")
	vClose(uDot(uSub(a, p), b), 0, 1e-6, "residual is perpendicular to the axis")
	vCover("end")
}

// VH_C04_normalize: unit length, same direction; zero stays zero.
//
//verif:bounds components in [-100,100]; direction and length claims for length at least 0.01
func VH_C04_normalize() {
	z := Vector{}.Normalize()
	vAssert(vAnd(z.X == 0, z.Y == 0), "the zero vector normalizes to zero")
	a := uVec("a", 100)
	vAssume(a.X*a.X+a.Y*a.Y >= 1e-4)
	n := a.Normalize()
	vClose(n.X*n.X+n.Y*n.Y, 1, 1e-6, "unit length")
	vClose(uCross(n, a), 0, 1e-6, "parallel")
	vAssert(uDot(n, a) > 0, "same direction")
	vCover("end")
}

// VH_C04_toangle: ToAngle inverts ForAngle.
//
//verif:bounds components in [-100,100], length at least 0.01
func VH_C04_toangle() {
	a := uVec("a", 100)
	l2 := a.X*a.X + a.Y*a.Y
	vAssume(l2 >= 1e-4)
	th := a.ToAngle()
	vAssert(vAnd(th >= -math.Pi-1e-9, th <= math.Pi+1e-9), "angle within one turn")
	r := ForAngle(th)
	l := a.Length()
	uClose(uMul(r, l), a, 1e-6, "direction of the angle is the vector")
	vCover("end")
}

// VH_C04_clamp: vector Clamp limits the length and otherwise changes nothing.
//
//verif:bounds components in [-100,100], limit in [0,200]; scaling claims for vectors of length at least 0.01
func VH_C04_clamp() {
	a := uVec("a", 100)
	m := vFloat("m", 0, 200)
	c := a.Clamp(m)
	l2 := a.X*a.X + a.Y*a.Y
	vAssert(c.X*c.X+c.Y*c.Y <= m*m+1e-6, "length is limited")
	if l2 <= m*m {
		vAssert(vAnd(c.X == a.X, c.Y == a.Y), "short vectors are unchanged")
		vCover("short")
		return
	}
	vAssume(l2 >= 1e-4)
	vClose(c.X*c.X+c.Y*c.Y, m*m, 1e-6, "long vectors get exactly the limit")
	vClose(uCross(c, a), 0, 1e-6, "direction is kept")
	vAssert(uDot(c, a) >= 0, "orientation is kept")
	vCover("long")
}

// VH_C04_lerp: Lerp and LerpT interpolate linearly; LerpConst moves at most d toward the target.
//
//verif:bounds components in [-100,100], t in [0,1], d in [0,300]
func VH_C04_lerp() {
	a, b := uVec("a", 100), uVec("b", 100)
	t := vFloat("t", 0, 1)
	d := vFloat("d", 0, 300)
	uClose(a.Lerp(b, t), Vector{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t}, 1e-6, "Lerp")
	uClose(a.LerpT(b, 2*t-1), Vector{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t}, 1e-6, "LerpT")
	vClose(Lerp(a.X, b.X, t), a.X+(b.X-a.X)*t, 1e-6, "scalar Lerp")
	q := LerpConst(a.X, b.X, d)
	vAssert(vImplies(uAbs(b.X-a.X) <= d, uAbs(q-b.X) <= 1e-9), "scalar LerpConst reaches a near target")
	vAssert(vImplies(b.X-a.X > d, uAbs(q-a.X-d) <= 1e-9), "scalar LerpConst moves d up")
	vAssert(vImplies(b.X-a.X < -d, uAbs(q-a.X+d) <= 1e-9), "scalar LerpConst moves d down")
	vCover("end")
}

// VH_C04_lerpconst: vector LerpConst.
//
//verif:bounds components in [-100,100], d in [0,300]; claims for targets at least 0.01 away
func VH_C04_lerpconst() {
	a := uVec("a", 100)
	e := uVec("e", 100)
	b := uAdd(a, e)
	d := vFloat("d", 0, 300)
	l2 := e.X*e.X + e.Y*e.Y
	r := uSub(a.LerpConst(b, d), a)
	if l2 <= d*d {
		uClose(r, e, 1e-9, "reaches a near target")
		vCover("near")
		return
	}
	vAssume(l2 >= 1e-4)
	vClose(r.X*r.X+r.Y*r.Y, d*d, 1e-6, "moves exactly d toward a far target")
	vClose(uCross(r, e), 0, 1e-6, "moves straight")
	vAssert(uDot(r, e) >= 0, "moves toward")
	vCover("far")
}

// c04Pair returns two unit vectors and the angle enclosed by them.
func c04Pair() (a, b Vector, om float64) {
	ta, tb := vAngle("ta", -3.2, 3.2), vAngle("tb", -3.2, 3.2)
	a, b = Vector{math.Cos(ta), math.Sin(ta)}, Vector{math.Cos(tb), math.Sin(tb)}
	d := a.Normalize().Dot(b.Normalize())
	vAssume(vAnd(d >= -0.999, d <= 0.9999)) // about 0.014 to 3.097 radians apart
	om = math.Acos(Clamp(d, -1, 1))
	vAssume(vAnd(om >= 0.01, math.Sin(om) >= 0.01)) // implied by the bound on the cosine
	return a, b, om
}

// VH_C04_slerp: spherical interpolation of unit vectors stays on the circle, starts and ends at its arguments and
// advances by t times the enclosed angle.
//
//verif:bounds every pair of directions enclosing 0.014 to 3.097 radians, t in [0,1]
func VH_C04_slerp() {
	a, b, om := c04Pair()
	uClose(a.SLerp(b, 0), a, 1e-6, "starts at the first")
	uClose(a.SLerp(b, 1), b, 1e-6, "ends at the second")
	t := vFloat("t", 0, 1)
	r := a.SLerp(b, t)
	vClose(r.X*r.X+r.Y*r.Y, 1, 1e-5, "stays on the unit circle")
	vClose(uDot(a, r), math.Cos(t*om), 1e-5, "advances by t times the enclosed angle")
	vCover("end")
}

// VH_C04_slerpconst: SlerpConst turns by exactly the given angle, at most up to the target.
//
//verif:bounds every pair of directions enclosing 0.014 to 3.097 radians; step angle in [0,4]
func VH_C04_slerpconst() {
	a, b, om := c04Pair()
	st := vAngle("st", 0, 4)
	vAssume(vOr(st >= om+1e-9, st <= om-1e-9))
	r := a.SlerpConst(b, st)
	if st >= om {
		uClose(r, b, 1e-5, "a large step reaches the target")
		vCover("reach")
	} else {
		vClose(r.X*r.X+r.Y*r.Y, 1, 1e-5, "stays on the unit circle")
		vClose(uDot(a, r), math.Cos(st), 1e-5, "a small step turns by exactly the step")
		vCover("partial")
	}
}

// VH_C04_slerpparallel: interpolation between parallel vectors is defined and stays put.
//
//verif:bounds every direction; lengths 1, 2, 64, 128; t in [0,1]; step angle in [0,4]
func VH_C04_slerpparallel() {
	ta := vAngle("ta", -3.2, 3.2)
	u := Vector{math.Cos(ta), math.Sin(ta)}
	k := []float64{1, 64}[vChoose("k", 2)]
	m := []float64{1, 2}[vChoose("m", 2)]
	a := uMul(u, k)
	b := uMul(a, m)
	st := vFloat("st", 0, 4)
	t := vFloat("t", 0, 1)
	r := a.SLerp(b, t)
	vClose(uCross(r, u), 0, 1e-4, "SLerp of parallel vectors stays parallel")
	vAssert(vAnd(uDot(r, u) >= k-1e-4, uDot(r, u) <= k*m+1e-4), "SLerp of parallel vectors stays between")
	r = a.SlerpConst(b, st)
	vClose(uCross(r, u), 0, 1e-4, "SlerpConst of parallel vectors stays parallel")
	vAssert(vAnd(uDot(r, u) >= k-1e-4, uDot(r, u) <= k*m+1e-4), "SlerpConst of parallel vectors stays between")
	vCover("end")
}

// VH_C04_scalars: Clamp and Clamp01 (bit-precise doubles).
//
//verif:bounds every finite double, lo <= hi
func VH_C04_scalars() {
	vMode("fp")
	m := math.MaxFloat64
	f, lo, hi := vFloat("f", -m, m), vFloat("lo", -m, m), vFloat("hi", -m, m)
	vAssume(lo <= hi)
	c := Clamp(f, lo, hi)
	vAssert(vAnd(lo <= c, c <= hi), "Clamp stays in range")
	vAssert(vImplies(vAnd(lo <= f, f <= hi), c == f), "Clamp keeps values in range")
	vAssert(vImplies(f < lo, c == lo), "Clamp raises to the lower limit")
	vAssert(vImplies(f > hi, c == hi), "Clamp lowers to the upper limit")
	u := Clamp01(f)
	vAssert(vAnd(0 <= u, u <= 1), "Clamp01 stays in range")
	vAssert(vImplies(vAnd(0 <= f, f <= 1), u == f), "Clamp01 keeps values in range")
	vAssert(vImplies(f < 0, u == 0), "Clamp01 raises to 0")
	vAssert(vImplies(f > 1, u == 1), "Clamp01 lowers to 1")
	vCover("end")
}

// VH_C04_segment: closest point of a segment, closest distance to the origin.
//
//verif:bounds coordinates in [-10,10], segment length at least 0.1, every point of the segment as competitor
func VH_C04_segment() {
	p, a, e := uVec("p", 10), uVec("a", 10), uVec("e", 10)
	vAssume(e.X*e.X+e.Y*e.Y >= 0.01)
	b := uAdd(a, e)
	c := p.ClosestPointOnSegment(a, b)
	u := uSub(c, a)
	vClose(uCross(u, e), 0, 1e-6, "closest point lies on the line")
	d := uDot(u, e)
	vAssert(vAnd(d >= -1e-6, d <= uDot(e, e)+1e-6), "closest point lies between the ends")
	// optimality on a convex set: (p-c).(q-c) <= 0 at both ends
	vAssert(uDot(uSub(p, c), uSub(a, c)) <= 1e-5, "no end point direction is closer (start)")
	vAssert(uDot(uSub(p, c), uSub(b, c)) <= 1e-5, "no end point direction is closer (end)")
	vCover("end")
}

// VH_C04_closest: ClosestT/ClosestDist describe the point of a segment nearest to the origin.
//
//verif:bounds coordinates in [-10,10], segment length at least 0.1
func VH_C04_closest() {
	a, e := uVec("a", 10), uVec("e", 10)
	vAssume(e.X*e.X+e.Y*e.Y >= 0.01)
	b := uAdd(a, e)
	t := a.ClosestT(b)
	vAssert(vAnd(t >= -1, t <= 1), "parameter within [-1,1]")
	c := Vector{a.X + e.X*(t+1)/2, a.Y + e.Y*(t+1)/2}
	vAssert(uDot(c, uSub(a, c)) >= -1e-5, "no point toward the start is closer")
	vAssert(uDot(c, uSub(b, c)) >= -1e-5, "no point toward the end is closer")
	vClose(a.ClosestDist(b), c.X*c.X+c.Y*c.Y, 1e-6, "squared distance of that point")
	vCover("end")
}

// VH_C04_orient: PointGreater and CheckAxis.
//
//verif:bounds coordinates in [-10,10]
func VH_C04_orient() {
	a, b, c := uVec("a", 10), uVec("b", 10), uVec("c", 10)
	m := Vector{(a.X + b.X) / 2, (a.Y + b.Y) / 2}
	// the point c lies to the left of the perpendicular... of a->b through the midpoint: sign of cross(b-a, c-mid)
	s := uCross(uSub(b, a), uSub(c, m))
	g := a.PointGreater(b, c)
	vAssert(vImplies(s >= 1e-6, g), "left of the line is greater")
	vAssert(vImplies(s <= -1e-6, !g), "right of the line is not greater")
	n := uVec("n", 10)
	x := a.CheckAxis(b, c, n)
	mx := uMax(uDot(a, n), uDot(b, n))
	vAssert(vImplies(uDot(c, n) <= mx-1e-6, x), "CheckAxis true when not beyond both")
	vAssert(vImplies(uDot(c, n) >= mx+1e-6, !x), "CheckAxis false when beyond both")
	vCover("end")
}
