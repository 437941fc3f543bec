package cp

import "math"

func c01Box(n string) BB {
	m := math.MaxFloat64
	b := NewBB(vFloat(n+"L", -m, m), vFloat(n+"B", -m, m), vFloat(n+"R", -m, m), vFloat(n+"T", -m, m))
	vAssume(vAnd(b.L <= b.R, b.B <= b.T))
	return b
}

func c01Pt(n string) Vector {
	m := math.MaxFloat64
	return Vector{vFloat(n+"x", -m, m), vFloat(n+"y", -m, m)}
}

// c01In is the reference meaning of "the point lies in the box" (closed box).
func c01In(b BB, p Vector) bool {
	return vAnd(b.L <= p.X, p.X <= b.R, b.B <= p.Y, p.Y <= b.T)
}

func c01Sub(a, b BB) bool { // b within a
	return vAnd(a.L <= b.L, b.R <= a.R, a.B <= b.B, b.T <= a.T)
}

// VH_C01_intersects: two boxes intersect exactly when they share a point (bit-precise doubles).
//
//verif:bounds every finite double for every side (bit-precise), l<=r and b<=t
func VH_C01_intersects() {
	vMode("fp")
	a, b := c01Box("a"), c01Box("b")
	p := c01Pt("p")
	x := a.Intersects(b)
	vAssert(vImplies(vAnd(c01In(a, p), c01In(b, p)), x), "a common point implies intersection")
	w := Vector{math.Max(a.L, b.L), math.Max(a.B, b.B)}
	vAssert(vImplies(x, vAnd(c01In(a, w), c01In(b, w))), "intersection implies a common point")
	vAssert(vIff(x, b.Intersects(a)), "intersection is symmetric")
	vCover("end")
}

// VH_C01_contains: containment of points and boxes is point-set inclusion.
//
//verif:bounds every finite double for every side (bit-precise), l<=r and b<=t
func VH_C01_contains() {
	vMode("fp")
	a, b := c01Box("a"), c01Box("b")
	p := c01Pt("p")
	vAssert(vIff(a.ContainsVect(p), c01In(a, p)), "ContainsVect is closed membership")
	vAssert(vIff(a.Contains(b), c01Sub(a, b)), "Contains is inclusion")
	vCover("end")
}

// VH_C01_merge: Merge/Expand are the least boxes containing both arguments.
//
//verif:bounds every finite double for every side (bit-precise), l<=r and b<=t
func VH_C01_merge() {
	vMode("fp")
	a, b := c01Box("a"), c01Box("b")
	m := a.Merge(b)
	vAssert(vAnd(c01Sub(m, a), c01Sub(m, b)), "Merge contains both boxes")
	vAssert(vAnd(vOr(m.L == a.L, m.L == b.L), vOr(m.R == a.R, m.R == b.R), vOr(m.B == a.B, m.B == b.B), vOr(m.T == a.T, m.T == b.T)), "Merge is the least such box")
	p := c01Pt("p")
	e := a.Expand(p)
	vAssert(vAnd(c01Sub(e, a), c01In(e, p)), "Expand contains the box and the point")
	vAssert(vAnd(vOr(e.L == a.L, e.L == p.X), vOr(e.R == a.R, e.R == p.X), vOr(e.B == a.B, e.B == p.Y), vOr(e.T == a.T, e.T == p.Y)), "Expand is the least such box")
	vCover("end")
}

// VH_C01_clamp: ClampVect returns the nearest point of the box.
//
//verif:bounds every finite double (bit-precise), l<=r and b<=t
func VH_C01_clamp() {
	vMode("fp")
	a := c01Box("a")
	p := c01Pt("p")
	c := a.ClampVect(&p)
	vAssert(c01In(a, c), "clamped point lies in the box")
	vAssert(vImplies(vAnd(a.L <= p.X, p.X <= a.R), c.X == p.X), "x untouched when inside")
	vAssert(vImplies(vAnd(a.B <= p.Y, p.Y <= a.T), c.Y == p.Y), "y untouched when inside")
	vAssert(vAnd(vImplies(p.X < a.L, c.X == a.L), vImplies(p.X > a.R, c.X == a.R)), "x clamps to the nearer side")
	vAssert(vAnd(vImplies(p.Y < a.B, c.Y == a.B), vImplies(p.Y > a.T, c.Y == a.T)), "y clamps to the nearer side")
	vCover("end")
}

// VH_C01_arith: constructors, center, area, offset, proximity (real arithmetic).
//
//verif:bounds coordinates in [-1000,1000]
func VH_C01_arith() {
	c := Vector{vFloat("cx", -1000, 1000), vFloat("cy", -1000, 1000)}
	hw, hh := vFloat("hw", 0, 1000), vFloat("hh", 0, 1000)
	b := NewBBForExtents(c, hw, hh)
	vClose(b.L, c.X-hw, 1e-6, "extents l")
	vClose(b.R, c.X+hw, 1e-6, "extents r")
	vClose(b.B, c.Y-hh, 1e-6, "extents b")
	vClose(b.T, c.Y+hh, 1e-6, "extents t")
	vClose(b.Center().X, c.X, 1e-6, "center x")
	vClose(b.Center().Y, c.Y, 1e-6, "center y")
	vClose(b.Area(), 4*hw*hh, 1e-3, "area")
	k := NewBBForCircle(c, hw)
	vClose(k.L, c.X-hw, 1e-6, "circle l")
	vClose(k.R, c.X+hw, 1e-6, "circle r")
	vClose(k.B, c.Y-hw, 1e-6, "circle b")
	vClose(k.T, c.Y+hw, 1e-6, "circle t")
	d := Vector{vFloat("dx", -1000, 1000), vFloat("dy", -1000, 1000)}
	o := b.Offset(d)
	vClose(o.L, b.L+d.X, 1e-6, "offset l")
	vClose(o.R, b.R+d.X, 1e-6, "offset r")
	vClose(o.B, b.B+d.Y, 1e-6, "offset b")
	vClose(o.T, b.T+d.Y, 1e-6, "offset t")
	e := NewBB(vFloat("l", -1000, 1000), vFloat("b", -1000, 1000), vFloat("r", -1000, 1000), vFloat("t", -1000, 1000))
	vAssume(e.L <= e.R)
	vAssume(e.B <= e.T)
	vClose(b.MergedArea(e), b.Merge(e).Area(), 1e-3, "merged area")
	vAssert(b.MergedArea(e) >= b.Area()-1e-3, "merged area is at least each area")
	pr := b.Proximity(e)
	want := 2 * (math.Abs(b.Center().X-e.Center().X) + math.Abs(b.Center().Y-e.Center().Y))
	vClose(pr, want, 1e-6, "proximity is twice the Manhattan distance of the centers")
	vCover("end")
}

// VH_C01_wrap: WrapVect maps any point into the box by whole periods.
//
//verif:bounds 3 concrete boxes, points within about 3 periods of the box
func VH_C01_wrap() {
	bx := []BB{{0, 0, 10, 4}, {-3, 2, 5, 3.5}, {1, -7, 2, -1}}[vChoose("box", 3)]
	w, h := bx.R-bx.L, bx.T-bx.B
	v := Vector{vFloat("x", bx.L-3*w, bx.R+3*w), vFloat("y", bx.B-1.5*h, bx.T+1.5*h)}
	r := bx.WrapVect(v)
	vAssert(vAnd(r.X >= bx.L-1e-6, r.X <= bx.R+1e-6, r.Y >= bx.B-1e-6, r.Y <= bx.T+1e-6), "wrapped point lies in the box")
	kx := (v.X - r.X) / w
	ky := (v.Y - r.Y) / h
	vClose(kx, math.Floor(kx+0.5), 1e-6, "x shifts by whole widths")
	vClose(ky, math.Floor(ky+0.5), 1e-6, "y shifts by whole heights")
	vCover("end")
}
