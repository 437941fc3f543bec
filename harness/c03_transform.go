package cp

import "math"

func c03T(n string, m float64) Transform {
	return NewTransform(vFloat(n+"a", -m, m), vFloat(n+"c", -m, m), vFloat(n+"tx", -m, m), vFloat(n+"b", -m, m), vFloat(n+"d", -m, m), vFloat(n+"ty", -m, m))
}

// VH_C03_make: constructors map points as documented.
//
//verif:bounds coefficients in [-100,100], every angle in [-10,10], points in [-100,100]
func VH_C03_make() {
	p := uVec("p", 100)
	a, b, c, d, tx, ty := vFloat("a", -100, 100), vFloat("b", -100, 100), vFloat("c", -100, 100), vFloat("d", -100, 100), vFloat("tx", -100, 100), vFloat("ty", -100, 100)
	t := Vector{tx, ty}
	th := vAngle("th", -10, 10)
	uClose(NewTransformIdentity().Point(p), p, 1e-9, "identity")
	want := Vector{a*p.X + c*p.Y + tx, b*p.X + d*p.Y + ty}
	uClose(NewTransform(a, c, tx, b, d, ty).Point(p), want, 1e-6, "general matrix")
	uClose(NewTransformTranspose(a, c, tx, b, d, ty).Point(p), want, 1e-6, "transposed matrix")
	uClose(NewTransform(a, c, tx, b, d, ty).Vect(p), uSub(want, t), 1e-6, "Vect ignores translation")
	uClose(NewTransformTranslate(t).Point(p), uAdd(p, t), 1e-9, "translate")
	uClose(NewTransformScale(a, b).Point(p), Vector{a * p.X, b * p.Y}, 1e-6, "scale")
	uClose(NewTransformRotate(th).Point(p), uRot(p, th), 1e-6, "rotate")
	uClose(NewTransformRigid(t, th).Point(p), uAdd(uRot(p, th), t), 1e-6, "rigid")
	vCover("end")
}

// VH_C03_mult: Mult is composition, of points and of vectors, and associates.
//
//verif:bounds coefficients in [-10,10]
func VH_C03_mult() {
	s, t := c03T("s", 10), c03T("t", 10)
	p := uVec("p", 10)
	uClose(s.Mult(t).Point(p), s.Point(t.Point(p)), 1e-6, "Mult composes points")
	uClose(s.Mult(t).Vect(p), s.Vect(t.Vect(p)), 1e-6, "Mult composes vectors")
	i := NewTransformIdentity()
	uClose(i.Mult(t).Point(p), t.Point(p), 1e-9, "left identity")
	uClose(t.Mult(i).Point(p), t.Point(p), 1e-9, "right identity")
	vCover("end")
}

// VH_C03_inverse: Inverse undoes every invertible transform.
//
//verif:bounds coefficients in [-10,10], |determinant| >= 0.01
func VH_C03_inverse() {
	a, b, c, d := vFloat("a", -10, 10), vFloat("b", -10, 10), vFloat("c", -10, 10), vFloat("d", -10, 10)
	t := NewTransform(a, c, vFloat("tx", -10, 10), b, d, vFloat("ty", -10, 10))
	det := a*d - b*c
	vAssume(vOr(det >= 0.01, det <= -0.01))
	p := uVec("p", 10)
	uClose(t.Inverse().Point(t.Point(p)), p, 1e-6, "inverse after transform")
	uClose(t.Point(t.Inverse().Point(p)), p, 1e-6, "transform after inverse")
	vCover("end")
}

// VH_C03_rigidinverse: RigidInverse undoes every rigid transform.
//
//verif:bounds every angle in [-10,10], translation in [-100,100]
func VH_C03_rigidinverse() {
	t := NewTransformRigid(uVec("t", 100), vAngle("th", -10, 10))
	p := uVec("p", 100)
	uClose(NewTransformRigidInverse(t).Point(t.Point(p)), p, 1e-6, "rigid inverse after transform")
	uClose(t.Point(NewTransformRigidInverse(t).Point(p)), p, 1e-6, "transform after rigid inverse")
	vCover("end")
}

// VH_C03_wrap: Wrap conjugates the inner transform by the outer one.
//
//verif:bounds coefficients in [-5,5], |determinant| >= 0.01
func VH_C03_wrap() {
	a, b, c, d := vFloat("a", -5, 5), vFloat("b", -5, 5), vFloat("c", -5, 5), vFloat("d", -5, 5)
	det := a*d - b*c
	vAssume(vOr(det >= 0.01, det <= -0.01))
	t := NewTransform(a, c, vFloat("tx", -5, 5), b, d, vFloat("ty", -5, 5))
	in := c03T("i", 5)
	p := uVec("p", 5)
	uClose(t.Point(t.Wrap(in).Point(p)), in.Point(t.Point(p)), 1e-6, "outer after wrapped equals inner after outer")
	vCover("end")
}

// VH_C03_ortho: the orthographic map sends its box to [-1,1] squared, affinely.
//
//verif:bounds box sides in [-100,100], at least 0.01 wide and high
func VH_C03_ortho() {
	l, b := vFloat("l", -100, 100), vFloat("b", -100, 100)
	r, t := vFloat("r", -100, 100), vFloat("t", -100, 100)
	vAssume(r-l >= 0.01)
	vAssume(t-b >= 0.01)
	m := NewTransformIdentity().Ortho(NewBB(l, b, r, t))
	uClose(m.Point(Vector{l, b}), Vector{-1, -1}, 1e-6, "lower left corner")
	uClose(m.Point(Vector{r, b}), Vector{1, -1}, 1e-6, "lower right corner")
	uClose(m.Point(Vector{l, t}), Vector{-1, 1}, 1e-6, "upper left corner")
	uClose(m.Point(Vector{r, t}), Vector{1, 1}, 1e-6, "upper right corner")
	vCover("end")
}

// VH_C03_bone: BoneScale maps the unit x segment onto the bone, keeping shape (a similarity).
//
//verif:bounds coordinates in [-100,100]
func VH_C03_bone() {
	v0, v1 := uVec("a", 100), uVec("b", 100)
	m := NewTransformIdentity().BoneScale(v0, v1)
	uClose(m.Point(Vector{0, 0}), v0, 1e-6, "bone start")
	uClose(m.Point(Vector{1, 0}), v1, 1e-6, "bone end")
	d := uSub(v1, v0)
	uClose(m.Point(Vector{0, 1}), Vector{v0.X - d.Y, v0.Y + d.X}, 1e-6, "bone side is perpendicular")
	vCover("end")
}

// VH_C03_axial: AxialScale scales along the unit axis about the pivot and fixes the perpendicular direction.
//
//verif:bounds every axis direction, pivot and point in [-100,100], scale in [-10,10]
func VH_C03_axial() {
	th := vAngle("th", -10, 10)
	ax := Vector{math.Cos(th), math.Sin(th)}
	pv, p := uVec("v", 100), uVec("p", 100)
	s := vFloat("s", -10, 10)
	m := NewTransformIdentity().AxialScale(ax, pv, s)
	// p = pivot + u*axis + w*perp  ->  pivot + s*u*axis + w*perp
	u := uDot(uSub(p, pv), ax)
	want := uAdd(p, uMul(ax, (s-1)*u))
	uClose(m.Point(p), want, 1e-6, "axial scale")
	vCover("end")
}

// VH_C03_bb: the transformed box is the bounding box of the image of the box.
//
//verif:bounds coefficients in [-10,10], box sides in [-10,10], every point of the box
func VH_C03_bb() {
	a, b, c, d, tx, ty := vFloat("a", -10, 10), vFloat("b", -10, 10), vFloat("c", -10, 10), vFloat("d", -10, 10), vFloat("tx", -10, 10), vFloat("ty", -10, 10)
	m := NewTransform(a, c, tx, b, d, ty)
	cx, cy := vFloat("cx", -10, 10), vFloat("cy", -10, 10)
	hw, hh := vFloat("hw", 0, 10), vFloat("hh", 0, 10)
	o := m.BB(NewBB(cx-hw, cy-hh, cx+hw, cy+hh))
	ox, oy := a*cx+c*cy+tx, b*cx+d*cy+ty
	ex, ey := uAbs(a)*hw+uAbs(c)*hh, uAbs(b)*hw+uAbs(d)*hh
	vAssert(vAnd(o.L <= ox-ex+1e-6, o.R >= ox+ex-1e-6), "image box covers the image in x")
	vAssert(vAnd(o.B <= oy-ey+1e-6, o.T >= oy+ey-1e-6), "image box covers the image in y")
	vAssert(vAnd(o.L >= ox-ex-1e-6, o.R <= ox+ex+1e-6), "image box is tight in x")
	vAssert(vAnd(o.B >= oy-ey-1e-6, o.T <= oy+ey+1e-6), "image box is tight in y")
	vCover("end")
}
