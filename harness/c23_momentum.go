package cp

// c23Center is the center of gravity in the world.
func c23Center(b *Body) Vector { return b.LocalToWorld(b.CenterOfGravity()) }

func c23Momentum(bs ...*Body) (p Vector, l float64) {
	for _, b := range bs {
		v := b.Velocity()
		p = uAdd(p, uMul(v, b.Mass()))
		c := c23Center(b)
		l += b.Moment()*b.AngularVelocity() + b.Mass()*(c.X*v.Y-c.Y*v.X)
	}
	return
}

// VH_C23_joints: each joint conserves momentum.
//
//verif:bounds each of the 10 joints; 4 placements with offset centers of gravity; any velocities in [-4,4] and spins in [-2,2]; maximum force unlimited or 2; 2 steps (of 1/4 and 3/8) with 2 iterations
//verif:time 200
func VH_C23_joints() {
	kind := vChoose("kind", uJoints)
	k := vChoose("placement", 4)
	space := NewSpace()
	space.Iterations = 2
	a := uBody(space, 2, Vector{0.25, -0.5}, []Vector{{-1, 0.5}, {0, 0}, {3, -2}, {1, 1}}[k], []float64{0.3, 0, -1, 2}[k])
	b := uBody(space, 4, Vector{0, 0.5}, []Vector{{2, -0.5}, {0.5, 3}, {-1, 1}, {1, -2}}[k], []float64{-0.7, 0, 0.5, 1}[k])
	j := uJoint(kind, a, b, []Vector{{0.5, 0}, {0, 1}, {1, -1}, {2, 0}}[k])
	limit := vChoose("limit", 2) == 1
	if limit {
		j.SetMaxForce(2)
	}
	space.AddConstraint(j)
	a.SetPositionUpdateFunc(func(*Body, float64) {})
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	va := Vector{vFloat("vax", -4, 4), 1}
	wa, steps := 0.5, 2
	if limit && (kind == 2 || kind == 3) {
		// clamping a vector takes a square root
		steps, space.Iterations = 1, 1
	} else {
		wa = vFloat("wa", -2, 2)
	}
	if vThorough() && steps == 2 {
		va.Y = vFloat("vay", -4, 4)
		b.SetAngularVelocity(vFloat("wb", -2, 2))
	}
	a.SetVelocityVector(va)
	a.SetAngularVelocity(wa)
	b.SetVelocity(-1, 0.5)
	for i := 0; i < steps; i++ {
		p0, l0 := c23Momentum(a, b)
		v0, w0 := a.Velocity(), a.AngularVelocity()
		space.Step(0.25 + float64(i)*0.125)
		p1, l1 := c23Momentum(a, b)
		vClose(p1.X, p0.X, 1e-9, "linear momentum is conserved")
		vClose(p1.Y, p0.Y, 1e-9, "linear momentum is conserved")
		if kind != 8 { // the gear box takes up momentum
			vClose(l1, l0, 1e-9, "angular momentum is conserved")
		}
		if kind >= 5 {
			vAssert(a.Velocity() == v0, "joints of angles leave velocities alone")
		}
		if vOr(a.Velocity() != v0, a.AngularVelocity() != w0) {
			vCover("acted")
		}
	}
}

// VH_C23_contacts: contacts conserve momentum, also the one of the velocities that push overlapping bodies apart.
//
//verif:bounds two bodies with overlapping circles, boxes or a mix in 4 placements; any velocities in [-4,4] and spins in [-2,2]; friction 0 or 0.7, elasticity 0 or 0.5; 2 steps (of 1/4 and 3/8) with 2 iterations
//verif:time 200
func VH_C23_contacts() {
	k := vChoose("placement", 4)
	space := NewSpace()
	space.Iterations = 2
	a := uBody(space, 2, Vector{0.25, -0.5}, []Vector{{-0.75, 0.25}, {0, 0}, {0, 0}, {1, 1}}[k], []float64{0.3, 0, -1, 2}[k])
	b := uBody(space, 4, Vector{0, 0.5}, []Vector{{0.75, -0.5}, {0.5, 1.75}, {-1, 1}, {1, -0.75}}[k], []float64{-0.7, 0, 0.5, 1}[k])
	friction := vChoose("friction", 2) == 1
	for i, x := range []*Body{a, b} {
		s := NewBox(x, 2, 2, 0)
		if k >= 2-i {
			s = NewCircle(x, 1, Vector{})
		}
		s.SetElasticity([]float64{0, 1, 0, 0.5}[k])
		if friction {
			s.SetFriction(0.7)
		}
		space.AddShape(s)
		x.SetPositionUpdateFunc(func(*Body, float64) {})
	}
	a.SetVelocity(vFloat("vax", -4, 4), 1)
	a.SetAngularVelocity(vFloat("wa", -2, 2))
	b.SetVelocity(-1, 0.5)
	if vThorough() {
		b.SetAngularVelocity(vFloat("wb", -2, 2))
		a.v.Y = vFloat("vay", -4, 4)
	}
	for i := 0; i < 2; i++ {
		p0, l0 := c23Momentum(a, b)
		space.Step(0.25 + float64(i)*0.125)
		p1, l1 := c23Momentum(a, b)
		vClose(p1.X, p0.X, 1e-9, "linear momentum is conserved")
		vClose(p1.Y, p0.Y, 1e-9, "linear momentum is conserved")
		p := uAdd(uMul(a.v_bias, a.m), uMul(b.v_bias, b.m))
		uClose(p, Vector{}, 1e-9, "pushing apart has no momentum")
		if !friction {
			vClose(l1, l0, 1e-9, "angular momentum is conserved")
		}
		touched := 0
		a.EachArbiter(func(*Arbiter) { touched++ })
		vAssert(touched == 1, "the bodies touch")
	}
	if a.v_bias != (Vector{}) {
		vCover("pushed")
	}
}
