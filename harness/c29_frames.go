package cp

// c29Body is a body at any place and orientation, with its center of gravity off the origin.
func c29Body() (*Body, Vector, float64, Vector) {
	b := NewBody(2, 4)
	cog := uVec("cog", 4)
	b.cog = cog
	angle := vAngle("angle", -3, 3)
	p := uVec("p", 50)
	b.SetAngle(angle)
	b.SetPosition(p)
	return b, p, angle, cog
}

// VH_C29_points: points and directions convert between body and world.
//
//verif:bounds any position, angle, center of gravity and point
//verif:time 120
func VH_C29_points() {
	b, p, angle, cog := c29Body()
	vAssert(b.Angle() == angle, "the angle is read back")
	uClose(b.Position(), p, 1e-9, "the position is read back")
	r := b.Rotation()
	uClose(r, uRot(Vector{1, 0}, angle), 1e-9, "the rotation is the x axis of the body")
	q := uVec("q", 20)
	uClose(b.LocalToWorld(q), uAdd(p, uRot(q, angle)), 1e-6, "local to world rotates and moves")
	uClose(b.WorldToLocal(b.LocalToWorld(q)), q, 1e-6, "world to local undoes local to world")
	uClose(b.LocalToWorld(b.WorldToLocal(q)), q, 1e-6, "local to world undoes world to local")
	uClose(b.LocalToWorld(b.CenterOfGravity()), uAdd(p, uRot(cog, angle)), 1e-6, "the center of gravity moves with the body")
	uClose(b.p, uAdd(p, uRot(cog, angle)), 1e-6, "bodies turn about their center of gravity")
	// turning keeps the center of gravity
	c := b.p
	b.SetAngle(0.5)
	uClose(b.LocalToWorld(cog), c, 1e-6, "turning is about the center of gravity")
	// moving keeps the orientation
	b.SetPosition(q)
	vAssert(b.Angle() == 0.5, "moving does not turn")
	uClose(b.Position(), q, 1e-6, "the position is read back")
	vCover("converted")
}

// VH_C29_velocity: points of a body move by its velocity and spin.
//
//verif:bounds any position, angle, center of gravity, point, velocity and spin
//verif:time 120
func VH_C29_velocity() {
	b, p, angle, cog := c29Body()
	v, w := uVec("v", 50), vFloat("w", -10, 10)
	b.SetVelocityVector(v)
	b.SetAngularVelocity(w)
	vAssert(vAnd(b.Velocity() == v, b.AngularVelocity() == w), "the velocity is read back")
	q := uVec("q", 20)
	r := uSub(uAdd(p, uRot(q, angle)), uAdd(p, uRot(cog, angle)))
	want := Vector{v.X - w*r.Y, v.Y + w*r.X}
	uClose(b.VelocityAtLocalPoint(q), want, 1e-6, "the velocity of a point is v + w x r")
	uClose(b.VelocityAtWorldPoint(b.LocalToWorld(q)), want, 1e-6, "the velocity of a world point is v + w x r")
	vClose(b.KineticEnergy(), 2*uDot(v, v)+4*w*w, 1e-6, "kinetic energy")
}

// VH_C29_push: forces and impulses act at the point they are applied to.
//
//verif:bounds any position, angle, center of gravity, point, force or impulse; 1 or 2 of them; mass and moment in [0.25,16]
//verif:time 120
func VH_C29_push() {
	b, p, angle, cog := c29Body()
	m, i := vFloat("m", 0.25, 16), vFloat("i", 0.25, 16)
	b.SetMass(m)
	b.SetMoment(i)
	q, f := uVec("q", 20), uVec("f", 20)
	v, w := uVec("v", 5), vFloat("w", -5, 5)
	b.SetVelocityVector(v)
	b.SetAngularVelocity(w)
	c := uAdd(p, uRot(cog, angle))
	// the force and the point in the world
	world := vChoose("frame", 2) == 0
	F, r := f, uSub(q, c)
	if !world {
		F, r = uRot(f, angle), uSub(uAdd(p, uRot(q, angle)), c)
	}
	if vChoose("kind", 2) == 0 {
		b.SetForce(Vector{1, 2})
		b.SetTorque(3)
		if world {
			b.ApplyForceAtWorldPoint(f, q)
		} else {
			b.ApplyForceAtLocalPoint(f, q)
		}
		uClose(b.Force(), uAdd(Vector{1, 2}, F), 1e-6, "forces add up")
		vClose(b.Torque(), 3+uCross(r, F), 1e-6, "the torque is r x F")
		vAssert(vAnd(b.v == v, b.w == w), "a force acts in the next step only")
		// a force through the center of gravity
		b.ApplyForceAtWorldPoint(Vector{5, 4}, b.LocalToWorld(cog))
		vClose(b.Torque(), 3+uCross(r, F), 1e-6, "a force through the center of gravity does not turn")
	} else {
		if world {
			b.ApplyImpulseAtWorldPoint(f, q)
		} else {
			b.ApplyImpulseAtLocalPoint(f, q)
		}
		uClose(b.Velocity(), Vector{v.X + F.X/m, v.Y + F.Y/m}, 1e-6, "an impulse changes the velocity by j/m")
		vClose(b.AngularVelocity(), w+uCross(r, F)/i, 1e-6, "an impulse changes the spin by r x j / i")
		vAssert(vAnd(b.Force() == Vector{}, b.Torque() == 0), "an impulse is no force")
	}
	uClose(b.Position(), p, 1e-9, "pushing does not move at once")
}

// VH_C29_mass: the center of gravity of shapes is the one of the body.
//
//verif:bounds a body of two circles of any mass and place, at any place and angle; any force and point
//verif:time 120
func VH_C29_mass() {
	space := NewSpace()
	b := space.AddBody(NewBody(1, 1))
	m, n := vFloat("m", 0.25, 4), vFloat("n", 0.25, 4)
	x, y := uVec("x", 5), uVec("y", 5)
	s := space.AddShape(NewCircle(b, 1, x))
	t := space.AddShape(NewCircle(b, 0.5, y))
	angle := vAngle("angle", -3, 3)
	p := uVec("p", 50)
	b.SetPosition(p)
	b.SetAngle(angle)
	b.SetPosition(p)
	s.SetMass(m)
	t.SetMass(n)
	cog := Vector{(m*x.X + n*y.X) / (m + n), (m*x.Y + n*y.Y) / (m + n)}
	uClose(b.CenterOfGravity(), cog, 1e-6, "center of gravity")
	uClose(b.Position(), p, 1e-6, "masses do not move the body")
	q, f := uVec("q", 20), uVec("f", 20)
	b.ApplyForceAtWorldPoint(f, q)
	c := uAdd(p, uRot(cog, angle))
	vClose(b.Torque(), uCross(uSub(q, c), f), 1e-4, "the torque is about the center of gravity")
	at := b.VelocityAtWorldPoint(c)
	uClose(at, b.Velocity(), 1e-6, "the center of gravity moves by the velocity")
}

// VH_C29_shapes: shapes follow the position and angle of their body when they are updated.
//
//verif:bounds a circle, segment and triangle on a body with any center of gravity at any place and angle; any point
//verif:time 120
func VH_C29_shapes() {
	space := NewSpace()
	b := space.AddBody(NewBody(1, 1))
	b.cog = uVec("cog", 4)
	angle := vAngle("angle", -3, 3)
	p := uVec("p", 20)
	c := NewCircle(b, 1, Vector{2, 1})
	s := NewSegment(b, Vector{-1, 2}, Vector{3, 0}, 0.25)
	t := NewPolyShapeRaw(b, 3, []Vector{{-1, 0}, {1, -1}, {0.5, 2}}, 0.125)
	for _, x := range []*Shape{c, s, t} {
		space.AddShape(x)
	}
	b.SetAngle(angle)
	b.SetPosition(p)
	how := vChoose("update", 3)
	switch how {
	case 0:
		for _, x := range []*Shape{c, s, t} {
			x.CacheBB()
		}
	case 1:
		for _, x := range []*Shape{c, s, t} {
			x.Update(b.transform)
		}
	default:
		ShapeUpdateFunc(c)
		ShapeUpdateFunc(s)
		ShapeUpdateFunc(t)
	}
	at := func(q Vector) Vector { return uAdd(p, uRot(q, angle)) }
	uClose(c.Class.(*Circle).TransformC(), at(Vector{2, 1}), 1e-6, "a circle follows its body")
	uClose(s.Class.(*Segment).TransformA(), at(Vector{-1, 2}), 1e-6, "a segment follows its body")
	uClose(s.Class.(*Segment).TransformB(), at(Vector{3, 0}), 1e-6, "a segment follows its body")
	for i, q := range []Vector{{-1, 0}, {1, -1}, {0.5, 2}} {
		uClose(t.Class.(*PolyShape).TransformVert(i), at(q), 1e-6, "a polygon follows its body")
	}
	vCover("followed")
}
