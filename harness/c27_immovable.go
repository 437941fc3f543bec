package cp

// c27Disturb does to a body everything that moves dynamic bodies.
func c27Disturb(b *Body, k int) {
	switch k {
	case 1:
		b.SetForce(Vector{3, -2})
		b.SetTorque(4)
	case 2:
		b.ApplyForceAtWorldPoint(Vector{1, 2}, Vector{2, 3})
		b.ApplyForceAtLocalPoint(Vector{1, 2}, Vector{1, 0})
	case 3:
		b.ApplyImpulseAtWorldPoint(Vector{1, 2}, Vector{2, 3})
		b.ApplyImpulseAtLocalPoint(Vector{-1, 2}, Vector{0, 1})
	}
}

// c27Steps steps the space and checks that the body only follows its own velocity.
func c27Steps(space *Space, b *Body, v Vector, w float64, steps int) {
	p, angle, pos := b.p, b.a, b.Position()
	static := b.GetType() == BODY_STATIC
	for i := 0; i < steps; i++ {
		space.Step(0.25)
		if !static {
			p = Vector{p.X + v.X*0.25, p.Y + v.Y*0.25}
			angle += w * 0.25
		}
		vAssert(vAnd(b.p.X == p.X, b.p.Y == p.Y, b.a == angle), "the body follows its own velocity")
		vAssert(vAnd(b.v.X == v.X, b.v.Y == v.Y, b.w == w), "the velocity of the body does not change")
	}
	if static {
		vAssert(vAnd(b.Position().X == pos.X, b.Position().Y == pos.Y), "a static body does not move")
	} else {
		r := uRot(b.cog, angle)
		uClose(b.Position(), uSub(p, r), 1e-9, "the body follows its own velocity")
	}
}

// VH_C27_joints: joints and forces do not move static and kinematic bodies.
//
//verif:bounds the 10 kinds of joints between a static or kinematic body and a dynamic one (either order), 4 placements that strain them; gravity and damping; forces or impulses on either body; any velocity of the dynamic body in [-8,8] and spin in [-4,4] (pivot and groove: one velocity); a kinematic body that moves and turns; 2 steps (pivot and groove: 1)
//verif:time 200
func VH_C27_joints() {
	kind := vChoose("kind", uJoints)
	k := vChoose("placement", 4)
	space, a, b, j := uJointPair(kind, k, true, 1)
	space.SetGravity(Vector{1, -10})
	space.SetDamping(0.5)
	if k == 2 {
		j.SetMaxForce(4)
	}
	if vChoose("order", 2) == 1 {
		a, b = b, a
	}
	static := vChoose("type", 2) == 0
	var v Vector
	w := 0.0
	if static {
		a.SetType(BODY_STATIC)
	} else {
		a.SetType(BODY_KINEMATIC)
		a.SetPositionUpdateFunc(BodyUpdatePosition)
		v, w = Vector{1, -0.5}, 0.75
		a.SetVelocityVector(v)
		a.SetAngularVelocity(w)
	}
	c27Disturb(a, k)
	c27Disturb(b, k)
	steps := 2
	b.SetVelocity(vFloat("vx", -8, 8), 1)
	if kind == 2 || kind == 3 {
		steps = 1
	} else {
		b.SetVelocity(b.v.X, vFloat("vy", -8, 8))
		b.SetAngularVelocity(vFloat("w", -4, 4))
	}
	c27Steps(space, a, v, w, steps)
	vCover("stepped")
}

// VH_C27_contacts: what touches static and kinematic bodies does not move them.
//
//verif:bounds a circle or box deep in a circle, box or segment of a static or kinematic body (added, or made so after a step as a dynamic one); any velocity of the dynamic body in [-8,8] and spin in [-4,4] (quick: one velocity); elasticity and friction; 2 steps
//verif:time 200
func VH_C27_contacts() {
	space := NewSpace()
	space.Iterations = 1
	space.SetGravity(Vector{1, -10})
	kind := vChoose("kind", 4)
	history := vChoose("history", 4)
	a := uBody(space, 4, Vector{0.25, 0}, Vector{0, -1}, 0.125)
	if history < 2 {
		space.RemoveBody(a)
	}
	var s *Shape
	switch kind {
	case 0, 1:
		s = NewCircle(a, 1, Vector{0, 0.25})
	case 2:
		s = NewBox(a, 4, 2, 0)
	default:
		s = NewSegment(a, Vector{-4, 0.5}, Vector{4, 0.5}, 0.25)
	}
	s.SetElasticity(0.5)
	s.SetFriction(0.5)
	b := uBody(space, 2, Vector{0.25, 0}, Vector{0.25, 0.5}, 0)
	var t *Shape
	if kind == 0 || kind == 2 {
		t = NewCircle(b, 1, Vector{0, -0.25})
	} else {
		t = NewBox(b, 1.5, 1.5, 0)
	}
	t.SetElasticity(1)
	t.SetFriction(1)
	space.AddShape(t)
	types := []int{BODY_STATIC, BODY_KINEMATIC}
	if history < 2 {
		a.SetType(types[history])
		space.AddBody(a)
		space.AddShape(s)
	} else {
		space.AddShape(s)
		a.AddShape(s)
		// the bodies overlap: solving the contact leaves them with a velocity that separates them
		space.Step(0.25)
		space.Step(0.25)
		a.SetType(types[history%2])
		b.SetPosition(uAdd(a.Position(), Vector{0.25, 1.5}))
		b.SetAngle(a.Angle())
	}
	a.SetForce(Vector{})
	var v Vector
	w := 0.0
	if history%2 == 1 {
		v, w = Vector{0.5, 1}, -0.25
		a.SetVelocityVector(v)
		a.SetAngularVelocity(w)
	}
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	touched := false
	h := space.NewCollisionHandler(0, 0)
	h.PreSolveFunc = func(*Arbiter, *Space, interface{}) bool {
		touched = true
		return true
	}
	b.SetVelocity(0.5, vFloat("vy", -8, 8))
	b.SetAngularVelocity(vFloat("w", -4, 4))
	if vThorough() {
		b.SetVelocity(vFloat("vx", -8, 8), b.v.Y)
	}
	c27Steps(space, a, v, w, 2)
	if touched {
		vCover("touched")
	}
}

// VH_C27_moment: a body with infinite moment does not start to rotate.
//
//verif:bounds the joints that act on anchors, and a circle and a box in contact with a floor; any velocity of both bodies in [-8,8]; forces off center; 2 steps with 2 iterations (pivot and groove: 1)
//verif:time 200
func VH_C27_moment() {
	kind := vChoose("kind", 7)
	k := vChoose("placement", 4)
	var space *Space
	var a, b *Body
	steps := 2
	if kind < 5 {
		it := uint(2)
		if kind == 2 || kind == 3 {
			steps, it = 1, 1
		}
		space, a, b, _ = uJointPair(kind, k, true, it)
		a.SetMoment(INFINITY)
		a.SetVelocity(1, 0.5)
	} else {
		space = NewSpace()
		space.Iterations = 2
		a = space.AddBody(NewBody(2, INFINITY))
		floor := space.AddShape(NewSegment(space.StaticBody, Vector{-4, -0.5}, Vector{4, 0.5}, 0.25))
		s := NewCircle(a, 1, Vector{0.5, 0})
		if kind == 6 {
			s = NewBox(a, 2, 1.5, 0)
		}
		a.SetPosition(Vector{0.5, 0.75})
		space.AddShape(s)
		s.SetFriction(float64(k) / 2)
		floor.SetFriction(1)
		a.SetPositionUpdateFunc(func(*Body, float64) {})
		b = a
	}
	if k != 1 {
		a.ApplyForceAtWorldPoint(Vector{1, 2}, Vector{2, 3})
		a.ApplyImpulseAtLocalPoint(Vector{1, 2}, Vector{0, 1})
	}
	b.SetVelocity(vFloat("vx", -8, 8), 1)
	if kind != 2 && kind != 3 {
		b.SetVelocity(b.v.X, vFloat("vy", -8, 8))
	}
	for i := 0; i < steps; i++ {
		space.Step(0.25)
		vAssert(vAnd(a.w <= 1e-280, a.w >= -1e-280), "a body with infinite moment does not start to rotate")
	}
	vAssert(a.a == a.Angle(), "the angle")
	vCover("stepped")
}
