package cp

import "math"

// c28Free is a body that touches nothing; its center of gravity is off the origin.
func c28Free(space *Space, m, moment float64, cog Vector) *Body {
	b := space.AddBody(NewBody(m, moment))
	b.cog = cog
	return b
}

// VH_C28_step: a free body moves by semi-implicit Euler.
//
//verif:bounds any position, velocity, force, gravity, angular velocity and torque within ranges of 10 to 100; mass and moment in [0.25,16]; steps of 1/4 and 1/4, 1/64 and 1, 1 and 1/4, damping in {1,0.5,0,2}, the same in both steps or not; center of gravity at the origin or off it
//verif:time 120
func VH_C28_step() {
	space := NewSpace()
	dts := [][]float64{{0.25, 0.25}, {1.0 / 64, 1}, {1, 0.25}}[vChoose("dt", 3)]
	damping := []float64{1, 0.5, 0, 2}[vChoose("damping", 4)]
	space.SetDamping(damping)
	change := vBool("change")
	g := uVec("g", 20)
	space.SetGravity(g)
	vAssert(vAnd(space.Gravity() == g, space.Damping() == damping), "gravity and damping are kept")
	m, moment := vFloat("m", 0.25, 16), vFloat("i", 0.25, 16)
	cog := []Vector{{}, {0.5, -1}}[vChoose("cog", 2)]
	b := c28Free(space, m, moment, cog)
	p := uVec("p", 100)
	angle := []float64{0, 0.75}[vChoose("angle", 2)]
	b.SetAngle(angle)
	b.SetPosition(p)
	v := uVec("v", 50)
	w := vFloat("w", -10, 10)
	b.SetVelocityVector(v)
	b.SetAngularVelocity(w)
	f := uVec("f", 100)
	t := vFloat("t", -100, 100)
	b.SetForce(f)
	b.SetTorque(t)
	vAssert(vAnd(b.Velocity() == v, b.AngularVelocity() == w, b.Force() == f, b.Torque() == t), "velocity and force are kept")
	c := uAdd(p, uRot(cog, angle)) // center of gravity
	for i, dt := range dts {
		if i == 1 && change {
			// other damping, gravity, mass and moment
			damping, g, m, moment = 1.25-damping/2, Vector{g.Y, 1 - g.X}, 0.5, 3
			space.SetDamping(damping)
			space.SetGravity(g)
			b.SetMass(m)
			b.SetMoment(moment)
			f = Vector{2, 1}
			b.SetForce(f)
		}
		d := math.Pow(damping, dt)
		space.Step(dt)
		// Chipmunk integrates the position with the velocity of the step before, then the velocity
		c = uAdd(c, uMul(v, dt))
		angle += w * dt
		v = Vector{v.X*d + (g.X+f.X/m)*dt, v.Y*d + (g.Y+f.Y/m)*dt}
		w = w*d + t/moment*dt
		f, t = Vector{}, 0
		uClose(b.p, c, 1e-6, "the center of gravity moves by the velocity")
		vClose(b.Angle(), angle, 1e-6, "the angle changes by the angular velocity")
		uClose(b.Velocity(), v, 1e-6, "the velocity is damped and accelerated")
		vClose(b.AngularVelocity(), w, 1e-6, "the angular velocity is damped and accelerated")
		vAssert(vAnd(b.Force() == Vector{}, b.Torque() == 0), "forces are cleared")
		if i == 0 && cog == (Vector{}) {
			uClose(b.Position(), c, 1e-6, "the position is the center of gravity")
		}
	}
	vCover("stepped")
}

// VH_C28_turn: the transform follows position and angle.
//
//verif:bounds any angle, position and velocity; a fixed angular velocity; center of gravity off the origin; 1 step
//verif:time 60
func VH_C28_turn() {
	space := NewSpace()
	cog := Vector{0.5, -1}
	b := c28Free(space, 1, 1, cog)
	angle := vAngle("angle", -3, 3)
	b.SetAngle(angle)
	p := uVec("p", 100)
	b.SetPosition(p)
	v := uVec("v", 50)
	b.SetVelocityVector(v)
	uClose(b.Position(), p, 1e-6, "the position is kept")
	center := uAdd(p, uRot(cog, angle))
	uClose(b.LocalToWorld(cog), center, 1e-6, "the center of gravity")
	space.Step(0.25)
	uClose(b.LocalToWorld(cog), uAdd(center, uMul(v, 0.25)), 1e-6, "the center of gravity moves by the velocity")
	uClose(b.Position(), uAdd(p, uMul(v, 0.25)), 1e-6, "a body that does not spin keeps its orientation")
	s := NewCircle(b, 1, Vector{2, 1})
	space.AddShape(s)
	space.Step(0.25)
	q := uAdd(uAdd(p, uMul(v, 0.5)), uRot(Vector{2, 1}, angle))
	bb := s.BB()
	vClose(bb.L, q.X-1, 1e-6, "shapes follow the body")
	vClose(bb.T, q.Y+1, 1e-6, "shapes follow the body")
}

// VH_C28_spin: the orientation of a body follows its angle on every step.
//
//verif:bounds 5 spins, any position and velocity in ranges of 50; center of gravity at the origin or off it; 2 steps of 1/4
//verif:time 60
func VH_C28_spin() {
	space := NewSpace()
	cog := []Vector{{}, {0.5, -1}}[vChoose("cog", 2)]
	b := c28Free(space, 1, 1, cog)
	w := []float64{0, 1, -2.5, 6.25, 13}[vChoose("spin", 5)]
	angle := 0.5
	b.SetAngle(angle)
	p := uVec("p", 50)
	b.SetPosition(p)
	v := uVec("v", 50)
	b.SetVelocityVector(v)
	b.SetAngularVelocity(w)
	c := uAdd(p, uRot(cog, angle))
	s := space.AddShape(NewCircle(b, 0.5, Vector{2, 1}))
	for i := 0; i < 2; i++ {
		space.Step(0.25)
		c = uAdd(c, uMul(v, 0.25))
		angle += w * 0.25
		uClose(b.Rotation(), Vector{math.Cos(angle), math.Sin(angle)}, 1e-9, "the rotation is that of the angle")
		at := uAdd(c, uRot(uSub(Vector{2, 1}, cog), angle))
		uClose(b.LocalToWorld(Vector{2, 1}), at, 1e-6, "world coordinates follow the body")
		uClose(b.WorldToLocal(at), Vector{2, 1}, 1e-6, "local coordinates follow the body")
		bb := s.BB()
		vClose(bb.L, at.X-0.5, 1e-6, "shapes follow the body")
		vClose(bb.B, at.Y-0.5, 1e-6, "shapes follow the body")
	}
}

// VH_C28_still: a time step of zero changes nothing, and other functions replace the integration.
//
//verif:bounds any position, velocity, spin, force, torque and gravity; a body alone, or overlapping another one with a joint
//verif:time 60
func VH_C28_still() {
	space := NewSpace()
	space.SetGravity(uVec("g", 20))
	b := c28Free(space, 2, 3, Vector{})
	p, v, f := uVec("p", 10), uVec("v", 10), uVec("f", 10)
	w, t := vFloat("w", -4, 4), vFloat("t", -4, 4)
	set := func() {
		b.SetPosition(p)
		b.SetVelocityVector(v)
		b.SetAngularVelocity(w)
		b.SetForce(f)
		b.SetTorque(t)
	}
	if vChoose("alone", 2) == 1 {
		c := c28Free(space, 1, 1, Vector{})
		space.AddShape(NewCircle(b, 1, Vector{}))
		space.AddShape(NewCircle(c, 1, Vector{0.5, 0}))
		space.AddConstraint(NewPivotJoint(b, c, Vector{1, 1}))
		p = Vector{0.25, 0.5}
	}
	space.Step(0.5)
	set()
	n := 0
	space.NewCollisionHandler(0, 0).PreSolveFunc = func(*Arbiter, *Space, interface{}) bool {
		n++
		return true
	}
	space.Step(0)
	vAssert(vAnd(b.p == p, b.v == v, b.w == w, b.f == f, b.t == t, b.a == b.Angle()), "a time step of zero changes nothing")
	vAssert(n == 0, "a time step of zero changes nothing")
}

// VH_C28_custom: other velocity and position functions are called once per step.
//
//verif:bounds two bodies, one of them kinematic or not; any velocity, gravity; damping 0.25 per second; step of 1/2 or 1/4; 2 steps
//verif:time 60
func VH_C28_custom() {
	space := NewSpace()
	g := uVec("g", 20)
	space.SetGravity(g)
	space.SetDamping(0.25)
	dt := []float64{0.5, 0.25}[vChoose("dt", 2)]
	a := c28Free(space, 1, 1, Vector{})
	b := c28Free(space, 2, 3, Vector{})
	if vBool("kinematic") {
		b.SetType(BODY_KINEMATIC)
	}
	v := uVec("v", 10)
	a.SetVelocityVector(v)
	b.SetVelocityVector(v)
	vel, pos := 0, 0
	order := true
	b.SetVelocityUpdateFunc(func(x *Body, gravity Vector, damping, t float64) {
		vel++
		order = order && pos == vel
		vAssert(vAnd(x == b, gravity == g, t == dt), "the velocity function gets the body, gravity and time step")
		vClose(damping, math.Pow(0.25, dt), 1e-12, "the velocity function gets the damping of the step")
		x.v.X = 3
	})
	b.SetPositionUpdateFunc(func(x *Body, t float64) {
		pos++
		vAssert(vAnd(x == b, t == dt), "the position function gets the body and time step")
		x.SetPosition(Vector{float64(pos), 1})
	})
	for i := 0; i < 2; i++ {
		p, q := a.p, a.v
		space.Step(dt)
		vAssert(vAnd(vel == i+1, pos == i+1, order), "the functions are called once per step")
		vAssert(vAnd(b.v.X == 3, b.v.Y == v.Y, b.p.X == float64(i+1), b.p.Y == 1), "the functions replace the integration")
		uClose(a.p, uAdd(p, uMul(q, dt)), 1e-6, "other bodies are integrated as usual")
		vAssert(space.TimeStep() == dt, "the time step is reported")
	}
}

// VH_C28_default: the exported integration functions do the default integration.
//
//verif:bounds any velocity, position, spin, force, torque, gravity and damping of a dynamic or kinematic body
//verif:time 60
func VH_C28_default() {
	b := NewBody(2, 4)
	kinematic := vBool("kinematic")
	if kinematic {
		b.SetType(BODY_KINEMATIC)
	}
	p, v, f, g := uVec("p", 10), uVec("v", 10), uVec("f", 10), uVec("g", 10)
	w, t := vFloat("w", -4, 4), vFloat("t", -4, 4)
	damping := vFloat("damping", 0, 1)
	b.SetPosition(p)
	b.SetVelocityVector(v)
	b.SetAngularVelocity(w)
	b.SetForce(f)
	b.SetTorque(t)
	switch vChoose("how", 2) {
	case 0:
		BodyUpdateVelocity(b, g, damping, 0.5)
	default:
		b.UpdateVelocity(g, damping, 0.5)
	}
	if kinematic {
		vAssert(vAnd(b.v == v, b.w == w), "kinematic bodies keep their velocity")
	} else {
		uClose(b.v, Vector{v.X*damping + (g.X+f.X/2)*0.5, v.Y*damping + (g.Y+f.Y/2)*0.5}, 1e-9, "the velocity is damped and accelerated")
		vClose(b.w, w*damping+t/4*0.5, 1e-9, "the angular velocity is damped and accelerated")
		vAssert(vAnd(b.f == Vector{}, b.t == 0), "forces are cleared")
	}
	v, w = b.v, b.w
	b.v_bias, b.w_bias = Vector{1, 2}, 0.5
	BodyUpdatePosition(b, 0.5)
	uClose(b.p, Vector{p.X + (v.X+1)*0.5, p.Y + (v.Y+2)*0.5}, 1e-9, "the position follows the velocity")
	vClose(b.a, (w+0.5)*0.5, 1e-9, "the angle follows the angular velocity")
	vAssert(vAnd(b.v_bias == Vector{}, b.w_bias == 0), "the velocity that separates shapes is used once")
}
