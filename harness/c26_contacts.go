package cp

import "math"

// c26Pair is a pair of shapes in contact, of different kinds: circles with each other, a circle on a static floor, on a
// kinematic floor, at the corner of a box, and boxes on a floor and on each other.
func c26Pair(kind int, iterations uint) (*Space, *Body, *Body, *Shape, *Shape) {
	space := NewSpace()
	space.Iterations = iterations
	space.SetCollisionSlop(100)
	var a, b *Body
	var s, t *Shape
	b = NewBody(2, 1.5)
	switch kind {
	case 0:
		a = NewBody(4, 3)
		s = NewCircle(a, 1, Vector{})
		t = NewCircle(b, 0.75, Vector{})
		a.SetPosition(Vector{-1, 0.5})
		b.SetPosition(Vector{-0.0625, 1.75})
	case 1:
		a = space.StaticBody
		s = NewSegment(a, Vector{-4, -1}, Vector{4, 2}, 0.25)
		t = NewCircle(b, 0.75, Vector{})
		b.SetPosition(Vector{0, 1.375})
	case 2:
		a = NewKinematicBody()
		s = NewSegment(a, Vector{-4, 0}, Vector{4, 0}, 0)
		t = NewCircle(b, 1, Vector{0.5, 0})
		b.SetPosition(Vector{0, 0.9375})
	case 3:
		a = NewBody(4, 3)
		s = NewBox(a, 2, 1, 0)
		t = NewCircle(b, 1, Vector{-0.25, 0})
		b.SetPosition(Vector{1.75, 1.25})
	case 4:
		a = space.StaticBody
		s = NewSegment(a, Vector{-4, 0}, Vector{4, 0}, 0)
		t = NewBox(b, 2, 1, 0)
		b.SetPosition(Vector{0, 0.4375})
	case 5:
		a = NewBody(4, 3)
		s = NewBox(a, 2, 1, 0)
		t = NewBox(b, 2, 1, 0.125)
		b.SetPosition(Vector{0.5, 1})
		b.SetAngle(0.0625)
	default:
		a = space.StaticBody
		s = NewSegment(a, Vector{-4, 0}, Vector{4, 0}, 0)
		t = NewBox(b, 2, 1, 0)
		b.SetAngle(0.75)
		b.SetPosition(Vector{0, 1})
	}
	if a != space.StaticBody {
		space.AddBody(a)
	}
	space.AddBody(b)
	space.AddShape(s)
	space.AddShape(t)
	a.SetPositionUpdateFunc(func(*Body, float64) {})
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	return space, a, b, s, t
}

// c26Rel is the velocity of b relative to a at the contact.
func c26Rel(a, b *Body, p, q Vector) Vector {
	r, s := uSub(p, a.p), uSub(q, b.p)
	return Vector{b.v.X - b.w*s.Y - a.v.X + a.w*r.Y, b.v.Y + b.w*s.X - a.v.Y - a.w*r.X}
}

func c26Energy(b *Body) float64 {
	if b.GetType() != BODY_DYNAMIC {
		return 0
	}
	return b.m*uDot(b.v, b.v) + b.i*b.w*b.w
}

// c26Check checks the velocities and impulses after a step.
func c26Check(arb *Arbiter, a, b, beforeA, before *Body, kind int, e, u float64, surface Vector) {
	set := arb.ContactPointSet()
	n := set.Normal
	first, _ := arb.Bodies()
	for j := 0; j < arb.count; j++ {
		jn, jt := arb.contacts[j].jnAcc, arb.contacts[j].jtAcc
		vAssert(jn >= 0, "a contact never pulls")
		vAssert(vAnd(jt <= u*jn+1e-9, jt >= -u*jn-1e-9), "friction is limited by the normal impulse")
	}
	if arb.count != 1 {
		vCover("several contacts")
		return
	}
	p, q := set.Points[0].PointA, set.Points[0].PointB
	if first == b {
		n = uMul(n, -1)
		p, q = q, p
	}
	v0 := c26Rel(beforeA, before, p, q)
	v1 := c26Rel(a, b, p, q)
	jn, jt := arb.contacts[0].jnAcc, arb.contacts[0].jtAcc
	tangent := Vector{-n.Y, n.X}
	// the contact lies on the line through the centers: bouncing and rubbing are independent
	straight := kind == 0 || kind == 1
	if u == 0 || straight {
		gap := uDot(v1, n) + e*uDot(v0, n)
		vAssert(gap >= -1e-6, "shapes separate at least as elasticity demands")
		vAssert(vOr(gap <= 1e-6, jn == 0), "shapes do not bounce more than elasticity demands")
	}
	if straight {
		slip := uDot(uAdd(v1, surface), tangent)
		vAssert(vOr(slip <= 1e-6, jt <= -u*jn+1e-6), "friction stops slipping or is at its limit")
		vAssert(vOr(slip >= -1e-6, jt >= u*jn-1e-6), "friction stops slipping or is at its limit")
	}
	vCover("one contact")
}

// VH_C26_contact: no contact pulls or rubs beyond its friction; single contacts bounce and carry as they should.
//
//verif:bounds 7 fixed contact geometries (circles, floors, boxes); any velocity of the upper body in [-8,8] and spin in [-4,4], one velocity of the lower body if it moves (quick: one velocity of the upper); elasticity product 0, 0.5 or 1, friction product 0, 0.5 or 8, with a surface velocity on either shape; 2 steps with 1 iteration (boxes: 1 step with 2; thorough: 2 iterations)
//verif:time 600
func VH_C26_contact() {
	kind := vChoose("kind", 7)
	mat := vChoose("material", 6)
	steps, it := 2, uint(1)
	if kind == 4 || kind == 5 {
		steps, it = 1, 2
	}
	if vThorough() {
		it = 2
	}
	space, a, b, s, t := c26Pair(kind, it)
	s.SetElasticity([]float64{0, 0.5, 2, 0, 1, 0}[mat])
	t.SetElasticity([]float64{1, 1, 0.5, 0, 0.5, 0.5}[mat])
	s.SetFriction([]float64{0, 2, 4, 0.5, 0, 0.5}[mat])
	t.SetFriction([]float64{1, 0.25, 2, 1, 0.5, 16}[mat])
	e := []float64{0, 0.5, 1, 0, 0.5, 0}[mat]
	u := []float64{0, 0.5, 8, 0.5, 0, 8}[mat]
	var surface Vector
	if mat == 3 || mat == 5 {
		s.SetSurfaceV(Vector{2, 0.5})
		t.SetSurfaceV(Vector{-1, 0.25})
		surface = Vector{-3, -0.25}
	}
	b.SetVelocity(-1.5, vFloat("vby", -8, 8))
	b.SetAngularVelocity(vFloat("wb", -4, 4))
	if kind == 2 || vThorough() {
		b.SetVelocity(vFloat("vbx", -8, 8), b.v.Y)
	}
	if a != space.StaticBody {
		a.SetVelocity(vFloat("vax", -8, 8), 0.5)
		a.SetAngularVelocity(-0.25)
	}
	for i := 0; i < steps; i++ {
		before := *b
		beforeA := *a
		space.Step(0.25)
		var arb *Arbiter
		b.EachArbiter(func(x *Arbiter) { arb = x })
		vAssert(arb != nil, "the shapes are in contact")
		c26Check(arb, a, b, &beforeA, &before, kind, e, u, surface)
	}
}

// VH_C26_change: what counts is the material at the time of the step.
//
//verif:bounds 7 contact geometries as above; touching for a step with one material, then any of 3 others set, and mass, moment or position changed; any velocity of the upper body then; 1 iteration
//verif:time 200
func VH_C26_change() {
	kind := vChoose("kind", 7)
	mat := vChoose("material", 3)
	space, a, b, s, t := c26Pair(kind, 1)
	s.SetElasticity([]float64{1, 0, 0.5}[mat])
	t.SetElasticity(1)
	s.SetFriction([]float64{0, 0, 0.25}[mat])
	t.SetFriction(1)
	if mat == 2 {
		s.SetSurfaceV(Vector{4, 1})
	}
	b.SetVelocity(0.5, -1)
	space.Step(0.25)
	s.SetElasticity([]float64{0, 1, 1}[mat])
	t.SetElasticity([]float64{1, 0.5, 1}[mat])
	s.SetFriction([]float64{1, 0.5, 2}[mat])
	t.SetFriction([]float64{1, 0, 0.25}[mat])
	surface := Vector{}
	s.SetSurfaceV(Vector{})
	if mat == 0 {
		t.SetSurfaceV(Vector{-1, 0.25})
		surface = Vector{-1, 0.25}
	}
	e, u := []float64{0, 0.5, 1}[mat], []float64{1, 0, 0.5}[mat]
	switch mat {
	case 0:
		b.SetMass(9)
	case 1:
		b.SetMoment(0.5)
		b.SetMass(1)
	case 2:
		b.SetPosition(uAdd(b.Position(), Vector{0.125, 0}))
	}
	b.SetVelocity(-1.5, vFloat("vby", -8, 8))
	b.SetAngularVelocity(0.5)
	if kind < 3 {
		b.SetVelocity(vFloat("vbx", -8, 8), b.v.Y)
	}
	before, beforeA := *b, *a
	space.Step(0.25)
	var arb *Arbiter
	b.EachArbiter(func(x *Arbiter) { arb = x })
	vAssert(arb != nil, "the shapes are in contact")
	c26Check(arb, a, b, &beforeA, &before, kind, e, u, surface)
}

// VH_C26_energy: collisions do not add energy.
//
//verif:bounds the single contacts of circles with circles and floors with any friction in the list, the contacts of boxes without friction and elasticity; velocities and spins as above; 1 step with 2 iterations
//verif:time 300
func VH_C26_energy() {
	kind := []int{0, 1, 3, 4, 5, 6}[vChoose("kind", 6)]
	space, a, b, s, t := c26Pair(kind, 2)
	e, u := 0.0, 0.0
	if kind < 2 {
		k := vChoose("material", 4)
		e, u = []float64{0, 0.5, 1, 1}[k], []float64{0.5, 8, 0.5, 0}[k]
	} else if kind == 3 || kind == 6 {
		e = []float64{0, 0.5, 1}[vChoose("elasticity", 3)]
	}
	s.SetElasticity(1)
	t.SetElasticity(e)
	s.SetFriction(u)
	t.SetFriction(1)
	b.SetVelocity(vFloat("vbx", -8, 8), vFloat("vby", -8, 8))
	b.SetAngularVelocity(vFloat("wb", -4, 4))
	if a != space.StaticBody {
		a.SetVelocity(1, -0.5)
		a.SetAngularVelocity(0.25)
	}
	k0 := c26Energy(a) + c26Energy(b)
	space.Step(0.25)
	k1 := c26Energy(a) + c26Energy(b)
	vAssert(k1 <= k0+1e-6, "a collision does not add energy")
	if k1 != k0 {
		vCover("collided")
	}
}

// VH_C26_penetration: overlapping shapes are pushed apart by the configured fraction, without gaining velocity.
//
//verif:bounds a circle in a floor or another circle, at rest, any depth in [0,0.5] along an axis; slop 0.125; steps of 1/2 or 1/60
//verif:time 120
func VH_C26_penetration() {
	space := NewSpace()
	space.SetCollisionSlop(0.125)
	dt := []float64{0.5, 1.0 / 60}[vChoose("dt", 2)]
	depth := vFloat("depth", 0.01, 0.5)
	b := space.AddBody(NewBody(2, 1.5))
	space.AddShape(NewCircle(b, 1, Vector{}))
	a := space.StaticBody
	other := vBool("circle")
	if other {
		a = space.AddBody(NewBody(2, 1.5))
		space.AddShape(NewCircle(a, 1, Vector{}))
		b.SetPosition(Vector{0, 2 - depth})
	} else {
		space.AddShape(NewSegment(a, Vector{-4, 0}, Vector{4, 0}, 0))
		b.SetPosition(Vector{0, 1 - depth})
	}
	rest := b.p.Y + depth
	space.Step(dt)
	vAssert(vAnd(b.v == Vector{}, b.w == 0), "pushing apart gives no velocity")
	space.Step(dt)
	vAssert(vAnd(b.v == Vector{}, b.w == 0), "pushing apart gives no velocity")
	left := rest - (b.p.Y - a.p.Y)
	keep := math.Pow(0.9, 60*dt)
	want := vIte(depth <= 0.125, depth, 0.125+(depth-0.125)*keep)
	vClose(left, want, 1e-6, "overlap beyond the slop shrinks by the configured fraction")
	vClose(b.p.X, 0, 1e-9, "pushing apart is along the normal")
	vCover("pushed")
}
