package cp

import "math"

// c40Shape makes a shape of one of three kinds on the body.
func c40Shape(b *Body, kind int) *Shape {
	switch kind {
	case 0:
		return NewCircle(b, 1, Vector{0.25, 0})
	case 1:
		return NewSegment(b, Vector{-1.5, 0}, Vector{1, 0.5}, 0.5)
	}
	return NewBox(b, 2, 1.5, 0.125)
}

// c40Same: two contact sets are the same.
func c40Same(got, want ContactPointSet, label string) {
	vAssert(got.Count == want.Count, label+": number of contacts")
	if got.Count != want.Count {
		return
	}
	uClose(got.Normal, want.Normal, 1e-9, label+": normal")
	for i := 0; i < got.Count; i++ {
		uClose(got.Points[i].PointA, want.Points[i].PointA, 1e-9, label+": point on the first shape")
		uClose(got.Points[i].PointB, want.Points[i].PointB, 1e-9, label+": point on the second shape")
		vClose(got.Points[i].Distance, want.Points[i].Distance, 1e-9, label+": distance")
	}
}

// c40Is: got is the contact set of the shapes in the one order, or that of the other order seen from the other side (two
// shapes of a kind may be collided in either order).
func c40Is(got, want ContactPointSet, mirror bool) bool {
	if got.Count != want.Count {
		return false
	}
	if mirror {
		want.Normal = uMul(want.Normal, -1)
		for i := range want.Points {
			p := &want.Points[i]
			p.PointA, p.PointB = p.PointB, p.PointA
		}
	}
	d := uSub(got.Normal, want.Normal)
	same := uDot(d, d) <= 1e-18
	for i := 0; i < got.Count; i++ {
		d, e := uSub(got.Points[i].PointA, want.Points[i].PointA), uSub(got.Points[i].PointB, want.Points[i].PointB)
		f := got.Points[i].Distance - want.Points[i].Distance
		same = vAnd(same, uDot(d, d) <= 1e-18, uDot(e, e) <= 1e-18, f*f <= 1e-18)
	}
	return same
}

// c40Told: what the arbiter tells is what colliding the two shapes gives.
func c40Told(arb *Arbiter, label string) {
	a, b := arb.Shapes()
	ba, bb := arb.Bodies()
	vAssert(ba == a.Body() && bb == b.Body(), label+": bodies")
	set := arb.ContactPointSet()
	n := arb.Normal()
	vAssert(n == set.Normal && arb.Count() == set.Count, label+": normal and count")
	if a == arb.a && c40Is(set, ShapesCollide(a, b), false) {
		return
	}
	if c40Is(set, ShapesCollide(b, a), true) {
		return
	}
	vAssert(c40Is(set, ShapesCollide(a, b), false), label+": the contacts are those of the shapes")
}

// VH_C40_told: begin, pre-solve and post-solve callbacks see the contacts of the shapes as they are.
//
//verif:bounds circle, segment and box pairs (9 ordered kinds), 3 angles, handler for either type order or wildcards; any height of the second body in [0.25,3]; 2 steps (without a circle: 1)
//verif:time 300
func VH_C40_told() {
	ka, kb := vChoose("a", 3), vChoose("b", 3)
	how := vChoose("handler", 3)
	space := NewSpace()
	space.SetCollisionSlop(100) // no correction of overlaps: only the contacts matter
	a, b := NewBody(2, 3), NewBody(1, 2)
	space.AddBody(a)
	space.AddBody(b)
	s, t := c40Shape(a, ka), c40Shape(b, kb)
	space.AddShape(s)
	space.AddShape(t)
	s.SetCollisionType(1)
	t.SetCollisionType(2)
	hook := func(h *CollisionHandler) {
		h.BeginFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
			c40Told(arb, "begin")
			return true
		}
		h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
			c40Told(arb, "pre-solve")
			return true
		}
		h.PostSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) {
			c40Told(arb, "post-solve")
			vCover("post-solve")
		}
	}
	switch how {
	case 0:
		hook(space.NewCollisionHandler(1, 2))
	case 1:
		hook(space.NewCollisionHandler(2, 1))
	default:
		hook(space.NewWildcardCollisionHandler(1))
		hook(space.NewWildcardCollisionHandler(2))
	}
	y := vFloat("y", 0.25, 3)
	ang := []float64{0, 0.5, -2}[vChoose("angle", 3)]
	b.SetPosition(Vector{0.5, y})
	b.SetAngle(ang)
	space.Step(0.125)
	if ka == 0 && kb < 2 || kb == 0 && ka < 2 {
		// the velocities after the contact do not matter here: the second step starts from another place
		b.SetPosition(Vector{0.25, y})
		a.SetPosition(Vector{0, 0.125})
		for _, x := range []*Body{a, b} {
			x.SetVelocity(0, 0)
			x.SetAngularVelocity(0)
			x.v_bias = Vector{}
			x.w_bias = 0
		}
		a.SetAngle(0)
		b.SetAngle(ang)
		space.Step(0.125)
	}
}

// c40Listed checks the arbiters that each body lists against colliding the shapes pairwise.
func c40Listed(bodies []*Body, shapes []*Shape) {
	for _, body := range bodies {
		seen := map[[2]*Shape]int{}
		body.EachArbiter(func(arb *Arbiter) {
			a, b := arb.Shapes()
			vAssert(a.Body() == body, "the body comes first in its own arbiters")
			c40Told(arb, "listed")
			seen[[2]*Shape{a, b}]++
		})
		n := 0
		for _, s := range shapes {
			for _, t := range shapes {
				if s.Body() != body || t.Body() == body || (s.Body().GetType() != BODY_DYNAMIC && t.Body().GetType() != BODY_DYNAMIC) {
					continue
				}
				want := 0
				if !s.Sensor() && !t.Sensor() && ShapesCollide(s, t).Count > 0 {
					want = 1
					vCover("listed")
				}
				vAssert(seen[[2]*Shape{s, t}] == want, "a body lists exactly its touching pairs, each once")
				n += want
			}
		}
		k := 0
		body.EachArbiter(func(arb *Arbiter) { k++ })
		vAssert(k == n, "nothing else is listed")
	}
}

// VH_C40_each: after every step each body lists exactly the pairs that touch, with their contacts.
//
//verif:bounds a static and a kinematic segment, two circles and a body with two circles, optionally a sensor, with or without the sleep machinery, handlers for either order of each pair; the moving circle at any x in [-4,4] in one step (quick: at one of two places when it moves next), then at any other x or with a shape, body or nothing removed
//verif:time 300
func VH_C40_each() {
	space := NewSpace()
	space.SetCollisionSlop(100) // no correction of overlaps: only the contacts matter
	setting := vChoose("setting", 2)
	if vThorough() {
		setting = vChoose("settings", 4)
	}
	if setting%3 == 0 {
		space.SleepTimeThreshold = 100
	}
	a, b, c, k := NewBody(1, 2), NewBody(3, 1), NewBody(2, 2), NewKinematicBody()
	bodies := []*Body{a, b, c, k}
	for _, x := range bodies {
		space.AddBody(x)
	}
	bodies = append(bodies, space.StaticBody)
	shapes := []*Shape{
		NewCircle(a, 0.75, Vector{}),
		NewCircle(b, 0.5, Vector{}),
		NewCircle(c, 0.5, Vector{-0.5, 0}),
		NewCircle(c, 0.5, Vector{0.5, 0}),
		NewSegment(k, Vector{0, -1}, Vector{0, 1}, 0.25),
		NewSegment(space.StaticBody, Vector{-3, -1}, Vector{3, -1}, 0.5),
	}
	for _, s := range shapes {
		space.AddShape(s)
	}
	if setting%2 == 1 {
		shapes[2].SetSensor(true)
	}
	// handlers for the one or the other order of the pairs
	for i, s := range shapes {
		s.SetCollisionType(CollisionType(i + 1))
		for j := range shapes[:i] {
			if setting%2 == 0 {
				space.NewCollisionHandler(CollisionType(i+1), CollisionType(j+1))
			} else {
				space.NewCollisionHandler(CollisionType(j+1), CollisionType(i+1))
			}
		}
	}
	place := func(x float64) {
		p := []Vector{{x, 0}, {-2.5, 0}, {1.5, 0.25}, {2.75, 0.5}}
		for i, q := range p {
			bodies[i].SetPosition(q)
			bodies[i].SetVelocity(0, 0)
			bodies[i].SetAngularVelocity(0)
			bodies[i].v_bias = Vector{}
			bodies[i].w_bias = 0
			bodies[i].SetAngle(0)
		}
	}
	then := vChoose("then", 4)
	if then == 0 && !vThorough() {
		place([]float64{-1.5, 2}[setting%2])
	} else {
		place(vFloat("x", -4, 4))
	}
	space.Step(0.125)
	c40Listed(bodies, shapes)
	switch then {
	case 0:
		place(vFloat("x2", -4, 4))
		space.Step(0.125)
		c40Listed(bodies, shapes)
	case 1:
		space.RemoveShape(shapes[0])
		c40Listed(bodies, shapes[1:])
		place(1)
		space.Step(0.125)
		c40Listed(bodies, shapes[1:])
	case 2:
		space.RemoveShape(shapes[5])
		c40Listed(bodies, shapes[:5])
		place(-2)
		space.Step(0.125)
		c40Listed(bodies, shapes[:5])
	case 3:
		space.RemoveShape(shapes[1])
		space.RemoveBody(b)
		rest := append([]*Shape{shapes[0]}, shapes[2:]...)
		c40Listed(bodies, rest)
		place(0.5)
		space.Step(0.125)
		c40Listed(bodies, rest)
	}
}

// c40Run steps two shapes with a pre-solve callback and returns the motion.
func c40Run(ka, kb, how int, y, v float64, pre func(arb *Arbiter)) (out []float64, ran bool) {
	space := NewSpace()
	space.Iterations = 2
	a, b := NewBody(2, 3), NewBody(1, 2)
	space.AddBody(a)
	space.AddBody(b)
	s, t := space.AddShape(c40Shape(a, ka)), space.AddShape(c40Shape(b, kb))
	s.SetCollisionType(1)
	t.SetCollisionType(2)
	s.SetFriction(0.5)
	t.SetFriction(0.5)
	s.SetElasticity(1)
	t.SetElasticity(0.5)
	h := space.NewCollisionHandler(CollisionType(1+how), CollisionType(2-how))
	h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
		pre(arb)
		ran = true
		return true
	}
	b.SetPosition(Vector{0.5, y})
	b.SetAngle(0.25)
	b.SetVelocity(0.5, v)
	space.Step(0.125)
	for _, b := range []*Body{a, b} {
		out = append(out, b.p.X, b.p.Y, b.v.X, b.v.Y, b.w, b.v_bias.X, b.v_bias.Y, b.w_bias)
	}
	return
}

// VH_C40_noop: setting the contacts that are there changes nothing.
//
//verif:bounds circle, segment and box pairs, either handler order; any velocity in [-4,4] at 2 heights; 1 step
//verif:time 300
func VH_C40_noop() {
	ka, kb, how := vChoose("a", 3), vChoose("b", 3), vChoose("handler", 2)
	y := []float64{0.5, 1.25}[vChoose("y", 2)]
	v := vFloat("v", -4, 4)
	want, _ := c40Run(ka, kb, how, y, v, func(*Arbiter) {})
	got, ran := c40Run(ka, kb, how, y, v, func(arb *Arbiter) {
		set := arb.ContactPointSet()
		arb.SetContactPointSet(&set)
		c40Same(arb.ContactPointSet(), set, "read back")
	})
	for i := range want {
		vClose(got[i], want[i], 1e-9, "setting the present contacts changes no motion")
	}
	if ran {
		vCover("set")
	}
}

// VH_C40_replace: replaced contacts are read back, and are the ones that the solver uses.
//
//verif:bounds two circles; 6 normals, 3 places of the contact, overlaps 0.5, 0.05 (less than the slop) and a gap; either handler order; any velocity in [-4,4]^2 and spin in [-2,2]; 1 step, 1 iteration, no friction
//verif:time 300
func VH_C40_replace() {
	how := vChoose("handler", 2)
	k := vChoose("normal", 6)
	n := []Vector{{0, 1}, {1, 0}, {0.6, 0.8}, {-0.8, 0.6}, {0, -1}, {-0.28, -0.96}}[k]
	at := []Vector{{0, 0.5}, {1, -0.25}, {-0.5, 2}}[vChoose("at", 3)]
	gap := []float64{-0.5, -0.05, 0.25}[vChoose("gap", 3)]
	space := NewSpace()
	space.Iterations = 1
	space.SetCollisionSlop(0.125)
	space.collisionBias = 0.25
	a, b := NewBody(2, 3), NewBody(1, 2)
	space.AddBody(a)
	space.AddBody(b)
	s, t := space.AddShape(NewCircle(a, 1, Vector{})), space.AddShape(NewCircle(b, 1, Vector{}))
	s.SetCollisionType(1)
	t.SetCollisionType(2)
	h := space.NewCollisionHandler(CollisionType(1+how), CollisionType(2-how))
	pa, pb := at, uAdd(at, uMul(n, gap)) // on a and on b
	calls := 0
	h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
		calls++
		set := arb.ContactPointSet()
		vAssert(set.Count == 1, "one contact")
		first, _ := arb.Bodies()
		set.Normal, set.Points[0].PointA, set.Points[0].PointB, set.Points[0].Distance = n, pa, pb, 77
		if first == b {
			set.Normal, set.Points[0].PointA, set.Points[0].PointB = uMul(n, -1), pb, pa
		}
		arb.SetContactPointSet(&set)
		got := arb.ContactPointSet()
		set.Points[0].Distance = gap
		c40Same(got, set, "read back")
		return true
	}
	b.SetPosition(Vector{0.5, 1})
	v, w := uVec("v", 4), vFloat("w", -2, 2)
	b.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
	a.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	a.SetPositionUpdateFunc(func(*Body, float64) {})
	b.SetVelocityVector(v)
	b.SetAngularVelocity(w)
	space.Step(0.25)
	vAssert(calls == 1, "one pre-solve call")
	ra, rb := uSub(pa, a.p), uSub(pb, b.p)
	ca, cb := uCross(ra, n), uCross(rb, n)
	// relative velocities along the normal, positive apart
	before := uDot(v, n) + w*cb
	after := uDot(uSub(b.v, a.v), n) + b.w*cb - a.w*ca
	vClose(after, uMax(before, 0), 1e-6, "the solver works along the contacts that were set")
	j := uMul(uSub(b.v, v), b.m)
	uClose(uMul(a.v, -a.m), j, 1e-6, "opposite impulses")
	vClose(uCross(j, n), 0, 1e-6, "the impulse is along the normal that was set")
	vClose(b.i*(b.w-w), uCross(rb, j), 1e-6, "the impulse acts at the contact that was set")
	vClose(a.i*a.w, -uCross(ra, j), 1e-6, "the impulse acts at the contact that was set")
	bias := uDot(uSub(b.v_bias, a.v_bias), n) + b.w_bias*cb - a.w_bias*ca
	want := 0.0
	if gap+0.125 < 0 {
		want = -(gap + 0.125) * (1 - math.Pow(0.25, 0.25)) / 0.25
	}
	vClose(bias, want, 1e-6, "the overlap that was set is pushed out")
	vCover("replaced")
}
