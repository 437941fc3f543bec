package cp

import "math"

// c25Anchors returns the anchors of a joint in the world and their velocities relative to each other.
func c25Anchors(j *Constraint, a, b *Body) (Vector, Vector, Vector) {
	var la, lb Vector
	switch x := j.Class.(type) {
	case *PinJoint:
		la, lb = x.AnchorA, x.AnchorB
	case *SlideJoint:
		la, lb = x.AnchorA, x.AnchorB
	case *PivotJoint:
		la, lb = x.AnchorA, x.AnchorB
	case *GrooveJoint:
		// the point of the groove next to the anchor
		lb = x.AnchorB
		la = a.WorldToLocal(uSegNearest(a.LocalToWorld(x.GrooveA), a.LocalToWorld(x.GrooveB), b.LocalToWorld(lb)))
	}
	pa, pb := a.LocalToWorld(la), b.LocalToWorld(lb)
	return pa, pb, uSub(b.VelocityAtLocalPoint(lb), a.VelocityAtLocalPoint(la))
}

// VH_C25_joints: after a step the velocities obey the constraint and reduce its error as configured.
//
//verif:bounds the 8 joints that are not springs; 4 placements, as made or strained; error bias as usual or halved, bias unlimited or at most 0.25; any velocities in [-4,4] and spins in [-2,2] (quick: one velocity and two spins); 2 steps of 1/4 with 1 iteration
//verif:time 200
func VH_C25_joints() {
	kind := []int{0, 1, 2, 3, 6, 7, 8, 9}[vChoose("kind", 8)]
	k := vChoose("placement", 4)
	strained := vChoose("strained", 2) == 1
	space, a, b, j := uJointPair(kind, k, strained, 1)
	if vThorough() && vChoose("bias", 2) == 1 || !vThorough() && k%2 == 1 {
		j.SetErrorBias(0.5)
	}
	if vChoose("limited", 2) == 1 {
		j.SetMaxBias(0.25)
	}
	const dt = 0.25
	decay := math.Pow(j.ErrorBias(), dt)
	// bias is the speed that reduces an error
	bias := func(err float64) float64 {
		return uMax(-j.MaxBias(), uMin(j.MaxBias(), (decay-1)*err/dt))
	}
	a.SetVelocity(vFloat("vax", -4, 4), 1)
	a.SetAngularVelocity(vFloat("wa", -2, 2))
	b.SetVelocity(-1, 2)
	b.SetAngularVelocity(vFloat("wb", -2, 2))
	if vThorough() {
		a.v.Y = vFloat("vay", -4, 4)
		b.v.X = vFloat("vbx", -4, 4)
	}
	for i := 0; i < 2; i++ {
		pa, pb, _ := c25Anchors(j, a, b)
		v0, w0 := b.v, b.w
		space.Step(dt)
		_, _, vel := c25Anchors(j, a, b)
		delta := uSub(pb, pa)
		dist := math.Hypot(delta.X, delta.Y)
		p := uMul(uSub(b.v, v0), b.m)
		l := b.i * (b.w - w0)
		turn := b.a - a.a
		switch x := j.Class.(type) {
		case *PinJoint:
			n := uMul(delta, 1/dist)
			vClose(uDot(vel, n), bias(dist-x.Dist), 1e-6, "a pin keeps its distance")
		case *SlideJoint:
			n := uMul(delta, 1/dist)
			still := vAnd(b.v == v0, b.w == w0)
			switch {
			case math.Abs(dist-x.Max) < 1e-6 || math.Abs(dist-x.Min) < 1e-6:
				// a matter of rounding
			case dist > x.Max:
				vAssert(uDot(vel, n) <= bias(dist-x.Max)+1e-6, "a slide joint stops at its maximum")
				vAssert(vOr(i > 0, still, uDot(vel, n) >= bias(dist-x.Max)-1e-6), "a slide joint does no more than stop")
				vCover("maximum")
			case dist < x.Min:
				vAssert(-uDot(vel, n) <= bias(x.Min-dist)+1e-6, "a slide joint stops at its minimum")
				vAssert(vOr(i > 0, still, -uDot(vel, n) >= bias(x.Min-dist)-1e-6), "a slide joint does no more than stop")
				vCover("minimum")
			default:
				vAssert(vAnd(b.v == v0, b.w == w0), "a slide joint is free within its range")
				vCover("free")
			}
		case *PivotJoint:
			want := uMul(delta, (decay-1)/dt)
			if s := math.Hypot(want.X, want.Y); s > j.MaxBias() {
				want = uMul(want, j.MaxBias()/s)
			}
			uClose(vel, want, 1e-6, "a pivot keeps its anchors together")
		case *GrooveJoint:
			ga, gb := a.LocalToWorld(x.GrooveA), a.LocalToWorld(x.GrooveB)
			t := uSub(gb, ga)
			t = uMul(t, 1/math.Hypot(t.X, t.Y))
			want := uMul(delta, (decay-1)/dt)
			if s := math.Hypot(want.X, want.Y); s > j.MaxBias() {
				want = uMul(want, j.MaxBias()/s)
			}
			along := uDot(uSub(pb, ga), t)
			if vAnd(along > 1e-3, uDot(uSub(pb, gb), t) < -1e-3) {
				vClose(uDot(p, t), 0, 1e-6, "a groove does not act along itself")
				vClose(uDot(x.jAcc, t), 0, 1e-6, "a groove does not act along itself")
				vCover("in the groove")
			} else {
				vAssert(vOr(along < 0, uDot(x.jAcc, t) <= 1e-6), "the end of a groove only pushes back")
				vAssert(vOr(along > 0, uDot(x.jAcc, t) >= -1e-6), "the end of a groove only pushes back")
				vCover("at the end of the groove")
			}
			if i == 0 && uDot(x.jAcc, t) != 0 {
				uClose(vel, want, 1e-6, "the end of a groove is a pivot")
			}
		case *RotaryLimitJoint:
			switch {
			case turn > x.Max:
				vAssert(b.w-a.w <= bias(turn-x.Max)+1e-9, "a rotary limit stops at its maximum")
				vAssert(vOr(i > 0, b.w == w0, b.w-a.w >= bias(turn-x.Max)-1e-9), "a rotary limit does no more than stop")
				vCover("maximum")
			case turn < x.Min:
				vAssert(b.w-a.w >= bias(turn-x.Min)-1e-9, "a rotary limit stops at its minimum")
				vAssert(vOr(i > 0, b.w == w0, b.w-a.w <= bias(turn-x.Min)+1e-9), "a rotary limit does no more than stop")
				vCover("minimum")
			default:
				vAssert(b.w == w0, "a rotary limit is free within its range")
			}
		case *RatchetJoint:
			err := x.Angle - turn
			if err*x.Ratchet > 1e-9 {
				vAssert(b.w-a.w >= -bias(err)-1e-9, "a ratchet does not turn back")
				vCover("ratchet")
			} else {
				vAssert(b.w == w0, "a ratchet turns freely")
				vCover("free")
			}
		case *GearJoint:
			vClose(b.w*2-a.w, bias(turn*0+b.a*2-a.a-0.5), 1e-9, "a gear keeps its ratio")
		case *SimpleMotor:
			vClose(b.w-a.w, -x.Rate, 1e-9, "a motor turns at its rate")
		}
		g := j.Class.GetImpulse()
		vAssert(g >= 0, "the reported impulse is a magnitude")
		if kind < 6 {
			vClose(g*g, uDot(p, p), 1e-6, "the reported impulse is the one applied")
		} else {
			vClose(g*g, l*l, 1e-6, "the reported impulse is the one applied")
		}
	}
}

// VH_C25_release: a joint that held before and is not at its limit any more lets go at once.
//
//verif:bounds slide joint, rotary limit and ratchet (either direction) that held at one of their limits in the first step, with any spins in [-2,2] of both bodies and any speed in [-4,4]; then the bodies moved to a place within the limits, or at a limit exactly, or (ratchet) on by 1 tooth, 2 teeth or exactly to a tooth; warm start or not; 1 or 2 iterations
//verif:time 60
func VH_C25_release() {
	kind := vChoose("joint", 4)
	space := NewSpace()
	space.Iterations = 1 + uint(vChoose("iterations", 2))
	a := uBody(space, 2, Vector{0, 0}, Vector{1, -1}, 0)
	b := uBody(space, 4, Vector{0, 0}, Vector{3, -1}, 0)
	still := func(*Body, float64) {}
	a.SetPositionUpdateFunc(still)
	b.SetPositionUpdateFunc(still)
	var j *Constraint
	// where the joint holds, and where it is free
	var hold, free []float64
	switch kind {
	case 0:
		j = NewSlideJoint(a, b, Vector{0, 0}, Vector{0, 0}, 1, 2)
		hold, free = []float64{0.5, 2.5}, []float64{1.5, 1, 2}
	case 1:
		j = NewRotaryLimitJoint(a, b, -0.5, 0.5)
		hold, free = []float64{-1, 1}, []float64{0, 0.5, -0.5}
	case 2:
		j = NewRatchetJoint(a, b, 0.25, 0.5)
		hold, free = []float64{0.5, 0.25}, []float64{1, 1.5, 1.25}
	case 3:
		j = NewRatchetJoint(a, b, 0.25, -0.5)
		hold, free = []float64{0, 0.125}, []float64{-0.5, -1, -0.75}
	}
	space.AddConstraint(j)
	put := func(at float64) {
		if kind == 0 {
			b.SetPosition(Vector{1 + at, -1})
		} else {
			b.SetAngle(at)
		}
	}
	speed := func(step string) {
		a.SetVelocity(0.5, 1)
		a.SetAngularVelocity(vFloat("wa"+step, -2, 2))
		b.SetVelocity(vFloat("v"+step, -4, 4), -1)
		b.SetAngularVelocity(vFloat("wb"+step, -2, 2))
	}
	if kind > 1 {
		// let it click first
		put([]float64{0.8, -0.3}[kind-2])
		space.Step(0.25)
	}
	put(hold[vChoose("hold", 2)])
	speed("1")
	space.Step(0.25)
	if j.Class.GetImpulse() != 0 {
		vCover("held")
	}
	put(free[vChoose("free", 3)])
	speed("2")
	va, vb, wa, wb := a.v, b.v, a.w, b.w
	space.Step(0.25)
	vAssert(vAnd(a.v == va, b.v == vb, a.w == wa, b.w == wb), "a joint within its limits does nothing")
	vAssert(j.Class.GetImpulse() == 0, "a joint within its limits reports no impulse")
	// and it still holds later
	if kind < 2 {
		put(hold[0])
	} else {
		put(b.a + []float64{-0.3, 0.3}[kind-2])
	}
	a.SetVelocity(0, 0)
	a.SetAngularVelocity(0)
	b.SetVelocity(0, 0)
	b.SetAngularVelocity(0)
	space.Step(0.25)
	vAssert(j.Class.GetImpulse() > 0, "a joint past its limits holds again")
}

// VH_C25_groove: the ends of a groove stop an anchor from leaving and do not hold it when it comes back.
//
//verif:bounds a groove of length 4 in 3 directions on a body that cannot spin, the anchor at the center of the other body: before, at, after and in the middle of either end (7 places), on the line or 1/8 beside it; any velocity in [-4,4] (either body along the groove; across it 3 values); steps of 1/4 with 2 iterations (quick: 1 iteration; 3 of the places for each direction), a second one with any new speed along the groove; with or without a step before in which the anchor rested at either end
//verif:time 60
func VH_C25_groove() {
	space := NewSpace()
	space.Iterations = 1
	if vThorough() {
		space.Iterations = 2
	}
	a, b := NewBody(2, INFINITY), NewBody(4, 2)
	space.AddBody(a)
	space.AddBody(b)
	still := func(*Body, float64) {}
	a.SetPositionUpdateFunc(still)
	b.SetPositionUpdateFunc(still)
	d, place := vChoose("direction", 3), vChoose("at", 7)
	if !vThorough() {
		vAssume(d*3 <= place && place < d*3+3)
	}
	t := []Vector{{1, 0}, {0, -1}, {0.8, 0.6}}[d]
	n := Vector{-t.Y, t.X}
	a.SetPosition(uAdd(uMul(t, 1), uMul(n, 2)))
	ga := Vector{1, -2}
	at := []float64{-0.5, 2, 4.5, 3.5, 0, 4, 0.5}[place]
	aside := float64(vChoose("beside", 2)) * 0.125
	b.SetPosition(uAdd(a.LocalToWorld(ga), uAdd(uMul(t, at), uMul(n, aside))))
	j := space.AddConstraint(NewGrooveJoint(a, b, ga, uAdd(ga, uMul(t, 4)), Vector{}))
	const dt = 0.25
	decay := (math.Pow(j.ErrorBias(), dt) - 1) / dt
	past := 0.0 // how far the anchor is beyond the end
	end := 0.0
	switch {
	case at < 1e-9:
		past, end = -at, -1
	case at > 4-1e-9:
		past, end = at-4, 1
	}
	tol := 1e-6
	if before := vChoose("before", 3); before > 0 {
		// at rest at one of the ends
		here := b.Position()
		b.SetPosition(uAdd(a.LocalToWorld(ga), uMul(t, float64(before-1)*4)))
		space.Step(dt)
		a.SetVelocity(0, 0)
		b.SetVelocity(0, 0)
		b.SetAngularVelocity(0)
		b.SetPosition(here)
	}
	for i := 0; i < 2; i++ {
		s := []string{"", "2"}[i]
		va, vb := vFloat("va"+s, -4, 4), vFloat("vb"+s, -4, 4)
		across := 0.5
		if i == 0 {
			across = []float64{0, 1, -2}[vChoose("across", 3)]
		}
		pa := uAdd(uMul(t, va), uMul(n, across))
		a.SetVelocity(pa.X, pa.Y)
		pb := uMul(t, vb)
		b.SetVelocity(pb.X, pb.Y)
		space.Step(dt)
		rel := uSub(b.v, a.v)
		vClose(uDot(rel, n), decay*aside, tol, "a groove holds its anchor on the line")
		along := uDot(rel, t)
		if end == 0 {
			vClose(along, vb-va, tol, "the anchor is free along the groove")
			vCover("free")
			continue
		}
		// outward speed
		before, after := end*(vb-va), end*along
		vAssert(after <= decay*past+tol, "the anchor does not leave the groove at its end")
		if i == 0 {
			vAssert(vOr(before > decay*past-tol, vAnd(after <= before+tol, after >= before-tol)), "the end of a groove does not hold an anchor that comes back")
		}
		vCover("end")
	}
}

// VH_C25_grooveOffset: the ends of a groove hold an anchor as a pivot would, also on bodies that spin about a center of gravity elsewhere.
//
//verif:bounds the 4 combinations of bodies with and without an offset center of gravity, turned by 0.5 or not; the anchor off the center, 1/2 before or behind either end of a groove of length 4 and 1/8 beside it; any velocity along the groove in [-4,4] and any spins in [-2,2]; one step of 1/4 with 1 iteration
//verif:time 60
func VH_C25_grooveOffset() {
	space := NewSpace()
	space.Iterations = 1
	turn := float64(vChoose("turned", 2)) * 0.5
	a := uBody(space, 2, uMul(Vector{0.5, -0.75}, float64(vChoose("coga", 2))), Vector{1, 2}, turn)
	b := uBody(space, 4, uMul(Vector{-0.25, 0.5}, float64(vChoose("cogb", 2))), Vector{0, 0}, -turn)
	still := func(*Body, float64) {}
	a.SetPositionUpdateFunc(still)
	b.SetPositionUpdateFunc(still)
	ga, gb := Vector{-1, 1}, Vector{3, 1}
	at := []float64{-1.5, -0.5, 2.5, 3.5}[vChoose("at", 4)]
	lb := Vector{0.5, 0.25}
	pb := a.LocalToWorld(Vector{at, 1.125})
	b.SetPosition(uAdd(b.Position(), uSub(pb, b.LocalToWorld(lb))))
	j := space.AddConstraint(NewGrooveJoint(a, b, ga, gb, lb))
	x := j.Class.(*GrooveJoint)
	a.SetVelocity(0.5, 1)
	a.SetAngularVelocity(vFloat("wa", -2, 2))
	b.SetVelocity(vFloat("v", -4, 4), -0.25)
	b.SetAngularVelocity(vFloat("wb", -2, 2))
	const dt = 0.25
	decay := math.Pow(j.ErrorBias(), dt)
	pa, pb, _ := c25Anchors(j, a, b)
	want := uMul(uSub(pb, pa), (decay-1)/dt)
	wa, va, wb, vb := a.w, a.v, b.w, b.v
	space.Step(dt)
	_, _, vel := c25Anchors(j, a, b)
	t := uSub(a.LocalToWorld(gb), a.LocalToWorld(ga))
	t = uMul(t, 0.25)
	acts := uDot(x.jAcc, t)
	if at > -1 && at < 3 {
		vClose(acts, 0, 1e-9, "a groove does not act along itself")
	} else {
		if at > 0 {
			acts = -acts
		}
		vAssert(acts >= -1e-9, "the end of a groove only pushes back")
		if acts > 1e-9 {
			uClose(vel, want, 1e-6, "the end of a groove is a pivot")
			vCover("held")
		}
	}
	// the impulse acts at the anchor on both bodies
	p := uMul(uSub(b.v, vb), b.m)
	uClose(uMul(uSub(a.v, va), a.m), uMul(p, -1), 1e-6, "a groove keeps the momentum")
	c := b.LocalToWorld(b.CenterOfGravity())
	vClose(b.i*(b.w-wb), uCross(uSub(pb, c), p), 1e-6, "a groove acts at its anchor")
	ca := a.LocalToWorld(a.CenterOfGravity())
	vClose(a.i*(a.w-wa), -uCross(uSub(pa, ca), p), 1e-6, "a groove acts at its point next to the anchor")
}

// VH_C25_tuned: a joint acts by the parameters it has, whenever it got them.
//
//verif:bounds the 8 joints that are not springs; maximum force, error bias, maximum bias, anchors, lengths, limits or rate, mass and moment of a body, length of the step, iterations changed, or the joint added, before or after a first step without strain; then any velocity and spin (pivot and groove with a force: velocity only), 2 steps of 1/4 (pivot and groove with a force: 1) with 1 iteration
//verif:time 120
func VH_C25_tuned() {
	uTuned([]int{0, 1, 2, 3, 6, 7, 8, 9}[vChoose("kind", 8)], vChoose("what", 8))
}
