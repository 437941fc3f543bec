package cp

// c24Applied is what a joint did to b in a step: the impulse and the angular impulse about its center.
func c24Applied(b *Body, v0 Vector, w0 float64) (Vector, float64) {
	return uMul(uSub(b.v, v0), b.m), b.i * (b.w - w0)
}

var c24Kinds = []int{0, 1, 2, 3, 6, 7, 8, 9}

// VH_C24_limits: no joint applies more than the maximum force allows.
//
//verif:bounds the 8 joints that are not springs; 4 placements that strain them; any velocity of one body in [-9,9] and spin in [-5,5] (pivot and groove: velocity only); any maximum force in [0,16] (pivot and groove: 0, 0.5, 2, 16); 2 steps of 1/4 with 2 iterations (pivot and groove: 1)
//verif:time 200
func VH_C24_limits() {
	kind := c24Kinds[vChoose("kind", len(c24Kinds))]
	k := vChoose("placement", 4)
	vector := kind == 2 || kind == 3
	steps, it := 2, uint(2)
	if vector {
		steps, it = 1, 1
	}
	space, a, b, j := uJointPair(kind, k, true, it)
	force := []float64{2, 0.5, 0, 16}[k]
	if !vector {
		force = vFloat("force", 0, 16)
	} else if vThorough() {
		force = []float64{2, 0.5, 0, 16}[vChoose("force", 4)]
	}
	j.SetMaxForce(force)
	vAssert(j.MaxForce() == force, "the maximum force is kept")
	a.SetVelocity(vFloat("vax", -9, 9), 1)
	a.SetAngularVelocity(0.5)
	if !vector {
		a.SetAngularVelocity(vFloat("wa", -5, 5))
	}
	b.SetVelocity(-1, 2)
	max := force*0.25 + 1e-6
	for i := 0; i < steps; i++ {
		v0, w0 := b.v, b.w
		space.Step(0.25)
		p, l := c24Applied(b, v0, w0)
		if kind < 6 {
			vAssert(uDot(p, p) <= max*max, "the impulse is within the maximum force times the time step")
		} else {
			vAssert(vAnd(l <= max, l >= -max), "the angular impulse is within the maximum force times the time step")
		}
		vAssert(j.Class.GetImpulse() <= max, "the reported impulse is within the maximum force times the time step")
		if vOr(b.v != v0, b.w != w0) {
			vCover("acted")
		}
	}
}

// VH_C24_sided: slide joints, rotary limits and ratchets only act against leaving their range.
//
//verif:bounds slide joints stretched, compressed and within their range, rotary limits and ratchets (both directions) turned to either side or within; any velocities in [-9,9] and spins in [-5,5]; 2 steps with 2 iterations and a third after a move to another side with any new speed and spin; unlimited or limited force
//verif:time 200
func VH_C24_sided() {
	space := NewSpace()
	space.Iterations = 2
	a := uBody(space, 2, Vector{0.25, -0.5}, Vector{}, 0.25)
	b := uBody(space, 4, Vector{}, Vector{3, 1}, 0.25)
	a.SetPositionUpdateFunc(func(*Body, float64) {})
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	kind := vChoose("kind", 4)
	var j *Constraint
	var n Vector
	want := 0.0 // sign of the impulse on b
	// place puts b below, within or above the range
	place := func(side int) {
		switch kind {
		case 0:
			b.SetPosition(Vector{3 + float64(side)*1.5, 1})
			n = uSub(b.LocalToWorld(Vector{-0.5, 0}), a.LocalToWorld(Vector{0.5, 0.5}))
			n = uMul(n, 1/n.Length())
			want = -float64(side)
		case 1:
			b.SetAngle(0.25 + float64(side)*0.5)
			want = -float64(side)
		default:
			// the ratchet lets b turn one way only
			x := j.Class.(*RatchetJoint)
			b.SetAngle(0.25 + x.Angle + float64(side)*0.25)
			want = 0
			if float64(side)*x.Ratchet < 0 {
				want = -float64(side)
			}
		}
	}
	switch kind {
	case 0:
		d := uSub(b.LocalToWorld(Vector{-0.5, 0}), a.LocalToWorld(Vector{0.5, 0.5})).Length()
		j = NewSlideJoint(a, b, Vector{0.5, 0.5}, Vector{-0.5, 0}, d-0.5, d+0.5)
	case 1:
		j = NewRotaryLimitJoint(a, b, -0.25, 0.25)
	default:
		j = NewRatchetJoint(a, b, 0.125, []float64{0.5, -0.5}[kind-2])
		j.Class.(*RatchetJoint).Angle = 0.125
	}
	if vBool("limited") {
		j.SetMaxForce(2)
	}
	space.AddConstraint(j)
	side := vChoose("side", 3) - 1
	place(side)
	a.SetVelocity(vFloat("vax", -9, 9), 1)
	a.SetAngularVelocity(vFloat("wa", -5, 5))
	b.SetVelocity(-1, 2)
	b.SetAngularVelocity(vFloat("wb", -5, 5))
	next := vChoose("next", 3) - 1
	for i := 0; i < 3; i++ {
		if i == 2 {
			if next == side {
				break
			}
			// from one side to another
			place(next)
			b.SetVelocity(vFloat("vbx", -9, 9), 0)
			b.SetAngularVelocity(vFloat("wb2", -5, 5))
			vCover("moved")
		}
		v0, w0 := b.v, b.w
		space.Step(0.25)
		p, l := c24Applied(b, v0, w0)
		if kind == 0 {
			l = uDot(p, n)
			vClose(uCross(p, n), 0, 1e-9, "a slide joint acts along its line")
		}
		if want == 0 {
			vAssert(vAnd(b.v == v0, b.w == w0), "within its range a joint does not act")
			vAssert(j.Class.GetImpulse() == 0, "within its range a joint does not act")
			vCover("free")
		} else {
			vAssert(l*want >= -1e-9, "a one-sided joint only acts toward its range")
			vCover("acted")
		}
	}
}

// VH_C24_tuned: a maximum force that is set later limits a joint as one set from the start.
//
//verif:bounds the 8 joints that are not springs; unlimited or 0.5, set before or after a first step without strain; then any velocity and spin (pivot and groove: velocity only), 2 steps of 1/4 (pivot and groove: 1) with 1 iteration
//verif:time 60
func VH_C24_tuned() {
	uTuned(c24Kinds[vChoose("kind", 8)], 0)
}
