package cp

import "math"

type c36Pair struct {
	space  *Space
	a, b   *Body
	ra, rb Vector // anchors relative to the bodies, in the world
}

const c36Dt = 0.25

// c36New makes two bodies that do not move, the second of which may be immovable.
func c36New(pa, pb Vector, angleA, angleB float64, anchorA, anchorB Vector, kind int) *c36Pair {
	w := &c36Pair{space: NewSpace()}
	w.a = NewBody(2, 3)
	switch kind {
	case 0:
		w.b = NewBody(1, 0.5)
	case 1:
		w.b = NewStaticBody()
	case 2:
		w.b = NewKinematicBody()
	case 3:
		w.b = NewBody(1, INFINITY)
	}
	w.a.SetPosition(pa)
	w.b.SetPosition(pb)
	w.a.SetAngle(angleA)
	w.b.SetAngle(angleB)
	w.ra, w.rb = uRot(anchorA, angleA), uRot(anchorB, angleB)
	for _, b := range []*Body{w.a, w.b} {
		w.space.AddBody(b)
		b.SetPositionUpdateFunc(func(*Body, float64) {})
	}
	return w
}

func (w *c36Pair) inverse() (ma, ia, mb, ib float64) {
	ma, ia = 0.5, 1.0/3
	switch {
	case w.b.GetType() != BODY_DYNAMIC:
	case w.b.Moment() == INFINITY:
		mb = 1
	default:
		mb, ib = 1, 2
	}
	return
}

type c36State struct {
	va, vb Vector
	wa, wb float64
}

func (w *c36Pair) state() c36State {
	return c36State{w.a.Velocity(), w.b.Velocity(), w.a.AngularVelocity(), w.b.AngularVelocity()}
}

// relative is the speed at which the anchors move apart along n.
func (w *c36Pair) relative(s c36State, n Vector) float64 {
	x := uAdd(s.vb, Vector{-w.rb.Y * s.wb, w.rb.X * s.wb})
	y := uAdd(s.va, Vector{-w.ra.Y * s.wa, w.ra.X * s.wa})
	return uDot(uSub(x, y), n)
}

// pushed: the bodies got impulses -j and j at the anchors.
func (w *c36Pair) pushed(s c36State, j Vector) {
	ma, ia, mb, ib := w.inverse()
	t := w.state()
	uClose(t.va, uSub(s.va, uMul(j, ma)), 1e-6, "the spring pushes the first body")
	uClose(t.vb, uAdd(s.vb, uMul(j, mb)), 1e-6, "the spring pushes the second body by the opposite")
	vClose(t.wa, s.wa-ia*uCross(w.ra, j), 1e-6, "the spring pushes at the anchor of the first body")
	vClose(t.wb, s.wb+ib*uCross(w.rb, j), 1e-6, "the spring pushes at the anchor of the second body")
}

func (w *c36Pair) moving(r float64) {
	w.a.SetVelocityVector(uVec("va", r))
	w.a.SetAngularVelocity(vFloat("wa", -r, r))
	if w.b.GetType() != BODY_STATIC {
		w.b.SetVelocityVector(uVec("vb", r))
		w.b.SetAngularVelocity(vFloat("wb", -r, r))
	}
}

type c36Place struct {
	pa, pb           Vector
	angleA, angleB   float64
	anchorA, anchorB Vector
}

var c36Places = []c36Place{
	{Vector{0, 0}, Vector{3, 4}, 0, 0, Vector{}, Vector{}},
	{Vector{1, 2}, Vector{5, -1}, 0.5, -1, Vector{1, 0.5}, Vector{-0.5, 2}},
	{Vector{0, 0}, Vector{0, 2}, 0, math.Pi / 2, Vector{1, 0}, Vector{0, 1}},
	{Vector{-1, 0}, Vector{1, 0}, 0, 0, Vector{0.5, 0}, Vector{0.5, 0}},
	{Vector{2, 2}, Vector{2, 2}, 0, 0, Vector{}, Vector{}}, // without length
}

// VH_C36_linear: impulses of a damped spring.
//
//verif:bounds 5 placements (one without length); second body dynamic, static, kinematic or unable to turn; damping 0, 0.5, 4 or 1e6; any stiffness in [0,50] and rest length in [0,8], any velocities and spins in [-5,5]; 1 to 3 iterations; 2 steps of 1/4
//verif:time 100
func VH_C36_linear() {
	place := vChoose("place", len(c36Places))
	p := c36Places[place]
	kind := vChoose("second", 4)
	w := c36New(p.pa, p.pb, p.angleA, p.angleB, p.anchorA, p.anchorB, kind)
	w.space.Iterations = uint(vChoose("iterations", 3) + 1)
	damping := []float64{0, 0.5, 4, 1e6}[vChoose("damping", 4)]
	rest, stiff := vFloat("rest", 0, 8), vFloat("stiffness", 0, 50)
	c := w.space.AddConstraint(NewDampedSpring(w.a, w.b, p.anchorA, p.anchorB, rest, stiff, damping))
	w.moving(5)
	steps := 1
	if place == 1 {
		steps = 2
	}
	for step := 0; step < steps; step++ {
		s := w.state()
		w.space.Step(c36Dt)
		delta := uSub(uAdd(p.pb, w.rb), uAdd(p.pa, w.ra))
		dist := math.Sqrt(uDot(delta, delta))
		if dist == 0 {
			w.pushed(s, Vector{})
			vCover("no length")
			continue
		}
		n := uMul(delta, 1/dist)
		ma, ia, mb, ib := w.inverse()
		xa, xb := uCross(w.ra, n), uCross(w.rb, n)
		k := ma + mb + ia*xa*xa + ib*xb*xb
		j := (rest - dist) * stiff * c36Dt
		v := w.relative(s, n) + j*k
		// damping slows the relative motion down
		slower := 0.0
		if damping < 1e6 {
			slower = math.Exp(-damping * c36Dt * k)
		}
		total := j - v*(1-slower)/k
		w.pushed(s, uMul(n, total))
		vClose(w.relative(w.state(), n), v*slower, 1e-6, "damping slows the relative motion down, and does not reverse it")
		vClose(c.Class.GetImpulse(), total, 1e-6, "the spring tells the impulse it applied")
		vCover("pushed")
	}
}

// VH_C36_stretch: the impulse points along the line between the anchors, wherever they are.
//
//verif:bounds a static body and one anywhere in [-6,6]^2 (1/2 or more away), at rest, anchor off its center; rest length 0, 1, 3 or 100, stiffness 4, no damping
//verif:time 60
func VH_C36_stretch() {
	x, y := vFloat("x", -6, 6), []float64{-2.5, 0.5, 1, 6}[vChoose("y", 4)]
	w := c36New(Vector{x, y}, Vector{}, 0, 0, Vector{0.5, 0}, Vector{}, 1)
	rest := []float64{0, 1, 3, 100}[vChoose("rest", 4)]
	w.space.AddConstraint(NewDampedSpring(w.a, w.b, Vector{0.5, 0}, Vector{}, rest, 4, 0))
	s := w.state()
	w.space.Step(c36Dt)
	delta := uSub(Vector{}, uAdd(Vector{x, y}, w.ra))
	// j = (rest-dist)*4*dt*delta/dist
	dist := math.Sqrt(uDot(delta, delta))
	t := w.state()
	change := uMul(uSub(t.va, s.va), -2)
	uClose(uMul(change, dist), uMul(delta, (rest-dist)*4*c36Dt), 1e-5, "the spring pulls along its line in proportion to the stretch")
	vClose(uDot(change, change), (rest-dist)*(rest-dist), 1e-4, "the spring pulls in proportion to the stretch")
	if dist > rest {
		vAssert(uDot(change, delta) <= 1e-9, "a stretched spring pulls")
		vCover("pull")
	} else {
		vAssert(uDot(change, delta) >= -1e-9, "a compressed spring pushes")
		vCover("push")
	}
}

func (w *c36Pair) turned(s c36State, j float64) {
	_, ia, _, ib := w.inverse()
	t := w.state()
	vClose(t.wa, s.wa-ia*j, 1e-6, "the spring turns the first body")
	vClose(t.wb, s.wb+ib*j, 1e-6, "the spring turns the second body by the opposite")
	vAssert(vAnd(t.va == s.va, t.vb == s.vb), "rotary springs do not push")
}

// VH_C36_rotary: impulses of a damped rotary spring.
//
//verif:bounds any angles in [-7,7] (more than a turn apart), rest angle in [-4,4], stiffness in [0,20], spins in [-5,5]; damping 0, 0.5, 4 or 1e6; second body dynamic, static or kinematic; 1 to 3 iterations; 2 steps of 1/4
//verif:time 100
func VH_C36_rotary() {
	w := c36New(Vector{}, Vector{1, 0}, 0, 0, Vector{}, Vector{}, vChoose("second", 3))
	w.space.Iterations = uint(vChoose("iterations", 3) + 1)
	alpha, beta := vFloat("angle a", -7, 7), vFloat("angle b", -7, 7)
	w.a.a, w.b.a = alpha, beta
	damping := []float64{0, 0.5, 4, 1e6}[vChoose("damping", 4)]
	rest, stiff := vFloat("rest", -4, 4), vFloat("stiffness", 0, 20)
	c := w.space.AddConstraint(NewDampedRotarySpring(w.a, w.b, rest, stiff, damping))
	w.moving(5)
	for step := 0; step < 2; step++ {
		s := w.state()
		w.space.Step(c36Dt)
		_, ia, _, ib := w.inverse()
		k := ia + ib
		j := (alpha - beta - rest) * stiff * c36Dt
		v := s.wb - s.wa + j*k
		slower := 0.0
		if damping < 1e6 {
			slower = math.Exp(-damping * c36Dt * k)
		}
		total := j - v*(1-slower)/k
		w.turned(s, total)
		t := w.state()
		vClose(t.wb-t.wa, v*slower, 1e-6, "damping slows the relative motion down, and does not reverse it")
		vClose(c.Class.GetImpulse(), total, 1e-6, "the spring tells the impulse it applied")
		vCover("turned")
	}
}

// VH_C36_custom: forces and torques of functions that were set.
//
//verif:bounds any force or torque in [-20,20]; a placement with anchors, any velocities in [-5,5]; damping 0 or 4; 1 to 3 iterations; 2 steps
//verif:time 60
func VH_C36_custom() {
	p := c36Places[1]
	w := c36New(p.pa, p.pb, p.angleA, p.angleB, p.anchorA, p.anchorB, 0)
	w.space.Iterations = uint(vChoose("iterations", 3) + 1)
	damping := []float64{0, 4}[vChoose("damping", 2)]
	w.moving(5)
	ma, ia, mb, ib := w.inverse()
	delta := uSub(uAdd(p.pb, w.rb), uAdd(p.pa, w.ra))
	dist := math.Sqrt(uDot(delta, delta))
	n := uMul(delta, 1/dist)
	calls := 0
	f := 0.0
	rotary := vBool("rotary")
	if rotary {
		c := w.space.AddConstraint(NewDampedRotarySpring(w.a, w.b, 1, 10, damping))
		c.Class.(*DampedRotarySpring).SpringTorqueFunc = func(spring *DampedRotarySpring, angle float64) float64 {
			calls++
			vAssert(spring.Constraint == c, "the function gets the spring")
			vClose(angle, p.angleA-p.angleB, 1e-9, "the function gets the angle between the bodies")
			f = vFloat("torque", -20, 20)
			return f
		}
	} else {
		c := w.space.AddConstraint(NewDampedSpring(w.a, w.b, p.anchorA, p.anchorB, 1, 10, damping))
		c.Class.(*DampedSpring).SpringForceFunc = func(spring *DampedSpring, d float64) float64 {
			calls++
			vAssert(spring.Constraint == c, "the function gets the spring")
			vClose(d, dist, 1e-9, "the function gets the length")
			f = vFloat("force", -20, 20)
			return f
		}
	}
	for step := 0; step < 2; step++ {
		s := w.state()
		w.space.Step(c36Dt)
		vAssert(calls == step+1, "the function is called once in a step")
		j := f * c36Dt
		if rotary {
			k := ia + ib
			w.turned(s, j-(s.wb-s.wa+j*k)*(1-math.Exp(-damping*c36Dt*k))/k)
		} else {
			xa, xb := uCross(w.ra, n), uCross(w.rb, n)
			k := ma + mb + ia*xa*xa + ib*xb*xb
			w.pushed(s, uMul(n, j-(w.relative(s, n)+j*k)*(1-math.Exp(-damping*c36Dt*k))/k))
		}
		vCover("custom")
	}
}

// VH_C36_dissipate: springs that are not stretched only take kinetic energy.
//
//verif:bounds a spring at its rest length or a rotary spring at its rest angle, or without stiffness; any velocity along two directions and spins in [-5,5]; damping 0, 0.5, 4 or 1e6; 1 or 2 springs, 1 to 3 iterations
//verif:time 100
func VH_C36_dissipate() {
	place := vChoose("place", 3)
	p := c36Places[place]
	w := c36New(p.pa, p.pb, p.angleA, p.angleB, p.anchorA, p.anchorB, vChoose("second", 2))
	w.space.Iterations = uint(vChoose("iterations", 3) + 1)
	damping := []float64{0, 0.5, 4, 1e6}[vChoose("damping", 4)]
	delta := uSub(uAdd(p.pb, w.rb), uAdd(p.pa, w.ra))
	dist := math.Sqrt(uDot(delta, delta))
	rotary := false
	n := vChoose("springs", 3)
	if n != 1 {
		w.space.AddConstraint(NewDampedSpring(w.a, w.b, p.anchorA, p.anchorB, dist, []float64{0, 10}[vChoose("stiffness", 2)], damping))
	}
	if n != 0 {
		w.space.AddConstraint(NewDampedRotarySpring(w.a, w.b, p.angleA-p.angleB, 10, damping))
		rotary = true
	}
	w.a.SetVelocity(vFloat("vx", -5, 5), 1)
	w.a.SetAngularVelocity(vFloat("wa", -5, 5))
	if w.b.GetType() == BODY_DYNAMIC {
		w.b.SetAngularVelocity(vFloat("wb", -5, 5))
	}
	energy := func() float64 {
		s := w.state()
		e := 2*uDot(s.va, s.va) + 3*s.wa*s.wa
		if w.b.GetType() == BODY_DYNAMIC {
			e += uDot(s.vb, s.vb) + 0.5*s.wb*s.wb
		}
		return e
	}
	before := energy()
	w.space.Step(c36Dt)
	after := energy()
	vAssert(after <= before+1e-6, "springs at rest take energy")
	if damping == 0 {
		vClose(after, before, 1e-6, "springs at rest without damping do nothing")
	}
	if rotary {
		vCover("rotary")
	}
}

// VH_C36_tuned: a spring acts by the parameters it has, whenever it got them.
//
//verif:bounds damped springs and rotary springs; maximum force, error bias, maximum bias, anchors, rest length or angle with stiffness and damping, mass and moment of a body, length of the step, iterations changed, or the spring added, before or after a first step; then any velocity and spin, 2 steps of 1/4 with 1 iteration
//verif:time 60
func VH_C36_tuned() {
	uTuned(4+vChoose("kind", 2), vChoose("what", 8))
}
