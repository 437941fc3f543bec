package cp

// A frame of reference: the same scene seen from somewhere else, from a moving place, turned or mirrored, or measured in
// other units of mass and length.
type c41Frame struct {
	x, y         Vector // images of the unit vectors: exact turns and mirrors
	off, boost   Vector
	mass, length float64
}

func c41Same() *c41Frame {
	return &c41Frame{x: Vector{1, 0}, y: Vector{0, 1}, mass: 1, length: 1}
}

// vec maps a free vector or the local coordinates of a body.
func (f *c41Frame) vec(v Vector) Vector {
	return uMul(uAdd(uMul(f.x, v.X), uMul(f.y, v.Y)), f.length)
}
func (f *c41Frame) pt(v Vector) Vector       { return uAdd(f.vec(v), f.off) }
func (f *c41Frame) vel(v Vector) Vector      { return uAdd(f.vec(v), f.boost) }
func (f *c41Frame) spin(w float64) float64   { return w * uCross(f.x, f.y) }
func (f *c41Frame) moment(i float64) float64 { return i * f.mass * f.length * f.length }

// poly maps the vertices of a polygon.
func (f *c41Frame) poly(v []Vector) []Vector {
	out := make([]Vector, len(v))
	for i := range v {
		out[i] = f.vec(v[i])
	}
	return out
}

// c41Seen is what is seen of a scene: positions, vectors, angles, impulses and pure numbers.
type c41Seen struct {
	pts, vels, vecs, imps []Vector
	spins, lens, torques  []float64
	nums                  []float64
}

func (s *c41Seen) bodies(list []*Body) {
	for _, b := range list {
		s.pts = append(s.pts, b.Position())
		s.vels = append(s.vels, b.Velocity())
		s.vecs = append(s.vecs, b.v_bias)
		s.spins = append(s.spins, b.Angle(), b.AngularVelocity(), b.w_bias)
	}
}

func (s *c41Seen) arbiters(list []*Body) {
	for _, b := range list {
		n := 0
		b.EachArbiter(func(arb *Arbiter) {
			n++
			set := arb.ContactPointSet()
			for i := 0; i < set.Count; i++ {
				s.pts = append(s.pts, set.Points[i].PointA, set.Points[i].PointB)
				s.lens = append(s.lens, set.Points[i].Distance)
			}
			s.imps = append(s.imps, arb.TotalImpulse())
			vCover("contact")
		})
		s.nums = append(s.nums, float64(n))
	}
}

// query asks what is at and between two points of the scene.
func (s *c41Seen) query(space *Space, f *c41Frame, p, q Vector, shapes []*Shape) {
	id := func(x *Shape) {
		k := -1
		for i := range shapes {
			if shapes[i] == x {
				k = i
			}
		}
		s.nums = append(s.nums, float64(k))
	}
	if info := space.PointQueryNearest(f.pt(p), 4*f.length, SHAPE_FILTER_ALL); info.Shape != nil {
		id(info.Shape)
		s.pts = append(s.pts, info.Point)
		s.lens = append(s.lens, info.Distance)
	}
	if info := space.SegmentQueryFirst(f.pt(p), f.pt(q), 0.125*f.length, SHAPE_FILTER_ALL); info.Shape != nil {
		id(info.Shape)
		s.pts = append(s.pts, info.Point)
		s.nums = append(s.nums, info.Alpha)
		vCover("ray hit")
	}
}

func c41Compare(f *c41Frame, got, want *c41Seen, label string) {
	vAssert(len(got.pts) == len(want.pts) && len(got.vels) == len(want.vels) && len(got.vecs) == len(want.vecs) &&
		len(got.imps) == len(want.imps) && len(got.lens) == len(want.lens) && len(got.nums) == len(want.nums), label+": as much is seen")
	for i := range want.pts {
		uClose(got.pts[i], f.pt(want.pts[i]), 1e-6, label+": places")
	}
	for i := range want.vels {
		uClose(got.vels[i], f.vel(want.vels[i]), 1e-6, label+": velocities")
	}
	for i := range want.vecs {
		uClose(got.vecs[i], f.vec(want.vecs[i]), 1e-6, label+": corrections")
	}
	for i := range want.imps {
		uClose(got.imps[i], uMul(f.vec(want.imps[i]), f.mass), 1e-5, label+": impulses")
	}
	for i := range want.spins {
		vClose(got.spins[i], f.spin(want.spins[i]), 1e-6, label+": turning")
	}
	for i := range want.lens {
		vClose(got.lens[i], want.lens[i]*f.length, 1e-6, label+": lengths")
	}
	for i := range want.torques {
		vClose(got.torques[i], want.torques[i]*f.mass*f.length, 1e-5, label+": size of impulses")
	}
	for i := range want.nums {
		vClose(got.nums[i], want.nums[i], 1e-9, label+": numbers")
	}
}

const c41Scenes = 17

// c41Play runs a scene in a frame. Scenes 0-6 are collisions (0-3 with a single contact), 7-16 joints. The velocity of the
// second body is a parameter; it gets another one (late) before the last step.
func c41Play(f *c41Frame, scene int, v Vector, w float64, steps int, late Vector) *c41Seen {
	g := Vector{0.5, -4}
	space := NewSpace()
	space.Iterations = 2
	space.SetCollisionSlop(0.125 * f.length)
	space.SetGravity(f.vec(g))
	a, b := NewBody(2*f.mass, f.moment(3)), NewBody(f.mass, f.moment(1.5))
	ground := NewKinematicBody()
	bodies := []*Body{a, b, ground}
	place := func(x *Body, p, v Vector, ang, w float64) {
		x.SetPosition(f.pt(p))
		x.SetAngle(f.spin(ang))
		x.SetVelocityVector(f.vel(v))
		x.SetAngularVelocity(f.spin(w))
	}
	for _, x := range bodies {
		space.AddBody(x)
	}
	place(ground, Vector{0, -2}, Vector{}, 0, 0)
	l := f.length
	circle := func(x *Body, r float64, off Vector) *Shape { return NewCircle(x, r*l, f.vec(off)) }
	seg := func(x *Body, p, q Vector, r float64) *Shape { return NewSegment(x, f.vec(p), f.vec(q), r*l) }
	box := func(x *Body, hw, hh, r float64) *Shape {
		return NewPolyShape(x, 4, f.poly([]Vector{{hw, -hh}, {hw, hh}, {-hw, hh}, {-hw, -hh}}), NewTransformIdentity(), r*l)
	}
	at := Vector{0.75, 1.25}
	ang := 0.0
	var shapes []*Shape
	switch scene {
	case 0:
		shapes = []*Shape{circle(a, 1, Vector{0.25, 0}), circle(b, 0.75, Vector{})}
	case 1:
		shapes = []*Shape{seg(ground, Vector{-4, 2}, Vector{4, 3}, 0.25), circle(b, 1, Vector{-0.25, 0})}
	case 2:
		shapes, ang = []*Shape{box(a, 1, 0.75, 0), circle(b, 0.75, Vector{})}, 1
		at = Vector{1.25, 1}
	case 3:
		shapes, ang = []*Shape{seg(a, Vector{-2, 0.25}, Vector{2, 0.25}, 0.125), box(b, 1, 0.5, 0.125)}, 0.75
	case 4:
		shapes = []*Shape{seg(ground, Vector{-4, 2}, Vector{4, 2}, 0.5), box(b, 1, 1, 0)}
	case 5:
		shapes = []*Shape{box(a, 1, 0.75, 0), box(b, 1, 0.75, 0)}
	case 6:
		shapes, ang = []*Shape{seg(a, Vector{-2, 0}, Vector{2, 0}, 0.5), seg(b, Vector{-1, 0}, Vector{1, 0.25}, 0.5)}, 0.125
		at = Vector{0.5, 0.75}
	default:
		at, ang = Vector{1.5, 2}, 0.5
	}
	place(a, Vector{}, Vector{0.25, 0.5}, 0, 0.5)
	place(b, at, v, ang, w)
	for _, s := range shapes {
		s.SetFriction(0.75)
		s.SetElasticity(0.5)
		space.AddShape(s)
	}
	var joint *Constraint
	p, q := f.vec(Vector{0.5, 0.25}), f.vec(Vector{-0.25, 0.5})
	switch scene {
	case 7:
		joint = NewPinJoint(a, b, p, q)
		joint.Class.(*PinJoint).Dist = 2 * l
	case 8:
		joint = NewSlideJoint(a, b, p, q, 0.5*l, 1.25*l)
	case 9:
		joint = NewPivotJoint2(a, b, p, q)
	case 10:
		joint = NewGrooveJoint(a, b, f.vec(Vector{-1, 0.5}), f.vec(Vector{2, 1}), q)
	case 11:
		joint = NewDampedSpring(a, b, p, q, 3*l, 4*f.mass, 0.5*f.mass)
	case 12:
		joint = NewDampedRotarySpring(a, b, f.spin(1), f.moment(3), f.moment(0.5))
	case 13:
		lo, hi := f.spin(-1), f.spin(0.25)
		if hi < lo {
			lo, hi = hi, lo
		}
		joint = NewRotaryLimitJoint(a, b, lo, hi)
	case 14:
		joint = NewRatchetJoint(a, b, f.spin(0.25), f.spin(-0.5))
	case 15:
		joint = NewGearJoint(a, b, f.spin(0.25), 2)
	case 16:
		joint = NewSimpleMotor(a, b, f.spin(1.5))
	}
	if joint != nil {
		joint.SetErrorBias(0.25)
		space.AddConstraint(joint)
	}
	s := &c41Seen{}
	for i := 0; i < steps; i++ {
		if late != (Vector{}) && i == steps-1 {
			// from here on only velocities change
			for _, x := range bodies {
				x.SetPositionUpdateFunc(func(*Body, float64) {})
			}
			b.SetVelocityVector(f.vel(late))
		}
		space.Step(0.25)
		s.bodies(bodies)
		s.arbiters(bodies)
		if joint != nil && scene < 12 {
			s.torques = append(s.torques, joint.Class.GetImpulse())
		}
		f.off = uAdd(f.off, uMul(f.boost, 0.25))
	}
	if len(shapes) > 0 && steps > 1 {
		s.query(space, f, Vector{-2, 1.5}, Vector{1, 0}, shapes)
	}
	return s
}

// c41Apart compares the scene in the frame with the scene as it is, step by step.
func c41Apart(f *c41Frame, scene int, v Vector, w float64, steps int, late Vector, label string) {
	want := c41Play(c41Same(), scene, v, w, steps, late)
	off := f.off
	got := c41Play(f, scene, v, w, steps, late)
	if f.boost == (Vector{}) {
		f.off = off
		c41Compare(f, got, want, label)
		return
	}
	// the frame moves: undo it for every step
	for i := range want.vels {
		uClose(got.vels[i], f.vel(want.vels[i]), 1e-6, label+": velocities")
		uClose(got.vecs[i], f.vec(want.vecs[i]), 1e-6, label+": corrections")
	}
	for i := range want.spins {
		vClose(got.spins[i], want.spins[i], 1e-6, label+": turning")
	}
	for i := range want.imps {
		uClose(got.imps[i], want.imps[i], 1e-5, label+": impulses")
	}
	vAssert(len(got.imps) == len(want.imps), label+": as much is seen")
	f.off = uAdd(off, uMul(f.boost, 0.25*float64(steps)))
	last := len(want.pts) - 1
	uClose(got.pts[last], f.pt(want.pts[last]), 1e-6, label+": places")
}

// VH_C41_place: moving a whole scene changes nothing else.
//
//verif:bounds 7 collisions and 10 joints, 8 velocities, any place of the scene in [-1000,1000]^2; 4 steps, and queries
//verif:time 200
func VH_C41_place() {
	f := c41Same()
	f.off = uVec("off", 1000)
	scene := vChoose("scene", c41Scenes)
	k := vChoose("v", 8)
	v := []Vector{{-0.5, -2}, {1, 1.5}, {0, 0}, {3, -1}, {-4, 0.5}, {0.25, -8}, {2, 6}, {-1, -0.5}}[k]
	w := []float64{-0.75, 2, 0, -3, 1, 0.5, -6, 4}[k]
	c41Apart(f, scene, v, w, 4, Vector{}, "moved scene")
}

// VH_C41_boost: a scene that moves uniformly as a whole evolves as one that does not.
//
//verif:bounds 5 collisions and 10 joints, 2 velocities, any common velocity in [-20,20] in one direction (thorough: any direction); 3 steps, joints 2
//verif:time 200
func VH_C41_boost() {
	f := c41Same()
	u := vFloat("u", -20, 20)
	f.boost = Vector{u, -0.5 * u}
	if vThorough() {
		f.boost.Y = vFloat("uy", -20, 20)
	}
	scene := vChoose("scene", c41Scenes)
	if scene == 5 || scene == 6 {
		return // which of two shapes of a kind comes first depends on the speed, and with it the order of the contacts
	}
	v, w := Vector{-0.5, -2}, -0.75
	if vChoose("v", 2) == 1 {
		v, w = Vector{1, 1.5}, 2
	}
	steps := 3
	if scene > 6 {
		steps = 2
	}
	c41Apart(f, scene, v, w, steps, Vector{}, "moving scene")
}

// VH_C41_turned: a turned or mirrored scene behaves as the scene does.
//
//verif:bounds the same scenes; 3 quarter turns, 4 mirrors (single contacts and joints); 2 steps, before the second of which (for velocities only) the second body gets the velocity (x, -2) for any x in [-4,4]; quick 1, thorough 2 initial velocities
//verif:time 200
func VH_C41_turned() {
	f := c41Same()
	scene := vChoose("scene", c41Scenes)
	n := 7
	if scene >= 4 && scene < 7 {
		n = 3
	}
	k := vChoose("turn", n)
	f.x = []Vector{{0, 1}, {-1, 0}, {0, -1}, {-1, 0}, {1, 0}, {0, 1}, {0, -1}}[k]
	f.y = []Vector{{-1, 0}, {0, -1}, {1, 0}, {0, 1}, {0, -1}, {1, 0}, {-1, 0}}[k]
	v := 0
	if vThorough() {
		v = vChoose("v", 2)
	}
	late := Vector{vFloat("x", -4, 4), -2}
	c41Apart(f, scene, []Vector{{-0.5, -2}, {1, 1.5}}[v], []float64{-0.75, 2}[v], 2, late, "turned scene")
}

// VH_C41_units: the units of mass and length do not matter.
//
//verif:bounds the same scenes; masses 4 or 1/4 times, lengths 2 or 1/2 times as large; 2 steps as above
//verif:time 200
func VH_C41_units() {
	f := c41Same()
	scene := vChoose("scene", c41Scenes)
	k := vChoose("units", 4)
	f.mass = []float64{4, 0.25, 1, 1}[k]
	f.length = []float64{1, 1, 2, 0.5}[k]
	v := 0
	if vThorough() {
		v = vChoose("v", 2)
	}
	late := Vector{vFloat("x", -4, 4), -2}
	c41Apart(f, scene, []Vector{{-0.5, -2}, {1, 1.5}}[v], []float64{-0.75, 2}[v], 2, late, "scene in other units")
}

// VH_C41_sleep: whether bodies fall asleep does not depend on the direction of gravity and the units either.
//
//verif:bounds 3 bodies (two of them touch) that keep their velocities, gravity and velocities in 3 quarter turns, 4 mirrors and 4 changes of units; one velocity (x, 1/2) for any x in [-2,2]; 4 steps of 1/4; the default idle speed or a set one
//verif:time 100
func VH_C41_sleep() {
	f := c41Same()
	k := vChoose("frame", 11)
	if k < 7 {
		f.x = []Vector{{0, 1}, {-1, 0}, {0, -1}, {-1, 0}, {1, 0}, {0, 1}, {0, -1}}[k]
		f.y = []Vector{{-1, 0}, {0, -1}, {1, 0}, {0, 1}, {0, -1}, {1, 0}, {-1, 0}}[k]
	} else {
		f.mass = []float64{4, 0.25, 1, 1}[k-7]
		f.length = []float64{1, 1, 2, 0.5}[k-7]
	}
	x := vFloat("x", -2, 2)
	g := []Vector{{0, -4}, {1, -4}, {-3, 0.5}}[vChoose("gravity", 3)]
	set := vBool("set")
	play := func(f *c41Frame) (asleep []bool) {
		space := NewSpace()
		space.SetGravity(f.vec(g))
		space.SetCollisionSlop(100 * f.length)
		space.Iterations = 0
		space.SleepTimeThreshold = 0.5
		if set {
			space.IdleSpeedThreshold = 1.25 * f.length
		}
		var bodies []*Body
		for i, p := range []Vector{{0, 0}, {1.5, 0}, {-4, 1}} {
			b := space.AddBody(NewBody(float64(i+1)*f.mass, f.moment(1.5)))
			b.SetPositionUpdateFunc(func(*Body, float64) {})
			b.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
			b.SetPosition(f.pt(p))
			b.SetVelocityVector(f.vec([]Vector{{x, 0.5}, {0.25, 0}, {-0.5, x}}[i]))
			b.SetAngularVelocity(f.spin([]float64{0.125, -0.25, 0}[i]))
			space.AddShape(NewCircle(b, f.length, Vector{}))
			bodies = append(bodies, b)
		}
		for i := 0; i < 4; i++ {
			space.Step(0.25)
			for _, b := range bodies {
				asleep = append(asleep, b.IsSleeping())
			}
		}
		return
	}
	want, got := play(c41Same()), play(f)
	for i := range want {
		vAssert(got[i] == want[i], "the same bodies sleep in a turned scene or in other units")
		if want[i] {
			vCover("asleep")
		}
	}
}
