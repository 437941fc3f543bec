package cp

// c32World: 0 and 1 touch, 1 and 2 are joined, 3 rests on a static floor, 4 is alone.
type c32World struct {
	space  *Space
	bodies []*Body
	shapes []*Shape
	floor  *Shape
	joint  *Constraint
	begin  int
	end    int
	solved int
	moved  []int
}

var c32Groups = [][]int{{0, 1, 2}, {3}, {4}}

func c32New() *c32World {
	w := &c32World{space: NewSpace(), moved: make([]int, 5)}
	w.space.Iterations = 1
	w.space.SetCollisionSlop(100)
	for i, p := range []Vector{{0, 0}, {1.5, 0}, {5, 0}, {-5, 0}, {0, 6}} {
		b := w.space.AddBody(NewBody(2, 4))
		b.SetPosition(p)
		b.AddShape(NewCircle(b, 2, Vector{})) // not in the space
		s := w.space.AddShape(NewCircle(b, 1, Vector{}))
		n := &w.moved[i]
		b.SetPositionUpdateFunc(func(x *Body, dt float64) {
			*n++
			BodyUpdatePosition(x, dt)
		})
		w.bodies = append(w.bodies, b)
		w.shapes = append(w.shapes, s)
	}
	w.floor = w.space.AddShape(NewSegment(w.space.StaticBody, Vector{-6, -1}, Vector{-4, -1}, 0.25))
	w.joint = NewPinJoint(w.bodies[1], w.bodies[2], Vector{}, Vector{})
	w.joint.SetMaxForce(0)
	w.space.AddConstraint(w.joint)
	h := w.space.NewCollisionHandler(0, 0)
	h.BeginFunc = func(*Arbiter, *Space, interface{}) bool { w.begin++; return true }
	h.PreSolveFunc = func(*Arbiter, *Space, interface{}) bool { w.solved++; return true }
	h.SeparateFunc = func(*Arbiter, *Space, interface{}) { w.end++ }
	return w
}

// sleep lets everything fall asleep.
func (w *c32World) sleep() {
	w.space.SleepTimeThreshold = 0.25
	w.space.Step(0.25)
	w.space.Step(0.25)
	w.asleep(nil)
	vAssert(w.begin == 2 && w.end == 0, "falling asleep keeps the contacts")
}

// asleep: exactly the groups of the given bodies are awake.
func (w *c32World) asleep(awake []int) {
	for _, g := range c32Groups {
		want := true
		for _, i := range g {
			for _, k := range awake {
				want = want && i != k
			}
		}
		for _, i := range g {
			if want {
				vAssert(w.bodies[i].IsSleeping(), "bodies at rest that depend on nothing awake sleep")
			} else {
				vAssert(!w.bodies[i].IsSleeping(), "bodies wake up together with all they touch or are joined to")
			}
		}
	}
}

// complete: nothing is lost.
func (w *c32World) complete(joints int) {
	n, m, k := map[*Body]int{}, 0, 0
	w.space.EachBody(func(b *Body) { n[b]++ })
	for _, b := range w.bodies {
		vAssert(n[b] == 1, "no body is lost")
	}
	w.space.EachShape(func(*Shape) { m++ })
	vAssert(m == 6, "no shape is lost")
	w.space.EachConstraint(func(*Constraint) { k++ })
	vAssert(k == joints, "no constraint is lost")
}

// VH_C32_fall: bodies fall asleep together, once all of them are idle for long enough.
//
//verif:bounds 5 bodies in 3 groups (touching, joined, on a floor, alone); any velocity of three of them in [-1,1] (in the group of 3, on the floor, alone), spin of one; idle speed 1/2, threshold 1/2; 3 steps of 1/4
//verif:time 200
func VH_C32_fall() {
	w := c32New()
	w.space.SleepTimeThreshold = 0.5
	w.space.IdleSpeedThreshold = 0.5
	w.bodies[vChoose("moving", 3)].v.X = vFloat("a", -1, 1)
	w.bodies[3].v.X = vFloat("b", -1, 1)
	w.bodies[4].w = vFloat("c", -1, 1)
	// nothing changes the velocities, so that bodies stay as idle as they are
	for _, s := range w.shapes {
		s.SetSensor(false)
	}
	w.space.NewCollisionHandler(0, 0).PostSolveFunc = func(*Arbiter, *Space, interface{}) {}
	idle := make([]float64, 5)
	for _, b := range w.bodies {
		b.SetPositionUpdateFunc(func(*Body, float64) {})
	}
	for step := 0; step < 3; step++ {
		asleep := make([]bool, 5)
		for i, b := range w.bodies {
			asleep[i] = b.IsSleeping()
			if b.m*uDot(b.v, b.v)+b.i*b.w*b.w > b.m*0.25 {
				idle[i] = 0
			} else {
				idle[i] += 0.25
			}
		}
		w.space.Step(0.25)
		for _, g := range c32Groups {
			want := true
			for _, i := range g {
				want = want && idle[i] >= 0.5
			}
			for _, i := range g {
				vAssert(w.bodies[i].IsSleeping() == want, "bodies fall asleep once all of their group are idle for long enough")
			}
			if want {
				vCover("asleep")
			}
		}
	}
	w.complete(1)
}

// VH_C32_idle: what counts as idle.
//
//verif:bounds the 5 bodies; 3 gravities; idle speed 0 (that gained by gravity in a step) or 1/2; any speed of one of three in [-2,2], velocities of the others 0; steps of 1/4 or 1/2; 3 steps
//verif:time 100
func VH_C32_idle() {
	w := c32New()
	dt := []float64{0.25, 0.5}[vChoose("dt", 2)]
	g := []Vector{{0, -2}, {3, 0}, {-1.5, 2}}[vChoose("gravity", 3)]
	w.space.SetGravity(g)
	limit := uDot(g, g) * dt * dt
	if vBool("set") {
		w.space.IdleSpeedThreshold = 0.5
		limit = 0.25
	}
	w.space.SleepTimeThreshold = dt * 1.5
	for _, b := range w.bodies {
		b.SetPositionUpdateFunc(func(*Body, float64) {})
		b.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
	}
	w.space.Iterations = 0
	moving := vChoose("moving", 3)
	b := w.bodies[[]int{0, 3, 4}[moving]]
	b.v = uMul(Vector{0.6, -0.8}, vFloat("speed", -2, 2))
	idle := uDot(b.v, b.v) <= limit
	for step := 0; step < 3; step++ {
		w.space.Step(dt)
		for k, group := range c32Groups {
			want := step > 0 && (idle || k != moving)
			for _, i := range group {
				vAssert(w.bodies[i].IsSleeping() == want, "bodies slower than the idle speed fall asleep")
			}
			if want {
				vCover("asleep")
			}
		}
	}
	w.complete(1)
}

// VH_C32_still: sleeping bodies do not move and are found by queries.
//
//verif:bounds the 5 bodies asleep, with gravity set before; any point; 2 steps; another body moves somewhere else at any velocity
//verif:time 100
func VH_C32_still() {
	w := c32New()
	w.space.SetGravity(Vector{0, -0.0001})
	for _, b := range w.bodies {
		b.SetVelocityUpdateFunc(func(x *Body, g Vector, damping, dt float64) {
			BodyUpdateVelocity(x, Vector{}, damping, dt)
		})
	}
	w.sleep()
	free := w.space.AddBody(NewBody(1, 1))
	free.SetPosition(Vector{20, 20})
	v := uVec("v", 5)
	free.SetVelocityVector(v)
	var p []Vector
	for i, b := range w.bodies {
		p = append(p, b.Position())
		w.moved[i] = 0
	}
	q := uVec("q", 8)
	for step := 0; step < 2; step++ {
		w.space.Step(0.25)
		w.asleep(nil)
	}
	for i, b := range w.bodies {
		vAssert(w.moved[i] == 0, "sleeping bodies are not integrated")
		vAssert(vAnd(b.Position() == p[i], b.Velocity() == Vector{}), "sleeping bodies do not move")
	}
	n := map[*Shape]int{}
	w.space.BBQuery(BB{q.X, q.Y, q.X, q.Y}, SHAPE_FILTER_ALL, func(s *Shape, _ interface{}) { n[s]++ }, nil)
	for i, s := range w.shapes {
		d := uSub(q, p[i])
		near := vAnd(d.X <= 1, d.X >= -1, d.Y <= 1, d.Y >= -1)
		far := vOr(d.X >= 1, d.X <= -1, d.Y >= 1, d.Y <= -1)
		if n[s] > 0 {
			vAssert(vAnd(n[s] == 1, near), "sleeping bodies are found where they are")
			vCover("found")
		} else {
			vAssert(far, "sleeping bodies are found")
		}
	}
	uClose(free.Position(), Vector{20 + v.X/2, 20 + v.Y/2 - 0}, 1e-3, "other bodies move")
	w.complete(1)
}

const c32Actions = 27

// act does something to the i-th body that wakes it.
func (w *c32World) act(k, i int, x float64) {
	b, s := w.bodies[i], w.shapes[i]
	u := Vector{x, 1}
	switch k {
	case 0:
		b.ApplyForceAtWorldPoint(u, Vector{})
	case 1:
		b.ApplyForceAtLocalPoint(u, Vector{})
	case 2:
		b.ApplyImpulseAtWorldPoint(u, b.Position())
	case 3:
		b.ApplyImpulseAtLocalPoint(u, Vector{})
	case 4:
		b.SetForce(u)
	case 5:
		b.SetTorque(x)
	case 6:
		b.SetVelocity(x, 1)
	case 7:
		b.SetVelocityVector(u)
	case 8:
		b.SetAngularVelocity(x)
	case 9:
		b.SetPosition(Vector{b.Position().X + x/64, b.Position().Y})
	case 10:
		b.SetAngle(0.5)
	case 11:
		b.SetMass(2 + x)
	case 12:
		b.SetMoment(2 + x)
	case 13:
		s.SetFriction(x)
	case 14:
		s.SetElasticity(x)
	case 15:
		s.SetSurfaceV(u)
	case 16:
		s.SetFilter(NewShapeFilter(0, 1, ALL_CATEGORIES))
	case 17:
		s.SetCollisionType(0)
	case 18:
		s.SetSensor(false)
	case 19:
		s.SetMass(1 + x)
	case 20:
		s.SetDensity(1 + x)
	case 21:
		b.Activate()
	case 22:
		w.joint.SetMaxForce(0)
	case 23:
		w.joint.SetErrorBias(x)
	case 24:
		w.space.AddConstraint(NewDampedSpring(w.space.StaticBody, b, Vector{}, Vector{}, 1, 0, 0))
	case 25:
		w.space.AddShape(NewCircle(b, 0.25, Vector{0.5, 0}))
	case 26:
		w.space.ReindexShape(s)
		b.Activate()
	}
}

// VH_C32_wake: forces, impulses and setters wake the group of the body, and contacts go on.
//
//verif:bounds 27 ways to wake each of the bodies of a group of 3 (touching and joined) or a body on a floor, with any value in [0,2]; a step, and falling asleep again
//verif:time 200
func VH_C32_wake() {
	w := c32New()
	w.sleep()
	k := vChoose("action", c32Actions)
	i := []int{0, 1, 2, 3}[vChoose("body", 4)]
	if k == 22 || k == 23 {
		i = 1
	}
	x := vFloat("x", 0, 2)
	w.solved = 0
	for j := range w.bodies {
		n := &w.moved[j]
		*n = 0
		w.bodies[j].SetPositionUpdateFunc(func(*Body, float64) { *n++ })
	}
	w.space.SleepTimeThreshold = 10
	w.act(k, i, x)
	w.asleep([]int{i})
	for j, b := range w.bodies {
		if !b.IsSleeping() && j < 4 {
			vAssert(b.IdleTime() < 1e-9, "bodies that wake up are not idle")
		}
	}
	w.complete2(k)
	w.space.Step(0.25)
	w.asleep([]int{i})
	if k != 25 {
		want := 1
		vAssert(w.solved == want, "contacts of bodies that woke up go on")
		vAssert(w.begin == 2 && w.end == 0, "contacts that persist do not begin or separate")
	}
	w.complete2(k)
	for j, b := range w.bodies {
		vAssert((w.moved[j] == 1) == !b.IsSleeping(), "exactly the bodies that are awake move")
		if !b.IsSleeping() {
			vCover("woken")
		}
	}
	// again at rest
	w.space.SleepTimeThreshold = 0.25
	for _, b := range w.bodies {
		if !b.IsSleeping() {
			b.SetVelocity(0, 0)
			b.SetAngularVelocity(0)
		}
	}
	for _, s := range w.shapes {
		s.surfaceV = Vector{}
	}
	w.space.Step(0.25)
	w.space.Step(0.25)
	w.space.Step(0.25)
	w.asleep(nil)
	if k != 25 {
		vAssert(w.begin == 2 && w.end == 0, "contacts that persist do not begin or separate")
	}
	w.complete2(k)
}

func (w *c32World) complete2(k int) {
	switch k {
	case 24:
		w.complete(2)
	case 25:
	default:
		w.complete(1)
	}
}

// VH_C32_support: removing what bodies touch or are joined to, or changing its type, wakes them.
//
//verif:bounds removing the floor, a touching or joined body's shape, body or joint, or the type of a body or of the floor's body; any gravity set afterwards
//verif:time 100
func VH_C32_support() {
	w := c32New()
	base := NewStaticBody()
	w.space.AddBody(base)
	rest := w.space.AddShape(NewSegment(base, Vector{-1, 5}, Vector{1, 5}, 0.25))
	w.space.SleepTimeThreshold = 0.25
	w.space.Step(0.25)
	w.space.Step(0.25)
	w.asleep(nil)
	switch vChoose("what", 9) {
	case 0:
		w.space.RemoveShape(w.floor)
		w.asleep([]int{3})
	case 1:
		w.space.RemoveShape(w.shapes[0])
		w.asleep([]int{0})
	case 2:
		w.space.RemoveConstraint(w.joint)
		w.asleep([]int{0})
	case 3:
		w.bodies[0].SetType(BODY_STATIC)
		vAssert(vAnd(!w.bodies[0].IsSleeping(), !w.bodies[1].IsSleeping(), !w.bodies[2].IsSleeping()), "changing a body's type wakes what touches it")
		vAssert(vAnd(w.bodies[3].IsSleeping(), w.bodies[4].IsSleeping()), "other bodies sleep on")
	case 4:
		w.bodies[2].SetType(BODY_KINEMATIC)
		vAssert(vAnd(!w.bodies[0].IsSleeping(), !w.bodies[1].IsSleeping(), !w.bodies[2].IsSleeping()), "changing a body's type wakes what is joined to it")
		vAssert(vAnd(w.bodies[3].IsSleeping(), w.bodies[4].IsSleeping()), "other bodies sleep on")
	case 5:
		base.SetType([]int{BODY_KINEMATIC, BODY_DYNAMIC}[vChoose("type", 2)])
		base.SetMass(1)
		base.SetMoment(1)
		w.asleep([]int{4})
	case 6:
		w.space.SetGravity(uVec("g", 10))
		w.asleep([]int{0, 3, 4})
	case 7:
		w.space.RemoveShape(rest)
		w.space.RemoveBody(base)
		w.asleep([]int{4})
	case 8:
		w.space.RemoveBody(w.bodies[1])
		w.asleep([]int{1})
		w.space.AddBody(w.bodies[1])
	}
	for _, b := range w.bodies {
		b.SetPositionUpdateFunc(func(*Body, float64) {})
	}
	n := 0
	w.space.Step(0.25)
	w.space.EachBody(func(*Body) { n++ })
	vAssert(n == 5 || n == 6, "no body is lost")
	for _, b := range w.bodies {
		m := 0
		b.EachArbiter(func(arb *Arbiter) {
			m++
			vAssert(arb.body_a == b || arb.body_b == b, "a body lists its contacts")
		})
		vAssert(m <= 1, "a body lists its contacts once")
	}
}

// VH_C32_touch: an awake body wakes the group it touches.
//
//verif:bounds an awake dynamic or kinematic circle placed anywhere along a line through the group and the body on the floor; 1 step
//verif:time 100
func VH_C32_touch() {
	w := c32New()
	w.sleep()
	b := NewBody(1, 1)
	kinematic := vBool("kinematic")
	if kinematic {
		b = NewKinematicBody()
	}
	w.space.AddBody(b)
	x := vFloat("x", -9, 9)
	b.SetPosition(Vector{x, 1})
	b.SetVelocity(0, -1)
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	s := w.space.AddShape(NewCircle(b, 0.5, Vector{}))
	w.asleep(nil)
	w.space.Step(0.25)
	vAssert(!b.IsSleeping(), "a moving body is awake")
	for _, g := range c32Groups {
		awake := !w.bodies[g[0]].IsSleeping()
		var touching []bool
		for _, i := range g {
			vAssert(w.bodies[i].IsSleeping() == !awake, "bodies wake up together with all they touch or are joined to")
			d := uSub(b.p, w.bodies[i].p)
			tol := 1e-6
			if !awake {
				tol = -1e-6
			}
			touching = append(touching, uDot(d, d) <= 2.25+tol)
		}
		vAssert(vOr(touching...) == awake, "exactly the groups that are touched wake up")
		if awake {
			vCover("woken")
		}
	}
	vAssert(w.end == 0, "waking does not separate contacts")
	m := 0
	w.space.EachBody(func(*Body) { m++ })
	vAssert(m == 6, "no body is lost")
	w.space.RemoveShape(s)
	w.space.RemoveBody(b)
	w.complete(1)
}

// VH_C32_islands: the bodies that sleep are exactly the groups in which all are idle.
//
//verif:bounds 4 circles (dynamic, kinematic or unable to turn) in a row with distances of 1.75 or 2.25, one of them any in [1.5,2.5], joined or not by up to one joint; each moving or not; 2 steps, then one of them woken
//verif:time 200
func VH_C32_islands() {
	space := NewSpace()
	space.Iterations = 1
	space.SetCollisionSlop(100)
	space.SleepTimeThreshold = 0.25
	space.IdleSpeedThreshold = 0.5
	var bodies []*Body
	x := 0.0
	odd := 4 - vChoose("odd", 4)
	kind := 0
	if odd < 4 {
		kind = 1 + vChoose("kind", 2)
	}
	moving := 4 - vChoose("moving", 4)
	near := make([]bool, 4)
	for i := 0; i < 4; i++ {
		b := NewBody(1, 1)
		if i == odd && kind == 1 {
			b = NewKinematicBody()
		}
		if i == odd && kind == 2 {
			b = NewBody(1, INFINITY)
		}
		space.AddBody(b)
		if i > 0 {
			var d float64
			if i == 2 {
				d = vFloat("d", 1.5, 2.5)
			} else {
				d = []float64{1.75, 2.25}[vChoose("far", 2)]
			}
			x += d
			if d < 2-1e-6 {
				near[i] = true
			} else {
				vAssume(d > 2+1e-6)
			}
		}
		b.SetPosition(Vector{x, 0})
		b.SetPositionUpdateFunc(func(*Body, float64) {})
		b.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
		if i == moving {
			b.SetVelocity(0, 1)
		}
		space.AddShape(NewCircle(b, 1, Vector{})).SetSensor(false)
		bodies = append(bodies, b)
	}
	h := space.NewCollisionHandler(0, 0)
	begin, end := 0, 0
	h.BeginFunc = func(*Arbiter, *Space, interface{}) bool { begin++; return true }
	h.SeparateFunc = func(*Arbiter, *Space, interface{}) { end++ }
	// without impulses, velocities stay
	h.PreSolveFunc = func(*Arbiter, *Space, interface{}) bool { return true }
	ja, jb := 0, 0
	if k := vChoose("joint", 4); k > 0 {
		ja, jb = []int{0, 0, 1}[k-1], []int{2, 3, 3}[k-1]
		c := space.AddConstraint(NewGearJoint(bodies[ja], bodies[jb], 0, 1))
		c.SetMaxForce(0)
	}
	// groups of dynamic bodies
	group := []int{0, 1, 2, 3}
	dynamic := func(i int) bool { return bodies[i].GetType() == BODY_DYNAMIC }
	join := func(a, b int) {
		if dynamic(a) && dynamic(b) {
			ga, gb := group[a], group[b]
			for i := range group {
				if group[i] == gb {
					group[i] = ga
				}
			}
		}
	}
	touching := 0
	for i := 1; i < 4; i++ {
		if near[i] {
			join(i-1, i)
			touching++
		}
	}
	join(ja, jb)
	awake := make([]bool, 4)
	for i := range awake {
		// kinematic bodies keep what they touch or are joined to awake
		busy := i == moving
		if kind == 1 {
			busy = busy || i+1 == odd && near[odd] || i-1 == odd && near[i]
			busy = busy || ja != jb && (ja == odd && i == jb || jb == odd && i == ja)
		}
		if busy {
			for j := range group {
				if group[j] == group[i] {
					awake[j] = true
				}
			}
		}
	}
	space.Step(0.25)
	space.Step(0.25)
	check := func() {
		n := map[*Body]int{}
		space.EachBody(func(b *Body) { n[b]++ })
		for i, b := range bodies {
			vAssert(n[b] == 1, "no body is lost")
			if dynamic(i) {
				vAssert(b.IsSleeping() == !awake[i], "exactly the groups in which all bodies are idle sleep")
				if awake[i] {
					vCover("awake")
				} else {
					vCover("asleep")
				}
			} else {
				vAssert(!b.IsSleeping(), "kinematic bodies never sleep")
			}
		}
		vAssert(begin == touching && end == 0, "contacts that persist do not begin or separate")
	}
	check()
	k := 2 * vChoose("wake", 2)
	bodies[k].Activate()
	if dynamic(k) {
		for j := range group {
			if group[j] == group[k] {
				awake[j] = true
			}
		}
	}
	check()
	space.Step(0.125)
	check()
}

// VH_C32_ground: a sleeping body wakes up when a shape that it touches is removed, of whatever kind the two are.
//
//verif:bounds circle, segment or box of a sleeping body that overlaps a circle, segment or box of the space's or another static body, at any place in [-0.5,0.5]; another body sleeps elsewhere on another shape of the same body; removing one, the other, or both of the shapes of the static body, or the touching shape, or waking only; both orders of creation
//verif:time 60
func VH_C32_ground() {
	space := NewSpace()
	space.Iterations = 1
	space.SetCollisionSlop(100)
	space.SleepTimeThreshold = 0.25
	ground := space.StaticBody
	if vChoose("own", 2) == 1 {
		ground = space.AddBody(NewStaticBody())
	}
	shape := func(kind int, b *Body, at Vector) *Shape {
		switch kind {
		case 0:
			return NewCircle(b, 1, at)
		case 1:
			return NewSegment(b, uAdd(at, Vector{-1, 0}), uAdd(at, Vector{1, 0}), 0.5)
		}
		return NewBox2(b, BB{at.X - 1, at.Y - 1, at.X + 1, at.Y + 1}, 0)
	}
	b, c := space.AddBody(NewBody(1, 1)), space.AddBody(NewBody(1, 1))
	kind := vChoose("kind", 3)
	floor := shape(vChoose("ground", 3), ground, Vector{})
	s := shape(kind, b, Vector{})
	if vBool("first") {
		space.AddShape(s)
		space.AddShape(floor)
	} else {
		space.AddShape(floor)
		space.AddShape(s)
	}
	other := space.AddShape(shape(1, ground, Vector{9, 0}))
	space.AddShape(shape(0, c, Vector{}))
	b.SetPosition(Vector{vFloat("x", -0.5, 0.5), 0.75})
	c.SetPosition(Vector{9, 0.75})
	for _, x := range []*Body{b, c} {
		x.SetPositionUpdateFunc(func(*Body, float64) {})
		x.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
	}
	begin, end := 0, 0
	h := space.NewCollisionHandler(0, 0)
	h.BeginFunc = func(*Arbiter, *Space, interface{}) bool { begin++; return true }
	h.SeparateFunc = func(*Arbiter, *Space, interface{}) { end++ }
	space.Step(0.25)
	space.Step(0.25)
	vAssert(vAnd(b.IsSleeping(), c.IsSleeping()), "bodies at rest on something static sleep")
	vAssert(begin == 2 && end == 0, "falling asleep keeps the contacts")
	action := vChoose("action", 5)
	switch action {
	case 0:
		space.RemoveShape(floor)
		vAssert(!b.IsSleeping(), "a body wakes up when what carries it is removed")
		vAssert(end == 1, "the contact ends with the shape")
	case 1:
		space.RemoveShape(s)
		vAssert(!b.IsSleeping(), "a body wakes up when its shape is removed")
		vAssert(end == 1, "the contact ends with the shape")
	case 2:
		space.RemoveShape(other)
		vAssert(!c.IsSleeping(), "a body wakes up when what carries it is removed")
		vAssert(end == 1, "the contact ends with the shape")
	case 3:
		space.RemoveShape(floor)
		space.RemoveShape(other)
		vAssert(vAnd(!b.IsSleeping(), !c.IsSleeping()), "a body wakes up when what carries it is removed")
		vAssert(end == 2, "the contact ends with the shape")
	case 4:
		// woken and back to sleep
		b.Activate()
		vAssert(!b.IsSleeping(), "a body can be woken")
	}
	end0 := end
	space.Step(0.125)
	vAssert(begin == 2 && end == end0, "what persists does not begin or end again")
	n := 0
	space.EachBody(func(*Body) { n++ })
	vAssert(n >= 2, "no body is lost")
	space.Step(0.25)
	space.Step(0.25)
	vAssert(vAnd(b.IsSleeping(), c.IsSleeping()), "bodies at rest sleep again")
	vAssert(begin == 2 && end == end0, "what persists does not begin or end again")
}

// VH_C32_restless: what happens to an idle body starts its idle time anew, and that of the bodies it touches.
//
//verif:bounds the 5 bodies idle for 3 steps but not asleep; the 27 actions on each body of a group of 3 (touching and joined) or a body on a floor, with any value in [0,2]
//verif:time 100
func VH_C32_restless() {
	w := c32New()
	w.space.SleepTimeThreshold = 10
	for i := 0; i < 3; i++ {
		w.space.Step(0.25)
	}
	for _, b := range w.bodies {
		vAssert(!b.IsSleeping() && b.IdleTime() > 0.7, "bodies at rest are idle")
	}
	k := vChoose("action", c32Actions)
	i := []int{0, 1, 2, 3}[vChoose("body", 4)]
	if k == 22 || k == 23 {
		i = 1
	}
	w.act(k, i, vFloat("x", 0, 2))
	touched := map[*Body]bool{w.bodies[i]: true}
	w.bodies[i].EachArbiter(func(arb *Arbiter) {
		a, b := arb.Bodies()
		touched[a], touched[b] = true, true
	})
	for j, b := range w.bodies {
		if touched[b] {
			vAssert(b.IdleTime() < 1e-9, "what happens to a body starts its idle time anew, and that of the bodies it touches")
			vCover("restless")
			if j != i {
				vCover("touched")
			}
		}
	}
	vAssert(w.space.StaticBody.GetType() == BODY_STATIC, "static bodies stay static")
	vAssert(w.bodies[4].IdleTime() > 0.7, "other bodies stay idle")
}
