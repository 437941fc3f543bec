package cp

// c42Seen collects everything that a user of a space can see.
type c42Seen struct {
	f []float64
	n []int
}

func (s *c42Seen) vec(v Vector)  { s.f = append(s.f, v.X, v.Y) }
func (s *c42Seen) num(n int)     { s.n = append(s.n, n) }
func (s *c42Seen) val(x float64) { s.f = append(s.f, x) }
func (s *c42Seen) flag(b bool)   { s.num(map[bool]int{false: 0, true: 1}[b]) }
func (s *c42Seen) bodies(l []*Body) {
	for _, b := range l {
		s.vec(b.Position())
		s.vec(b.Velocity())
		s.val(b.Angle())
		s.val(b.AngularVelocity())
		s.flag(b.IsSleeping())
		n := 0
		b.EachArbiter(func(arb *Arbiter) {
			n++
			s.flag(arb.UserData == nil)
			arb.UserData = n
			s.vec(arb.TotalImpulse())
			set := arb.ContactPointSet()
			s.num(set.Count)
			for i := 0; i < set.Count; i++ {
				s.vec(set.Points[i].PointA)
				s.vec(set.Points[i].PointB)
			}
			vCover("contact")
		})
		s.num(n)
	}
}

func (s *c42Seen) compare(o *c42Seen, label string) {
	vAssert(len(s.f) == len(o.f) && len(s.n) == len(o.n), label+": as much happens")
	if len(s.f) != len(o.f) || len(s.n) != len(o.n) {
		return
	}
	for i := range s.n {
		vAssert(s.n[i] == o.n[i], label+": the same happens")
	}
	for i := range s.f {
		vClose(s.f[i], o.f[i], 1e-9, label+": the same motion")
	}
}

// c42Scene: a circle and a box fall on a floor and on each other, with or without a joint.
type c42Scene struct {
	space  *Space
	seen   *c42Seen
	bodies []*Body
	shapes []*Shape
	joint  *Constraint
}

func c42Build(space *Space, kind int, x, v float64) *c42Scene {
	s := &c42Scene{space: space, seen: &c42Seen{}}
	a, b, c := NewBody(1, 2), NewBody(2, 1.5), NewBody(1.5, 1)
	s.bodies = []*Body{a, b, c}
	p := []Vector{{x, 0.5}, {1, 1.25}, {-2, 0.75}}
	u := []Vector{{0.5, v}, {-0.25, -1}, {1, 0}}
	for i, b := range s.bodies {
		b.SetPosition(p[i])
		b.SetVelocityVector(u[i])
		space.AddBody(b)
	}
	s.shapes = []*Shape{
		NewCircle(a, 0.75, Vector{}), NewBox(b, 2, 1, 0), NewCircle(c, 0.5, Vector{0.25, 0}),
		NewSegment(space.StaticBody, Vector{-6, 0}, Vector{6, -0.5}, 0.25),
	}
	for i, x := range s.shapes {
		x.SetElasticity(0.5)
		x.SetFriction(0.5)
		x.SetCollisionType(CollisionType(i + 1))
		space.AddShape(x)
	}
	switch kind {
	case 1:
		s.joint = NewPivotJoint2(a, c, Vector{-0.5, 0}, Vector{1, 0})
	case 2:
		s.joint = NewSlideJoint(b, c, Vector{}, Vector{}, 0.5, 2)
		s.joint.SetCollideBodies(false)
	}
	if s.joint != nil {
		space.AddConstraint(s.joint)
	}
	return s
}

func (s *c42Scene) step(n int) {
	for i := 0; i < n; i++ {
		s.space.Step(0.125)
		s.seen.bodies(s.bodies)
	}
}

// query asks everything once.
func (s *c42Scene) query() {
	space, seen := s.space, s.seen
	which := func(x *Shape) {
		k := -1
		for i := range s.shapes {
			if s.shapes[i] == x {
				k = i
			}
		}
		seen.num(k)
	}
	info := space.PointQueryNearest(Vector{0, 2}, 8, SHAPE_FILTER_ALL)
	which(info.Shape)
	seen.val(info.Distance)
	ray := space.SegmentQueryFirst(Vector{-5, 3}, Vector{3, -1}, 0, SHAPE_FILTER_ALL)
	which(ray.Shape)
	seen.val(ray.Alpha)
	n := 0
	space.BBQuery(NewBB(-3, -3, 3, 3), SHAPE_FILTER_ALL, func(*Shape, interface{}) { n++ }, nil)
	seen.num(n)
	n = 0
	space.EachBody(func(*Body) { n++ })
	space.EachShape(func(*Shape) { n += 10 })
	space.EachConstraint(func(*Constraint) { n += 100 })
	seen.num(n)
}

func (s *c42Scene) remove() {
	if s.joint != nil {
		s.space.RemoveConstraint(s.joint)
	}
	for _, x := range s.shapes {
		s.space.RemoveShape(x)
	}
	for _, b := range s.bodies {
		s.space.RemoveBody(b)
	}
}

func c42Space(k int) *Space {
	space := NewSpace()
	space.Iterations = 2
	space.SetGravity(Vector{0, -4})
	space.SetCollisionSlop(0.125)
	if k == 1 {
		space.UseSpatialHash(2, 64)
	}
	return space
}

// c42Past leaves traces in a space and removes everything again.
func c42Past(space *Space, past int, x float64) {
	switch past {
	case 0, 1:
		// bodies come together, separate and are removed, or are removed while they touch
		s := c42Build(space, 1, x, -1)
		space.Step(0.125)
		if past == 0 {
			s.bodies[0].SetPosition(Vector{x, 9})
			for i := 0; i < 5; i++ {
				space.Step(0.125)
			}
		}
		s.remove()
		if x > 1 {
			vCover("right")
		}
	case 2:
		// everything falls asleep
		space.SleepTimeThreshold = 0.1
		space.IdleSpeedThreshold = 1000
		s := c42Build(space, 2, x, 0)
		for i := 0; i < 3; i++ {
			space.Step(0.125)
		}
		if s.bodies[0].IsSleeping() {
			vCover("slept")
		}
		s.remove()
		space.SleepTimeThreshold = INFINITY
		space.IdleSpeedThreshold = 0
	case 3:
		// shapes and bodies are replaced one by one, with a kinematic body, sensors and queries
		s := c42Build(space, 0, x, 0)
		s.shapes[1].SetSensor(true)
		space.Step(0.125)
		s.bodies[2].SetType(BODY_KINEMATIC)
		space.RemoveShape(s.shapes[0])
		space.Step(0.125)
		s.query()
		space.AddShape(s.shapes[0])
		space.Step(0.125)
		space.RemoveShape(s.shapes[3])
		s.bodies[1].SetPosition(Vector{x, 1})
		space.Step(0.125)
		space.AddShape(s.shapes[3])
		s.remove()
	case 4:
		// two scenes at once
		s := c42Build(space, 1, x, 0)
		t := c42Build(space, 2, x-1, -2)
		space.Step(0.125)
		s.remove()
		space.Step(0.125)
		t.remove()
		space.Step(0.125)
	}
}

// VH_C42_past: a space from which everything was removed behaves as a new one.
//
//verif:bounds 5 pasts (contacts ended, removed while touching, asleep, one by one, two scenes) with a body at any x in [-2.5,2.5]; then a scene (4 bodies' shapes; no joint, pivot or slide) in tree and grid; 3 steps and queries
//verif:time 200
func VH_C42_past() {
	past, kind, index := vChoose("past", 5), vChoose("kind", 3), 0
	if vThorough() {
		index = vChoose("index", 2)
	} else if kind == 1 && past < 2 {
		index = 1
	}
	old, fresh := c42Space(index), c42Space(index)
	x := -0.5
	if index == 0 {
		x = vFloat("x", -2.5, 2.5)
	}
	old.Iterations = 0 // in the past contacts come and go, but move nothing: x stays linear
	c42Past(old, past, x)
	old.Iterations = 2
	s, t := c42Build(old, kind, -0.25, -1), c42Build(fresh, kind, -0.25, -1)
	for _, s := range []*c42Scene{s, t} {
		s.step(3)
		s.query()
	}
	s.seen.compare(t.seen, "used space")
}

// VH_C42_again: the same with any velocity in the later scene.
//
//verif:bounds the pasts at 2 places, any velocity of a body in [-6,6] in the later scene; 1 step
//verif:time 200
func VH_C42_again() {
	past, kind := vChoose("past", 5), vChoose("kind", 3)
	x := []float64{0.25, -1.25}[vChoose("x", 2)]
	old, fresh := c42Space(0), c42Space(0)
	c42Past(old, past, x)
	v := vFloat("v", -6, 6)
	s, t := c42Build(old, kind, -0.25, 0), c42Build(fresh, kind, -0.25, 0)
	for _, s := range []*c42Scene{s, t} {
		s.step(1)
		for _, b := range s.bodies {
			b.SetPositionUpdateFunc(func(*Body, float64) {})
		}
		s.bodies[0].SetVelocity(0.5, v)
		s.step(1)
	}
	s.seen.compare(t.seen, "used space")
}

// VH_C42_apart: two spaces that are used by turns do not notice each other.
//
//verif:bounds scenes as above in both spaces, the other one at any x in [-2.5,2.5] with callbacks, sleep and its own index; 3 steps
//verif:time 200
func VH_C42_apart() {
	kind, other := vChoose("kind", 3), vChoose("other", 3)
	one, two := c42Space(0), c42Space(0)
	three := c42Space(other % 2)
	three.SetGravity(Vector{1, -1})
	three.SetDamping(0.5)
	three.Iterations = 0 // contacts come and go, but move nothing: x stays linear
	if other == 2 {
		three.SleepTimeThreshold = 0.1
		three.IdleSpeedThreshold = 1000
	}
	for _, h := range []*CollisionHandler{three.NewWildcardCollisionHandler(1), three.NewCollisionHandler(2, 4)} {
		h.BeginFunc = func(*Arbiter, *Space, interface{}) bool { return false }
		h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool { return arb.Ignore() }
	}
	s, t := c42Build(one, kind, -0.25, -1), c42Build(two, kind, -0.25, -1)
	x := 0.5
	if other != 1 {
		x = vFloat("x", -2.5, 2.5)
	}
	o := c42Build(three, (kind+1)%3, x, 0)
	for i := 0; i < 3; i++ {
		s.step(1)
	}
	for i := 0; i < 3; i++ {
		o.step(1)
		t.step(1)
		o.query()
	}
	s.query()
	o.remove()
	t.query()
	s.seen.compare(t.seen, "space next to another one")
}
