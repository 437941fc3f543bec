package cp

var c31Ends = [][2]int{{0, 1}, {1, 0}, {0, 2}, {2, 1}}

type c31World struct {
	space  *Space
	bodies []*Body
	joints []*Constraint
	in     []bool
	order  []int // constraints in the space, in the order of adding
}

func c31New(static bool) *c31World {
	w := &c31World{space: NewSpace()}
	w.space.Iterations = 1
	w.space.SetCollisionSlop(100)
	for i, p := range []Vector{{0, 0}, {0.5, 0.25}, {0, 1}} {
		b := NewBody(1, 1)
		if i == 2 && static {
			b = NewStaticBody()
		}
		b.SetPosition(p)
		w.space.AddBody(b)
		s := w.space.AddShape(NewCircle(b, 1, Vector{}))
		s.SetCollisionType(CollisionType(i))
		w.bodies = append(w.bodies, b)
	}
	for _, e := range c31Ends {
		j := NewPivotJoint2(w.bodies[e[0]], w.bodies[e[1]], Vector{1, 0}, Vector{0, 1})
		j.SetMaxForce(0)
		w.joints = append(w.joints, j)
		w.in = append(w.in, false)
	}
	return w
}

func (w *c31World) toggle(i int) {
	if w.in[i] {
		w.space.RemoveConstraint(w.joints[i])
		for k, x := range w.order {
			if x == i {
				w.order = append(w.order[:k:k], w.order[k+1:]...)
				break
			}
		}
	} else {
		w.space.AddConstraint(w.joints[i])
		w.order = append(w.order, i)
	}
	w.in[i] = !w.in[i]
}

// check compares the lists with the constraints that should be in them.
func (w *c31World) check() {
	n := map[*Constraint]int{}
	w.space.EachConstraint(func(c *Constraint) { n[c]++ })
	vAssert(len(n) == len(w.order), "the space lists its constraints")
	for i, j := range w.joints {
		vAssert(n[j] == c31One(w.in[i]), "the space lists its constraints")
		vAssert(w.space.ContainsConstraint(j) == w.in[i], "the space contains its constraints")
	}
	for k, b := range w.bodies {
		m := map[*Constraint]int{}
		b.EachConstraint(func(c *Constraint) { m[c]++ })
		total := 0
		for i, j := range w.joints {
			mine := w.in[i] && (c31Ends[i][0] == k || c31Ends[i][1] == k)
			vAssert(m[j] == c31One(mine), "a body lists its constraints")
			total += c31One(mine)
		}
		vAssert(len(m) == total, "a body lists its constraints")
	}
}

func c31One(b bool) int {
	if b {
		return 1
	}
	return 0
}

// VH_C31_lists: constraints are listed by their bodies and the space until they are removed.
//
//verif:bounds 4 constraints among 3 bodies (two of the constraints join the same bodies, in opposite order; one of the bodies is static or not); none or all of them added in one of 2 orders, then every sequence of 3 (thorough: 4) additions and removals; any position of a body along a line; collisions between joined bodies disabled for any subset of the constraints
//verif:time 600
func VH_C31_lists() {
	static := vChoose("static", 2) == 1
	w := c31New(static)
	n := 3
	if vThorough() {
		n = 4
	}
	// collisions are disabled by constraint 0 or 1, or by 2 and 3
	mask := []int{1, 2, 12}[vChoose("disabled", 3)]
	late := static
	if vThorough() {
		late = vChoose("late", 2) == 1
	}
	set := func() {
		for i, j := range w.joints {
			j.SetCollideBodies(mask>>uint(i)&1 == 0)
		}
	}
	if !late {
		set()
	}
	first := vChoose("first", 3)
	for i := 0; first < 2 && i < len(w.joints); i++ {
		w.toggle([]int{i, 3 - i}[first])
	}
	for i := 0; i < n; i++ {
		w.toggle(vChoose("joint", len(w.joints)))
	}
	w.check()
	if late {
		set()
	}
	// body 1 moves across the others
	lo := 0.5
	if vThorough() {
		lo = -3
	}
	x := vFloat("x", lo, 3)
	w.bodies[1].SetPosition(Vector{x, 0.25})
	got := map[int]int{}
	for i := 0; i < 3; i++ {
		for k := i + 1; k < 3; k++ {
			pair := i*3 + k
			h := w.space.NewCollisionHandler(CollisionType(i), CollisionType(k))
			h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
				got[pair]++
				return true
			}
		}
	}
	w.space.Step(0.25)
	for i := 0; i < 3; i++ {
		for k := i + 1; k < 3; k++ {
			off := false
			for c, e := range c31Ends {
				if w.in[c] && mask>>uint(c)&1 == 1 && (e == [2]int{i, k} || e == [2]int{k, i}) {
					off = true
				}
			}
			g := got[i*3+k]
			vAssert(g <= 1, "a pair collides once per step")
			if off {
				vAssert(g == 0, "bodies joined by a constraint that disables collisions do not collide")
				vCover("disabled")
				continue
			}
			d := uSub(w.bodies[i].p, w.bodies[k].p)
			if g == 1 {
				vAssert(uDot(d, d) <= 4+1e-6, "only touching bodies collide")
				vCover("collided")
			} else {
				vAssert(uDot(d, d) >= 4-1e-6, "other pairs collide")
			}
		}
	}
	w.check()
}

// VH_C31_callbacks: the callbacks of a constraint run once per step, before and after solving.
//
//verif:bounds the 10 kinds of joints; any velocity of a body; one or both callbacks; 1 or 3 iterations; 2 steps; the constraint removed afterwards
//verif:time 120
func VH_C31_callbacks() {
	kind := vChoose("kind", uJoints)
	space, _, b, j := uJointPair(kind, 0, true, []uint{1, 3}[vChoose("iterations", 2)])
	other := space.AddConstraint(NewSimpleMotor(space.StaticBody, b, 0))
	b.SetVelocity(-1, 2)
	if kind != 2 && kind != 3 {
		b.SetAngularVelocity(vFloat("w", -4, 4))
	}
	pre, post := 0, 0
	which := vChoose("which", 3)
	var v Vector
	var w float64
	if which != 1 {
		j.PreSolve = func(c *Constraint, s *Space) {
			vAssert(vAnd(c == j, s == space), "the callback gets its constraint and space")
			vAssert(pre == post || which == 0, "the callback before solving runs first")
			vAssert(vAnd(b.v == v, b.w == w), "nothing is solved before the callback")
			pre++
		}
	}
	if which != 0 {
		j.PostSolve = func(c *Constraint, s *Space) {
			vAssert(vAnd(c == j, s == space), "the callback gets its constraint and space")
			post++
			vAssert(pre == post || which == 1, "the callback before solving runs first")
			v, w = b.v, b.w
		}
	}
	for i := 1; i <= 2; i++ {
		v, w = b.v, b.w
		space.Step(0.25)
		vAssert(which == 1 || pre == i, "the callback runs once per step")
		vAssert(which == 0 || post == i, "the callback runs once per step")
		if which != 0 {
			vAssert(vAnd(b.v == v, b.w == w), "the callback runs after solving")
		}
	}
	space.RemoveConstraint(j)
	v, w = b.v, b.w
	space.Step(0.25)
	vAssert(pre <= 2 && post <= 2, "a removed constraint has no callbacks")
	vAssert(space.ContainsConstraint(other), "other constraints stay")
}

// VH_C31_remove: a constraint that was removed no longer acts.
//
//verif:bounds the 10 kinds of joints after a step; any velocity of one body; 1 more step
//verif:time 120
func VH_C31_remove() {
	kind := vChoose("kind", uJoints)
	space, a, b, j := uJointPair(kind, 1, true, 1)
	space.Step(0.25)
	space.RemoveConstraint(j)
	v, w := uVec("v", 8), vFloat("w", -4, 4)
	b.SetVelocityVector(v)
	b.SetAngularVelocity(w)
	a.SetVelocityVector(w31Half(v))
	space.Step(0.25)
	vAssert(vAnd(b.v.X == v.X, b.v.Y == v.Y, b.w == w), "a constraint that was removed does not act")
	vAssert(vAnd(a.v.X == v.X/2, a.v.Y == v.Y/2), "a constraint that was removed does not act")
	space.AddConstraint(j)
	vAssert(space.ContainsConstraint(j), "it can be added again")
}

func w31Half(v Vector) Vector { return Vector{v.X / 2, v.Y / 2} }

// VH_C31_wake: adding, removing and changing a constraint wakes its bodies.
//
//verif:bounds two bodies asleep, apart or in one component, or one of them static, a third asleep elsewhere; the setters of constraints with any value, adding and removing a constraint
//verif:time 60
func VH_C31_wake() {
	space := NewSpace()
	space.SleepTimeThreshold = 0.25
	var bodies []*Body
	for i := 0; i < 3; i++ {
		b := space.AddBody(NewBody(1, 1))
		b.SetPosition(Vector{float64(4 * i), 0})
		space.AddShape(NewCircle(b, 1, Vector{}))
		bodies = append(bodies, b)
	}
	ends := []*Body{bodies[0], bodies[1]}
	if fixed := vChoose("static", 4); fixed > 0 {
		// one of the ends does not sleep: the space's own body or another static one
		ground := space.StaticBody
		if fixed == 3 {
			ground = space.AddBody(NewStaticBody())
		}
		ends[fixed%2] = ground
	}
	j := NewPinJoint(ends[0], ends[1], Vector{}, Vector{})
	what := vChoose("what", 6)
	if what != 5 {
		space.AddConstraint(j)
	}
	space.Step(0.25)
	space.Step(0.25)
	for _, b := range bodies {
		vAssert(b.IsSleeping(), "bodies at rest fall asleep")
	}
	x := vFloat("x", 0, 8)
	switch what {
	case 0:
		j.SetMaxForce(x)
		vAssert(j.MaxForce() == x, "the maximum force is kept")
	case 1:
		j.SetMaxBias(x)
		vAssert(j.MaxBias() == x, "the maximum bias is kept")
	case 2:
		j.SetErrorBias(x)
		vAssert(j.ErrorBias() == x, "the error bias is kept")
	case 3:
		j.SetCollideBodies(false)
		vAssert(!j.collideBodies, "whether joined bodies collide is kept")
	case 4:
		space.RemoveConstraint(j)
	case 5:
		space.AddConstraint(j)
	}
	for _, b := range ends {
		vAssert(vAnd(!b.IsSleeping(), b.IdleTime() < 1e-9 || b.GetType() == BODY_STATIC), "changing a constraint wakes its bodies")
	}
	vAssert(bodies[2].IsSleeping(), "other bodies stay asleep")
	space.Step(0.25)
	n := 0
	space.EachConstraint(func(*Constraint) { n++ })
	vAssert(n == c31One(what != 4), "waking keeps the constraints")
}

// VH_C31_make: the parameters of a joint are the ones it was made with.
//
//verif:bounds every constructor; any parameters, positions and one angle of the bodies
//verif:time 60
func VH_C31_make() {
	space := NewSpace()
	a := space.AddBody(NewBody(1, 1))
	b := space.AddBody(NewBody(1, 1))
	a.SetAngle(0.5)
	angle := vAngle("angle", -3, 3)
	b.SetAngle(angle)
	a.SetPosition(uVec("a", 10))
	b.SetPosition(uVec("b", 10))
	p, q, r := uVec("p", 5), uVec("q", 5), uVec("r", 5)
	x, y, z := vFloat("x", 0.25, 8), vFloat("y", 0.25, 8), vFloat("z", 0.25, 8)
	var c *Constraint
	switch vChoose("kind", uJoints+1) {
	case 0:
		c = NewPinJoint(a, b, p, q)
		j := c.Class.(*PinJoint)
		d := uSub(b.LocalToWorld(q), a.LocalToWorld(p))
		vAssert(vAnd(j.AnchorA == p, j.AnchorB == q), "pin anchors")
		vClose(j.Dist*j.Dist, uDot(d, d), 1e-6, "pin distance")
		vAssert(j.Dist >= 0, "pin distance")
	case 1:
		c = NewSlideJoint(a, b, p, q, x, y)
		j := c.Class.(*SlideJoint)
		vAssert(vAnd(j.AnchorA == p, j.AnchorB == q, j.Min == x, j.Max == y), "slide parameters")
	case 2:
		c = NewPivotJoint(a, b, r)
		j := c.Class.(*PivotJoint)
		uClose(a.LocalToWorld(j.AnchorA), r, 1e-6, "pivot anchors")
		uClose(b.LocalToWorld(j.AnchorB), r, 1e-6, "pivot anchors")
	case 3:
		c = NewGrooveJoint(a, b, p, Vector{p.X + 2, p.Y + 1}, r)
		j := c.Class.(*GrooveJoint)
		vAssert(vAnd(j.GrooveA == p, j.GrooveB == Vector{p.X + 2, p.Y + 1}, j.AnchorB == r), "groove anchors")
		vClose(uDot(j.GrooveN, Vector{2, 1}), 0, 1e-6, "groove normal")
	case 4:
		c = NewDampedSpring(a, b, p, q, x, y, z)
		j := c.Class.(*DampedSpring)
		vAssert(vAnd(j.AnchorA == p, j.AnchorB == q, j.RestLength == x, j.Stiffness == y, j.Damping == z), "spring parameters")
	case 5:
		c = NewDampedRotarySpring(a, b, x, y, z)
		j := c.Class.(*DampedRotarySpring)
		vAssert(vAnd(j.RestAngle == x, j.Stiffness == y, j.Damping == z), "rotary spring parameters")
	case 6:
		c = NewRotaryLimitJoint(a, b, x, y)
		j := c.Class.(*RotaryLimitJoint)
		vAssert(vAnd(j.Min == x, j.Max == y), "rotary limit parameters")
	case 7:
		c = NewRatchetJoint(a, b, x, y)
		j := c.Class.(*RatchetJoint)
		vAssert(vAnd(j.Phase == x, j.Ratchet == y), "ratchet parameters")
		vClose(j.Angle, angle-0.5, 1e-9, "ratchet angle")
	case 8:
		c = NewGearJoint(a, b, x, y)
		j := c.Class.(*GearJoint)
		vAssert(vAnd(j.phase == x, j.ratio == y), "gear parameters")
	case 9:
		c = NewSimpleMotor(a, b, x)
		vAssert(c.Class.(*SimpleMotor).Rate == x, "motor rate")
	default:
		c = NewPivotJoint2(a, b, p, q)
		j := c.Class.(*PivotJoint)
		vAssert(vAnd(j.AnchorA == p, j.AnchorB == q), "pivot anchors")
	}
	vAssert(vAnd(c.a == a, c.b == b, c.space == nil), "the bodies of a joint")
	vAssert(vAnd(c.MaxForce() == INFINITY, c.MaxBias() == INFINITY, c.collideBodies), "a joint is unlimited")
	vAssert(vAnd(c.ErrorBias() > 0, c.ErrorBias() < 1), "a joint reduces its error")
	vAssert(c.Class.GetImpulse() == 0, "a new joint has not acted")
	space.AddConstraint(c)
	vAssert(space.ContainsConstraint(c), "a joint in a space")
}
