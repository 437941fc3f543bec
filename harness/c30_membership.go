package cp

// c30Joint is a constraint that does nothing but count how often it is solved.
type c30Joint struct {
	*Constraint
	solved int
}

func (j *c30Joint) PreStep(dt float64)                 { j.solved++ }
func (j *c30Joint) ApplyCachedImpulse(dt_coef float64) {}
func (j *c30Joint) ApplyImpulse(dt float64)            {}
func (j *c30Joint) GetImpulse() float64                { return 0 }

// c30World is a space and what should be in it.
type c30World struct {
	space    *Space
	bodies   []*Body
	shapes   []*Shape // shapes[i] is on bodies[i]
	joints   []*c30Joint
	ends     [][2]int // bodies of the joints
	hasBody  []bool
	hasShape []bool
	hasJoint []bool
	kinds    []int
	moved    []int
}

func c30New() *c30World {
	w := &c30World{space: NewSpace(), moved: make([]int, 4)}
	w.space.SleepTimeThreshold = 0.25
	w.space.Iterations = 1
	kinds := []int{BODY_DYNAMIC, BODY_STATIC, BODY_DYNAMIC, BODY_DYNAMIC}
	for i, p := range []Vector{{0, 0}, {0.5, -1.5}, {8, 0}, {-8, 0}} {
		b := NewBody(1, 1)
		b.SetType(kinds[i])
		b.SetPosition(p)
		w.bodies = append(w.bodies, b)
		w.kinds = append(w.kinds, kinds[i])
		n := &w.moved[i]
		b.SetVelocityUpdateFunc(func(x *Body, g Vector, damping, dt float64) {
			*n++
			BodyUpdateVelocity(x, Vector{}, damping, dt)
		})
		s := NewCircle(b, 1, Vector{})
		// the mass comes from another shape that is not in the space
		ballast := NewCircle(b, 1, Vector{})
		ballast.SetMass(1)
		b.AddShape(ballast)
		w.shapes = append(w.shapes, s)
		w.hasBody = append(w.hasBody, true)
		w.hasShape = append(w.hasShape, true)
		w.space.AddBody(b)
		w.space.AddShape(s)
	}
	for _, e := range [][2]int{{0, 1}, {2, 3}} {
		j := &c30Joint{}
		j.Constraint = NewConstraint(j, w.bodies[e[0]], w.bodies[e[1]])
		w.joints = append(w.joints, j)
		w.ends = append(w.ends, e)
		w.hasJoint = append(w.hasJoint, true)
		w.space.AddConstraint(j.Constraint)
	}
	return w
}

func (w *c30World) toggleShape(i int) {
	if w.hasShape[i] {
		w.space.RemoveShape(w.shapes[i])
	} else {
		w.space.AddShape(w.shapes[i])
	}
	w.hasShape[i] = !w.hasShape[i]
}

func (w *c30World) toggleJoint(i int) {
	if w.hasJoint[i] {
		w.space.RemoveConstraint(w.joints[i].Constraint)
	} else {
		w.space.AddConstraint(w.joints[i].Constraint)
	}
	w.hasJoint[i] = !w.hasJoint[i]
}

func (w *c30World) toggleBody(i int) {
	if w.hasBody[i] {
		if w.hasShape[i] {
			w.toggleShape(i)
		}
		for j, e := range w.ends {
			if w.hasJoint[j] && (e[0] == i || e[1] == i) {
				w.toggleJoint(j)
			}
		}
		w.space.RemoveBody(w.bodies[i])
	} else {
		w.space.AddBody(w.bodies[i])
	}
	w.hasBody[i] = !w.hasBody[i]
}

const c30Ops = 11

func (w *c30World) do(op int) {
	switch op {
	case 0, 1:
		if w.hasBody[op] {
			w.toggleShape(op)
		}
	case 2:
		if w.hasBody[0] && w.hasBody[1] {
			w.toggleJoint(0)
		}
	case 3, 4:
		i := op - 3
		w.kinds[i] = (w.kinds[i] + 1) % 3
		w.bodies[i].SetType(w.kinds[i])
	case 5:
		w.toggleBody(0)
	case 6:
		// everything at rest falls asleep
		w.space.Step(0.25)
		w.space.Step(0.25)
	case 7:
		w.bodies[2].ApplyImpulseAtLocalPoint(Vector{}, Vector{})
	case 8:
		w.kinds[0] = (w.kinds[0] + 2) % 3
		w.bodies[0].SetType(w.kinds[0])
	case 9:
		if w.hasBody[2] {
			w.toggleShape(2)
		}
	case 10:
		// the body first, then what is attached to it
		if w.hasBody[3] {
			w.space.RemoveBody(w.bodies[3])
			w.hasBody[3] = false
			vAssert(!w.bodies[3].IsSleeping() && !w.bodies[2].IsSleeping(), "removing a body wakes it and those that depend on it")
			n := 0
			w.space.EachBody(func(b *Body) {
				if b == w.bodies[3] {
					n++
				}
			})
			vAssert(n == 0, "iterating visits only bodies in the space")
			if w.hasShape[3] {
				w.toggleShape(3)
			}
			if w.hasJoint[1] {
				w.toggleJoint(1)
			}
		} else {
			w.toggleBody(3)
		}
	}
}

func c30Count(b bool) int {
	if b {
		return 1
	}
	return 0
}

// check compares every way to look at the space with what should be in it.
func (w *c30World) check() {
	space := w.space
	bodies, shapes, joints := map[*Body]int{}, map[*Shape]int{}, map[*Constraint]int{}
	n := 0
	space.EachBody(func(b *Body) { bodies[b]++; n++ })
	for i, b := range w.bodies {
		vAssert(space.ContainsBody(b) == w.hasBody[i], "a space contains the bodies that were added")
		vAssert(bodies[b] == c30Count(w.hasBody[i]), "iterating visits every body once")
		vAssert(b.GetType() == w.kinds[i], "the body type is the one set")
		n -= bodies[b]
		mine := 0
		b.EachShape(func(s *Shape) {
			if s == w.shapes[i] {
				mine++
			} else {
				vAssert(s == b.shapeList[0], "a body lists its shapes")
			}
		})
		vAssert(mine == c30Count(w.hasShape[i]), "a body lists its shapes")
		mine = 0
		b.EachConstraint(func(c *Constraint) { mine++ })
		want := 0
		for j, e := range w.ends {
			if w.hasJoint[j] && (e[0] == i || e[1] == i) {
				want++
			}
		}
		vAssert(mine == want, "a body lists its constraints")
	}
	vAssert(n == 0, "iterating visits only bodies in the space")
	space.EachShape(func(s *Shape) { shapes[s]++; n++ })
	for i, s := range w.shapes {
		vAssert(space.ContainsShape(s) == w.hasShape[i], "a space contains the shapes that were added")
		vAssert(shapes[s] == c30Count(w.hasShape[i]), "iterating visits every shape once")
		n -= shapes[s]
	}
	vAssert(n == 0, "iterating visits only shapes in the space")
	space.EachConstraint(func(c *Constraint) { joints[c]++; n++ })
	for i, j := range w.joints {
		vAssert(space.ContainsConstraint(j.Constraint) == w.hasJoint[i], "a space contains the constraints that were added")
		vAssert(joints[j.Constraint] == c30Count(w.hasJoint[i]), "iterating visits every constraint once")
		n -= joints[j.Constraint]
	}
	vAssert(n == 0, "iterating visits only constraints in the space")
}

// step steps and checks that everything awake in the space is simulated once.
func (w *c30World) step() {
	for i := range w.moved {
		w.moved[i] = 0
	}
	for _, j := range w.joints {
		j.solved = 0
	}
	asleep := make([]bool, len(w.bodies))
	for i, b := range w.bodies {
		asleep[i] = b.IsSleeping()
		vAssert(vImplies(asleep[i], w.kinds[i] == BODY_DYNAMIC && w.hasBody[i]), "only dynamic bodies in a space sleep")
	}
	w.space.Step(0.25)
	for i, b := range w.bodies {
		if asleep[i] || b.IsSleeping() {
			continue
		}
		want := c30Count(w.hasBody[i] && w.kinds[i] != BODY_STATIC)
		vAssert(w.moved[i] == want, "every body that is awake is simulated once")
	}
	for i, j := range w.joints {
		a, b := w.ends[i][0], w.ends[i][1]
		if w.bodies[a].IsSleeping() || w.bodies[b].IsSleeping() {
			vAssert(j.solved == 0, "constraints of sleeping bodies are not solved")
		} else if !asleep[a] && !asleep[b] {
			vAssert(j.solved == c30Count(w.hasJoint[i]), "every constraint is solved once")
		}
	}
}

// VH_C30_history: after any operations a space contains what was added and not removed.
//
//verif:bounds 4 bodies (static and dynamic, two of them touching), one shape each and 2 constraints; every sequence of 3 (thorough: 4) of 11 operations: removing and adding shapes, bodies (before or after what is attached to them) and constraints, changing types to dynamic, kinematic and static, letting bodies fall asleep and waking them; then a box query anywhere along an axis, a step, waking all, and a step
//verif:time 300
func VH_C30_history() {
	vSteps(3000000)
	w := c30New()
	n := 3
	if vThorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		w.do(vChoose("op", c30Ops))
	}
	w.check()
	// shapes are found iff they are in the space
	x := vFloat("x", -10, 10)
	q := BB{x - 0.25, -4, x + 0.25, 4}
	found := map[*Shape]int{}
	w.space.BBQuery(q, SHAPE_FILTER_ALL, func(s *Shape, _ interface{}) { found[s]++ }, nil)
	for i, s := range w.shapes {
		if w.hasShape[i] {
			vAssert(found[s] <= 1, "queries find a shape once")
			c := w.bodies[i].Position().X
			if found[s] == 1 {
				vAssert(vAnd(x <= c+1.25+1e-6, x >= c-1.25-1e-6), "queries find shapes where they are")
				vCover("found")
			} else {
				vAssert(vOr(x >= c+1.25-1e-6, x <= c-1.25+1e-6), "queries find all shapes in the space")
			}
		} else {
			vAssert(found[s] == 0, "queries only find shapes in the space")
		}
	}
	w.step()
	w.check()
	for _, b := range w.bodies {
		if b.IsSleeping() {
			vCover("asleep")
		}
	}
	w.space.SetGravity(Vector{0, -1})
	for _, b := range w.bodies {
		vAssert(!b.IsSleeping(), "changing gravity wakes all bodies")
	}
	w.check()
	w.step()
}

// VH_C30_each: iterating visits every body once, also when that wakes bodies up.
//
//verif:bounds 3 sleeping components (one of two bodies joined by a constraint), an awake and a static body; waking any one body or all of them during the iteration over bodies, shapes or constraints; any position of one body in a range
//verif:time 120
func VH_C30_each() {
	space := NewSpace()
	space.SleepTimeThreshold = 0.25
	var bodies []*Body
	for i := 0; i < 6; i++ {
		b := NewBody(1, 1)
		if i == 5 {
			b = NewStaticBody()
		}
		x := float64(i * 4)
		if i == 0 {
			x = vFloat("x", -1, 1)
		}
		b.SetPosition(Vector{x, 0})
		space.AddBody(b)
		space.AddShape(NewCircle(b, 1, Vector{}))
		bodies = append(bodies, b)
	}
	j := &c30Joint{}
	j.Constraint = NewConstraint(j, bodies[1], bodies[2])
	space.AddConstraint(j.Constraint)
	k := &c30Joint{}
	k.Constraint = NewConstraint(k, bodies[5], bodies[3])
	space.AddConstraint(k.Constraint)
	space.Step(0.25)
	space.Step(0.25)
	for i := 0; i < 5; i++ {
		vAssert(bodies[i].IsSleeping(), "bodies at rest fall asleep")
	}
	bodies[4].Activate()
	wake := vChoose("wake", 6)
	at := vChoose("at", 6)
	woken := map[*Body]bool{}
	visit := func(b *Body) {
		if wake == 5 {
			b.SetVelocity(1, 0)
			woken[b] = b.GetType() == BODY_DYNAMIC
		} else if b == bodies[at] {
			bodies[wake].Activate()
			woken[bodies[wake]] = true
		}
	}
	n := map[interface{}]int{}
	switch vChoose("what", 3) {
	case 0:
		space.EachBody(func(b *Body) { n[b]++; visit(b) })
		for _, b := range bodies {
			vAssert(n[b] == 1, "iterating visits every body once")
		}
		vAssert(len(n) == 6, "iterating visits only bodies in the space")
	case 1:
		space.EachShape(func(s *Shape) { n[s]++; visit(s.Body()) })
		for _, b := range bodies {
			vAssert(n[b.shapeList[0]] == 1, "iterating visits every shape once")
		}
		vAssert(len(n) == 6, "iterating visits only shapes in the space")
	default:
		space.EachConstraint(func(c *Constraint) { n[c]++; visit(c.a); visit(c.b) })
		vAssert(vAnd(n[j.Constraint] == 1, n[k.Constraint] == 1, len(n) == 2), "iterating visits every constraint once")
	}
	for _, b := range bodies {
		if woken[b] {
			vAssert(!b.IsSleeping(), "waking a body while iterating wakes it")
		}
		vAssert(space.ContainsBody(b), "no body is lost")
	}
	m := 0
	space.EachBody(func(b *Body) { m++ })
	vAssert(m == 6, "no body is lost")
	space.Step(0.25)
}

// VH_C30_attached: a shape attached to a body directly counts once, and needs no space.
//
//verif:bounds a shape of any mass attached to its body before adding it to the space, or not added at all; sleeping and changing the type of the body
//verif:time 60
func VH_C30_attached() {
	space := NewSpace()
	space.SleepTimeThreshold = 0.25
	b := space.AddBody(NewBody(1, 1))
	s := NewCircle(b, 1, Vector{})
	m := vFloat("m", 0.5, 4)
	s.SetMass(m)
	b.AddShape(s)
	added := vBool("added")
	if added {
		space.AddShape(s)
	}
	n := 0
	b.EachShape(func(*Shape) { n++ })
	vAssert(n == 1, "a body lists its shapes once")
	vClose(b.Mass(), m, 1e-9, "the mass of a shape counts once")
	vAssert(space.ContainsShape(s) == added, "a space contains the shapes that were added")
	space.Step(0.25)
	space.Step(0.25)
	vAssert(b.IsSleeping(), "bodies at rest fall asleep")
	switch vChoose("then", 3) {
	case 0:
		b.Activate()
	case 1:
		b.SetType(BODY_STATIC)
	case 2:
		b.SetType(BODY_KINEMATIC)
	}
	vAssert(!b.IsSleeping(), "waking up")
	space.Step(0.25)
	n = 0
	space.EachShape(func(*Shape) { n++ })
	vAssert(n == c30Count(added), "iterating visits every shape once")
	info := space.PointQueryNearest(Vector{0.25, 0}, 0, SHAPE_FILTER_ALL)
	vAssert((info.Shape == s) == added, "queries only find shapes in the space")
}

// VH_C30_static: the designated static body of a space can be replaced while it has no shapes.
//
//verif:bounds any position of the new body; with or without shapes on the old one
//verif:time 60
func VH_C30_static() {
	space := NewSpace()
	old := space.StaticBody
	b := NewStaticBody()
	p := uVec("p", 10)
	b.SetPosition(p)
	if vBool("used") {
		space.AddShape(NewCircle(old, 1, Vector{}))
		vAssert(vPanics(func() { space.SetStaticBody(b) }), "a static body with shapes is not replaced")
		vAssert(vAnd(space.StaticBody == old, space.ContainsBody(old)), "a static body with shapes is not replaced")
		return
	}
	space.SetStaticBody(b)
	vAssert(vAnd(space.StaticBody == b, space.ContainsBody(b), !space.ContainsBody(old)), "the static body is replaced")
	s := space.AddShape(NewCircle(space.StaticBody, 1, Vector{}))
	space.Step(0.25)
	info := space.PointQueryNearest(p, 0, SHAPE_FILTER_ALL)
	vAssert(info.Shape == s, "shapes of the new static body are in the space")
}
