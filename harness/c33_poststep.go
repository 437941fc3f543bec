package cp

// c33Scene: a circle at x that may touch two others, one joint, one sleeping body far away.
type c33Scene struct {
	space   *Space
	bodies  []*Body
	shapes  []*Shape
	joint   *Constraint
	handler *CollisionHandler
	do      func() // called by the hooks, if not nil
	hooked  int
	from    int
}

func c33New(x float64) *c33Scene {
	s := &c33Scene{space: NewSpace()}
	s.space.Iterations = 1
	s.space.SetCollisionSlop(100)
	for i, p := range []Vector{{x, 0}, {-2, 0}, {2, 0}} {
		b := s.space.AddBody(NewBody(1, 1))
		b.SetPosition(p)
		s.bodies = append(s.bodies, b)
		s.shapes = append(s.shapes, s.space.AddShape(NewCircle(b, 1, Vector{})))
		if i == 0 {
			b.SetPositionUpdateFunc(func(*Body, float64) { s.hook(5) })
			b.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) { s.hook(6) })
		}
	}
	s.joint = NewGearJoint(s.bodies[1], s.bodies[2], 0, 1)
	s.joint.SetMaxForce(0)
	s.space.AddConstraint(s.joint)
	s.joint.PreSolve = func(*Constraint, *Space) { s.hook(7) }
	s.joint.PostSolve = func(*Constraint, *Space) { s.hook(8) }
	h := s.space.NewCollisionHandler(0, 0)
	h.BeginFunc = func(*Arbiter, *Space, interface{}) bool { s.hook(0); return true }
	h.PreSolveFunc = func(*Arbiter, *Space, interface{}) bool { s.hook(1); return true }
	h.PostSolveFunc = func(*Arbiter, *Space, interface{}) { s.hook(2) }
	h.SeparateFunc = func(*Arbiter, *Space, interface{}) { s.hook(3) }
	s.handler = h
	return s
}

func (s *c33Scene) hook(kind int) {
	if s.do != nil && s.from == kind {
		s.hooked++
		vAssert(s.space.locked > 0, "the space is locked while it calls back")
		s.do()
	}
}

const c33Hooks = 15

// run makes the space call hooks of the given kind.
func (s *c33Scene) run(kind int, do func()) {
	s.from = kind
	s.do = do
	f := func() { s.hook(kind) }
	switch kind {
	case 3, 4:
		if kind == 3 {
			s.do = nil
			s.space.Step(0.25)
			s.do = do
			s.bodies[0].SetPosition(Vector{0, 9})
			s.space.Step(0.25)
		} else {
			s.do = nil
			s.space.Step(0.25)
			s.do = do
			s.from = 3
			s.space.RemoveShape(s.shapes[0])
			s.do = nil
			s.space.AddShape(s.shapes[0])
		}
	case 9:
		s.space.EachBody(func(*Body) { f() })
	case 10:
		s.space.EachShape(func(*Shape) { f() })
	case 11:
		s.space.EachConstraint(func(*Constraint) { f() })
	case 12:
		s.space.BBQuery(BB{-4, -2, 4, 2}, SHAPE_FILTER_ALL, func(*Shape, interface{}) { f() }, nil)
	case 13:
		s.space.SegmentQuery(Vector{-4, 0.5}, Vector{4, 0.5}, 0, SHAPE_FILTER_ALL, func(*Shape, Vector, Vector, float64, interface{}) { f() }, nil)
	case 14:
		s.space.ShapeQuery(s.shapes[0], func(*Shape, *ContactPointSet) { f() })
	default:
		s.space.Step(0.25)
	}
	s.do = nil
	vAssert(s.space.locked == 0, "the space is unlocked afterwards")
}

// c33Log checks when and what post-step callbacks run.
type c33Log struct {
	s    *c33Scene
	want []int
	got  []int
}

// add registers a callback with the key.
func (l *c33Log) add(key interface{}, expect bool) {
	id := len(l.want)
	ok := l.s.space.AddPostStepCallback(func(space *Space, k, data interface{}) {
		vAssert(space == l.s.space && k == key && data == id, "a post-step callback gets its space, key and data")
		vAssert(space.locked == 0, "a post-step callback runs when the space is unlocked")
		l.got = append(l.got, id)
	}, key, id)
	vAssert(ok == expect, "the second callback with a key is refused and reported")
	if ok {
		l.want = append(l.want, id)
	} else {
		l.want = append(l.want, -1)
	}
}

func (l *c33Log) check() {
	n := 0
	for _, id := range l.want {
		if id >= 0 {
			vAssert(n < len(l.got), "every callback that was registered runs")
			vAssert(l.got[n] == id, "callbacks run in the order in which they were registered")
			n++
		}
	}
	vAssert(n == len(l.got), "callbacks run once")
	l.want, l.got = nil, nil
}

// VH_C33_once: post-step callbacks run once, in order, after the step or query they were registered in.
//
//verif:bounds registration by collision, joint, position and velocity callbacks, by queries and iterators and while a shape is removed; any position of a body that may touch two others; 3 registrations at every call with 7 patterns of no key and 2 keys, or a key for every call; twice
//verif:time 200
func VH_C33_once() {
	x := vFloat("x", -3, 3)
	s := c33New(x)
	for _, y := range []float64{-2, 2} {
		d := x - y
		vAssume(vOr(d*d < 4-1e-6, d*d > 4+1e-6))
	}
	kind := vChoose("from", c33Hooks)
	l := &c33Log{s: s}
	keys := []interface{}{nil, 1, "k"}
	patterns := [][]int{{0, 0, 0}, {1, 1, 1}, {1, 2, 1}, {1, 1, 2}, {1, 0, 1}, {0, 1, 2}, {2, 2, 0}, nil}
	pattern := patterns[vChoose("pattern", 8)]
	single := pattern == nil
	seen := []bool{false, false, false}
	calls := 0
	do := func() {
		vAssert(len(l.got) == 0, "post-step callbacks run after the step or query")
		calls++
		if single {
			l.add(calls, true)
			l.add(calls, false)
			return
		}
		for _, k := range pattern {
			l.add(keys[k], k == 0 || !seen[k])
			seen[k] = true
		}
	}
	s.run(kind, do)
	near := 0
	for _, y := range []float64{-2, 2} {
		if (x-y)*(x-y) < 4 {
			near++
		}
	}
	switch kind {
	case 0, 1, 2, 3, 4, 14:
		vAssert(calls == near, "every contact calls back once")
	case 5, 6, 7, 8, 11:
		vAssert(calls >= 1, "the hooks are called")
	default:
		vAssert(calls == 3, "the hooks are called")
	}
	if len(l.got) > 0 {
		vCover("run")
	}
	l.check()
	// nothing is left over
	seen = []bool{false, false, false}
	s.space.Step(0.25)
	s.space.BBQuery(BB{0, 0, 1, 1}, SHAPE_FILTER_ALL, func(*Shape, interface{}) {}, nil)
	vAssert(len(l.got) == 0, "callbacks run once")
	if kind > 4 {
		calls = 0
		s.run(kind, do)
		vAssert(calls >= 1, "the hooks are called")
		l.check()
	}
}

// VH_C33_nested: callbacks that register callbacks, step the space or query it.
//
//verif:bounds up to 3 callbacks registered in a step or a query; each registers up to 2 others (depth 3) with or without a key, before or after that steps, queries or iterates over the space, or does nothing
//verif:time 200
func VH_C33_nested() {
	s := c33New(0.5)
	l := &c33Log{s: s}
	first := 1 + vChoose("callbacks", 3)
	children := vChoose("children", 3)
	keyed := vBool("keyed")
	depth := 1 + vChoose("depth", 2)
	what := vChoose("what", 5)
	before := vBool("before")
	from := []int{0, 12}[vChoose("from", 2)]
	id := 0
	var order []int
	var add func(level int)
	running := 0
	add = func(level int) {
		me := id
		id++
		var key interface{}
		if keyed {
			key = 100 + me
		}
		ok := s.space.AddPostStepCallback(func(space *Space, k, data interface{}) {
			vAssert(running == 0, "callbacks do not run within each other")
			running++
			order = append(order, me)
			nested := func() {
				switch what {
				case 1:
					space.Step(0.25)
				case 2:
					space.BBQuery(BB{-4, -2, 4, 2}, SHAPE_FILTER_ALL, func(*Shape, interface{}) {}, nil)
				case 3:
					space.EachBody(func(*Body) {})
				case 4:
					space.EachConstraint(func(*Constraint) {})
				}
			}
			if !before {
				nested()
			}
			if level < depth {
				for i := 0; i < children; i++ {
					add(level + 1)
				}
			}
			if before {
				nested()
			}
			running--
		}, key, nil)
		vAssert(ok, "callbacks with new keys are accepted")
	}
	done := false
	s.run(from, func() {
		if !done {
			for i := 0; i < first; i++ {
				add(0)
			}
		}
		done = true
	})
	total, level := first, first
	for i := 0; i < depth; i++ {
		level *= children
		total += level
	}
	vAssert(id == total, "callbacks that callbacks register run")
	vAssert(len(order) == total, "callbacks that callbacks register run")
	for i, me := range order {
		vAssert(i == me, "callbacks run in the order in which they were registered")
	}
	n := len(order)
	s.space.Step(0.25)
	vAssert(len(order) == n, "callbacks run once")
	// all keys are free again
	if keyed {
		for i := 0; i < 2; i++ {
			l.add(100+i, true)
		}
		s.space.Step(0.25)
		l.check()
	}
}

// VH_C33_nil: a missing function does nothing, but takes the key.
//
//verif:bounds registration without a function, with or without a key
//verif:time 10
func VH_C33_nil() {
	s := c33New(0.5)
	l := &c33Log{s: s}
	s.run([]int{0, 12}[vChoose("from", 2)], func() {
		if l.want == nil {
			vAssert(s.space.AddPostStepCallback(nil, 7, 8), "registering no function is accepted")
			vAssert(s.space.AddPostStepCallback(nil, nil, 8), "registering no function is accepted")
			l.add(7, false)
			l.add(8, true)
		}
	})
	l.check()
}

// VH_C33_mutate: post-step callbacks change the space.
//
//verif:bounds one of 8 changes (removing or adding shapes, bodies, joints; changing a type, waking, setting positions) registered in a collision callback, query or iterator; any position of the body that may touch two others; 2 more steps
//verif:time 200
func VH_C33_mutate() {
	x := vFloat("x", -3, 3)
	s := c33New(x)
	space := s.space
	for _, y := range []float64{-2, 2} {
		d := x - y
		vAssume(vOr(d*d < 4-1e-6, d*d > 4+1e-6))
	}
	kind := []int{0, 1, 2, 8, 9, 12}[vChoose("from", 6)]
	what := vChoose("what", 8)
	b := NewBody(1, 1)
	shape := NewCircle(b, 1, Vector{})
	b.SetPosition(Vector{20, 0})
	ran := 0
	separated := 0
	s.handler.SeparateFunc = func(*Arbiter, *Space, interface{}) { separated++ }
	shapes, bodies, joints := 3, 3, 1
	s.run(kind, func() {
		space.AddPostStepCallback(func(space *Space, _, _ interface{}) {
			ran++
			switch what {
			case 0:
				space.RemoveShape(s.shapes[0])
			case 1:
				space.RemoveShape(s.shapes[0])
				space.RemoveBody(s.bodies[0])
			case 2:
				space.RemoveConstraint(s.joint)
			case 3:
				space.AddBody(b)
				space.AddShape(shape)
			case 4:
				space.AddConstraint(NewGearJoint(s.bodies[0], s.bodies[1], 0, 1))
			case 5:
				s.bodies[0].SetType(BODY_STATIC)
			case 6:
				s.bodies[0].SetPosition(Vector{30, 30})
			case 7:
				s.bodies[0].SetType(BODY_KINEMATIC)
			}
		}, "once", nil)
	})
	near := 0
	for _, y := range []float64{-2, 2} {
		if (x-y)*(x-y) < 4 {
			near++
		}
	}
	if kind < 3 && near == 0 {
		vAssert(ran == 0, "callbacks run if they are registered")
		return
	}
	vAssert(ran == 1, "callbacks run once")
	vCover("ran")
	switch what {
	case 0:
		shapes--
	case 1:
		shapes--
		bodies--
	case 2:
		joints--
	case 3:
		shapes++
		bodies++
	case 4:
		joints++
	}
	for step := 0; step < 3; step++ {
		n, m, k := 0, 0, 0
		space.EachBody(func(*Body) { n++ })
		space.EachShape(func(*Shape) { m++ })
		space.EachConstraint(func(*Constraint) { k++ })
		if kind >= 9 && step == 0 {
			near = -1 // no step yet
		}
		vAssert(n == bodies && m == shapes && k == joints, "changes by post-step callbacks take effect")
		vAssert(space.ContainsShape(s.shapes[0]) == (what > 1) && space.ContainsBody(s.bodies[0]) == (what != 1), "changes by post-step callbacks take effect")
		if kind < 9 {
			if what == 0 || what == 1 {
				vAssert(separated == near, "contacts of a removed shape separate")
			}
			if what == 6 && step > 0 {
				vAssert(separated == near, "contacts of a moved shape separate")
			}
		}
		space.Step(0.25)
	}
	if what == 3 {
		vAssert(space.PointQueryNearest(Vector{20, 0}, 0, SHAPE_FILTER_ALL).Shape == shape, "changes by post-step callbacks take effect")
	}
	if what == 6 {
		vAssert(space.PointQueryNearest(Vector{30, 30}, 0, SHAPE_FILTER_ALL).Shape == s.shapes[0], "changes by post-step callbacks take effect")
	}
}

// VH_C33_rouse: bodies woken while the space is locked are awake afterwards, with all they depend on.
//
//verif:bounds a group of 2 sleeping bodies and a single one; up to 2 of them woken by activating, pushing or setting a velocity, in any kind of callback, at its first or at every call; any position of an awake body elsewhere
//verif:time 200
func VH_C33_rouse() {
	s := c33New(vFloat("x", 0.125, 0.75))
	space := s.space
	var bodies []*Body
	moved := make([]int, 3)
	for i, p := range []Vector{{0, 20}, {1.5, 20}, {8, 20}} {
		b := space.AddBody(NewBody(1, 1))
		b.SetPosition(p)
		space.AddShape(NewCircle(b, 1, Vector{})).SetCollisionType(9)
		n := &moved[i]
		b.SetPositionUpdateFunc(func(*Body, float64) { *n++ })
		bodies = append(bodies, b)
	}
	pairs := space.NewCollisionHandler(9, 9)
	begin, solved, end := 0, 0, 0
	pairs.BeginFunc = func(*Arbiter, *Space, interface{}) bool { begin++; return true }
	pairs.PreSolveFunc = func(*Arbiter, *Space, interface{}) bool { solved++; return true }
	pairs.SeparateFunc = func(*Arbiter, *Space, interface{}) { end++ }
	for _, b := range s.bodies {
		// these stay awake
		b.SetVelocity(0, 1)
		if b != s.bodies[0] {
			b.SetPositionUpdateFunc(func(*Body, float64) {})
		}
	}
	space.SleepTimeThreshold = 0.25
	space.Step(0.25)
	space.Step(0.25)
	space.SleepTimeThreshold = 1e6
	for i := range moved {
		moved[i] = 0
	}
	solved = 0
	kind := vChoose("from", c33Hooks)
	pairing := [][]int{{0, 0}, {0, 1}, {1, 2}, {2, 0}, {2, 2}}[vChoose("woken", 5)]
	first, second := pairing[0], pairing[1]
	how := vChoose("how", 3)
	always := vBool("always")
	v := Vector{1, 2}
	wake := func(b *Body) {
		switch how {
		case 0:
			b.Activate()
		case 1:
			b.ApplyForceAtLocalPoint(v, Vector{})
		case 2:
			b.SetVelocityVector(v)
		}
	}
	woken := false
	if kind == 0 || kind == 3 || kind == 4 {
		// the contacts are there already
		s.bodies[0].SetPosition(Vector{0, -9})
		space.Step(0.25)
		s.bodies[0].SetPosition(Vector{0.5, 0})
		for i := range moved {
			moved[i] = 0
		}
	}
	s.run(kind, func() {
		if always || !woken {
			woken = true
			wake(bodies[first])
			wake(bodies[second])
		}
	})
	vAssert(woken, "the hooks are called")
	check := func() {
		n := map[*Body]int{}
		space.EachBody(func(b *Body) { n[b]++ })
		for i, b := range bodies {
			awake := (i < 2) == (first < 2) || (i < 2) == (second < 2)
			vAssert(b.IsSleeping() == !awake, "bodies woken while the space is locked are awake, with all they touch")
			vAssert(n[b] == 1, "bodies are there once")
		}
	}
	check()
	for i := range moved {
		moved[i] = 0
	}
	solved = 0
	s.from = -1
	space.Step(0.25)
	check()
	pair := 0
	for i, b := range bodies {
		want := 0
		if !b.IsSleeping() {
			want = 1
			vCover("awake")
			if i == 0 {
				pair = 1
			}
		}
		vAssert(moved[i] == want, "bodies that were woken move again, once a step")
	}
	vAssert(solved == pair && begin == 1 && end == 0, "the contacts of bodies that were woken go on")
}
