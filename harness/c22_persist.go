package cp

type c22Acc struct{ jn, jt []float64 }

func c22Read(arb *Arbiter) (r c22Acc) {
	for i := range arb.contacts[:arb.count] {
		r.jn = append(r.jn, arb.contacts[i].jnAcc)
		r.jt = append(r.jt, arb.contacts[i].jtAcc)
	}
	if arb.count == 2 && arb.contacts[0].r1.X > arb.contacts[1].r1.X {
		// from left to right
		r.jn[0], r.jn[1] = r.jn[1], r.jn[0]
		r.jt[0], r.jt[1] = r.jt[1], r.jt[0]
	}
	return
}

func c22Same(a, b c22Acc, label string) {
	vAssert(len(a.jn) == len(b.jn), "the number of contacts stays")
	for i := range a.jn {
		vClose(a.jn[i], b.jn[i], 1e-9, label)
		vClose(a.jt[i], b.jt[i], 1e-9, label)
	}
}

func c22Zero(a c22Acc, label string) {
	for i := range a.jn {
		vAssert(vAnd(a.jn[i] == 0, a.jt[i] == 0), label)
	}
}

// VH_C22_features: a box that lies on a floor, slides and turns over between steps.
//
//verif:bounds box of width 2 on a floor (a segment or a box); in each of 3 steps any of 4 quarter turns (quick: 8 sequences of turns), moved by any x in [-1,1] in the second; box-floor and floor-box creation order; friction, falling and sliding velocity
//verif:time 100
func VH_C22_features() {
	space := NewSpace()
	space.Iterations = 2
	b := space.AddBody(NewBody(1, 1))
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	b.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
	box, floor := NewBox(b, 2, 2, 0), NewSegment(space.StaticBody, Vector{-4, 0}, Vector{4, 0}, 0.25)
	if vChoose("floor", 2) == 1 {
		floor = NewBox2(space.StaticBody, BB{-4, -1, 4, 0}, 0.25)
	}
	box.SetFriction(0.5)
	floor.SetFriction(1)
	if vChoose("order", 2) == 0 {
		space.AddShape(floor)
		space.AddShape(NewCircle(b, 0.1, Vector{0, 30})) // so that the two have ids apart
		space.AddShape(NewCircle(b, 0.1, Vector{0, 30}))
		space.AddShape(box)
	} else {
		space.AddShape(box)
		space.AddShape(NewCircle(b, 0.1, Vector{0, 30}))
		space.AddShape(NewCircle(b, 0.1, Vector{0, 30}))
		space.AddShape(floor)
	}
	h := space.NewCollisionHandler(0, 0)
	var before, after c22Acc
	n := 0
	h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
		before = c22Read(arb)
		n++
		return true
	}
	h.PostSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) {
		after = c22Read(arb)
	}
	turns := [3]int{}
	seq := vChoose("sequence", 8)
	if vThorough() {
		turns = [3]int{vChoose("t0", 4), vChoose("t1", 4), vChoose("t2", 4)}
	} else {
		turns = [][3]int{{0, 0, 0}, {0, 1, 1}, {0, 0, 2}, {0, 3, 0}, {1, 1, 0}, {2, 2, 2}, {3, 1, 2}, {0, 2, 2}}[seq]
	}
	xs := []float64{0, vFloat("x", -1, 1), 0.5}
	var last c22Acc
	for i, t := range turns {
		b.SetAngle([]float64{0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966}[t])
		b.SetPosition(Vector{xs[i], 1.125})
		b.SetVelocity(1, -2)
		b.SetAngularVelocity(0)
		b.v_bias, b.w_bias = Vector{}, 0
		space.Step(0.25)
		vAssert(n == i+1, "the box touches the floor on every step")
		vAssert(len(before.jn) == 2, "the box lies on two contacts")
		switch {
		case i > 0 && t == turns[i-1]:
			c22Same(before, last, "impulses carry over to the same features")
			vCover("kept")
		default:
			c22Zero(before, "new features start from zero")
			vCover("new")
		}
		last = after
		vAssert(after.jn[0]+after.jn[1] > 0, "the floor holds the box")
	}
}

// VH_C22_storage: several pairs that touch on some steps only, with many contacts in between.
//
//verif:bounds 3 boxes on a floor, touching on the steps of 8 patterns (thorough 12) of 4 to 6 steps; falling at any speeds in [0.5,4]; the contact buffer full up to 6 different places before its end, or empty
//verif:time 100
func VH_C22_storage() {
	patterns := [][]int{{7, 7, 7, 7}, {7, 1, 7, 1, 7}, {1, 3, 7, 6, 4}, {7, 0, 7, 7}, {5, 7, 2, 7, 5}, {7, 1, 1, 7, 7}, {7, 1, 1, 1, 7, 7}, {3, 4, 3, 4, 7},
		{7, 0, 0, 0, 7, 7}, {1, 1, 1, 1, 1, 7}, {6, 5, 3, 6, 5, 3}, {7, 6, 6, 6, 6, 7}}
	np := 8
	if vThorough() {
		np = len(patterns)
	}
	pattern := patterns[vChoose("pattern", np)]
	fill := []int{0, 509, 510, 511, 508, 507}[vChoose("fill", 6)]
	space := NewSpace()
	space.Iterations = 1
	floor := space.AddShape(NewSegment(space.StaticBody, Vector{-40, 0}, Vector{40, 0}, 0.25))
	floor.SetFriction(1)
	for i := 0; i < 6; i++ {
		// keeps the feature hashes apart
		space.AddShape(NewCircle(space.StaticBody, 0.1, Vector{0, 99}))
	}
	h := space.NewCollisionHandler(0, 0)
	var b []*Body
	var v []float64
	acc := map[*Body]c22Acc{}
	seen := map[*Body]int{}
	first := false
	step := 0
	dynamic := func(arb *Arbiter) *Body {
		x, y := arb.Bodies()
		if x.GetType() == BODY_DYNAMIC {
			return x
		}
		return y
	}
	h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
		if first {
			first = false
			for i := 0; i < fill; i++ {
				space.PushContacts(2) // other contacts
			}
		}
		body := dynamic(arb)
		now := c22Read(arb)
		vAssert(len(now.jn) == 2, "a box lies on two contacts")
		if seen[body] == step-1 && step > 1 {
			c22Same(now, acc[body], "impulses carry over to the next step")
			vCover("kept")
		} else {
			c22Zero(now, "new contacts start from zero")
			vCover("new")
		}
		seen[body] = step
		return true
	}
	h.PostSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) {
		body := dynamic(arb)
		acc[body] = c22Read(arb)
		j := arb.TotalImpulse()
		x, _ := arb.Bodies()
		sign := 1.0
		if x != body {
			sign = -1
		}
		k := 0
		for i := range b {
			if b[i] == body {
				k = i
			}
		}
		vClose(sign*j.X, body.m*body.v.X, 1e-9, "the total impulse is that applied")
		vClose(sign*j.Y, body.m*(body.v.Y+v[k]), 1e-9, "the total impulse is that applied")
	}
	for i := 0; i < 3; i++ {
		x := space.AddBody(NewBody(float64(i+1), 1))
		space.AddShape(NewBox(x, 2, 2, 0)).SetFriction(0.5)
		x.SetPositionUpdateFunc(func(*Body, float64) {})
		x.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
		b = append(b, x)
		v = append(v, vFloat("v", 0.5, 4))
	}
	for _, mask := range pattern {
		step++
		first = true
		for i := range b {
			y := 1.125
			if mask>>uint(i)&1 == 0 {
				y = 9
			}
			b[i].SetPosition(Vector{float64(i) * 5, y})
			b[i].SetVelocity(0, -v[i])
			b[i].SetAngularVelocity(0)
			b[i].v_bias, b[i].w_bias = Vector{}, 0
		}
		space.Step(0.25)
		for i := range b {
			vAssert((seen[b[i]] == step) == (mask>>uint(i)&1 == 1), "the boxes touch the floor on the steps of the pattern")
		}
		for i, p := range space.arbiters {
			for _, q := range space.arbiters[:i] {
				for k := range p.contacts {
					for l := range q.contacts {
						vAssert(&p.contacts[k] != &q.contacts[l], "different pairs share no contact")
					}
				}
			}
		}
	}
}

// VH_C22_sleep: a pair that falls asleep keeps its contacts until it wakes up.
//
//verif:bounds a box that falls at any speed in [0.5,4] onto a floor (1 or 2 contacts), asleep for 1, 2 or 6 steps with or without another pair of bodies that touches meanwhile; woken by activating it, a velocity, a force, gravity or another body; box-floor and floor-box creation order
//verif:time 100
func VH_C22_sleep() {
	space := NewSpace()
	space.Iterations = 2
	space.SleepTimeThreshold = 0.375
	space.IdleSpeedThreshold = 20
	b := space.AddBody(NewBody(1, 1))
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	b.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
	b.SetPosition(Vector{0, 1.125})
	box, floor := NewBox(b, 2, 2, 0), NewSegment(space.StaticBody, Vector{-4, 0}, Vector{4, 0}, 0.25)
	contacts := 2
	if vChoose("contacts", 2) == 1 {
		box = NewCircle(b, 1, Vector{})
		contacts = 1
	}
	box.SetFriction(0.5)
	floor.SetFriction(1)
	box.SetCollisionType(1)
	first, second := floor, box
	if vChoose("order", 2) == 1 {
		first, second = second, first
	}
	space.AddShape(first)
	space.AddShape(NewCircle(space.StaticBody, 0.1, Vector{0, 30})) // so that the two have ids apart
	space.AddShape(NewCircle(space.StaticBody, 0.1, Vector{0, 30}))
	space.AddShape(second)
	if vBool("others") {
		// two kinematic and two dynamic bodies that stay awake
		for i := 0; i < 2; i++ {
			x := space.AddBody(NewBody(1, 1))
			x.SetPositionUpdateFunc(func(*Body, float64) {})
			x.SetVelocityUpdateFunc(func(x *Body, _ Vector, _, _ float64) { x.SetVelocity(50, 0) })
			x.SetPosition(Vector{20 + float64(i), 20})
			space.AddShape(NewBox(x, 2, 2, 0))
		}
	}
	h := space.NewCollisionHandler(0, 1)
	var before, after c22Acc
	begun, solved := 0, 0
	h.BeginFunc = func(*Arbiter, *Space, interface{}) bool { begun++; return true }
	h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool {
		before = c22Read(arb)
		return true
	}
	h.PostSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) {
		after = c22Read(arb)
		solved++
	}
	b.SetVelocity(1, -vFloat("v", 0.5, 4))
	space.Step(0.25)
	vAssert(solved == 1 && !b.IsSleeping(), "the box lands")
	last := after
	vAssert(len(last.jn) == contacts, "the shapes touch in one or two points")
	space.Step(0.25)
	vAssert(b.IsSleeping() && solved == 1, "the box falls asleep")
	for i := []int{0, 1, 5}[vChoose("asleep", 3)]; i > 0; i-- {
		space.Step(0.25)
	}
	vAssert(b.IsSleeping(), "the box sleeps on")
	contact := 0
	b.EachArbiter(func(arb *Arbiter) {
		contact++
		c22Same(c22Read(arb), last, "contacts are kept while asleep")
	})
	vAssert(contact == 1, "contacts are kept while asleep")
	switch vChoose("wake", 5) {
	case 0:
		b.Activate()
	case 1:
		b.SetVelocity(0.5, -1)
	case 2:
		b.ApplyForceAtLocalPoint(Vector{1, -1}, Vector{})
	case 3:
		space.SetGravity(Vector{0, -1})
		b.Activate()
	case 4:
		x := space.AddBody(NewBody(1, 1))
		x.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
		x.SetPosition(Vector{0, 4})
		x.SetVelocity(0, -21)
		space.AddShape(NewCircle(x, 1.5, Vector{})).SetCollisionType(2)
		space.Step(0.03125)
	}
	vAssert(!b.IsSleeping(), "the box wakes up")
	contact = 0
	b.EachArbiter(func(arb *Arbiter) {
		if x, y := arb.Shapes(); x == floor || y == floor {
			contact++
			if solved == 1 {
				c22Same(c22Read(arb), last, "contacts are kept until awake")
			}
		}
	})
	vAssert(contact == 1, "contacts are kept until awake")
	if solved == 1 {
		before = c22Acc{}
		space.Step(0.25)
		c22Same(before, last, "impulses carry over to the first step after sleeping")
		vCover("woken")
	}
	vAssert(solved == 2 && begun == 1, "a pair that slept goes on touching")
}
