package cp

type c15Log struct {
	n map[[2]*Shape]int
}

func c15Space() (*Space, *c15Log) {
	space := NewSpace()
	log := &c15Log{map[[2]*Shape]int{}}
	h := space.NewCollisionHandler(0, 0)
	h.PreSolveFunc = func(arb *Arbiter, space *Space, _ interface{}) bool {
		a, b := arb.Shapes()
		log.n[[2]*Shape{a, b}]++
		return false
	}
	return space, log
}

// c15Step steps the space and compares the reported pairs with testing every pair at the new positions.
func c15Step(space *Space, log *c15Log, shapes []*Shape) {
	log.n = map[[2]*Shape]int{}
	space.Step(0.25)
	total := 0
	for i, a := range shapes {
		for _, b := range shapes[:i] {
			got := log.n[[2]*Shape{a, b}] + log.n[[2]*Shape{b, a}]
			total += got
			vAssert(got <= 1, "a pair is reported at most once")
			both := a.body.GetType() == BODY_STATIC && b.body.GetType() == BODY_STATIC
			if both || a.body == b.body || a.Filter.Reject(b.Filter) || QueryRejectConstraints(a.body, b.body) {
				vAssert(got == 0, "a rejected pair is not reported")
				continue
			}
			set := ShapesCollide(a, b)
			deep := 0.0
			for k := 0; k < set.Count; k++ {
				deep = uMin(deep, set.Points[k].Distance)
			}
			if got == 1 {
				vAssert(set.Count > 0, "only touching pairs are reported")
				vCover("pair")
			} else {
				vAssert(vOr(set.Count == 0, deep >= -1e-6), "every touching pair is reported")
			}
		}
	}
	vAssert(total == len(log.n), "only pairs of shapes in the space are reported")
}

const c15Histories = 12

// c15Run moves the shape m to the given places, one step each, with something else going on.
func c15Run(hist int, y float64, xs ...float64) {
	space, log := c15Space()
	add := func(b *Body, p Vector, s *Shape) *Shape {
		b.SetPosition(p)
		if b != space.StaticBody {
			space.AddBody(b)
		}
		return space.AddShape(s)
	}
	b := make([]*Body, 6)
	for i := range b {
		b[i] = NewBody(1, 1)
	}
	b[3] = NewStaticBody()
	b[4] = NewKinematicBody()
	s := []*Shape{
		add(b[0], Vector{-3, 0}, NewCircle(b[0], 1, Vector{})),
		add(b[1], Vector{0, 0.5}, NewBox(b[1], 2, 1, 0.25)),
		add(b[2], Vector{xs[0], y}, NewCircle(b[2], 0.75, Vector{})),
		add(b[3], Vector{2.5, 0}, NewCircle(b[3], 1, Vector{})),
		add(b[4], Vector{5, 0.5}, NewCircle(b[4], 0.5, Vector{})),
	}
	mover := s[2]
	switch hist {
	case 6:
		p := NewPinJoint(b[2], b[3], Vector{}, Vector{})
		p.SetCollideBodies(false)
		p.SetMaxForce(0)
		space.AddConstraint(p)
		s[0].SetFilter(NewShapeFilter(3, ALL_CATEGORIES, ALL_CATEGORIES))
		mover.SetFilter(NewShapeFilter(3, ALL_CATEGORIES, ALL_CATEGORIES))
	case 7:
		// two shapes on one body, one of them a sensor
		s = append(s, add(b[5], Vector{1, -2}, NewCircle(b[5], 1.5, Vector{})), space.AddShape(NewCircle(b[5], 1, Vector{1, 1})))
		s[5].SetSensor(true)
	case 8:
		// three more shapes, then removed again: the tree is rebuilt around the others
		for i := 0; i < 3; i++ {
			s = append(s, space.AddShape(NewCircle(b[5], 0.5, Vector{float64(i) * 2, 1})))
		}
		space.AddBody(b[5])
	}
	for i, x := range xs {
		b[2].SetPosition(Vector{x, y})
		switch hist {
		case 1:
			b[0].SetVelocity(4*float64(i+1), 0)
			b[1].SetVelocity(0, -1)
		case 2:
			b[3].SetPosition(Vector{2.5 - 3*float64(i), 0})
			space.ReindexShape(s[3])
		case 3:
			if i == 1 {
				space.RemoveShape(s[1])
				s[1] = space.AddShape(NewCircle(b[0], 1, Vector{2, 0}))
			}
		case 4:
			if i == 1 {
				b[3].SetType(BODY_DYNAMIC)
				b[3].SetMass(1)
				b[3].SetMoment(1)
				b[0].SetType(BODY_STATIC)
			}
			if i == 2 {
				b[3].SetType(BODY_KINEMATIC)
				b[0].SetType(BODY_DYNAMIC)
				b[0].SetMass(1)
				b[0].SetMoment(1)
			}
		case 5:
			b[4].SetVelocity(-12, 0)
		case 8:
			if i == 1 {
				for _, x := range s[5:] {
					space.RemoveShape(x)
				}
				s = s[:5]
			}
		case 9:
			if i == 1 {
				b[1].SetAngle(0.7)
				b[2].SetPosition(Vector{x, y + 20})
				space.ReindexShape(mover)
				b[2].SetPosition(Vector{x, y})
			}
		case 10:
			// bodies without a velocity are set elsewhere
			b[4].SetPosition(Vector{5 - 4*float64(i), 0.5})
			b[0].SetPosition(Vector{-3 + 2*float64(i), float64(i) / 2})
		case 11:
			// shapes grow and shrink where they are
			if i > 0 {
				s[0].Class.(*Circle).SetRadius([]float64{2.5, 0.25}[i-1])
				s[3].Class.(*Circle).SetRadius([]float64{0.25, 2}[i-1])
				space.ReindexShape(s[3])
				s[4].Class.(*Circle).SetRadius([]float64{2.5, 0.25}[i-1])
				s[1].Class.(*PolyShape).SetRadius([]float64{0.75, 0}[i-1])
			}
		}
		c15Step(space, log, s)
	}
}

// VH_C15_moves: one shape moves anywhere between steps.
//
//verif:bounds 12 histories (moves, velocities, moved statics, removals, type changes, kinematic motion and placement, shapes that grow and shrink, joints, filters, sensors) on 5 to 8 shapes; one circle at a concrete place, then any x in [-8,8], then a concrete place; 2 y (quick: 1 per history)
//verif:time 200
func VH_C15_moves() {
	h := vChoose("history", c15Histories)
	k := h
	if vThorough() {
		k = vChoose("y", 2)
	}
	c15Run(h, []float64{0.25, -0.75}[k%2], []float64{-6, 1}[vChoose("first", 2)], vFloat("x", -8, 8), []float64{-1.5, 4}[vChoose("last", 2)])
}

// VH_C15_two: two moves in a row anywhere.
//
//verif:bounds moved static shape (thorough 3 histories); a circle moves to any x1 and then any x2 in [-8,8]
//verif:time 200
func VH_C15_two() {
	h := 2
	if vThorough() {
		h = []int{0, 2, 5}[vChoose("history", 3)]
	}
	c15Run(h, 0.25, -6, vFloat("x1", -8, 8), vFloat("x2", -8, 8))
}
