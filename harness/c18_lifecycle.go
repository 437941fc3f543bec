package cp

type c18Count struct{ begin, pre, post, sep int }

type c18Model struct {
	space   *Space
	shapes  []*Shape
	now     map[[2]*Shape]*c18Count // events since the last check
	touch   map[[2]*Shape]bool
	ignored map[[2]*Shape]bool
	// what the callbacks do
	reject func(p [2]*Shape) bool // begin returns false
	skip   func(p [2]*Shape) bool // presolve returns false
	ignore func(p [2]*Shape) bool // presolve calls Ignore
	onPre  func(arb *Arbiter)
	n      int // steps taken
}

func c18Never(p [2]*Shape) bool { return false }

func (m *c18Model) pair(a, b *Shape) [2]*Shape {
	for _, s := range m.shapes {
		if s == a {
			return [2]*Shape{a, b}
		}
		if s == b {
			return [2]*Shape{b, a}
		}
	}
	return [2]*Shape{a, b}
}

func (m *c18Model) ev(arb *Arbiter) (*c18Count, [2]*Shape) {
	p := m.pair(arb.Shapes())
	if m.now[p] == nil {
		m.now[p] = &c18Count{}
	}
	return m.now[p], p
}

func c18New() *c18Model {
	m := &c18Model{space: NewSpace(), touch: map[[2]*Shape]bool{}, ignored: map[[2]*Shape]bool{}, now: map[[2]*Shape]*c18Count{}, reject: c18Never, skip: c18Never, ignore: c18Never}
	m.space.Iterations = 1
	m.space.SetCollisionSlop(100)
	h := m.space.NewCollisionHandler(0, 0)
	h.BeginFunc = func(arb *Arbiter, space *Space, _ interface{}) bool {
		e, p := m.ev(arb)
		e.begin++
		vAssert(e.pre == 0 && e.post == 0, "begin comes first")
		vAssert(arb.Count() > 0, "there are contacts when a pair begins to touch")
		return !m.reject(p)
	}
	h.PreSolveFunc = func(arb *Arbiter, space *Space, _ interface{}) bool {
		e, p := m.ev(arb)
		e.pre++
		vAssert(e.post == 0, "presolve comes before postsolve")
		vAssert(arb.IsFirstContact() == (e.begin == 1), "first contact is reported exactly on the first touching step")
		vAssert(arb.Count() > 0, "there are contacts while a pair touches")
		if m.onPre != nil {
			m.onPre(arb)
		}
		if m.ignore(p) {
			return arb.Ignore()
		}
		return !m.skip(p)
	}
	h.PostSolveFunc = func(arb *Arbiter, space *Space, _ interface{}) {
		e, _ := m.ev(arb)
		e.post++
		vAssert(arb.Count() > 0, "there are contacts after solving")
	}
	h.SeparateFunc = func(arb *Arbiter, space *Space, _ interface{}) {
		e, _ := m.ev(arb)
		e.sep++
	}
	return m
}

func (m *c18Model) add(b *Body, p Vector, s *Shape) *Shape {
	b.SetPosition(p)
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	if b.space == nil {
		m.space.AddBody(b)
	}
	m.space.AddShape(s)
	m.shapes = append(m.shapes, s)
	return s
}

func c18Still(b *Body) bool { return b.GetType() == BODY_STATIC || b.IsSleeping() }

func c18One(v bool) int {
	if v {
		return 1
	}
	return 0
}

// events checks the counts of one pair and forgets them.
func (m *c18Model) events(p [2]*Shape, begin, pre, sep bool) *c18Count {
	e := m.now[p]
	if e == nil {
		e = &c18Count{}
	}
	vAssert(e.begin == c18One(begin), "begin is called exactly when a pair starts to touch")
	vAssert(e.pre == c18One(pre), "presolve is called exactly on touching steps")
	vAssert(e.sep == c18One(sep), "separate is called exactly when a pair stops touching")
	if e.begin+e.sep > 0 {
		vCover("event")
	}
	delete(m.now, p)
	return e
}

func c18Deep(a, b *Shape) bool {
	set := ShapesCollide(a, b)
	deep := 0.0
	for k := 0; k < set.Count; k++ {
		deep = uMin(deep, set.Points[k].Distance)
	}
	if set.Count > 0 {
		vAssume(deep < -1e-6) // exact touching depends on rounding
	}
	return set.Count > 0
}

func (m *c18Model) step() {
	for _, s := range m.shapes {
		if s.body.GetType() == BODY_DYNAMIC && !s.body.IsSleeping() {
			s.body.v, s.body.w = Vector{}, 0
		}
	}
	asleep := map[*Shape]bool{}
	for _, s := range m.shapes {
		asleep[s] = c18Still(s.body)
	}
	shapes := append([]*Shape{}, m.shapes...)
	m.space.Step(0.25)
	for i, b := range shapes {
		for _, a := range shapes[:i] {
			p := m.pair(a, b)
			was := m.touch[p]
			gone := a.space == nil || b.space == nil
			if asleep[a] && asleep[b] {
				// a pair that wakes up in the step is solved again without a callback before
				e := m.events(p, false, false, was && gone)
				vAssert(e.post == 0 || was && !c18Still(a.body) || was && !c18Still(b.body), "sleeping pairs are not solved")
				continue
			}
			now := a.body != b.body && !a.Filter.Reject(b.Filter) && c18Deep(a, b)
			if now && !was {
				m.ignored[p] = m.reject(p)
			}
			pre := now && !m.ignored[p]
			if pre && m.ignore(p) {
				m.ignored[p] = true
			}
			post := pre && !m.ignored[p] && !m.skip(p) && !a.sensor && !b.sensor && (a.body.GetType() == BODY_DYNAMIC || b.body.GetType() == BODY_DYNAMIC)
			e := m.events(p, now && !was, pre, was && !now || now && gone)
			if post && c18Still(a.body) && c18Still(b.body) {
				post = e.post == 1 // fell asleep before the solver
			}
			vAssert(e.post == c18One(post), "postsolve is called exactly on solved steps")
			m.touch[p] = now && !gone
		}
	}
	m.shapes = nil
	for _, s := range shapes {
		if s.space != nil {
			m.shapes = append(m.shapes, s)
		}
	}
	m.n++
	m.rest()
}

// removed checks that removing a shape separated it from what it touched.
func (m *c18Model) removed(s *Shape) {
	i := 0
	for k, x := range m.shapes {
		if x == s {
			i = k
		} else {
			p := m.pair(x, s)
			vAssert(m.events(p, false, false, m.touch[p]).post == 0, "nothing is solved by a removal")
			m.touch[p] = false
		}
	}
	m.shapes = append(m.shapes[:i:i], m.shapes[i+1:]...)
	m.rest()
}

func (m *c18Model) rest() {
	vAssert(len(m.now) == 0, "only pairs of the space have events, and only during steps and removals")
}

const c18Histories = 15

func c18Run(hist int, y float64, xs []float64) {
	m := c18New()
	b := make([]*Body, 6)
	for i := range b {
		b[i] = NewBody(1, 1)
	}
	b[0] = NewStaticBody()
	b[4] = NewKinematicBody()
	m.add(b[0], Vector{-3, 0}, NewCircle(b[0], 1, Vector{}))
	box := m.add(b[1], Vector{0, 0.5}, NewBox(b[1], 2, 1, 0.25))
	mover := m.add(b[2], Vector{xs[0], y}, NewCircle(b[2], 0.75, Vector{}))
	sensor := m.add(b[3], Vector{2.5, 0}, NewCircle(b[3], 1, Vector{}))
	sensor.SetSensor(true)
	kin := Vector{-1.5, 1}
	if hist >= 5 && hist <= 7 || hist == 14 {
		kin = Vector{-5, 2} // keeps the box awake otherwise
	}
	m.add(b[4], kin, NewCircle(b[4], 0.6, Vector{}))
	mb := func(p [2]*Shape) bool { return p[0] == box && p[1] == mover }
	switch hist {
	case 1:
		m.reject = mb
	case 2:
		m.skip = func(p [2]*Shape) bool { return mb(p) && m.n%2 == 0 }
	case 3:
		m.ignore = mb
	case 5, 6, 7, 14:
		m.space.SleepTimeThreshold = 0.1
		if hist == 7 || hist == 14 {
			// the box sleeps on something that is a sensor in history 7
			sensor.SetSensor(false)
			x := m.add(m.space.StaticBody, Vector{}, NewCircle(m.space.StaticBody, 0.5, Vector{0, -0.1}))
			x.SetSensor(hist == 7)
		}
		if hist == 14 {
			vSteps(3000000)
			m.onPre = func(arb *Arbiter) {
				if arb.a == mover || arb.b == mover {
					vCover("woken by a callback")
					box.body.ApplyImpulseAtWorldPoint(Vector{0, 1}, Vector{0, 0.5})
				}
			}
		}
	case 8:
		m.onPre = func(arb *Arbiter) {
			// removed after the step
			m.space.AddPostStepCallback(func(space *Space, key, data interface{}) {
				if box.space != nil {
					space.RemoveShape(box)
				}
			}, box, nil)
		}
	}
	for i, x := range xs {
		b[2].SetPosition(Vector{x, y})
		switch hist {
		case 4:
			if i == 1 {
				m.space.RemoveShape(box)
				m.removed(box)
			}
			if i == 2 {
				m.space.AddShape(box)
				m.shapes = append(m.shapes, box)
			}
		case 9:
			if i == 1 {
				m.space.RemoveShape(mover)
				m.removed(mover)
				m.space.RemoveBody(b[2])
			}
		case 10:
			if i == 1 {
				mover.SetSensor(true)
			}
		case 11:
			if i == 1 {
				mover.SetFilter(NewShapeFilter(0, 2, ALL_CATEGORIES))
				box.SetFilter(NewShapeFilter(0, 1, 1))
			}
		case 12:
			if i == 1 {
				b[1].SetType(BODY_KINEMATIC)
			}
		case 13:
			b[2].SetVelocity(8, 0)
			if i == 1 {
				b[1].SetPosition(Vector{x, y + 0.5})
			}
		}
		m.step()
		if hist == 6 {
			m.step()
			m.step()
		}
	}
}

// VH_C18_pairs: begin, presolve, postsolve and separate of every pair as one shape moves.
//
//verif:bounds 15 histories (begin or presolve rejecting, ignoring, shapes removed before a step and by a post-step callback, sleeping and waking, sensors and filters changed, type changes, velocities) on 5 or 6 shapes; one circle at a concrete place, then any x in [-6,6], then a concrete place; 2 y (quick: 1 per history)
//verif:time 200
func VH_C18_pairs() {
	h := vChoose("history", c18Histories)
	k := h
	if vThorough() {
		k = vChoose("y", 2)
	}
	c18Run(h, []float64{0.25, -0.75}[k%2], []float64{[]float64{-6, 1}[vChoose("first", 2)], vFloat("x", -6, 6), []float64{-1.5, 4}[vChoose("last", 2)]})
}

// VH_C18_gap: a pair that separates for some steps and touches again, within and beyond the persistence of contacts.
//
//verif:bounds persistence 1 and 3 (thorough: 0 to 4), 1 to 5 steps apart; the circle at any x1 in [-2,2] before and any x2 in [-2,2] after
//verif:time 100
func VH_C18_gap() {
	m := c18New()
	pers := []uint{1, 3}[vChoose("persistence", 2)]
	if vThorough() {
		pers = uint(vChoose("p", 5))
	}
	m.space.collisionPersistence = pers
	b := []*Body{NewStaticBody(), NewBody(1, 1)}
	m.add(b[0], Vector{0, 0}, NewBox(b[0], 2, 1, 0.25))
	m.add(b[1], Vector{vFloat("x1", -2, 2), 1}, NewCircle(b[1], 0.75, Vector{}))
	m.step()
	m.step()
	gap := vChoose("gap", 5) + 1
	for i := 0; i < gap; i++ {
		b[1].SetPosition(Vector{9, 9})
		m.step()
	}
	b[1].SetPosition(Vector{vFloat("x2", -2, 2), 1})
	m.step()
	m.step()
	m.space.RemoveShape(m.shapes[1])
	m.removed(m.shapes[1])
}

// VH_C18_remove: removing a shape separates it from all it touches, whether or not there is an impulse between them.
//
//verif:bounds a circle at any x in [-3,3] beside or on a box (on a static, kinematic or dynamic body), one of them a sensor, or begin or presolve returning false, or ignored, or solved; either one removed after 1 or 2 steps, put back and touched again
//verif:time 100
func VH_C18_remove() {
	m := c18New()
	b := []*Body{NewBody(1, 1), NewBody(1, 1)}
	switch vChoose("type", 3) {
	case 1:
		b[0] = NewStaticBody()
	case 2:
		b[0] = NewKinematicBody()
	}
	shapes := []*Shape{
		m.add(b[0], Vector{0, 0}, NewBox(b[0], 2, 1, 0.25)),
		m.add(b[1], Vector{vFloat("x", -3, 3), 1}, NewCircle(b[1], 0.75, Vector{})),
	}
	always := func([2]*Shape) bool { return true }
	switch vChoose("solved", 6) {
	case 1:
		shapes[0].SetSensor(true)
	case 2:
		shapes[1].SetSensor(true)
	case 3:
		m.reject = always
	case 4:
		m.skip = always
	case 5:
		m.ignore = always
	}
	for i := vChoose("steps", 2); i >= 0; i-- {
		m.step()
	}
	gone := shapes[vChoose("removed", 2)]
	m.space.RemoveShape(gone)
	m.removed(gone)
	m.step()
	m.space.AddShape(gone)
	m.shapes = append(m.shapes, gone)
	m.step()
}

// VH_C18_userdata: what a user keeps with an arbiter stays while its pair touches, and is not seen by a pair that touches again long after, or by another pair.
//
//verif:bounds persistence 1 and 3, 1 to 5 steps apart; no handler, a handler for one type, for both types, or of its own; the circle at any x1 in [-2,2] before (quick: at 0.5) and any x2 in [-2,2] after, and another circle at a concrete place
//verif:time 100
func VH_C18_userdata() {
	space := NewSpace()
	space.Iterations = 1
	space.SetCollisionSlop(100)
	pers := []uint{1, 3}[vChoose("persistence", 2)]
	space.collisionPersistence = pers
	switch vChoose("handler", 4) {
	case 1:
		space.NewWildcardCollisionHandler(1)
	case 2:
		space.NewWildcardCollisionHandler(1)
		space.NewWildcardCollisionHandler(2)
	case 3:
		space.NewCollisionHandler(2, 1)
	}
	b := []*Body{NewStaticBody(), NewBody(1, 1), NewBody(1, 1)}
	var shapes []*Shape
	for i, x := range b {
		x.SetPositionUpdateFunc(func(*Body, float64) {})
		space.AddBody(x)
		s := NewBox(x, 2, 1, 0.25)
		if i > 0 {
			s = NewCircle(x, 0.75, Vector{})
		}
		s.SetCollisionType(CollisionType(1 + (i+1)/2))
		shapes = append(shapes, s)
		space.AddShape(s)
	}
	var step = func() {
		b[1].SetVelocity(0, 0)
		b[1].SetAngularVelocity(0)
		b[2].SetVelocity(0, 0)
		b[2].SetAngularVelocity(0)
		space.Step(0.25)
	}
	find := func() *Arbiter {
		var found *Arbiter
		b[1].EachArbiter(func(arb *Arbiter) {
			vAssert(found == nil, "there is one arbiter for a pair")
			found = arb
			s1, s2 := arb.Shapes()
			vAssert(s1 == shapes[1] && s2 == shapes[0], "the arbiter is that of the pair")
		})
		return found
	}
	away := Vector{9, 9}
	b[2].SetPosition(away)
	x1 := 0.5
	if vThorough() {
		x1 = vFloat("x1", -2, 2)
	}
	b[1].SetPosition(Vector{x1, 1})
	step()
	vAssume(c18Deep(shapes[0], shapes[1]))
	arb := find()
	vAssert(arb != nil && arb.UserData == nil, "a new arbiter has no user data")
	arb.UserData = "mine"
	step()
	vAssert(find() == arb && arb.UserData == "mine", "user data stays while the pair touches")
	b[1].SetPosition(Vector{-9, 9})
	gap := vChoose("gap", 5) + 1
	for i := 0; i < gap; i++ {
		step()
		vAssert(find() == nil, "there are no arbiters while nothing touches")
	}
	// another pair takes up what was free
	b[2].SetPosition(Vector{0, -1})
	step()
	n := 0
	b[2].EachArbiter(func(arb *Arbiter) {
		n++
		vAssert(arb.UserData == nil, "the arbiter of another pair has no user data")
	})
	vAssert(n == 1, "there is one arbiter for a pair")
	gap++
	b[1].SetPosition(Vector{vFloat("x2", -2, 2), 1})
	step()
	vAssume(c18Deep(shapes[0], shapes[1]))
	arb = find()
	vAssert(arb != nil, "there is an arbiter while the pair touches")
	if gap >= int(pers) {
		vAssert(arb.UserData == nil, "user data is forgotten with the contacts")
		vCover("forgotten")
	} else {
		vAssert(arb.UserData == "mine", "user data is kept with the contacts")
		vCover("kept")
	}
}

// VH_C18_ignore: a pair that is ignored, whenever that is said, is ignored until it separates.
//
//verif:bounds a circle over a box and another circle that touches the box throughout; ignored in begin, presolve, postsolve or between steps (from either body), in step 1 or 2 of 5; at any x in [-4,4] in step 3, so that it touches or not
//verif:time 60
func VH_C18_ignore() {
	space := NewSpace()
	space.Iterations = 1
	space.SetCollisionSlop(100)
	b := []*Body{NewBody(2, 3), NewBody(1, 1), NewBody(1, 1)}
	for _, x := range b {
		space.AddBody(x)
		x.SetPositionUpdateFunc(func(*Body, float64) {})
	}
	shapes := []*Shape{NewBox(b[0], 4, 1, 0), NewCircle(b[1], 1, Vector{}), NewCircle(b[2], 1, Vector{})}
	for _, s := range shapes {
		space.AddShape(s)
	}
	b[2].SetPosition(Vector{-1, -1})
	where, when := vChoose("where", 5), vChoose("when", 2)
	step := 0
	var calls [4]int
	mine := func(arb *Arbiter) bool {
		s, t := arb.Shapes()
		return s == shapes[1] || t == shapes[1]
	}
	said := false
	call := func(kind int, arb *Arbiter) bool {
		if !mine(arb) {
			return true
		}
		calls[kind]++
		if kind == where && (step == when || kind == 0) && !said {
			said = true
			arb.Ignore()
		}
		return true
	}
	h := space.NewCollisionHandler(0, 0)
	h.BeginFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool { return call(0, arb) }
	h.PreSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) bool { return call(1, arb) }
	h.PostSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) { call(2, arb) }
	h.SeparateFunc = func(arb *Arbiter, _ *Space, _ interface{}) { call(3, arb) }
	ignored, was := false, false
	x := vFloat("x", -4, 4)
	for step = 0; step < 5; step++ {
		b[1].SetPosition(Vector{[]float64{0.5, -0.5, x, 0, 0.5}[step], 1})
		for i := range b {
			b[i].SetVelocity(0, []float64{0, -1, 1}[i])
			b[i].SetAngularVelocity(0)
		}
		calls = [4]int{}
		space.Step(0.25)
		near := c18Deep(shapes[0], shapes[1])
		var want [4]int
		if near {
			if !was {
				want[0]++
				ignored = ignored || where == 0 && step == 0
			}
			if !ignored {
				want[1]++
				ignored = where == 1 && step == when
			}
			if !ignored {
				want[2]++
				vAssert(b[1].v.Y > -1, "a pair that is not ignored collides")
			} else {
				vAssert(b[1].v.Y == -1, "an ignored pair does not collide")
				vCover("ignored")
			}
			ignored = ignored || where == 2 && step == when
		} else {
			vAssume(ShapesCollide(shapes[0], shapes[1]).Count == 0)
			if was {
				want[3]++
			}
			ignored = false
		}
		was = near
		vAssert(calls == want, "an ignored pair gets no presolve and postsolve until it separates")
		if where > 2 && step == when {
			b[where-3].EachArbiter(func(arb *Arbiter) {
				if mine(arb) {
					arb.Ignore()
					ignored = true
				}
			})
		}
	}
	vAssert(was, "touches in the end")
}
