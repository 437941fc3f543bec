package cp

type c19Event struct {
	kind, handler int
	first         *Shape
}

type c19Log struct {
	got  map[c19Event]int
	v0   map[*Body]Vector
	data map[int]*int
}

const c19Specific = 10

// see checks what a callback is told and logs the call.
func (l *c19Log) see(kind, id int, arb *Arbiter, data interface{}) {
	a, b := arb.Shapes()
	ba, bb := arb.Bodies()
	d, ok := data.(*int)
	vAssert(ok && d == l.data[id], "a callback gets the user data of its handler")
	vAssert(ba == a.body && bb == b.body, "bodies are those of the shapes in order")
	l.got[c19Event{kind, id, a}]++
	delta := uSub(bb.p, ba.p)
	if kind < 3 {
		vAssert(arb.Count() > 0, "there are contacts")
		set := arb.ContactPointSet()
		n := arb.Normal()
		vAssert(vAnd(uDot(n, delta) > 0, set.Normal == n), "the normal points from the first shape to the second")
		for i := 0; i < set.Count; i++ {
			p := set.Points[i]
			vClose(p.Distance, uDot(uSub(p.PointB, p.PointA), n), 1e-9, "the depth is measured along the normal")
			da, db := a.PointQuery(p.PointA).Distance, b.PointQuery(p.PointB).Distance
			vAssert(vAnd(da <= 1e-6, da >= -1e-6, db <= 1e-6, db >= -1e-6), "each contact point is on its own shape")
		}
	}
	if kind == 2 {
		j := arb.TotalImpulse()
		dv := uSub(ba.v, l.v0[ba])
		vClose(j.X, ba.m*dv.X, 1e-9, "the total impulse is that on the first body")
		vClose(j.Y, ba.m*dv.Y, 1e-9, "the total impulse is that on the first body")
		vCover("solved")
	}
}

func (l *c19Log) hook(h *CollisionHandler, id int, begin, pre bool) {
	l.data[id] = new(int)
	h.UserData = l.data[id]
	h.BeginFunc = func(arb *Arbiter, space *Space, data interface{}) bool {
		l.see(0, id, arb, data)
		return begin
	}
	h.PreSolveFunc = func(arb *Arbiter, space *Space, data interface{}) bool {
		l.see(1, id, arb, data)
		return pre
	}
	h.PostSolveFunc = func(arb *Arbiter, space *Space, data interface{}) { l.see(2, id, arb, data) }
	h.SeparateFunc = func(arb *Arbiter, space *Space, data interface{}) { l.see(3, id, arb, data) }
}

type c19Setup struct {
	space        *Space
	log          *c19Log
	a, b         *Shape
	specific     int // 0 none, 1 custom functions, 2 default functions, 3 custom functions that call the wildcard helpers
	first        *Shape
	wild         [3]bool
	wBegin, wPre [3]bool
	sBegin, sPre bool
}

// wildcards returns the expected wildcard calls of a kind and whether all agree.
func (s *c19Setup) wildcards(kind int, want map[c19Event]int) bool {
	ok := true
	for _, x := range []*Shape{s.a, s.b} {
		for t := range s.wild {
			if x.collisionType == CollisionType(t) && s.wild[t] {
				want[c19Event{kind, t, x}]++
				ok = ok && (kind != 0 || s.wBegin[t]) && (kind != 1 || s.wPre[t])
			}
		}
	}
	return ok
}

// expect adds the expected calls of one event and returns whether the pair goes on.
func (s *c19Setup) expect(kind int, want map[c19Event]int) bool {
	switch s.specific {
	case 0, 2:
		return s.wildcards(kind, want)
	case 3:
		s.wildcards(kind, want)
	}
	want[c19Event{kind, c19Specific, s.first}]++
	return (kind != 0 || s.sBegin) && (kind != 1 || s.sPre)
}

func (s *c19Setup) step(x float64, touching, was bool, ignored *bool) {
	s.log.got = map[c19Event]int{}
	s.b.body.SetPosition(Vector{x, 0.25})
	s.a.body.SetPosition(Vector{0, 0})
	s.b.body.SetVelocity(-1, 0)
	s.a.body.SetVelocity(0, 0.5)
	for _, b := range []*Body{s.a.body, s.b.body} {
		b.SetAngularVelocity(0)
		b.SetAngle(0)
		s.log.v0[b] = b.v
	}
	s.space.Step(0.25)
	want := map[c19Event]int{}
	if touching {
		if !was {
			*ignored = !s.expect(0, want)
		}
		if !*ignored && s.expect(1, want) {
			s.expect(2, want)
		}
	} else if was {
		s.expect(3, want)
	}
	if s.specific != 0 && s.a.collisionType == s.b.collisionType {
		// either shape may come first
		for k := 0; k < 4; k++ {
			n := s.log.got[c19Event{k, c19Specific, s.a}] + s.log.got[c19Event{k, c19Specific, s.b}]
			vAssert(n == want[c19Event{k, c19Specific, s.first}], "each callback goes to the handler of the types")
			delete(s.log.got, c19Event{k, c19Specific, s.a})
			delete(s.log.got, c19Event{k, c19Specific, s.b})
			delete(want, c19Event{k, c19Specific, s.first})
		}
	}
	for e, n := range s.log.got {
		vAssert(n == want[e], "each callback goes to the handler of the types")
		vCover("called")
	}
	for e, n := range want {
		vAssert(n == s.log.got[e], "each handler of the types is called")
	}
}

// c19Run touches for two steps at x and then separates.
func c19Run(ta, tb CollisionType, specific int, p, q CollisionType, wild int, results int, boxFirst bool, x float64, change int, tc CollisionType) {
	s := &c19Setup{space: NewSpace(), log: &c19Log{v0: map[*Body]Vector{}, data: map[int]*int{}}}
	s.space.Iterations = 1
	b0, b1 := s.space.AddBody(NewBody(1, 1)), s.space.AddBody(NewBody(2, 1))
	b0.SetPositionUpdateFunc(func(*Body, float64) {})
	b1.SetPositionUpdateFunc(func(*Body, float64) {})
	box, circle := NewBox(b0, 2, 2, 0), NewCircle(b1, 0.75, Vector{})
	if boxFirst {
		s.space.AddShape(box)
		s.space.AddShape(circle)
	} else {
		s.space.AddShape(circle)
		s.space.AddShape(box)
	}
	s.a, s.b = box, circle
	box.SetCollisionType(ta)
	circle.SetCollisionType(tb)
	for t := 0; t < 3; t++ {
		s.wBegin[t] = results>>uint(t)&1 == 0
		s.wPre[t] = results>>uint(t+3)&1 == 0
		if wild>>uint(t)&1 == 1 {
			s.wild[t] = true
			s.log.hook(s.space.NewWildcardCollisionHandler(CollisionType(t)), t, s.wBegin[t], s.wPre[t])
		}
	}
	s.sBegin, s.sPre = results&1 == 0, results&2 == 0
	register := func() {
		if specific != 0 {
			h := s.space.NewCollisionHandler(p, q)
			vAssert(h.TypeA == p && h.TypeB == q, "a handler keeps its types")
			vAssert(s.space.NewCollisionHandler(p, q) == h && s.space.NewCollisionHandler(q, p) == h, "there is one handler per pair of types")
			switch specific {
			case 1:
				s.log.hook(h, c19Specific, s.sBegin, s.sPre)
			case 3:
				s.log.hook(h, c19Specific, s.sBegin, s.sPre)
				begin, pre, post, sep := h.BeginFunc, h.PreSolveFunc, h.PostSolveFunc, h.SeparateFunc
				res := func(kind int, arb *Arbiter, a, b bool) {
					x, y := arb.Shapes()
					ok := func(s0 *Shape) bool {
						for t := range s.wild {
							if s0.collisionType == CollisionType(t) {
								return !s.wild[t] || kind == 0 && s.wBegin[t] || kind == 1 && s.wPre[t]
							}
						}
						return false
					}
					vAssert(a == ok(x) && b == ok(y), "the wildcard helpers return the result of the wildcard handlers")
				}
				h.BeginFunc = func(arb *Arbiter, space *Space, data interface{}) bool {
					res(0, arb, arb.CallWildcardBeginA(space), arb.CallWildcardBeginB(space))
					return begin(arb, space, data)
				}
				h.PreSolveFunc = func(arb *Arbiter, space *Space, data interface{}) bool {
					res(1, arb, arb.CallWildcardPreSolveA(space), arb.CallWildcardPreSolveB(space))
					return pre(arb, space, data)
				}
				h.PostSolveFunc = func(arb *Arbiter, space *Space, data interface{}) {
					arb.CallWildcardPostSolveA(space)
					arb.CallWildcardPostSolveB(space)
					post(arb, space, data)
				}
				h.SeparateFunc = func(arb *Arbiter, space *Space, data interface{}) {
					arb.CallWildcardSeparateA(space)
					arb.CallWildcardSeparateB(space)
					sep(arb, space, data)
				}
			}
		}
	}
	find := func(registered bool) {
		s.specific, s.first = specific, s.a
		if !registered || !(s.a.collisionType == p && s.b.collisionType == q || s.a.collisionType == q && s.b.collisionType == p) {
			s.specific = 0
		}
		if s.specific != 0 && s.b.collisionType == p {
			s.first = s.b
		}
	}
	if change != 4 {
		register()
	}
	find(change != 4)
	ignored := false
	s.step(x, true, false, &ignored)
	switch change {
	case 1:
		circle.SetCollisionType(tc)
	case 2:
		box.SetCollisionType(tc)
	case 3:
		for t := range s.wild {
			if tc == CollisionType(t) {
				s.wild[t] = true
				s.log.hook(s.space.NewWildcardCollisionHandler(CollisionType(t)), t, s.wBegin[t], s.wPre[t])
			}
		}
	case 4:
		register()
	}
	find(true)
	s.step(x, true, true, &ignored)
	s.step(9, false, true, &ignored)
	s.step(9, false, false, &ignored)
}

// VH_C19_dispatch: which handlers are called, with what.
//
//verif:bounds a box and a circle with any of 3 collision types each (symbolic), in both orders of addition; handlers for any ordered pair of the types or none, with own or default functions or calling the wildcard helpers; 4 subsets of wildcard handlers (thorough 8), accepting and rejecting; touching at any x in [0.9,1.7] for two steps, then apart
//verif:time 200
func VH_C19_dispatch() {
	ta, tb := vUint("ta", 0, 2), vUint("tb", 0, 2)
	pq := vChoose("pq", 6)
	specific := 0
	wild, results := []int{0, 3, 5, 7}[vChoose("wild", 4)], 0
	if vThorough() {
		wild = vChoose("w", 8)
		specific = vChoose("specific", 4)
		results = []int{0, 1, 2, 8, 16, 27}[vChoose("results", 6)]
	} else {
		specific = (pq + wild/2) % 4
		results = []int{0, 1, 16}[(pq+wild)%3]
	}
	p := []CollisionType{0, 0, 1, 1, 2, 2}[pq]
	q := []CollisionType{0, 1, 0, 1, 1, 0}[pq]
	c19Run(CollisionType(ta), CollisionType(tb), specific, p, q, wild, results, (pq+wild)%2 == 0, vFloat("x", 0.9, 1.7), 0, 0)
}

// VH_C19_change: types change and handlers are added while two shapes touch.
//
//verif:bounds as above with 3 types of the box and 1 of the circle; between the two steps either shape gets any type, or a wildcard handler or the handler of the pair is registered
//verif:time 200
func VH_C19_change() {
	ta, tc := vUint("ta", 0, 2), vUint("tc", 0, 2)
	change := 1 + vChoose("change", 4)
	pq := vChoose("pq", 6)
	k := pq + change
	if vThorough() {
		k = vChoose("k", 12)
	}
	specific, wild, results := k%4, []int{0, 3, 5}[k/2%3], []int{0, 1, 16, 0}[k%4]
	if specific == 3 && change == 3 {
		specific = 1
	}
	p := []CollisionType{0, 0, 1, 1, 2, 2}[pq]
	q := []CollisionType{0, 1, 0, 1, 1, 0}[pq]
	c19Run(CollisionType(ta), 1, specific, p, q, wild, results, k%2 == 0, vFloat("x", 0.9, 1.7), change, CollisionType(tc))
}
