package cp

import "math"

// c05Item mirrors one attached shape: mass, own moment per unit mass, own center.
type c05Item struct {
	s       *Shape
	m, i    float64
	c       Vector
	area    float64
	isRound bool
}

func c05Circle(b *Body, n string) *c05Item {
	r := vFloat(n+"r", 0.1, 5)
	c := uVec(n+"c", 10)
	return &c05Item{s: NewCircle(b, r, c), i: r * r / 2, c: c, area: math.Pi * r * r, isRound: true}
}

func c05Seg(b *Body, n string) *c05Item {
	c := uVec(n+"c", 10)
	k := vFloat(n+"k", 0.02, 1)
	r := vFloat(n+"r", 0, 2)
	l := 5 * k
	h := Vector{1.5 * k, 2 * k}
	return &c05Item{s: NewSegment(b, uSub(c, h), uAdd(c, h), r), i: ((l+2*r)*(l+2*r) + 4*r*r) / 12, c: c, area: 2*r*l + math.Pi*r*r}
}

func c05Box(b *Body, n string) *c05Item {
	c := uVec(n+"c", 10)
	w, h := vFloat(n+"w", 0.1, 5), vFloat(n+"h", 0.1, 5)
	bb := NewBB(c.X-w/2, c.Y-h/2, c.X+w/2, c.Y+h/2)
	return &c05Item{s: NewBox2(b, bb, 0), i: (w*w + h*h) / 12, c: c, area: w * h}
}

func c05Item1(b *Body, kind int, n string) *c05Item {
	switch kind {
	case 0:
		return c05Circle(b, n)
	case 1:
		return c05Seg(b, n)
	}
	return c05Box(b, n)
}

// c05Check compares the body with the aggregate of the items by the definition of mass, center and moment.
func c05Check(b *Body, items []*c05Item) {
	m, first := 0.0, Vector{}
	for _, it := range items {
		m += it.m
		first = uAdd(first, uMul(it.c, it.m))
	}
	if len(items) == 0 || m == 0 {
		return
	}
	cog := Vector{first.X / m, first.Y / m}
	mom := 0.0
	for _, it := range items {
		d := uSub(it.c, cog)
		mom += it.m * (it.i + uDot(d, d))
	}
	vClose(b.Mass(), m, 1e-6, "mass is the sum")
	uClose(b.CenterOfGravity(), cog, 1e-6, "center of gravity is the weighted mean")
	vClose(b.Moment(), mom, 1e-4, "moment is the parallel-axis aggregate")
	vClose(b.m_inv*b.m, 1, 1e-6, "inverse mass is consistent")
	vClose(b.i_inv*b.i, 1, 1e-6, "inverse moment is consistent")
}

// c05Where checks that the body's origin and axes did not move.
func c05Where(b *Body, pos Vector, a float64) {
	uClose(b.Position(), pos, 1e-6, "position is unchanged")
	l := Vector{1, 2}
	uClose(b.LocalToWorld(l), uAdd(pos, uRot(l, a)), 1e-6, "local frame is unchanged")
	// the position the integrator moves is the center of gravity
	uClose(b.p, uAdd(pos, uRot(b.CenterOfGravity(), a)), 1e-6, "center of gravity in world space")
}

// VH_C05_shapes: every shape kind reports its own mass, moment, area, center.
//
//verif:bounds all sizes in [0.1,5], offsets in [-10,10], masses in [0.1,10]
func VH_C05_shapes() {
	b := NewBody(1, 1)
	it := c05Item1(b, vChoose("kind", 3), "s")
	m := vFloat("m", 0.1, 10)
	b.AddShape(it.s)
	vClose(b.Mass(), 1, 0, "massless shapes leave explicit mass alone")
	vClose(b.Moment(), 1, 0, "massless shapes leave explicit moment alone")
	if vBool("density") {
		it.m = m * it.area
		vAssume(it.area >= 1e-3)
		it.s.SetDensity(m)
	} else {
		it.m = m
		it.s.SetMass(m)
	}
	vClose(it.s.Mass(), it.m, 1e-6, "shape mass")
	vClose(it.s.Moment(), it.m*it.i, 1e-4, "shape moment")
	vClose(it.s.Area(), it.area, 1e-6, "shape area")
	vAssume(it.area >= 1e-3)
	vClose(it.s.Density()*it.area, it.m, 1e-6, "shape density")
	uClose(it.s.CenterOfGravity(), it.c, 1e-6, "shape center")
	c05Check(b, []*c05Item{it})
	vCover("end")
}

// VH_C05_history: any history of attaching, detaching and re-massing three shapes.
//
//verif:bounds three shapes (circle, segment, box) with symbolic masses, 4 (quick) or 5 (thorough) operations out of attach, detach, set mass (also to zero); any body placement
//verif:time 200
func VH_C05_history() {
	pos := uVec("p", 100)
	a := vAngle("a", -10, 10)
	b := NewBody(3, 5)
	b.SetPosition(pos)
	b.SetAngle(a)
	steps := 4
	if vThorough() {
		steps = 5
	}
	all := []*c05Item{
		{s: NewCircle(b, 2, Vector{3, -1}), i: 2, c: Vector{3, -1}, area: math.Pi * 4},
		{s: NewSegment(b, Vector{-1, 0}, Vector{2, 4}, 0.5), i: (6.0*6.0 + 1) / 12, c: Vector{0.5, 2}},
		{s: NewBox2(b, NewBB(-7, -2, -3, 1), 0), i: (16.0 + 9.0) / 12, c: Vector{-5, -0.5}},
	}
	var on []*c05Item
	for k := 0; k < steps; k++ {
		i := vChoose("which", 3)
		it := all[i]
		at := -1
		for j, o := range on {
			if o == it {
				at = j
			}
		}
		m := vFloat("m", 0.1, 10)
		switch {
		case at < 0:
			it.m = m
			it.s.massInfo.m = m
			b.AddShape(it.s)
			on = append(on, it)
		case vBool("detach"):
			b.RemoveShape(it.s)
			on = append(append([]*c05Item{}, on[:at]...), on[at+1:]...)
		case len(on) > 1 && vBool("massless"):
			it.m = 0
			it.s.SetMass(0)
		default:
			it.m = m
			it.s.SetMass(m)
		}
	}
	c05Check(b, on)
	c05Where(b, pos, a)
	vCover("end")
}

// VH_C05_offsets: two shapes anywhere on the body.
//
//verif:bounds a circle at the origin and any second shape kind at any offset with any size, all masses; any body placement
func VH_C05_offsets() {
	pos := uVec("p", 100)
	a := vAngle("a", -10, 10)
	b := NewBody(0, 0)
	b.SetPosition(pos)
	b.SetAngle(a)
	r := vFloat("r", 0.1, 5)
	c := &c05Item{s: NewCircle(b, r, Vector{}), i: r * r / 2}
	s := c05Item1(b, vChoose("kind", 3), "s1")
	for _, it := range []*c05Item{c, s} {
		it.m = vFloat("m", 0.1, 10)
		b.AddShape(it.s)
		it.s.SetMass(it.m)
	}
	c05Check(b, []*c05Item{c, s})
	c05Where(b, pos, a)
	vCover("end")
}

// VH_C05_geometry: changing the geometry of a massive shape refreshes the body.
//
//verif:bounds a circle at the origin and a segment (old) with new radius, new end points, all sizes and masses; any body placement
func VH_C05_geometry() {
	pos := uVec("p", 100)
	a := vAngle("a", -10, 10)
	b := NewBody(0, 0)
	b.SetPosition(pos)
	b.SetAngle(a)
	c := &c05Item{s: NewCircle(b, 1, Vector{}), i: 0.5}
	s := &c05Item{s: NewSegment(b, Vector{-1, 0}, Vector{2, 4}, 0.5), i: (6.0*6.0 + 1) / 12, c: Vector{0.5, 2}}
	for _, it := range []*c05Item{c, s} {
		it.m = vFloat("m", 0.1, 10)
		b.AddShape(it.s)
		it.s.SetMass(it.m)
	}
	r := vFloat("nr", 0.1, 5)
	switch vChoose("op", 3) {
	case 0:
		c.s.Class.(*Circle).SetRadius(r)
		c.i = r * r / 2
	case 1:
		n := c05Seg(b, "n")
		g := n.s.Class.(*Segment)
		s.s.Class.(*Segment).SetEndpoints(g.A(), g.B())
		s.s.Class.(*Segment).SetRadius(g.Radius())
		s.i, s.c = n.i, n.c
	case 2:
		s.s.Class.(*Segment).SetRadius(r)
		s.i = ((5+2*r)*(5+2*r) + 4*r*r) / 12
	}
	c05Check(b, []*c05Item{c, s})
	c05Where(b, pos, a)
	vCover("end")
}

// VH_C05_poly: a polygon's vertices change; its body follows.
//
//verif:bounds new triangles with base and height in [0.1,5]; any body placement
func VH_C05_poly() {
	pos := uVec("p", 100)
	a := vAngle("a", -10, 10)
	b := NewBody(0, 0)
	b.SetPosition(pos)
	b.SetAngle(a)
	w, x, h := vFloat("w", 0.1, 5), vFloat("x", 0.1, 5), vFloat("h", 0.1, 5)
	v := []Vector{{-x, 0}, {w, 0}, {0, h}}
	p := &c05Item{s: NewPolyShapeRaw(b, 3, []Vector{{0, 0}, {3, 0}, {0, 2}}, 0)}
	p.m = vFloat("m", 0.1, 10)
	b.AddShape(p.s)
	p.s.SetMass(p.m)
	if vBool("hull") {
		p.s.Class.(*PolyShape).SetVertsUnsafe(3, v, NewTransformIdentity())
	} else {
		p.s.Class.(*PolyShape).SetVertsRaw(3, v)
	}
	p.c = Vector{(w - x) / 3, h / 3}
	p.i = (w*w + w*x + x*x + h*h) / 18
	vClose(p.s.Area(), (w+x)*h/2, 1e-6, "new area")
	uClose(p.s.CenterOfGravity(), p.c, 1e-6, "new centroid")
	c05Check(b, []*c05Item{p})
	c05Where(b, pos, a)
	vCover("end")
}

// VH_C05_explicit: explicitly set values are reported back.
//
//verif:bounds mass and moment in [0.01,1000], center in [-100,100]
func VH_C05_explicit() {
	m, i := vFloat("m", 0.01, 1000), vFloat("i", 0.01, 1000)
	b := NewBody(m, i)
	vClose(b.Mass(), m, 0, "mass from the constructor")
	vClose(b.Moment(), i, 0, "moment from the constructor")
	vClose(b.m_inv*m, 1, 1e-9, "inverse mass from the constructor")
	vClose(b.i_inv*i, 1, 1e-9, "inverse moment from the constructor")
	m2, i2 := vFloat("m2", 0.01, 1000), vFloat("i2", 0.01, 1000)
	b.SetMass(m2)
	b.SetMoment(i2)
	vClose(b.Mass(), m2, 0, "mass set")
	vClose(b.Moment(), i2, 0, "moment set")
	vClose(b.m_inv*m2, 1, 1e-9, "inverse mass set")
	vClose(b.i_inv*i2, 1, 1e-9, "inverse moment set")
	c := b.CenterOfGravity()
	vAssert(vAnd(c.X == 0, c.Y == 0), "center of gravity defaults to the origin")
	vCover("end")
}

// VH_C05_types: switching a body to static or kinematic makes it immovable and back to dynamic restores the aggregate.
//
//verif:bounds one circle and one box with symbolic geometry and mass, a third shape without mass anywhere among them or none
func VH_C05_types() {
	b := NewBody(0, 0)
	its := []*c05Item{c05Circle(b, "s0"), c05Box(b, "s1")}
	massless := vChoose("massless", 4) // place of a shape without mass
	for i, it := range its {
		if massless == i {
			b.AddShape(NewCircle(b, 3, Vector{2, 7}))
		}
		it.m = vFloat("m", 0.1, 10)
		b.AddShape(it.s)
		it.s.SetMass(it.m)
	}
	if massless == 2 {
		b.AddShape(NewCircle(b, 3, Vector{2, 7}))
	}
	t := BODY_STATIC
	if vBool("kinematic") {
		t = BODY_KINEMATIC
	}
	b.SetType(t)
	vAssert(b.GetType() == t, "type is reported back")
	vAssert(vAnd(b.m_inv == 0, b.i_inv == 0), "immovable bodies have no inverse mass")
	its[0].m = vFloat("nm", 0.1, 10)
	its[0].s.SetMass(its[0].m)
	vAssert(vAnd(b.m_inv == 0, b.i_inv == 0), "still immovable after a mass change")
	b.SetType(BODY_DYNAMIC)
	vAssert(b.GetType() == BODY_DYNAMIC, "dynamic again")
	c05Check(b, its)
	vCover("end")
}
