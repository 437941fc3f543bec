package cp

type c37Call struct {
	kind          int // 0 circle, 1 segment, 2 fat segment, 3 polygon, 4 dot
	points        []Vector
	angle, size   float64
	outline, fill FColor
}

type c37Drawer struct {
	flags  uint
	calls  []c37Call
	shapes []*Shape
}

func (d *c37Drawer) add(c c37Call, data interface{}) {
	vAssert(data == interface{}(d), "the drawer gets its data")
	d.calls = append(d.calls, c)
}
func (d *c37Drawer) DrawCircle(pos Vector, angle, radius float64, outline, fill FColor, data interface{}) {
	d.add(c37Call{0, []Vector{pos}, angle, radius, outline, fill}, data)
}
func (d *c37Drawer) DrawSegment(a, b Vector, fill FColor, data interface{}) {
	d.add(c37Call{1, []Vector{a, b}, 0, 0, FColor{}, fill}, data)
}
func (d *c37Drawer) DrawFatSegment(a, b Vector, radius float64, outline, fill FColor, data interface{}) {
	d.add(c37Call{2, []Vector{a, b}, 0, radius, outline, fill}, data)
}
func (d *c37Drawer) DrawPolygon(count int, verts []Vector, radius float64, outline, fill FColor, data interface{}) {
	vAssert(count == len(verts), "the number of vertices is that of the vertices")
	d.add(c37Call{3, append([]Vector{}, verts...), 0, radius, outline, fill}, data)
}
func (d *c37Drawer) DrawDot(size float64, pos Vector, fill FColor, data interface{}) {
	vAssert(size > 0, "dots have a size")
	d.add(c37Call{4, []Vector{pos}, 0, 0, FColor{}, fill}, data)
}
func (d *c37Drawer) Flags() uint          { return d.flags }
func (d *c37Drawer) OutlineColor() FColor { return FColor{R: 1} }
func (d *c37Drawer) ShapeColor(shape *Shape, data interface{}) FColor {
	vAssert(data == interface{}(d), "the drawer gets its data")
	for i, s := range d.shapes {
		if s == shape {
			return FColor{G: float32(i + 1)}
		}
	}
	vAssert(false, "only shapes of the space are drawn")
	return FColor{}
}
func (d *c37Drawer) ConstraintColor() FColor     { return FColor{B: 1} }
func (d *c37Drawer) CollisionPointColor() FColor { return FColor{A: 1} }
func (d *c37Drawer) Data() interface{}           { return d }

// c37At is the point p of the body in the world.
func c37At(b *Body, angle float64, p Vector) Vector { return uAdd(b.p, uRot(p, angle)) }

// c37Take finds the calls with the fill color.
func (d *c37Drawer) with(fill FColor) (calls []c37Call) {
	for _, c := range d.calls {
		if c.fill == fill {
			calls = append(calls, c)
		}
	}
	return
}

func c37Same(got, want []Vector, label string) {
	vAssert(len(got) == len(want), label)
	for i := range want {
		uClose(got[i], want[i], 1e-6, label)
	}
}

// VH_C37_shapes: every shape is drawn once, where it is.
//
//verif:bounds a circle, segment and polygon (4 vertices) with offsets and radii on a dynamic, static or sleeping body at any position in [-20,20]^2 with 3 angles; all 8 combinations of flags; 1 step
//verif:time 60
func VH_C37_shapes() {
	space := NewSpace()
	kind := vChoose("body", 4)
	var b *Body
	switch kind {
	case 0, 3:
		b = NewBody(1, 1)
	case 1:
		b = NewStaticBody()
	case 2:
		b = NewKinematicBody()
	}
	angle := []float64{0, 1, -2.5}[vChoose("angle", 3)]
	pos := uVec("p", 20)
	b.SetPosition(pos)
	b.SetAngle(angle)
	space.AddBody(b)
	radius := vFloat("radius", 0, 2)
	verts := []Vector{{-1, -1}, {2, -1}, {1, 1}, {-1, 2}}
	filter := NewShapeFilter(1, ALL_CATEGORIES, ALL_CATEGORIES)
	shapes := []*Shape{
		NewCircle(b, 0.5+radius, Vector{1, 2}),
		NewSegment(b, Vector{-1, 0}, Vector{3, 1}, radius),
		NewPolyShapeRaw(b, 4, verts, radius),
		NewCircle(b, 1, Vector{}),
	}
	for _, s := range shapes {
		s.SetFilter(filter)
		space.AddShape(s)
	}
	space.Step(0.25)
	if kind == 3 {
		space.SleepTimeThreshold = 0.25
		space.Step(0.25)
		space.Step(0.25)
		vAssert(b.IsSleeping(), "idle bodies sleep")
	}
	d := &c37Drawer{flags: uint(vChoose("flags", 8)), shapes: shapes}
	DrawSpace(space, d)
	if d.flags&DRAW_SHAPES == 0 {
		vAssert(len(d.calls) == 0, "shapes are drawn only if the flags say so")
		return
	}
	vAssert(len(d.calls) == len(shapes), "every shape is drawn once")
	for i := range shapes {
		calls := d.with(FColor{G: float32(i + 1)})
		vAssert(len(calls) == 1, "every shape is drawn once, in its color")
		c := calls[0]
		vAssert(c.outline == FColor{R: 1}, "shapes have an outline")
		switch i {
		case 0:
			vAssert(c.kind == 0, "circles are drawn as circles")
			c37Same(c.points, []Vector{c37At(b, angle, Vector{1, 2})}, "circles are drawn where they are")
			vClose(c.size, 0.5+radius, 1e-9, "circles have their radius")
			vClose(c.angle, angle, 1e-9, "circles have the angle of their body")
		case 1:
			vAssert(c.kind == 2, "segments are drawn as segments")
			c37Same(c.points, []Vector{c37At(b, angle, Vector{-1, 0}), c37At(b, angle, Vector{3, 1})}, "segments are drawn where they are")
			vClose(c.size, radius, 1e-9, "segments have their radius")
		case 2:
			vAssert(c.kind == 3, "polygons are drawn as polygons")
			var want []Vector
			for _, v := range verts {
				want = append(want, c37At(b, angle, v))
			}
			vAssert(len(c.points) == len(want), "polygons are drawn where they are")
			c37Same(c.points, want, "polygons are drawn where they are")
			vClose(c.size, radius, 1e-9, "polygons have their radius")
		}
	}
	vCover("drawn")
}

// VH_C37_joints: joints are drawn at their anchors.
//
//verif:bounds each kind of joint; two bodies at any positions in [-5,5] (the spring: 2 of 3 coordinates fixed) with 2 angles each and any anchors in [-2,2]; flags for constraints on or off; bodies awake or asleep
//verif:time 100
func VH_C37_joints() {
	space := NewSpace()
	space.Iterations = 1
	kind := vChoose("joint", uJoints)
	spring := kind == 4
	a, b := NewBody(1, 1), NewBody(2, 2)
	ta, tb := []float64{0, 1}[vChoose("angle a", 2)], []float64{0, -2}[vChoose("angle b", 2)]
	p, q := Vector{1, 2}, Vector{-3, 1}
	pa, pb := uVec("pa", 5), uVec("pb", 5)
	if spring {
		pa, pb = Vector{vFloat("pax", -5, 5), 1}, Vector{2, 3}
	} else {
		p, q = uVec("p", 2), uVec("q", 2)
	}
	a.SetPosition(pa)
	b.SetPosition(pb)
	a.SetAngle(ta)
	b.SetAngle(tb)
	space.AddBody(a)
	space.AddBody(b)
	g := Vector{2, -1}
	var c *Constraint
	switch kind {
	case 0:
		c = NewPinJoint(a, b, p, q)
	case 1:
		c = NewSlideJoint(a, b, p, q, 0, 1)
	case 2:
		c = NewPivotJoint2(a, b, p, q)
	case 3:
		c = NewGrooveJoint(a, b, p, g, q)
	case 4:
		c = NewDampedSpring(a, b, p, q, 1, 0, 0)
	case 5:
		c = NewDampedRotarySpring(a, b, 0, 0, 0)
	case 6:
		c = NewRotaryLimitJoint(a, b, -9, 9)
	case 7:
		c = NewRatchetJoint(a, b, 0, 1)
	case 8:
		c = NewGearJoint(a, b, 0, 1)
	case 9:
		c = NewSimpleMotor(a, b, 0)
	}
	space.AddConstraint(c)
	other := space.AddConstraint(NewPinJoint(space.StaticBody, NewStaticBody(), Vector{9, 9}, Vector{8, 8}))
	if vBool("asleep") {
		// nothing moves
		space.RemoveConstraint(other)
		for _, x := range []*Body{a, b} {
			x.SetVelocityUpdateFunc(func(*Body, Vector, float64, float64) {})
		}
		space.Iterations = 0
		space.SleepTimeThreshold = 0.25
		space.Step(0.25)
		space.Step(0.25)
		vAssert(a.IsSleeping() && b.IsSleeping(), "idle bodies sleep")
		vCover("asleep")
		other = nil
	}
	d := &c37Drawer{flags: []uint{0, DRAW_SHAPES | DRAW_COLLISION_POINTS, DRAW_CONSTRAINTS, 7}[vChoose("flags", 4)]}
	DrawSpace(space, d)
	calls := d.with(FColor{B: 1})
	vAssert(len(calls) == len(d.calls), "constraints have their color")
	if d.flags&DRAW_CONSTRAINTS == 0 {
		vAssert(len(calls) == 0, "constraints are drawn only if the flags say so")
		return
	}
	var dots, lines, more []c37Call
	for _, x := range calls {
		far := x.points[0] == Vector{9, 9} || x.points[0] == Vector{8, 8}
		switch {
		case far:
			more = append(more, x)
		case x.kind == 4:
			dots = append(dots, x)
		case x.kind == 1:
			lines = append(lines, x)
		default:
			vAssert(false, "constraints consist of dots and lines")
		}
	}
	vAssert(other == nil || len(more) == 3, "every constraint is drawn once")
	u, v := uAdd(pa, uRot(p, ta)), uAdd(pb, uRot(q, tb))
	switch {
	case kind < 3 || spring:
		vAssert(len(dots) == 2, "a joint has dots at its anchors")
		c37Same(dots[0].points, []Vector{u}, "a joint has dots at its anchors")
		c37Same(dots[1].points, []Vector{v}, "a joint has dots at its anchors")
	case kind == 3:
		vAssert(len(dots) == 1, "a groove joint has a dot at its anchor")
		c37Same(dots[0].points, []Vector{v}, "a groove joint has a dot at its anchor")
	default:
		vAssert(len(dots) == 0, "joints without anchors are not drawn")
	}
	switch kind {
	case 0, 1:
		vAssert(len(lines) == 1, "a joint is drawn as a line between its anchors")
		c37Same(lines[0].points, []Vector{u, v}, "a joint is drawn as a line between its anchors")
	case 3:
		vAssert(len(lines) == 1, "a groove is drawn as a line")
		c37Same(lines[0].points, []Vector{u, uAdd(pa, uRot(g, ta))}, "a groove is drawn as a line")
	case 4:
		vAssert(len(lines) > 1, "a spring is drawn as lines")
		c37Same(lines[0].points[:1], []Vector{u}, "a spring is drawn between its anchors")
		c37Same(lines[len(lines)-1].points[1:], []Vector{v}, "a spring is drawn between its anchors")
		e := uSub(v, u)
		for i, l := range lines {
			if i > 0 {
				c37Same(l.points[:1], lines[i-1].points[1:], "the lines of a spring are connected")
			}
			x := uSub(l.points[1], u)
			vAssert(vAnd(uDot(x, e) >= -1e-6, uDot(x, e) <= uDot(e, e)+1e-6), "a spring is drawn between its anchors")
			vAssert(uCross(e, x)*uCross(e, x) <= 36*uDot(e, e)+1e-3, "a spring is drawn along its line")
		}
	default:
		vAssert(len(lines) == 0, "joints without anchors are not drawn")
	}
	vCover("drawn")
}

// VH_C37_contacts: every contact is drawn once, where it is.
//
//verif:bounds a circle anywhere along a line over two floors (one tilted) and another circle, a box on a floor; all 8 combinations of flags; 1 step
//verif:time 60
func VH_C37_contacts() {
	space := NewSpace()
	space.Iterations = 1
	space.SetCollisionSlop(100)
	x := vFloat("x", -6, 6)
	b := space.AddBody(NewBody(1, 1))
	b.SetPosition(Vector{x, 0.875})
	o := space.AddBody(NewBody(1, 1))
	o.SetPosition(Vector{5, 1.5})
	box := space.AddBody(NewBody(1, 1))
	box.SetPosition(Vector{-20, 0.9375})
	shapes := []*Shape{
		NewCircle(b, 1, Vector{}), NewCircle(o, 0.5, Vector{}), NewBox(box, 2, 2, 0),
		NewSegment(space.StaticBody, Vector{-9, 0}, Vector{-1, 0}, 0),
		NewSegment(space.StaticBody, Vector{1, 0}, Vector{9, 0.5}, 0.125),
		NewSegment(space.StaticBody, Vector{-30, 0}, Vector{-10, 0}, 0),
	}
	for _, s := range shapes {
		space.AddShape(s)
	}
	h := space.NewCollisionHandler(0, 0)
	type contact struct{ p, q, n Vector }
	var want []contact
	h.PostSolveFunc = func(arb *Arbiter, _ *Space, _ interface{}) {
		set := arb.ContactPointSet()
		for i := 0; i < set.Count; i++ {
			want = append(want, contact{set.Points[i].PointA, set.Points[i].PointB, set.Normal})
		}
	}
	space.Step(0.25)
	d := &c37Drawer{flags: uint(vChoose("flags", 8)), shapes: shapes}
	DrawSpace(space, d)
	calls := d.with(FColor{A: 1})
	n := 0
	if d.flags&DRAW_SHAPES != 0 {
		n = len(shapes)
	}
	vAssert(len(d.calls) == len(calls)+n, "contacts have their color")
	if d.flags&DRAW_COLLISION_POINTS == 0 {
		vAssert(len(calls) == 0, "contacts are drawn only if the flags say so")
		return
	}
	vAssert(len(calls) == len(want), "every contact is drawn once")
	vAssert(len(want) >= 2, "the box touches the floor")
	for i, w := range want {
		c := calls[i]
		vAssert(c.kind == 1, "contacts are drawn as lines")
		for k, p := range []Vector{w.p, w.q} {
			e := uSub(c.points[k], p)
			vClose(uCross(w.n, e), 0, 1e-6, "contacts are drawn along their normal")
		}
		vAssert(vAnd(uDot(uSub(c.points[0], w.p), w.n) <= 0, uDot(uSub(c.points[1], w.q), w.n) >= 0), "contacts are drawn through their points")
		l := uSub(c.points[1], c.points[0])
		vAssert(uDot(l, l) <= 25, "contacts are drawn where they are")
	}
	vCover("drawn")
}
