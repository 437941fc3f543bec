package cp

import "math"

// Helpers shared by the harnesses. They are reference definitions and input builders, independent of the package's
// own vector code.

func uVec(n string, r float64) Vector {
	return Vector{vFloat(n+"x", -r, r), vFloat(n+"y", -r, r)}
}

func uClose(a, b Vector, tol float64, label string) {
	vClose(a.X, b.X, tol, label+" (x)")
	vClose(a.Y, b.Y, tol, label+" (y)")
}

func uDot(a, b Vector) float64   { return a.X*b.X + a.Y*b.Y }
func uCross(a, b Vector) float64 { return a.X*b.Y - a.Y*b.X }
func uSub(a, b Vector) Vector    { return Vector{a.X - b.X, a.Y - b.Y} }
func uAdd(a, b Vector) Vector    { return Vector{a.X + b.X, a.Y + b.Y} }
func uMul(a Vector, s float64) Vector {
	return Vector{a.X * s, a.Y * s}
}

// uRot rotates p by the angle a.
func uRot(p Vector, a float64) Vector {
	c, s := math.Cos(a), math.Sin(a)
	return Vector{p.X*c - p.Y*s, p.X*s + p.Y*c}
}
func uMax(a, b float64) float64 { return vIte(a >= b, a, b) }
func uMin(a, b float64) float64 { return vIte(a <= b, a, b) }
func uAbs(a float64) float64    { return vIte(a >= 0, a, -a) }

func uSegNearest(x, y, p Vector) Vector {
	e := uSub(y, x)
	t := uDot(uSub(p, x), e) / uDot(e, e)
	switch {
	case t <= 0:
		return x
	case t >= 1:
		return y
	}
	return uAdd(x, uMul(e, t))
}

func uPolyNearest(w []Vector, p Vector) (Vector, bool) {
	in := true
	n := len(w)
	var best Vector
	bd := 0.0
	for i := range w {
		x, y := w[i], w[(i+1)%n]
		e := uSub(y, x)
		in = vAnd(in, uCross(e, uSub(p, x)) >= 0)
		q := uSegNearest(x, y, p)
		u := uSub(p, q)
		if k := uDot(u, u); i == 0 || k < bd {
			best, bd = q, k
		}
	}
	if in {
		return best, true
	}
	return best, false
}

func uEnds(s *Shape) []Vector {
	switch c := s.Class.(type) {
	case *Circle:
		return []Vector{c.TransformC()}
	case *Segment:
		return []Vector{c.TransformA(), c.TransformB()}
	case *PolyShape:
		v := make([]Vector, c.Count())
		for i := range v {
			v[i] = c.TransformVert(i)
		}
		return v
	}
	return nil
}

func uRad(s *Shape) float64 {
	switch c := s.Class.(type) {
	case *Circle:
		return c.Radius()
	case *Segment:
		return c.Radius()
	case *PolyShape:
		return c.Radius()
	}
	return 0
}

// uOn: p is a point of the core with the given vertices (up to 1e-4).
func uOn(v []Vector, p Vector, label string) {
	switch len(v) {
	case 1:
		uClose(p, v[0], 1e-4, label)
	case 2:
		e, d := uSub(v[1], v[0]), uSub(p, v[0])
		vClose(uCross(e, d), 0, 1e-3, label+" (line)")
		k := uDot(e, d)
		vAssert(vAnd(k >= -1e-3, k <= uDot(e, e)+1e-3), label+" (between the ends)")
	default:
		for i := range v {
			e, d := uSub(v[(i+1)%len(v)], v[i]), uSub(p, v[i])
			vAssert(uCross(e, d) >= -1e-3, label+" (inside)")
		}
	}
}

// uSound checks everything a contact set promises except its existence.
func uSound(a, b *Shape, set ContactPointSet, deep bool) {
	vAssert(vAnd(set.Count >= 0, set.Count <= 2), "at most two contacts")
	if set.Count == 0 {
		return
	}
	n := set.Normal
	va, vb, ra, rb := uEnds(a), uEnds(b), uRad(a), uRad(b)
	vClose(uDot(n, n), 1, 1e-6, "unit normal")
	deepest := 0.0
	for i := 0; i < set.Count; i++ {
		p := set.Points[i]
		vClose(p.Distance, uDot(uSub(p.PointB, p.PointA), n), 1e-6, "depth is measured along the normal")
		vAssert(p.Distance <= 1e-6, "contacts are not apart")
		uOn(va, uSub(p.PointA, uMul(n, ra)), "first point is on the first surface")
		uOn(vb, uAdd(p.PointB, uMul(n, rb)), "second point is on the second surface")
		deepest = uMin(deepest, p.Distance)
	}
	if !deep {
		// covered by uDist
		vCover("contact")
		return
	}
	// moving the second shape by the depth along the normal separates the shapes
	for _, x := range va {
		for _, y := range vb {
			vAssert(uDot(n, uSub(y, x))-deepest >= ra+rb-1e-4, "the deepest contact separates the shapes")
		}
	}
	vCover("contact")
}

// uSwap: the opposite order gives the mirrored contacts.
func uSwap(a, b *Shape, set ContactPointSet, unique bool) {
	o := ShapesCollide(b, a)
	deep := 0.0
	for i := 0; i < set.Count; i++ {
		deep = uMin(deep, set.Points[i].Distance)
	}
	for i := 0; i < o.Count; i++ {
		deep = uMin(deep, o.Points[i].Distance)
	}
	vAssert(vOr(deep >= -1e-4, (o.Count > 0) == (set.Count > 0)), "the order of the shapes does not matter")
	if !unique || set.Count == 0 || o.Count == 0 {
		return
	}
	uClose(o.Normal, uMul(set.Normal, -1), 1e-4, "swapped normal")
	d, e := 0.0, 0.0
	for i := 0; i < set.Count; i++ {
		d = uMin(d, set.Points[i].Distance)
	}
	for i := 0; i < o.Count; i++ {
		e = uMin(e, o.Points[i].Distance)
	}
	vClose(d, e, 1e-4, "swapped depth")
	// at the verge of touching, rounding decides which of several points touch
	if set.Count == 1 && o.Count == 1 && deep < -1e-4 {
		uClose(o.Points[0].PointA, set.Points[0].PointB, 1e-4, "swapped points")
		uClose(o.Points[0].PointB, set.Points[0].PointA, 1e-4, "swapped points")
	}
}

// uDist: cores whose nearest points are p (of a) and q (of b).
func uDist(a, b *Shape, set ContactPointSet, p, q Vector) {
	R := uRad(a) + uRad(b)
	d := uSub(q, p)
	k := uDot(d, d)
	if k >= R*R+1e-3 {
		vAssert(set.Count == 0, "separated shapes have no contact")
		vCover("separated")
		return
	}
	if k <= R*R-1e-3 {
		vAssert(set.Count > 0, "overlapping shapes have a contact")
		if k >= 1e-2 && set.Count > 0 {
			n := set.Normal
			vClose(uCross(n, d), 0, 1e-4, "normal is along the shortest line")
			vAssert(uDot(n, d) >= 0, "normal points from the first to the second shape")
			m := 0.0
			for i := 0; i < set.Count; i++ {
				m = uMin(m, set.Points[i].Distance)
			}
			vClose(m, uDot(n, d)-R, 1e-4, "depth equals the overlap")
		}
	}
}

// uScene is a space with six shapes of all kinds and body types, after one of uHistories histories. With nil index it
// uses the bounding box tree, otherwise index is called after the first half of the shapes is in the space.
const uHistories = 8

func uScene(hist int, index func(*Space)) (*Space, []*Shape) {
	space := NewSpace()
	body := func(kind int, x, y float64) *Body {
		var b *Body
		switch kind {
		case BODY_STATIC:
			b = NewStaticBody()
		case BODY_KINEMATIC:
			b = NewKinematicBody()
		default:
			b = NewBody(1, 1)
		}
		b.SetPosition(Vector{x, y})
		return space.AddBody(b)
	}
	s := []*Shape{
		NewCircle(body(BODY_STATIC, -3, 0), 1, Vector{}),
		NewCircle(body(BODY_DYNAMIC, 1, 1), 0.5, Vector{}),
		NewSegment(space.StaticBody, Vector{-1, -3}, Vector{3, -2}, 0.25),
		NewBox(body(BODY_DYNAMIC, 4, 0.5), 2, 1, 0),
		NewCircle(body(BODY_DYNAMIC, -1, 2), 1, Vector{}),
		NewCircle(body(BODY_KINEMATIC, 2, -1), 0.75, Vector{}),
	}
	s[1].SetFilter(NewShapeFilter(0, 2, ALL_CATEGORIES))
	s[3].body.SetAngle(0.3)
	s[4].SetSensor(true)
	for i, x := range s {
		if i == 3 && index != nil {
			index(space)
		}
		space.AddShape(x)
	}
	switch hist {
	case 1:
		space.RemoveShape(s[1])
		space.RemoveShape(s[3])
		space.AddShape(s[1])
		s = append(s[:3:3], s[4:]...)
	case 2:
		s[0].body.SetPosition(Vector{-4, 3})
		space.ReindexShape(s[0])
	case 3:
		s[1].body.SetVelocity(-3, 4)
		s[5].body.SetVelocity(8, 0)
		space.Step(0.5)
		space.Step(0.25)
	case 4:
		s[1].body.SetType(BODY_STATIC)
		s[0].body.SetType(BODY_DYNAMIC)
		s[0].body.SetPosition(Vector{-2, -1})
		space.ReindexShape(s[0])
	case 5:
		space.SleepTimeThreshold = 0.1
		space.Step(0.25)
		s[1].body.Activate()
	case 6:
		for _, p := range []Vector{{30, 2}, {-20, 5}, {5, 5}, {0.5, -0.5}} {
			s[1].body.SetPosition(p)
			space.ReindexShape(s[1])
		}
		s[4].body.SetPosition(Vector{-2, -2})
		space.ReindexShape(s[4])
	case 7:
		space.RemoveShape(s[0])
		space.RemoveShape(s[2])
		space.RemoveShape(s[5])
		s = []*Shape{s[1], s[3], s[4]}
	}
	return space, s
}

func uFilter(k int) ShapeFilter {
	return []ShapeFilter{SHAPE_FILTER_ALL, NewShapeFilter(0, ALL_CATEGORIES, 1)}[k]
}

// uBBQuery compares a box query with testing every shape.
func uBBQuery(space *Space, shapes []*Shape, bb BB, filter ShapeFilter) {
	got := map[*Shape]int{}
	space.BBQuery(bb, filter, func(s *Shape, _ interface{}) { got[s]++ }, nil)
	total := 0
	var ok []bool
	for _, s := range shapes {
		vAssert(got[s] <= 1, "a box query reports a shape at most once")
		if got[s] == 1 {
			ok = append(ok, vAnd(!s.Filter.Reject(filter), bb.R-s.bb.L >= -1e-9, s.bb.R-bb.L >= -1e-9, bb.T-s.bb.B >= -1e-9, s.bb.T-bb.B >= -1e-9))
		} else if !s.Filter.Reject(filter) {
			ok = append(ok, vOr(bb.R-s.bb.L <= 1e-9, s.bb.R-bb.L <= 1e-9, bb.T-s.bb.B <= 1e-9, s.bb.T-bb.B <= 1e-9))
		}
		total += got[s]
	}
	vAssert(vAnd(ok...), "a box query reports exactly the overlapping boxes")
	vAssert(total == len(got), "a box query reports only shapes in the space")
	vCover("box query")
}

// uPointQuery compares the nearest point query with testing every shape.
func uPointQuery(space *Space, shapes []*Shape, p Vector, max float64, filter ShapeFilter) {
	info := space.PointQueryNearest(p, max, filter)
	found := false
	var ok []bool
	for _, s := range shapes {
		if s.Filter.Reject(filter) || s.Sensor() {
			continue
		}
		d := s.PointQuery(p).Distance
		if info.Shape == nil {
			ok = append(ok, d >= max-1e-6)
		} else {
			ok = append(ok, info.Distance <= d+1e-6)
		}
		if s == info.Shape {
			found = true
			vClose(info.Distance, d, 1e-9, "distance of the nearest shape")
			vAssert(d <= max, "the nearest shape is within the distance")
			vCover("nearest")
		}
	}
	vAssert(vAnd(ok...), "the nearest shape within the distance is found")
	vAssert(found == (info.Shape != nil), "the nearest shape is one that may be found")
}

// uSegmentQuery compares both segment queries with testing every shape.
func uSegmentQuery(space *Space, shapes []*Shape, a, b Vector, r float64, filter ShapeFilter) {
	got := map[*Shape]int{}
	alpha := map[*Shape]float64{}
	space.SegmentQuery(a, b, r, filter, func(s *Shape, point, normal Vector, t float64, _ interface{}) {
		got[s]++
		alpha[s] = t
	}, nil)
	first := space.SegmentQueryFirst(a, b, r, filter)
	total, found := 0, false
	for _, s := range shapes {
		var info SegmentQueryInfo
		hit := !s.Filter.Reject(filter) && s.SegmentQuery(a, b, r, &info)
		vAssert(got[s] <= 1, "a segment query reports a shape at most once")
		total += got[s]
		if got[s] == 1 {
			vAssert(hit, "a segment query reports only shapes that are hit")
			vClose(alpha[s], info.Alpha, 1e-9, "fraction of the hit")
			vCover("segment hit")
		}
		if hit {
			// grazing hits and hits at the very end of the segment depend on rounding
			if got[s] == 0 {
				if info.Alpha == 0 {
					vAssert(s.PointQuery(a).Distance >= r-1e-6, "a segment query reports every shape that is hit")
				} else {
					vAssert(vOr(info.Alpha >= 1-1e-6, uDot(info.Normal, uSub(b, a)) >= -1e-3), "a segment query reports every shape that is hit")
				}
				continue
			}
			if !s.Sensor() {
				vAssert(first.Alpha <= info.Alpha+1e-9, "the first hit is found")
			}
		}
		if s == first.Shape {
			found = true
			vAssert(hit && !s.Sensor(), "the first hit is a hit")
			vClose(first.Alpha, info.Alpha, 1e-9, "fraction of the first hit")
		}
	}
	vAssert(total == len(got), "a segment query reports only shapes in the space")
	vAssert(found == (first.Shape != nil), "the first hit is one that may be found")
}

// uShapeQuery compares a shape query with testing every shape.
func uShapeQuery(space *Space, shapes []*Shape, q *Shape) {
	got := map[*Shape]int{}
	any := space.ShapeQuery(q, func(s *Shape, set *ContactPointSet) {
		got[s]++
		vAssert(set.Count > 0, "a shape query passes the contacts")
	})
	q.CacheBB() // for the comparison: where it is now
	want, total := false, 0
	for _, s := range shapes {
		set := ShapesCollide(q, s)
		hit := !s.Filter.Reject(q.Filter) && set.Count > 0
		deep := false
		for i := 0; hit && i < set.Count; i++ {
			deep = deep || set.Points[i].Distance <= -1e-6
		}
		vAssert(got[s] <= 1, "a shape query reports a shape at most once")
		vAssert(vImplies(got[s] == 1, hit), "a shape query reports only touching shapes")
		vAssert(vImplies(deep, got[s] == 1), "a shape query reports all touching shapes")
		if got[s] == 1 {
			vCover("shape hit")
		}
		if got[s] == 1 && !s.Sensor() && !q.Sensor() {
			want = true
		}
		total += got[s]
	}
	vAssert(total == len(got), "a shape query reports only shapes in the space")
	vAssert(any == want, "a shape query tells whether anything solid is touched")
}

// uNested makes queries within the callbacks of queries and collisions, with one shape moved anywhere before the step.
func uNested(space *Space, shapes []*Shape, x, y float64, kind int) {
	inner := func() {
		uBBQuery(space, shapes, BB{-6, -4, 6, 4}, SHAPE_FILTER_ALL)
		uSegmentQuery(space, shapes, Vector{-6, 2.5}, Vector{6, -2}, 0, SHAPE_FILTER_ALL)
		vCover("nested")
	}
	got, want := map[*Shape]int{}, map[*Shape]int{}
	var m map[*Shape]int
	nest := false
	one := func(s *Shape) {
		m[s]++
		if nest {
			inner()
		}
	}
	query := func() {
		switch kind {
		case 0:
			space.BBQuery(BB{x, y, x + 5, y + 3}, SHAPE_FILTER_ALL, func(s *Shape, _ interface{}) { one(s) }, nil)
		case 1:
			space.SegmentQuery(Vector{x, y}, Vector{x + 6, y - 1}, 0, SHAPE_FILTER_ALL, func(s *Shape, _, _ Vector, _ float64, _ interface{}) { one(s) }, nil)
		case 2:
			b := NewBody(1, 1)
			b.SetPosition(Vector{x, y})
			space.ShapeQuery(NewCircle(b, 3, Vector{}), func(s *Shape, _ *ContactPointSet) { one(s) })
		}
	}
	if kind < 3 {
		m = want
		query()
		m, nest = got, true
		query()
		vAssert(len(got) == len(want), "a query reports the same when its callback makes queries")
		for s, n := range want {
			vAssert(n == 1 && got[s] == 1, "a query reports the same when its callback makes queries")
		}
		return
	}
	pairs := map[[2]*Shape]int{}
	h := space.NewCollisionHandler(0, 0)
	h.PreSolveFunc = func(arb *Arbiter, space *Space, _ interface{}) bool {
		a, b := arb.Shapes()
		for _, s := range shapes {
			if s == b {
				a, b = b, a
			}
			if s == a {
				break
			}
		}
		pairs[[2]*Shape{a, b}]++
		inner()
		return false
	}
	shapes[len(shapes)-1].body.SetPosition(Vector{x, y})
	shapes[len(shapes)-1].body.Activate()
	space.Step(0.01)
	n := 0
	for i, b := range shapes {
		for _, a := range shapes[:i] {
			if a.body == b.body || a.Filter.Reject(b.Filter) || a.body.GetType() == BODY_STATIC && b.body.GetType() == BODY_STATIC || a.body.IsSleeping() || b.body.IsSleeping() {
				n += pairs[[2]*Shape{a, b}]
				continue
			}
			set := ShapesCollide(a, b)
			for k := 0; k < set.Count; k++ {
				vAssume(set.Points[k].Distance < -1e-6)
			}
			if set.Count > 0 {
				n++
				vAssert(pairs[[2]*Shape{a, b}] == 1, "a pair is found once when its callback makes queries")
			}
		}
	}
	total := 0
	for _, k := range pairs {
		total += k
	}
	vAssert(n == total, "only touching pairs are found")
}

const uJoints = 10

// uJoint makes a joint of each kind between two bodies. Pivot and groove anchors coincide at point.
func uJoint(kind int, a, b *Body, point Vector) *Constraint {
	la, lb := a.WorldToLocal(point), b.WorldToLocal(point)
	away := b.WorldToLocal(uAdd(point, Vector{1.5, 2}))
	dist := 2.5
	switch kind {
	case 0:
		return NewPinJoint(a, b, la, away)
	case 1:
		return NewSlideJoint(a, b, la, away, 0.5, dist)
	case 2:
		return NewPivotJoint(a, b, point)
	case 3:
		return NewGrooveJoint(a, b, a.WorldToLocal(uAdd(point, Vector{-2, -1})), a.WorldToLocal(uAdd(point, Vector{2, 1})), lb)
	case 4:
		return NewDampedSpring(a, b, la, away, 1, 4, 2)
	case 5:
		return NewDampedRotarySpring(a, b, 0.5, 4, 2)
	case 6:
		return NewRotaryLimitJoint(a, b, -0.25, 0.25)
	case 7:
		return NewRatchetJoint(a, b, 0, 0.5)
	case 8:
		return NewGearJoint(a, b, 0.5, 2)
	default:
		return NewSimpleMotor(a, b, 1.5)
	}
}

// uBody is a dynamic body of mass m and moment m/2 with an offset center of gravity.
func uBody(space *Space, m float64, cog, p Vector, angle float64) *Body {
	b := NewBody(m, m/2)
	s := NewCircle(b, 1, cog)
	s.SetMass(m)
	b.AddShape(s)
	b.SetAngle(angle)
	b.SetPosition(p)
	space.AddBody(b)
	return b
}

// uJointPair makes two bodies with a joint of a kind at one of 4 placements that stretch or turn it (if strained).
func uJointPair(kind, k int, strained bool, iterations uint) (*Space, *Body, *Body, *Constraint) {
	space := NewSpace()
	space.Iterations = iterations
	a := uBody(space, 2, Vector{0.25, -0.5}, []Vector{{-1, 0.5}, {0, 0}, {3, -2}, {1, 1}}[k], []float64{0.3, 0, -1, 2}[k])
	b := uBody(space, 4, Vector{0, 0.5}, []Vector{{2, -0.5}, {0.5, 3}, {-1, 1}, {1, -2}}[k], []float64{-0.7, 0.125, 0.5, 1}[k])
	j := uJoint(kind, a, b, []Vector{{0.5, 0}, {0, 1}, {1, -1}, {2, 0}}[k])
	space.AddConstraint(j)
	if strained {
		// turn and move away from where the joint was made
		a.SetAngle(a.Angle() + []float64{0.25, -0.5, 0, 0}[k])
		b.SetAngle(b.Angle() - []float64{0.5, -0.5, 0, 2}[k])
		b.SetPosition(uAdd(b.Position(), []Vector{{0.5, 0}, {-0.25, -1}, {0, 0}, {1, -1}}[k]))
	}
	a.SetPositionUpdateFunc(func(*Body, float64) {})
	b.SetPositionUpdateFunc(func(*Body, float64) {})
	return space, a, b, j
}

// uTuned: a joint whose parameters (or bodies) change does what it would have done with them from the start. Two equal
// pairs of bodies take a step in which the joint has nothing to do (what 7: or have no joint in it); one of them gets its
// parameters before the step, the other one after it. Then both are strained and move in the same way.
func uTuned(kind, what int) {
	var pairs [2]*Space
	var as, bs [2]*Body
	var js [2]*Constraint
	change := func(i int) {
		j, b := js[i], bs[i]
		switch what {
		case 0:
			j.SetMaxForce(0.5)
		case 1:
			j.SetErrorBias(0.5)
		case 2:
			j.SetMaxBias(0.25)
		case 3:
			b.SetMass(8)
			b.SetMoment(1)
		case 6:
			pairs[i].Iterations = 1
		case 4:
			switch x := j.Class.(type) {
			case *PinJoint:
				x.Dist += 0.5
				x.AnchorA.X += 0.25
			case *SlideJoint:
				x.Min, x.Max = 1, 2
				x.AnchorB.Y += 0.25
			case *PivotJoint:
				x.AnchorA.X += 0.25
			case *GrooveJoint:
				x.AnchorB.X += 0.25
				x.GrooveA, x.GrooveB = uAdd(x.GrooveA, x.GrooveN), uAdd(x.GrooveB, x.GrooveN)
			case *DampedSpring:
				x.RestLength, x.Stiffness, x.Damping = 3, 2, 4
				x.AnchorA.X += 0.25
			case *DampedRotarySpring:
				x.RestAngle, x.Stiffness, x.Damping = -0.5, 2, 4
			case *RotaryLimitJoint:
				x.Min, x.Max = -0.125, 0.375
			case *SimpleMotor:
				x.Rate = -3
			}
		}
	}
	first := what == 0 && (kind == 2 || kind == 3) // clamping a vector takes a square root
	va, wb := Vector{vFloat("vax", -4, 4), 1}, 0.5
	if !first {
		wb = vFloat("wb", -2, 2)
	}
	for i := range pairs {
		space := NewSpace()
		space.Iterations = 1
		if what == 6 {
			space.Iterations = 3
		}
		a := uBody(space, 2, Vector{0.25, -0.5}, Vector{-1, 0.5}, 0)
		b := uBody(space, 4, Vector{0, 0.5}, Vector{2, -0.5}, 0.25)
		for _, x := range []*Body{a, b} {
			x.SetPositionUpdateFunc(func(*Body, float64) {})
		}
		j := uJoint(kind, a, b, Vector{0.5, 0})
		pairs[i], as[i], bs[i], js[i] = space, a, b, j
		if x, ok := j.Class.(*SimpleMotor); ok {
			x.Rate = 0
		}
		late := what == 7 && i == 1
		if !late {
			space.AddConstraint(j)
		}
		if i == 0 {
			change(i)
		}
		if what == 4 && i == 0 {
			// the joint may be strained by its parameters
			j.SetMaxForce(0)
		}
		dt := 0.25
		if what == 5 && i == 1 {
			dt = 0.5
		}
		space.Step(dt)
		j.SetMaxForce(INFINITY)
		x, motor := j.Class.(*SimpleMotor)
		if motor {
			x.Rate = 1.5
		}
		if i == 1 || what == 0 || motor {
			change(i)
		}
		if late {
			space.AddConstraint(j)
		}
		a.SetAngle(-0.5)
		b.SetAngle(1)
		b.SetPosition(Vector{2.5, -1})
		a.SetVelocityVector(va)
		a.SetAngularVelocity(-0.5)
		b.SetVelocity(-1, 0.5)
		b.SetAngularVelocity(wb)
	}
	steps := 2
	if first {
		steps = 1
	}
	for i := 0; i < steps; i++ {
		for _, space := range pairs {
			space.Step(0.25)
		}
		for _, x := range [][2]*Body{as, bs} {
			uClose(x[0].v, x[1].v, 1e-9, "a joint acts by its present parameters")
			vClose(x[0].w, x[1].w, 1e-9, "a joint acts by its present parameters")
		}
		vClose(js[0].Class.GetImpulse(), js[1].Class.GetImpulse(), 1e-6, "a joint tells the impulse it applied")
	}
	if vOr(as[0].v != va, bs[0].w != wb) {
		vCover("acted")
	}
}
