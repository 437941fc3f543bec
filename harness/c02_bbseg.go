package cp

// VH_C02_general: arbitrary box and arbitrary segment, both symbolic.
//
//verif:bounds coordinates in [-100,100], tolerance 1e-6
func VH_C02_general() {
	bb := NewBB(vFloat("l", -100, 100), vFloat("b", -100, 100), vFloat("r", -100, 100), vFloat("t", -100, 100))
	vAssume(bb.L <= bb.R)
	vAssume(bb.B <= bb.T)
	a := Vector{vFloat("ax", -100, 100), vFloat("ay", -100, 100)}
	b := Vector{vFloat("bx", -100, 100), vFloat("by", -100, 100)}
	c02Check(bb, a, b)
}

// VH_C02_axis: axis-parallel and degenerate segments.
//
//verif:bounds coordinates in [-100,100], tolerance 1e-6
func VH_C02_axis() {
	bb := NewBB(vFloat("l", -100, 100), vFloat("b", -100, 100), vFloat("r", -100, 100), vFloat("t", -100, 100))
	vAssume(bb.L <= bb.R)
	vAssume(bb.B <= bb.T)
	a := Vector{vFloat("ax", -100, 100), vFloat("ay", -100, 100)}
	b := a
	switch vChoose("kind", 3) {
	case 0:
		b.X = vFloat("bx", -100, 100)
	case 1:
		b.Y = vFloat("by", -100, 100)
	}
	c02Check(bb, a, b)
}

func c02Check(bb BB, a, b Vector) {
	t := bb.SegmentQuery(a, b)
	vAssert(bb.IntersectsSegment(a, b) == (t != INFINITY), "IntersectsSegment agrees with SegmentQuery")
	s := vFloat("s", 0, 1)
	q := Vector{a.X + (b.X-a.X)*s, a.Y + (b.Y-a.Y)*s}
	in := vAnd(bb.L <= q.X, q.X <= bb.R, bb.B <= q.Y, q.Y <= bb.T)
	if t == INFINITY {
		vAssert(!in, "a miss means no point of the segment is in the box")
		vCover("miss")
		return
	}
	vAssert(vAnd(t >= 0, t <= 1), "hit fraction within [0,1]")
	p := Vector{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t}
	vAssert(p.X >= bb.L-1e-6, "hit point right of l")
	vAssert(p.X <= bb.R+1e-6, "hit point left of r")
	vAssert(p.Y >= bb.B-1e-6, "hit point above b")
	vAssert(p.Y <= bb.T+1e-6, "hit point below t")
	vCover("hit")
	if s < t {
		vAssert(vOr(!in, s >= t-1e-9), "no point before the reported fraction is in the box")
	}
}
