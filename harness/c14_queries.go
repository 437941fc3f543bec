package cp

// c14Pick is every one of n choices, or in the quick check one that depends on the history.
func c14Pick(name string, n, hist int) int {
	if vThorough() {
		return vChoose(name, n)
	}
	return hist % n
}

// VH_C14_bb: box queries after every history.
//
//verif:bounds 8 histories of adding, removing, moving, stepping, type changes and sleeping on 6 shapes; box of 3 sizes with any corner in [-8,8]^2; 2 filters (quick: y, size, distance, radius and filter vary with the history)
//verif:time 100
func VH_C14_bb() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, nil)
	w := []Vector{{0, 0}, {3, 1}, {1, 6}}[c14Pick("size", 3, h)]
	l := uVec("l", 8)
	uBBQuery(space, shapes, BB{l.X, l.Y, l.X + w.X, l.Y + w.Y}, uFilter(c14Pick("filter", 2, h/3)))
}

// VH_C14_point: nearest point queries after every history.
//
//verif:bounds 8 histories on 6 shapes; x in [-8,8], 2 y; 4 distances (negative, zero, finite, infinite); 2 filters (quick: y, size, distance, radius and filter vary with the history)
//verif:time 100
func VH_C14_point() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, nil)
	p := Vector{vFloat("x", -8, 8), []float64{0.75, -2.25}[c14Pick("y", 2, h)]}
	max := []float64{-0.25, 0, 1.5, INFINITY}[c14Pick("max", 4, h)]
	uPointQuery(space, shapes, p, max, uFilter(c14Pick("filter", 2, h/3)))
}

// VH_C14_segment: segment queries after every history.
//
//verif:bounds 8 histories on 6 shapes; start x in [-8,8], 2 y; 4 directions; radius {0,0.5}; 2 filters (quick: y, size, distance, radius and filter vary with the history)
//verif:time 200
func VH_C14_segment() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, nil)
	a := Vector{vFloat("x", -8, 8), []float64{5, -1.5}[c14Pick("y", 2, h)]}
	d := []Vector{{0, -9}, {9, -4}, {-7, 0}, {-6, 8}}[vChoose("dir", 4)]
	uSegmentQuery(space, shapes, a, uAdd(a, d), []float64{0, 0.5}[c14Pick("r", 2, h)], uFilter(c14Pick("filter", 2, h/3)))
}

// VH_C14_shape: shape queries after every history.
//
//verif:bounds 8 histories on 6 shapes; solid or sensor circle, segment and box at x in [-8,8], 2 y
//verif:time 200
func VH_C14_shape() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, nil)
	body := NewBody(1, 1)
	body.SetPosition(Vector{vFloat("x", -8, 8), []float64{0.8, -2.1}[c14Pick("y", 2, h)]})
	var q *Shape
	switch vChoose("kind", 3) {
	case 0:
		q = NewCircle(body, 1, Vector{})
	case 1:
		q = NewSegment(body, Vector{-2, 0.1}, Vector{3, 0.7}, 0.1)
	case 2:
		q = NewBox(body, 1, 2, 0)
	}
	q.SetSensor(c14Pick("sensor", 2, h/2) == 1)
	uShapeQuery(space, shapes, q)
}

// VH_C14_moved: a shape moved several times through the tree.
//
//verif:bounds 6 shapes, one of them inserted at 3 places, moved to any x1 and reindexed (dynamic or static); box of size 3x1 anywhere in x, 2 y (quick: 1 y for each x0)
//verif:time 100
func VH_C14_moved() {
	space, shapes := uScene(0, nil)
	body := NewBody(1, 1)
	k := vChoose("x0", 3)
	if vChoose("static", 2) == 1 {
		body = NewStaticBody()
	}
	space.AddBody(body)
	y := []float64{0, 2.5}[c14Pick("y", 2, k)]
	body.SetPosition(Vector{[]float64{-6, 0.5, 7}[k], y})
	s := space.AddShape(NewCircle(body, 0.5, Vector{}))
	body.SetPosition(Vector{vFloat("x1", -8, 8), y})
	space.ReindexShape(s)
	if c14Pick("removed", 2, k) == 1 {
		space.RemoveShape(shapes[1])
		shapes = append(shapes[:1:1], shapes[2:]...)
	}
	l := vFloat("l", -8, 8)
	uBBQuery(space, append(shapes[:len(shapes):len(shapes)], s), BB{l, y - 0.5, l + 3, y + 0.5}, SHAPE_FILTER_ALL)
}

// VH_C14_nested: queries made by the callbacks of queries and collisions.
//
//verif:bounds 8 histories on 6 shapes; outer: box, segment and shape queries at any x in [-8,4], or a step with one shape moved to any x, 1 y (thorough 2); inner: a box and a segment query in each callback
//verif:time 100
func VH_C14_nested() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, nil)
	y := -1.25
	if vThorough() {
		y = []float64{-1.25, 0.5}[vChoose("y", 2)]
	}
	uNested(space, shapes, vFloat("x", -8, 4), y, vChoose("outer", 4))
}

// VH_C14_own: shape queries with shapes of the space itself that were moved after the last step.
//
//verif:bounds 8 histories on 6 shapes; one of 4 of the shapes, moved to any x in [-8,8], 2 y
//verif:time 100
func VH_C14_own() {
	h := vChoose("history", uHistories)
	space, shapes := uScene(h, nil)
	k := vChoose("shape", 4)
	if h == 7 {
		k %= len(shapes)
	} else if k == 2 {
		k = len(shapes) - 1 // the segment is on the static body of the space
	}
	q := shapes[k]
	var others []*Shape
	for _, s := range shapes {
		if s != q {
			others = append(others, s)
		}
	}
	q.body.SetPosition(Vector{vFloat("x", -8, 8), []float64{0.5, -2.1}[c14Pick("y", 2, h+k)]})
	uShapeQuery(space, others, q)
}
